// The C++ side of C04: slots of DynCallable and AnyInvocable, driven one operation at a time.
#include "sim.h"
#include "support/rs_std/dyn_callable.h"

namespace aii = absl::internal_any_invocable;
using rs_std::DynCallable;
using rs_std::internal_dyn_callable::DynCallableAbi;

extern "C" {
// The thunks the generator writes, for each kind of callable.
u64 invoke_0(aii::TypeErasedState* s, u64 a, u64 b);
u64 invoke_1(aii::TypeErasedState* s, u64 a, u64 b);
u64 invoke_2(aii::TypeErasedState* s, u64 a, u64 b);
void manage_0(aii::FunctionToCall, aii::TypeErasedState*, aii::TypeErasedState*) noexcept;
void manage_1(aii::FunctionToCall, aii::TypeErasedState*, aii::TypeErasedState*) noexcept;
void manage_2(aii::FunctionToCall, aii::TypeErasedState*, aii::TypeErasedState*) noexcept;
}
using Sig0 = u64(u64, u64) const;
using Sig1 = u64(u64, u64);
using Sig2 = u64(u64, u64) &&;

template <class Sig>
DynCallableAbi<Sig> MakeAbi();
#define ABI(n)                                                                                         \
  template <>                                                                                          \
  DynCallableAbi<Sig##n> MakeAbi<Sig##n>() {                                                           \
    return DynCallableAbi<Sig##n>(manage_##n,                                                          \
                                  [](aii::TypeErasedState* s, aii::ForwardedParameterType<u64> a,      \
                                     aii::ForwardedParameterType<u64> b) noexcept -> u64 {             \
                                    return invoke_##n(s, a, b);                                        \
                                  });                                                                  \
  }
ABI(0)
ABI(1)
ABI(2)

constexpr int kSlots = 4;
template <class Sig>
struct World {
  using D = DynCallable<Sig>;
  using A = absl::AnyInvocable<Sig>;
  using Abi = DynCallableAbi<Sig>;
  using Tup = crubit::TupleAbi<Abi, crubit::TransmuteAbi<u64>>;
  using Opt = crubit::OptionAbi<Abi>;
  std::optional<D> d[kSlots];
  std::optional<A> a[kSlots];
  static World& get() {
    static World w;
    return w;
  }

  static void reset() {
    for (auto& x : get().d) x.reset();
    for (auto& x : get().a) x.reset();
    for (auto& x : get().d) x.emplace();
    for (auto& x : get().a) x.emplace();
  }
  template <class F>
  static u64 call(F& f, u64 x, u64 y) {
    if constexpr (std::is_same_v<Sig, Sig2>) return std::move(f)(x, y);
    else if constexpr (std::is_same_v<Sig, Sig0>) return std::as_const(f)(x, y);
    else return f(x, y);
  }
  // What an operation returns is its only result; the Rust side knows what to expect.
  static u64 op(int what, u64 i, u64 j, u64 x, u64 y, u8* buf) {
    World& w = get();
    D& di = *w.d[i];
    switch (what) {
      case 0: {  // decode into i
        D n = crubit::internal::Decode(MakeAbi<Sig>(), buf);
        di = std::move(n);
        return static_cast<bool>(n);
      }
      case 1:  // encode out of i
        crubit::internal::Encode(MakeAbi<Sig>(), buf, std::move(di));
        return 0;
      case 2: return call(di, x, y);
      case 3:
        di = std::move(*w.d[j]);
        return 0;
      case 4: {
        w.d[i].reset();
        w.d[i].emplace(std::move(*w.d[j]));
        return 0;
      }
      case 5:
        if (x & 1) di.swap(*w.d[j]);
        else {
          using std::swap;
          swap(di, *w.d[j]);
        }
        return 0;
      case 6:
        if (x & 1) di = nullptr;
        else di = D();
        return 0;
      case 7:
        w.d[i].reset();
        w.d[i].emplace();
        return 0;
      case 8: {  // all ways to ask whether it is empty have to agree
        bool b = static_cast<bool>(di);
        if ((di != nullptr) != b || (nullptr != di) != b || (di == nullptr) == b || (nullptr == di) == b)
          sim_fail("emptiness-disagrees", "bool and comparisons with nullptr disagree");
        return b;
      }
      case 9:
        *w.a[j] = std::move(di);
        return 0;
      case 10: return call(*w.a[i], x, y);
      case 11:
        if (x & 1) *w.a[i] = nullptr;
        else *w.a[i] = std::move(*w.a[j]);
        return 0;
      case 12: return static_cast<bool>(*w.a[i]);
      case 13: {  // an AnyInvocable goes to Rust
        bool has = static_cast<bool>(*w.a[i]);
        aii::TypeErasedState s;
        bool rust = w.a[i]->SimTakeRust(&s);
        crubit::Encoder e(1 + sizeof(aii::TypeErasedState), buf);
        crubit::TransmuteAbi<bool>().Encode(has, e);
        if (has) crubit::TransmuteAbi<aii::TypeErasedState>().Encode(s, e);
        return rust;
      }
      case 14: {  // in a tuple, from Rust
        auto [n, v] = crubit::internal::Decode(Tup{{MakeAbi<Sig>(), crubit::TransmuteAbi<u64>()}}, buf);
        di = std::move(n);
        return v;
      }
      case 15: {  // in an option, from Rust
        auto n = crubit::internal::Decode(Opt{MakeAbi<Sig>()}, buf);
        bool has = n.has_value();
        if (has) di = *std::move(n);
        return has;
      }
      case 16:
        crubit::internal::Encode(Tup{{MakeAbi<Sig>(), crubit::TransmuteAbi<u64>()}}, buf, std::tuple<D, u64>(std::move(di), x));
        return 0;
      case 17:
        if (x & 1) crubit::internal::Encode(Opt{MakeAbi<Sig>()}, buf, std::optional<D>(std::move(di)));
        else crubit::internal::Encode(Opt{MakeAbi<Sig>()}, buf, std::optional<D>());
        return 0;
      case 18: {  // as a parameter by value, called within, dropped at the end
        auto by_value = [&](D p) { return (x & 1) ? call(p, x, y) : 0; };
        return by_value(std::move(di));
      }
      case 19: {  // into a vector-like buffer that grows: moved around
        alignas(D) unsigned char raw[3 * sizeof(D)];
        D* p = reinterpret_cast<D*>(raw);
        new (&p[0]) D(std::move(di));
        new (&p[1]) D(std::move(p[0]));
        new (&p[2]) D(std::move(p[1]));
        di = std::move(p[2]);
        for (int k = 0; k < 3; k++) p[k].~D();
        return 0;
      }
    }
    return 0;
  }
};
extern "C" {
u64 callable_op(int kind, int what, u64 i, u64 j, u64 x, u64 y, u8* buf) {
  switch (kind) {
    case 0: return World<Sig0>::op(what, i, j, x, y, buf);
    case 1: return World<Sig1>::op(what, i, j, x, y, buf);
    default: return World<Sig2>::op(what, i, j, x, y, buf);
  }
}
void callable_reset() {
  World<Sig0>::reset();
  World<Sig1>::reset();
  World<Sig2>::reset();
}
size_t callable_size() { return DynCallableAbi<Sig0>::kSize; }
}
