// Everything C++ does with one Rust type `T`, one operation at a time.
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <optional>
#include <tuple>
#include <utility>
#include <vector>

#include "api.h"
#include "nat.h"
#include "support/movable.h"

extern "C" void sim_out(int64_t v);
extern "C" void sim_guard();  // a C++ frame is left otherwise than by returning

namespace drv {
inline constexpr int64_t kNo = INT64_MIN;  // C++ does not offer this
constexpr uint32_t H(const char* s) {
  uint32_t h = 2166136261u;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 16777619u;
  return h;
}

// Stands for a type the generator does not offer.
struct None {
  None() = delete;
  None(const None&) = delete;
  None& operator=(const None&) = delete;
  ~None() = delete;
};
template <typename T>
struct Cfg {
  using O = rs_std::Option<T>;
  using R = rs_std::Result<T, vals::Cln>;
  using C = rs_std::Vec<T>;
  using P = std::tuple<T, vals::Cln>;
};
template <>
struct Cfg<vals::Nei> {
  using O = None;
  using R = rs_std::Result<vals::Nei, vals::Cln>;
  using C = rs_std::Vec<vals::Nei>;
  using P = None;
};
template <>
struct Cfg<vals::Enu> {
  using O = None;
  using R = None;
  using C = None;
  using P = None;
};
template <typename T>
  requires(vals::kNative<T>)
struct Cfg<T> {
  using O = rs_std::Option<T>;
  using R = rs_std::Result<T, vals::Cln>;
  using C = None;
  using P = std::tuple<T, vals::Cln>;
};
template <typename T>
struct HoldOf {
  using H = None;
};
template <>
struct HoldOf<vals::Def> { using H = vals::Hold; };
template <>
struct HoldOf<vals::Nic> { using H = vals::Hold; };
template <>
struct HoldOf<vals::Big> { using H = vals::Hold; };
template <>
struct HoldOf<vals::Own> { using H = vals::Hold; };
template <>
struct HoldOf<vals::Cln> { using H = vals::Hold2; };
template <>
struct HoldOf<vals::Mov> { using H = vals::Hold2; };

inline unsigned char dirt = 0;
inline uint64_t spoiled = 0;

// Storage without a value, between two fences.
template <typename X>
struct Cell {
  static constexpr bool kHas = !std::is_same_v<X, None>;
  alignas(64) unsigned char before[64];
  alignas(64) unsigned char mem[sizeof(X)];
  unsigned char after[64];
  Cell() { reset(); }
  void reset() {
    memset(before, 0xB4, sizeof before);
    memset(mem, dirt, sizeof mem);
    memset(after, 0xB4, sizeof after);
  }
  void check() {
    for (auto c : before) spoiled += c != 0xB4;
    for (auto c : after) spoiled += c != 0xB4;
  }
  void dead() { memset(mem, dirt, sizeof mem); }
  X* at() { return reinterpret_cast<X*>(mem); }
};

struct Guard {
  bool done = false;
  ~Guard() {
    if (!done) sim_guard();
  }
};

template <typename T>
struct World {
  using Cln = vals::Cln;
  using O = typename Cfg<T>::O;
  using R = typename Cfg<T>::R;
  using C = typename Cfg<T>::C;
  using P = typename Cfg<T>::P;
  using D = std::optional<T>;
  using M = rs::Movable<T>;
  using L = crubit::Slot<T>;
  using S = std::vector<T>;
  using Ho = typename HoldOf<T>::H;
  static constexpr bool kOpt = std::is_move_constructible_v<T>;
  static constexpr bool kSeq = std::is_move_constructible_v<T> && (std::is_move_assignable_v<T> || !vals::kNative<T>);
  static constexpr bool kCopy = std::is_copy_constructible_v<T>;
  static constexpr bool kDef = std::is_default_constructible_v<T>;

  Cell<T> v[4];
  Cell<O> o[2];
  Cell<R> r[2];
  Cell<D> d[2];
  Cell<M> m[2];
  Cell<C> c[2];
  Cell<Cln> e[2];
  Cell<P> p[2];
  Cell<L> l[2];
  Cell<S> s[2];
  Cell<Ho> h[1];

  void reset() {
    auto all = [](auto& a) {
      for (auto& x : a) x.reset();
    };
    all(v), all(o), all(r), all(d), all(m), all(c), all(e), all(p), all(l), all(s), all(h);
  }
  void check() {
    auto all = [](auto& a) {
      for (auto& x : a) x.check();
    };
    all(v), all(o), all(r), all(d), all(m), all(c), all(e), all(p), all(l), all(s), all(h);
  }

  // Cells; the last of a kind may lie within a struct of Rust's.
  T* V(int i) {
    if (i == 4) {
      if constexpr (std::is_same_v<T, vals::Def>) return &h[0].at()->d;
      if constexpr (std::is_same_v<T, vals::Nic>) return &h[0].at()->n;
      if constexpr (std::is_same_v<T, vals::Big>) return &h[0].at()->b;
      if constexpr (std::is_same_v<T, vals::Cln>) return &h[0].at()->c;
      return nullptr;
    }
    return v[i].at();
  }
  O* Op(int i) {
    if (i == 2) {
      if constexpr (std::is_same_v<T, vals::Def>) return &h[0].at()->od;
      if constexpr (std::is_same_v<T, vals::Nic>) return &h[0].at()->on;
      if constexpr (std::is_same_v<T, vals::Big>) return &h[0].at()->ob;
      if constexpr (std::is_same_v<T, vals::Own>) return &h[0].at()->oo;
      if constexpr (std::is_same_v<T, vals::Cln>) return &h[0].at()->oc;
      if constexpr (std::is_same_v<T, vals::Mov>) return &h[0].at()->om;
      return nullptr;
    }
    return o[i].at();
  }
  R* Re(int i) { return r[i].at(); }
  D* De(int i) { return d[i].at(); }
  M* Mo(int i) { return m[i].at(); }
  C* Ve(int i) {
    if (i == 2) {
      if constexpr (std::is_same_v<T, vals::Def>) return &h[0].at()->vd;
      return nullptr;
    }
    return c[i].at();
  }
  Cln* E(int i) { return e[i].at(); }
  P* Pa(int i) { return p[i].at(); }
  L* Sl(int i) { return l[i].at(); }
  S* Se(int i) { return s[i].at(); }
  Ho* Ho_(int i) { return h[0].at(); }

  int64_t kind(uint32_t what, int k, int a, int b, int live) {
    switch (k) {
      case 0: return any(what, k, a, b, V(a), V(b), live);
      case 1: if constexpr (Cell<O>::kHas) return any(what, k, a, b, Op(a), Op(b), live); else return kNo;
      case 2: if constexpr (Cell<R>::kHas) return any(what, k, a, b, Re(a), Re(b), live); else return kNo;
      case 3: if constexpr (kOpt) return any(what, k, a, b, De(a), De(b), live); else return kNo;
      case 4: return any(what, k, a, b, Mo(a), Mo(b), live);
      case 5: if constexpr (Cell<C>::kHas) return any(what, k, a, b, Ve(a), Ve(b), live); else return kNo;
      case 6: return any(what, k, a, b, E(a), E(b), live);
      case 7: if constexpr (Cell<P>::kHas) return any(what, k, a, b, Pa(a), Pa(b), live); else return kNo;
      case 9: if constexpr (kSeq) return any(what, k, a, b, Se(a), Se(b), live); else return kNo;
      case 10: if constexpr (Cell<Ho>::kHas) return any(what, k, a, b, Ho_(a), Ho_(b), live); else return kNo;
    }
    return kNo;
  }
  // What any kind of cell offers.
  template <typename X>
  int64_t any(uint32_t what, int k, int a, int b, X* to, X* from, int live);
  void dead(int k, int i) {
    switch (k) {
      case 0: if (i < 4) v[i].dead(); break;
      case 1: if (i < 2) o[i].dead(); break;
      case 2: r[i].dead(); break;
      case 3: d[i].dead(); break;
      case 4: m[i].dead(); break;
      case 5: if (i < 2) c[i].dead(); break;
      case 6: e[i].dead(); break;
      case 7: p[i].dead(); break;
      case 8: l[i].dead(); break;
      case 9: s[i].dead(); break;
      case 10: h[0].dead(); break;
    }
  }

  // `*dst` gets what `f` makes.
  template <typename X, typename F>
  static int64_t put(X* dst, int live, F&& f) {
    if (live) {
      if constexpr (requires { *dst = f(); }) {
        *dst = f();
        return 0;
      }
    } else {
      if constexpr (requires { X(f()); }) {
        new (dst) X(f());
        return 0;
      }
    }
    return kNo;
  }
#define PUT(dst, live, ...)                                                  \
  do {                                                                       \
    if constexpr (requires { __VA_ARGS__; })                                 \
      return put(dst, live, [&]() -> decltype(auto) { return (__VA_ARGS__); }); \
    return kNo;                                                              \
  } while (0)
#define OUT(...)                                        \
  do {                                                  \
    if constexpr (requires { __VA_ARGS__; }) {          \
      sim_out(__VA_ARGS__);                             \
      return 0;                                         \
    }                                                   \
    return kNo;                                         \
  } while (0)
#define RUN(...)                                        \
  do {                                                  \
    if constexpr (requires { __VA_ARGS__; }) {          \
      __VA_ARGS__;                                      \
      return 0;                                         \
    }                                                   \
    return kNo;                                         \
  } while (0)

  int64_t op(uint32_t what, int k, int a, int b, int x, int live, int64_t n);
};

template <typename X>
X through(X y) { return y; }

template <typename T>
template <typename X>
int64_t World<T>::any(uint32_t what, int k, int a, int b, X* to, X* from, int live) {
  using std::move;
  switch (what) {
    case H("default"): PUT(to, live, X());
    case H("copy"):
      if constexpr (std::is_same_v<X, S> && !kCopy) return kNo;
      else PUT(to, live, std::as_const(*from));
    case H("move"): PUT(to, live, move(*from));
    case H("drop"): std::destroy_at(to); dead(k, a); return 0;
    case H("swap"): RUN(std::swap(*to, *from));
    case H("memswap"):
      if (k == 3 || k == 9) return kNo;
      RUN(crubit::MemSwap(*to, *from));
    case H("relocate"):
      if constexpr (requires(X y) { X(crubit::UnsafeRelocateTag{}, move(y)); }) {
        new (to) X(crubit::UnsafeRelocateTag{}, move(*from));
        dead(k, b);
        return 0;
      }
      return kNo;
    // By value through a function of C++'s own.
    case H("through"):
      if constexpr (std::is_move_constructible_v<X>) PUT(to, live, through<X>(move(*from)));
      return kNo;
  }
  return kNo;
}

template <typename T>
int64_t World<T>::op(uint32_t what, int k, int a, int b, int x, int live, int64_t n) {
  using std::move;
  switch (what) {
    case H("default"): case H("copy"): case H("move"): case H("drop"): case H("swap"):
    case H("memswap"): case H("relocate"): case H("through"):
      return kind(what, k, a, b, live);
    case H("read"):
      switch (k) {
        case 0: sim_out(std::as_const(*V(a)).get()); return 0;
        case 1: if constexpr (Cell<O>::kHas) {
            auto& y = std::as_const(*Op(a));
            sim_out(y.has_value());
            if (y.has_value()) sim_out((*y).get());
            return 0;
          }
          return kNo;
        case 2: if constexpr (Cell<R>::kHas) {
            auto& y = std::as_const(*Re(a));
            sim_out(y.has_value());
            if (y.has_value() != static_cast<bool>(y)) sim_out(-77);
            sim_out(y.has_value() ? y.value().get() : y.error().get());
            return 0;
          }
          return kNo;
        case 3: if constexpr (kOpt) {
            auto& y = std::as_const(*De(a));
            sim_out(y.has_value());
            if (y.has_value()) sim_out((*y).get());
            return 0;
          }
          return kNo;
        case 4: {
          auto& y = std::as_const(*Mo(a));
          sim_out(static_cast<bool>(y));
          if (y.valueless_after_move() == static_cast<bool>(y)) sim_out(-77);
          if (y) sim_out((*y).get());
          return 0;
        }
        case 5: if constexpr (Cell<C>::kHas) {
            auto& y = std::as_const(*Ve(a));
            sim_out(y.size());
            for (auto& z : y) sim_out(z.get());
            return 0;
          }
          return kNo;
        case 6: sim_out(std::as_const(*E(a)).get()); return 0;
        case 7: if constexpr (Cell<P>::kHas) {
            auto& y = std::as_const(*Pa(a));
            sim_out(std::get<0>(y).get());
            sim_out(std::get<1>(y).get());
            return 0;
          }
          return kNo;
        case 8: sim_out(Sl(a)->Get()->get()); return 0;
        case 9: if constexpr (kSeq) {
            sim_out(Se(a)->size());
            for (auto& z : *Se(a)) sim_out(z.get());
            return 0;
          }
          return kNo;
      }
      return kNo;

    // Values.
    case H("make"): PUT(V(a), live, T::make(n));
    case H("emake"): PUT(E(a), live, Cln::make(n));
    case H("set"): V(a)->set(n); return 0;
    case H("eset"): E(a)->set(n); return 0;
    case H("change"): RUN(V(a)->change(*V(b)));
    case H("copy_in"): RUN(V(a)->copy_in(*V(b)));
    case H("pick"): OUT(V(a)->pick(V(b), x != 0).get());
    case H("pick_mut"): RUN(V(a)->pick_mut().set(n));
    case H("give"): PUT(V(a), live, T::give());
    case H("kept"): OUT(T::kept());
    case H("lose"): RUN(T::lose());
    case H("take"): OUT(move(*V(a)).take());
    case H("takec"): OUT(T(*V(a)).take());
    case H("pass"): PUT(V(a), live, move(*V(b)).pass());
    case H("keep"): RUN(move(*V(a)).keep());
    case H("keepc"): RUN(T(*V(a)).keep());
    case H("both"): PUT(V(x & 7), live, move(*V(a)).both(move(*V(b)), (x & 8) != 0));
    case H("bothc"): PUT(V(x & 7), live, move(*V(a)).both(*V(b), (x & 8) != 0));

    // Option<T>, std::optional<T>.
    case H("o_null"):
      if (x == 0) PUT(Op(a), live, std::nullopt);
      PUT(De(a), live, std::nullopt);
    case H("o_from"):  // from a value
      switch (x) {
        case 0: PUT(Op(a), live, move(*V(b)));
        case 1: PUT(Op(a), live, std::as_const(*V(b)));
        case 2: PUT(Op(a), live, *V(b));
        case 3: if constexpr (kSeq) PUT(Op(a), live, O(std::in_place, move(*V(b)))); return kNo;
        case 4: if constexpr (kCopy) PUT(Op(a), live, O(std::in_place, std::as_const(*V(b)))); return kNo;
        case 5: PUT(De(a), live, move(*V(b)));
        case 6: PUT(De(a), live, std::as_const(*V(b)));
        case 7: if constexpr (requires { De(a)->emplace(move(*V(b))); }) {
            if (!live) return kNo;
            De(a)->emplace(move(*V(b)));
            return 0;
          }
          return kNo;
      }
      return kNo;
    case H("o_make"):  // from a temporary, or in place
      switch (x) {
        case 0: PUT(Op(a), live, T::make(n));
        case 1: PUT(Op(a), live, O(T::make(n)));
        case 2: if constexpr (kSeq && kDef) PUT(Op(a), live, O(std::in_place)); return kNo;
        case 3: PUT(De(a), live, T::make(n));
        case 4: PUT(De(a), live, T::maybe(n));
        case 5: PUT(Op(a), live, T::maybe(n));
      }
      return kNo;
    case H("o_std"): PUT(Op(a), live, move(*De(b)));
    case H("o_to"):
      if constexpr (Cell<O>::kHas) PUT(De(a), live, static_cast<std::optional<T>>(move(*Op(b))));
      return kNo;
    case H("o_out"):  // out of it, into a value
      switch (x) {
        case 0: PUT(V(a), live, *move(*Op(b)));
        case 1: PUT(V(a), live, *std::as_const(*Op(b)));
        case 2: PUT(V(a), live, *move(*De(b)));
        case 3: PUT(V(a), live, *std::as_const(*De(b)));
      }
      return kNo;
    case H("o_set"):
      switch (x) {
        case 0: RUN((**Op(a)).set(n));
        case 1: RUN((*Op(a))->set(n));
        case 2: RUN((**De(a)).set(n));
      }
      return kNo;
    case H("o_put"): RUN(T::put(*Op(a), n));
    case H("o_unput"): OUT(T::unput(*Op(a)));
    case H("o_peek"): OUT(T::peek(*Op(a)));
    case H("o_un"): OUT(T::un(move(*De(a))));
    case H("o_unc"): OUT(T::un(*De(a)));
    case H("o_unv"): OUT(T::un(move(*V(a))));
    case H("o_pass"): PUT(De(a), live, T::opt_pass(move(*De(b))));
    case H("o_nested"):
      if constexpr (requires { T::nested(n); }) {
        auto y = T::nested(n);
        if (y.has_value() && y->has_value()) PUT(De(a), live, *move(y));
        PUT(De(a), live, std::nullopt);
      }
      return kNo;
    case H("o_reset"): RUN(De(a)->reset());

    // Result<T, Cln>.
    case H("r_make"): PUT(Re(a), live, T::result(n));
    case H("r_ok"):
      switch (x) {
        case 0: PUT(Re(a), live, move(*V(b)));
        case 1: PUT(Re(a), live, std::as_const(*V(b)));
        case 2: if constexpr (kSeq) PUT(Re(a), live, R(std::in_place, move(*V(b)))); return kNo;
        case 3: if constexpr (kCopy) PUT(Re(a), live, R(std::in_place, std::as_const(*V(b)))); return kNo;
        case 4: PUT(Re(a), live, R(move(*V(b))));
        case 5: PUT(Re(a), live, T::make(n));
      }
      return kNo;
    case H("r_err"):
      switch (x) {
        case 0: PUT(Re(a), live, rs_std::unexpected<Cln>(move(*E(b))));
        case 1: PUT(Re(a), live, rs_std::unexpected<Cln>(std::as_const(*E(b))));
        case 2: PUT(Re(a), live, R(rs_std::unexpect, move(*E(b))));
        case 3: PUT(Re(a), live, R(rs_std::unexpect, std::as_const(*E(b))));
        case 4: PUT(Re(a), live, R(rs_std::unexpected<Cln>(std::in_place, move(*E(b)))));
        case 5: PUT(Re(a), live, rs_std::unexpected<Cln>(Cln::make(n)));
      }
      return kNo;
    case H("r_set"):
      if constexpr (Cell<R>::kHas) {
        R& y = *Re(a);
        switch (x) {
          case 0: if (y) y.value().set(n); else y.error().set(n); return 0;
          case 1: if (y.has_value()) (*y).set(n); else y.err().set(n); return 0;
          case 2: if (y) y->set(n); else y.error().set(n); return 0;
        }
      }
      return kNo;
    case H("r_out"):
      switch (x) {
        case 0: PUT(V(a), live, move(*Re(b)).value());
        case 1: PUT(V(a), live, std::as_const(*Re(b)).value());
        case 2: PUT(V(a), live, *move(*Re(b)));
      }
      return kNo;
    case H("r_eout"):
      switch (x) {
        case 0: PUT(E(a), live, move(*Re(b)).error());
        case 1: PUT(E(a), live, std::as_const(*Re(b)).err());
        case 2: PUT(E(a), live, move(*Re(b)).err());
      }
      return kNo;
    case H("r_put"): RUN(T::res_put(*Re(a), n));
    case H("r_peek"): OUT(T::res_peek(*Re(a)));
    case H("r_un"): OUT(T::unres(move(*Re(a))));
    case H("r_unc"): OUT(T::unres(*Re(a)));

    // rs::Movable<T>, Slot<T>.
    case H("m_from"):
      switch (x) {
        case 0: PUT(Mo(a), live, M(move(*V(b))));
        case 1: if constexpr (kSeq) PUT(Mo(a), live, M(std::in_place, move(*V(b)))); return kNo;
        case 2: if constexpr (kCopy) PUT(Mo(a), live, M(std::in_place, std::as_const(*V(b)))); return kNo;
        case 3: PUT(Mo(a), live, M(T::make(n)));
      }
      return kNo;
    case H("m_slot"): {
      int64_t y = put(Mo(a), live, [&] { return M::TakeFromSlot(move(*Sl(b))); });
      if (y != kNo) dead(8, b);
      return y;
    }
    case H("m_set"):
      if (x == 0) (**Mo(a)).set(n); else (*Mo(a))->set(n);
      return 0;
    case H("m_out"):
      switch (x) {
        case 0: PUT(V(a), live, *move(*Mo(b)));
        case 1: PUT(V(a), live, *std::as_const(*Mo(b)));
      }
      return kNo;
    case H("l_fill"): {
      new (Sl(a)) L();
      new (Sl(a)->Get()) T(T::make(n));
      return 0;
    }
    case H("l_from"): if constexpr (kSeq) RUN(new (Sl(a)) L(move(*V(b)))); return kNo;
    case H("l_move"): if constexpr (kSeq) RUN(new (Sl(a)) L(move(*Sl(b)))); return kNo;
    case H("l_take"):
      if constexpr (requires { move(*Sl(b)).AssumeInitAndTakeValue(); }) {
        int64_t y = put(V(a), live, [&]() -> T { return move(*Sl(b)).AssumeInitAndTakeValue(); });
        if (y != kNo) dead(8, b);
        return y;
      }
      return kNo;
    case H("l_drop"):
      std::destroy_at(Sl(a)->Get());
      dead(8, a);
      return 0;

    // Vec<T>, std::vector<T>.
    case H("c_make"): PUT(Ve(a), live, T::many(n));
    case H("c_add"): RUN(T::add(*Ve(a), n));
    case H("c_sub"): OUT(T::sub(*Ve(a)));
    case H("c_drain"): OUT(T::drain(move(*Ve(a))));
    case H("c_drainc"): OUT(T::drain(*Ve(a)));
    case H("c_set"): RUN((*Ve(a))[x].set(n));
    case H("c_swap"): RUN(std::swap((*Ve(a))[b], (*Ve(a))[x]));
    case H("c_out"): PUT(V(a), live, move((*Ve(b))[x]));
    case H("c_copy"): PUT(V(a), live, std::as_const(*Ve(b))[x]);
    case H("c_in"): RUN((*Ve(a))[x] = move(*V(b)));
    case H("s_push"): if constexpr (kSeq) RUN(Se(a)->push_back(move(*V(b)))); return kNo;
    case H("s_pushc"): if constexpr (kCopy) RUN(Se(a)->push_back(*V(b))); return kNo;
    case H("s_emplace"): if constexpr (kSeq) RUN(Se(a)->emplace_back(T::make(n))); return kNo;
    case H("s_insert"): if constexpr (kSeq) RUN(Se(a)->insert(Se(a)->begin() + x, T::make(n))); return kNo;
    case H("s_erase"): if constexpr (kSeq) RUN(Se(a)->erase(Se(a)->begin() + x)); return kNo;
    case H("s_pop"): if constexpr (kSeq) { Se(a)->pop_back(); return 0; } return kNo;
    case H("s_clear"): if constexpr (kSeq) { Se(a)->clear(); return 0; } return kNo;
    case H("s_reverse"): if constexpr (kSeq) RUN(std::reverse(Se(a)->begin(), Se(a)->end())); return kNo;
    case H("s_rotate"): if constexpr (kSeq) RUN(std::rotate(Se(a)->begin(), Se(a)->begin() + x, Se(a)->end())); return kNo;
    case H("s_sort"): if constexpr (kSeq) RUN(std::sort(Se(a)->begin(), Se(a)->end(), [](const T& y, const T& z) { return y.get() < z.get(); })); return kNo;
    case H("s_fit"): if constexpr (kSeq) RUN(Se(a)->shrink_to_fit()); return kNo;
    case H("s_out"): if constexpr (kSeq) PUT(V(a), live, move((*Se(b))[x])); return kNo;

    // Arrays.
    case H("a_make"): {
      if constexpr (!requires { T::arr(n); }) return kNo;
      else {
        auto y = T::arr(n);
        sim_out(y[0].get() * 1000 + y[1].get());
        return 0;
      }
    }
    case H("a_sum"): if constexpr (kSeq && requires { &T::arr_sum; }) OUT(T::arr_sum({move(*V(a)), move(*V(b))})); return kNo;
    case H("a_sumc"):
      if constexpr (kCopy && requires { &T::arr_sum; }) {
        const std::array<T, 2> y{*V(a), *V(b)};
        OUT(T::arr_sum(y));
      }
      return kNo;
    case H("a_keep"):
      if constexpr (kSeq && requires { &T::arr_keep; }) {
        std::array<T, 2> y{move(*V(a)), move(*V(b))};
        T::arr_keep(move(y));
        return 0;
      }
      return kNo;
    case H("a_swap"):
      if constexpr (kSeq && requires { &T::arr_id; }) {
        std::array<T, 2> y{move(*V(a)), move(*V(b))};
        auto z = T::arr_id(move(y));
        *V(a) = move(z[1]);
        *V(b) = move(z[0]);
        return 0;
      }
      return kNo;
    case H("a_nest"):
      if constexpr (kSeq && kDef && requires { &T::arr_nest; }) {
        std::array<T, 2> y{move(*V(a)), move(*V(b))}, z{T(), T()};
        std::array<std::array<T, 2>, 2> u{move(y), move(z)};
        auto w = T::arr_nest(move(u));
        *V(a) = move(w[1][0]);
        *V(b) = move(w[1][1]);
        return 0;
      }
      return kNo;
    case H("a_slot"):
      if constexpr (kSeq) {
        using A = std::array<T, 2>;
        crubit::Slot<A> y(A{move(*V(a)), move(*V(b))});
        crubit::Slot<A> z(move(y));
        std::destroy_at(y.Get());
        A w = move(z).AssumeInitAndTakeValue();
        *V(a) = move(w[1]);
        *V(b) = move(w[0]);
        return 0;
      }
      return kNo;
    case H("a_stuck"):
      if constexpr (!kSeq && requires { &T::arr_sum; }) OUT(T::arr_sum({T::make(n), T::make(n + 1)}));
      return kNo;

    // Tuples.
    case H("p_make"): PUT(Pa(a), live, T::pair(n));
    case H("p_from"):
      if constexpr (requires { P(move(*V(b)), move(*E(x))); }) PUT(Pa(a), live, P(move(*V(b)), move(*E(x))));
      return kNo;
    case H("p_un"): OUT(T::unpair(move(*Pa(a))));
    case H("p_unc"): OUT(T::unpair(*Pa(a)));
    case H("p_unv"): OUT(T::unpair({move(*V(a)), move(*E(b))}));

    // A struct of Rust's that holds some.
    case H("h_make"):
      if constexpr (std::is_same_v<Ho, vals::Hold2>) { new (Ho_(0)) vals::Hold2(vals::Hold2::make(n)); return 0; }
      if constexpr (std::is_same_v<Ho, vals::Hold>) { new (Ho_(0)) vals::Hold(); return 0; }
      return kNo;
    case H("h_out"):  // moved away, and dropped there
      RUN(([](Ho y) {})(move(*Ho_(0))));
    case H("h_round"):  // there and back
      if constexpr (std::is_same_v<Ho, vals::Hold>) {
        vals::Hold y;
        std::swap(*Ho_(0), y);
        vals::Hold z(move(y));
        *Ho_(0) = move(z);
        return 0;
      }
      return kNo;
    case H("h_slot"):
      if constexpr (Cell<Ho>::kHas) {
        crubit::Slot<Ho> y;
        memcpy(y.Get(), h[0].mem, sizeof(Ho));
        dead(10, 0);
        new (Ho_(0)) Ho(move(y).AssumeInitAndTakeValue());
        return 0;
      }
      return kNo;
  }
  return kNo;
}
}  // namespace drv
