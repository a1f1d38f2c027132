// The C++ side of C05: for each shape, values made, encoded, decoded, moved and dropped with the real
// support/bridge.h.
#include "sim.h"
#include "simstring.h"
#include "support/bridge.h"

using namespace crubit;
using Str = sim_std::string;

struct alignas(16) Big {
  u8 a;
  u64 b;
  uint16_t c;
};
static_assert(sizeof(Big) == 32);

// Move-only; a move leaves nothing behind.
struct Own {
  u64 h;
  explicit Own(u64 h) : h(h) {}
  Own(Own&& o) : h(o.h) { o.h = 0; }
  Own(const Own&) = delete;
  ~Own() {
    if (h) reg_unref(h);
  }
};
// Only copyable: what looks like a move shares the resource.
struct Cpy {
  u64 h;
  explicit Cpy(u64 h) : h(h) {}
  Cpy(const Cpy& o) : h(o.h) { reg_ref(h); }
  ~Cpy() { reg_unref(h); }
};
// A move leaves a fresh object behind, which owns something too.
struct Dft {
  u64 h;
  explicit Dft(u64 h) : h(h) {}
  Dft(Dft&& o) : h(o.h) { o.h = reg_new(0); }
  Dft(const Dft&) = delete;
  ~Dft() { reg_unref(h); }
};

template <class T>
struct G;
template <class T>
  requires std::is_integral_v<T>
struct G<T> {
  static T gen(Stream& s) { return static_cast<T>(s.next()); }
  static void dig(const T& v, Digest& d) { d.add(static_cast<u64>(static_cast<int64_t>(v))); }
};
template <>
struct G<bool> {
  static bool gen(Stream& s) { return s.next() & 1; }
  static void dig(const bool& v, Digest& d) { d.add(*reinterpret_cast<const u8*>(&v)); }
};
template <>
struct G<double> {
  static double gen(Stream& s) {
    u64 n = s.next();
    double x;
    memcpy(&x, &n, 8);
    return x;
  }
  static void dig(const double& v, Digest& d) {
    u64 n;
    memcpy(&n, &v, 8);
    d.add(n);
  }
};
template <>
struct G<Big> {
  static Big gen(Stream& s) {
    u8 a = s.next();
    u64 b = s.next();
    return Big{a, b, static_cast<uint16_t>(s.next())};
  }
  static void dig(const Big& v, Digest& d) {
    if (reinterpret_cast<uintptr_t>(&v) % alignof(Big)) sim_fail("misaligned", "a value is misaligned");
    d.add(v.a);
    d.add(v.b);
    d.add(v.c);
  }
};
template <class T>
  requires(std::is_same_v<T, Own> || std::is_same_v<T, Cpy> || std::is_same_v<T, Dft>)
struct G<T> {
  static T gen(Stream& s) { return T(reg_new(s.next() >> 1)); }
  static void dig(const T& v, Digest& d) { d.add(reg_val(v.h)); }
};
template <>
struct G<Str> {
  static Str gen(Stream& s) {
    size_t n = s.next() % 20;
    char b[24];
    for (size_t i = 0; i < n; i++) b[i] = static_cast<char>(s.next());
    return Str(b, n);
  }
  static void dig(const Str& v, Digest& d) {
    d.add(v.size());
    for (size_t i = 0; i < v.size(); i++) d.add(static_cast<u8>(v.data()[i]));
  }
};
template <class A, class B>
struct G<std::pair<A, B>> {
  static std::pair<A, B> gen(Stream& s) { return std::pair<A, B>{G<A>::gen(s), G<B>::gen(s)}; }
  static void dig(const std::pair<A, B>& v, Digest& d) {
    G<A>::dig(v.first, d);
    G<B>::dig(v.second, d);
  }
};
template <class... Ts>
struct G<std::tuple<Ts...>> {
  static std::tuple<Ts...> gen(Stream& s) { return std::tuple<Ts...>{G<Ts>::gen(s)...}; }
  static void dig(const std::tuple<Ts...>& v, Digest& d) {
    std::apply([&](const auto&... e) { (G<std::remove_cvref_t<decltype(e)>>::dig(e, d), ...); }, v);
  }
};
template <class T>
struct G<std::optional<T>> {
  static std::optional<T> gen(Stream& s) {
    if (s.next() & 1) return std::optional<T>(G<T>::gen(s));
    return std::nullopt;
  }
  static void dig(const std::optional<T>& v, Digest& d) {
    d.add(v.has_value());
    if (v) G<T>::dig(*v, d);
  }
};

template <class Abi>
struct Mk {
  static Abi mk() { return Abi{}; }
};
template <class A, class B>
struct Mk<PairAbi<A, B>> {
  static PairAbi<A, B> mk() { return PairAbi<A, B>(Mk<A>::mk(), Mk<B>::mk()); }
};
template <class... A>
struct Mk<TupleAbi<A...>> {
  static TupleAbi<A...> mk() { return TupleAbi<A...>{std::tuple<A...>{Mk<A>::mk()...}}; }
};
template <class A>
struct Mk<OptionAbi<A>> {
  static OptionAbi<A> mk() { return OptionAbi<A>{Mk<A>::mk()}; }
};

using Relay = void (*)(void* ctx, const u8* in, u8* out);
struct CcOps {
  size_t size;
  void* (*make)(u64 seed);
  void* (*take)(const u8* buf);
  void (*give)(void* v, u8* buf);
  void (*drop)(void* v);
  void* (*move)(void* v);
  u64 (*digest)(const void* v);
  void (*bounce)(const u8* in, u8* out, int n, Relay relay, void* ctx);
};

template <class Abi>
struct Ops {
  using V = typename Abi::Value;
  static void* make(u64 seed) {
    Stream s{seed};
    return new V(G<V>::gen(s));
  }
  static void* take(const u8* buf) { return new V(internal::Decode(Mk<Abi>::mk(), buf)); }
  static void give(void* v, u8* buf) {
    V* p = static_cast<V*>(v);
    internal::Encode(Mk<Abi>::mk(), buf, std::move(*p));
    delete p;
  }
  static void drop(void* v) { delete static_cast<V*>(v); }
  static void* move(void* v) {
    V* p = static_cast<V*>(v);
    V* n = new V(std::move(*p));
    delete p;
    return n;
  }
  static u64 digest(const void* v) {
    Digest d;
    G<V>::dig(*static_cast<const V*>(v), d);
    return d.h;
  }
  static V go(V v, int n, Relay relay, void* ctx) {
    if (n == 0) return v;
    constexpr size_t kGuard = 24;
    u8 a[Abi::kSize + 2 * kGuard], b[Abi::kSize + 2 * kGuard];
    memset(a, 0x5c, sizeof a);
    memset(b, 0xc5, sizeof b);
    internal::Encode(Mk<Abi>::mk(), a + kGuard, std::move(v));
    relay(ctx, a + kGuard, b + kGuard);
    for (size_t i = 0; i < kGuard; i++)
      if (a[i] != 0x5c || a[sizeof a - 1 - i] != 0x5c || b[i] != 0xc5 || b[sizeof b - 1 - i] != 0xc5)
        sim_fail("wrote-outside", "bytes next to the buffer changed");
    return go(internal::Decode(Mk<Abi>::mk(), b + kGuard), n - 1, relay, ctx);
  }
  static void bounce(const u8* in, u8* out, int n, Relay relay, void* ctx) {
    internal::Encode(Mk<Abi>::mk(), out, go(internal::Decode(Mk<Abi>::mk(), in), n, relay, ctx));
  }
  static constexpr CcOps ops{Abi::kSize, make, take, give, drop, move, digest, bounce};
};

template <class T>
using T_ = TransmuteAbi<T>;
template <class... A>
using Tu = TupleAbi<A...>;
template <class A, class B>
using Pr = PairAbi<A, B>;
template <class A>
using Op = OptionAbi<A>;
using Bs = BoxedAbi<Str>;
using i32 = int32_t;
using i64 = int64_t;

static const CcOps* const kOps[] = {
#define SHAPE(id, ...) &Ops<__VA_ARGS__>::ops,
#include "shapes.inc"
};
extern "C" {
size_t bridge_count() { return sizeof kOps / sizeof *kOps; }
const CcOps* bridge_ops(size_t i) { return kOps[i]; }
}

// What C++ itself allocates: every `new` and `delete` of this program.
static long g_live;
extern "C" long bridge_live() { return g_live; }
void* operator new(size_t n) {
  g_live++;
  return malloc(n ? n : 1);
}
void* operator new(size_t n, std::align_val_t a) {
  g_live++;
  return aligned_alloc(static_cast<size_t>(a), (n + static_cast<size_t>(a) - 1) / static_cast<size_t>(a) * static_cast<size_t>(a));
}
void operator delete(void* p) noexcept {
  if (p) g_live--;
  free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
