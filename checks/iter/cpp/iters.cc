// C++ code that goes through Rust iterators and collections, one operation at a time.
#include <algorithm>
#include <cstdint>
#include <iterator>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
#include <utility>
#include <vector>

#include "api.h"

extern "C" void sim_out(int64_t v);

namespace {
using namespace iters;
struct Stop {};

int64_t val(const Cln& c) { return c.get(); }
int64_t val(const Mov& c) { return c.get(); }
int64_t val(int64_t v) { return v; }
int64_t val(const Cln* c) { return c->get(); }
int64_t val(const Mov* c) { return c->get(); }

template <class It>
struct Kind {
  using A = rs::IteratorAdapter<It>;
  static_assert(std::input_iterator<A>);
  static_assert(std::sentinel_for<rs::IteratorEnd, A>);
  static constexpr bool kCopies = std::copyable<A>;
  std::optional<A> a[3];
  std::vector<typename A::value_type> kept;

  void op(int what, int i, int j, int64_t n) {
    auto& x = a[i];
    switch (what) {
      case 1: sim_out(val(**x)); break;
      case 2: { auto& y = ++*x; sim_out(&y == &*x); } break;
      case 3: (*x)++; break;
      case 4: kept.push_back(std::ranges::iter_move(*x)); sim_out(val(kept.back())); break;
      case 5: sim_out((*x == rs::IteratorEnd()) * 2 + (rs::IteratorEnd() != *x)); break;
      case 6: if constexpr (kCopies) { if (a[j]) { auto c = *x; a[j] = c; } else a[j].emplace(*x); } break;
      case 7: if (a[j]) a[j] = std::move(x); else a[j].emplace(*std::move(x)); break;
      case 8: x.reset(); break;
      case 9: for (; *x != rs::IteratorEnd() && n > 0; ++*x, --n) sim_out(val(**x)); break;
      // As algorithms do; what is left of the adapter is unspecified.
      case 10: std::ranges::for_each(*std::move(x), rs::IteratorEnd(), [&](auto&& v) { sim_out(val(v)); }); break;
      case 11: {
        auto in = std::ranges::transform_view(std::ranges::subrange(*std::move(x), rs::IteratorEnd()), [](auto&& v) { return val(v) * 2; });
        for (int64_t v : in) {
          if (n-- <= 0) break;
          sim_out(v);
        }
        break;
      }
      // The consumer fails.
      case 12:
        try {
          std::ranges::for_each(*std::move(x), rs::IteratorEnd(), [&](auto&& v) {
            if (n-- <= 0) throw Stop();
            sim_out(val(v));
          });
        } catch (Stop) {
          sim_out(-1);
        }
        break;
      case 13: std::swap(*x, *a[j]); break;
      case 14: {
        A y = *std::move(x);
        std::vector<typename A::value_type> all;
        for (; y != rs::IteratorEnd(); ++y) all.push_back(std::ranges::iter_move(y));
        for (auto& v : all) sim_out(val(v));
        break;
      }
      case 15: if constexpr (kCopies) { const A& z = *x; *x = z; } break;
      case 16: kept.clear(); break;
      // A position, by value, through a function.
      case 17: *x = [](A y) { if (y != rs::IteratorEnd()) ++y; return y; }(*std::move(x)); break;
      case 18:
        if constexpr (kCopies) {
          auto b = std::common_iterator<A, rs::IteratorEnd>(*x);
          auto e = std::common_iterator<A, rs::IteratorEnd>(rs::IteratorEnd());
          sim_out(std::accumulate(b, e, int64_t{7}, [](int64_t h, const auto& v) { return h * 31 + val(v); }));
        }
        break;
      case 19: if constexpr (requires { (**x)->set(n); }) (**x)->set(n); break;
    }
  }
  void clear() {
    for (auto& x : a) x.reset();
    kept.clear();
  }
};

struct World {
  std::optional<ItC> sc[2];
  std::optional<ItM> sm[2];
  std::optional<Num> sn[2];
  std::unique_ptr<Fix> sf[2];
  std::optional<BagC> bc[2];
  std::optional<BagM> bm[2];
  Kind<ItC> kc;
  Kind<ItM> km;
  Kind<Num> kn;
  Kind<ItC*> kpc;
  Kind<ItM*> kpm;
  Kind<Num*> kpn;
  Kind<Fix*> kpf;
  Kind<RefsC> krc;
  Kind<RefsM> krm;
  Kind<MutsC> kxc;
  Kind<MutsM> kxm;
};
World* w;

template <class R>
void loop(R&& r, int64_t n, bool fail) {
  try {
    for (auto&& v : r) {
      if (n-- <= 0) {
        if (fail) throw Stop();
        break;
      }
      sim_out(val(v));
    }
  } catch (Stop) {
    sim_out(-1);
  }
}

template <class S, class K, class P>
void source(int what, S& s, K& k, P& p, int i, int j, int64_t v, int64_t n) {
  using T = std::remove_reference_t<decltype(*s[0])>;
  switch (what) {
    case 1: s[i].emplace(T::make(v, n)); break;
    case 2: k.a[j].emplace(*std::move(s[i])); break;
    case 3: p.a[j].emplace(s[i]->begin()); break;
    case 4: p.a[j].emplace(&*s[i]); break;
    case 5: loop(*s[i], n, v % 2); break;
    case 6: if constexpr (std::is_copy_constructible_v<T>) k.a[j].emplace(*s[i]); break;
    case 7: s[i].reset(); break;
    case 8: s[i] = T::make(v, n); break;
  }
}
template <class B, class K, class R, class X>
void bag(int what, B& s, K& k, R& r, X& x, int i, int j, int64_t v, int64_t n) {
  using T = std::remove_reference_t<decltype(*s[0])>;
  switch (what) {
    case 1: s[i].emplace(T::make(v, n)); break;
    case 2: k.a[j].emplace(std::move(*s[i]).into_iter()); break;
    case 3: r.a[j].emplace(std::as_const(*s[i]).begin()); break;
    case 4: x.a[j].emplace(s[i]->begin()); break;
    case 5: loop(std::as_const(*s[i]), n, v % 2); break;
    case 6: loop(*s[i], n, v % 2); break;
    case 7: s[i].reset(); break;
    case 8: k.a[j].emplace(rs_std::impl<T, core::iter::IntoIterator>::into_iter(*std::move(s[i]))); break;
    case 9: for (auto* m : *s[i]) m->set(val(*m) + v); break;
    case 10: for (int64_t q = 0; q < s[i]->len(); ++q) sim_out(s[i]->at(q)); break;
    case 11: s[i] = T::make(v, n); break;
  }
}
}  // namespace

extern "C" void sim_begin() { w = new World; }
extern "C" void sim_end() { delete w; w = nullptr; }
// Operations of adapters.
extern "C" void sim_adapter(int kind, int what, int i, int j, int64_t n) {
  switch (kind) {
    case 0: w->kc.op(what, i, j, n); break;
    case 1: w->km.op(what, i, j, n); break;
    case 2: w->kn.op(what, i, j, n); break;
    case 3: w->kpc.op(what, i, j, n); break;
    case 4: w->kpm.op(what, i, j, n); break;
    case 5: w->kpn.op(what, i, j, n); break;
    case 6: w->kpf.op(what, i, j, n); break;
    case 7: w->krc.op(what, i, j, n); break;
    case 8: w->krm.op(what, i, j, n); break;
    case 9: w->kxc.op(what, i, j, n); break;
    case 10: w->kxm.op(what, i, j, n); break;
  }
}
// Operations of iterators (0: items copied, 1: not, 2: numbers).
extern "C" void sim_source(int kind, int what, int i, int j, int64_t v, int64_t n) {
  switch (kind) {
    case 0:
      if (what == 9) sim_out(rest_c(*std::move(w->sc[i])));
      else if (what == 10) { decltype(auto) it = rs_std::impl<Lend, core::iter::IntoIterator>::into_iter(lend(&*w->sc[i])); sim_out(&it == &*w->sc[i]); }
      else source(what, w->sc, w->kc, w->kpc, i, j, v, n);
      break;
    case 1:
      if (what == 9) sim_out(rest_m(*std::move(w->sm[i])));
      else source(what, w->sm, w->km, w->kpm, i, j, v, n);
      break;
    case 2: source(what, w->sn, w->kn, w->kpn, i, j, v, n); break;
    case 3:
      switch (what) {
        case 1: w->sf[i].reset(new Fix(Fix::make(v, n))); break;
        case 3: w->kpf.a[j].emplace(w->sf[i]->begin()); break;
        case 5: loop(*w->sf[i], n, v % 2); break;
        case 7: w->sf[i].reset(); break;
      }
      break;
  }
}
// Operations of collections.
extern "C" void sim_bag(int kind, int what, int i, int j, int64_t v, int64_t n) {
  if (kind == 0) bag(what, w->bc, w->kc, w->krc, w->kxc, i, j, v, n);
  else bag(what, w->bm, w->km, w->krm, w->kxm, i, j, v, n);
}
