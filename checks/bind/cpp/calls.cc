// Every way into Rust that the bindings of `calls` have, one at a time.
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <optional>
#include <sstream>
#include <tuple>
#include <utility>
#include <vector>

#include "api.h"
#include "support/rs_std/lossy_formatter_for_bindings.h"
#include "support/rs_std/waker.h"

extern "C" void sim_out(int64_t v);
extern "C" void sim_guard();

namespace {
struct Guard {
  bool done = false;
  ~Guard() {
    if (!done) sim_guard();
  }
};
struct Sink {
  void Append(std::string_view s) { n += s.size(); }
  size_t n = 0;
};
void AbslStringify(Sink& s, std::string_view v) { s.Append(v); }

// Every clone is an object of its own.
struct W final : rs_std::Waker {
  void WakeByRef() override { sim_out(-31); }
  void WakeAndDestroy() override { sim_out(-32); delete this; }
  W* Clone() override { sim_out(-33); return new W; }
  void Destroy() override { sim_out(-34); delete this; }
};

using calls::En;
using calls::Half;
using calls::Iter;
using calls::Obj;
using FI = crubit::DynErasedFuture<int64_t>;
using FO = crubit::DynErasedFuture<Obj>;
using Ob = rs_std::impl<Obj, calls::Tr>;
std::vector<Obj> o;
std::vector<En> e;
std::optional<Iter> it;
std::unique_ptr<rs_std::Result<Obj, Obj>> r;
std::optional<rs_std::Vec<Obj>> v;
std::vector<std::unique_ptr<FI>> fi;
std::vector<std::unique_ptr<FO>> fo;
W waker;

Obj helper(Obj a) { return a; }

void go(int what, int a, int b, int64_t n) {
  using std::move;
  Obj& x = o[a % o.size()];
  Obj& y = o[b % o.size()];
  En& z = e[a % e.size()];
  switch (what) {
    case 0: x = Obj(); break;
    case 1: x = y; break;
    case 2: { Obj c(x); sim_out(c.get()); } break;
    case 3: x = move(y); break;
    case 4: sim_out(x == y); break;
    case 5: sim_out((x <=> y) == std::strong_ordering::less); break;
    case 6: sim_out(rs_std::impl<Obj, core::cmp::Ord>::cmp(x, y).v); break;
    case 7: sim_out(static_cast<int64_t>(move(x))); break;
    case 8: x = Obj(static_cast<int32_t>(n)); break;
    case 9: { Sink s; AbslStringify(s, x); sim_out(s.n); } break;
    case 10: { std::ostringstream s; s << x; sim_out(s.str().size()); } break;
    case 11: it.emplace(move(x).into_iter()); break;
    case 12: for (int64_t i : std::as_const(x)) sim_out(i); break;
    case 13: if (it) for (int64_t i : *it) sim_out(i); break;
    case 14: if (it) { auto w = rs_std::impl<Iter, core::iter::Iterator>::next(*it); sim_out(w.value_or(-1)); } break;
    case 15: it.emplace(); break;
    case 16: it.reset(); break;
    case 17: x = Obj::make(n); break;
    case 18: sim_out(x.get()); break;
    case 19: x.set(n); break;
    case 20: sim_out(move(x).take()); break;
    case 21: sim_out(x.same().v); break;
    case 22: if (&x != &y) { auto [p, q] = move(x).pair(move(y)); sim_out(p.v - q.v); } break;
    case 23: { auto w = Obj::arr({Obj::make(n), x}); sim_out(w[0].v + w[1].v); } break;
    case 24: { auto w = Obj::opt(b % 2 ? std::optional<Obj>(x) : std::nullopt); sim_out(w.has_value()); } break;
    case 25: {
      auto w = b % 2 ? rs_std::Result<Obj, Obj>(x) : rs_std::Result<Obj, Obj>(rs_std::unexpected<Obj>(move(x)));
      r = std::make_unique<rs_std::Result<Obj, Obj>>(Obj::res(move(w)));
    } break;
    case 26: if (r) { rs_std::Result<Obj, Obj> w(*r); sim_out(w.has_value()); w = *r; } break;
    case 27: r.reset(); break;
    case 28: v.emplace(Obj::many(n % 4)); break;
    case 29: if (v) { rs_std::Vec<Obj> w(*v); sim_out(w.size()); if (b % 2) *v = w; } break;
    case 30: v.reset(); break;
    case 31: sim_out(x.c_get()); break;
    case 32: sim_out(Obj::raw(&x)); break;
    case 33: sim_out(Obj::text(rs_std::StrRef("abc"))); break;
    case 34: { const int64_t s[] = {1, 2}; sim_out(Obj::slice(rs_std::SliceRef<const int64_t>(s))); } break;
    case 35: sim_out(calls::free(n)); break;
    case 36: sim_out(calls::free_c(n)); break;
    case 37: sim_out(calls::calls_free_plain(n)); break;
    case 38: sim_out(calls::inner::free(n)); break;
    case 39: sim_out(calls::giver()(n)); break;
    case 40: fi.push_back(std::make_unique<FI>(calls::later(n))); break;
    case 41: fo.push_back(std::make_unique<FO>(calls::later_obj(n))); break;
    case 42: if (!fi.empty()) { int64_t w = -1; sim_out(fi.back()->Poll(&waker, &w)); sim_out(w); fi.pop_back(); } break;
    case 43: if (!fo.empty()) {
      crubit::Slot<Obj> w;
      if (fo.back()->Poll(&waker, w.Get())) {
        sim_out(move(w).AssumeInitAndTakeValue().v);
        fo.pop_back();
      }
    } break;
    case 44: if (!fi.empty()) fi.pop_back(); break;
    case 45: if (!fo.empty()) { FO w(move(*fo.back())); fo.pop_back(); } break;
    case 46: sim_out(Ob::by_ref(x, n)); break;
    case 47: sim_out(Ob::by_mut(x, n)); break;
    case 48: x = Ob::by_value(move(x)); break;
    case 49: sim_out(Ob::none(n)); break;
    case 50: z = En::make(n); break;
    case 51: sim_out(z.look()); break;
    case 52: z = En::MakeA(x); break;
    case 53: z = En::MakeC(); break;
    case 54: { En w(z); e[b % e.size()] = move(w); } break;
    case 55: z = En(); break;
    case 56: { auto w = calls::Un::new_(n); sim_out(w.a.value); } break;
    case 57: std::swap(x, y); break;
    case 58: std::sort(o.begin(), o.end(), [](const Obj& p, const Obj& q) { return p < q; }); break;
    case 59: x = helper(y); break;
    case 60: o.push_back(x); break;
    case 61: if (o.size() > 1) o.erase(o.begin() + b % o.size()); break;
    case 62: try { calls::never(); } catch (int) {} break;
    case 63: std::rotate(o.begin(), o.begin() + b % o.size(), o.end()); break;
    case 65: { Half p = Half::new_(n); Half q = Half::new_(n / 3); sim_out(p == q); } break;
    case 66: { Half p = Half::new_(n); Half q = Half::new_(n / 3); auto w = p <=> q; sim_out(w < 0 ? -1 : w > 0 ? 1 : w == 0 ? 0 : 2); } break;
    case 67: { Half p = Half::new_(n); sim_out(p == x); } break;
    case 68: { Half p = Half::new_(n); auto w = p <=> x; sim_out(w < 0 ? -1 : w > 0 ? 1 : w == 0 ? 0 : 2); } break;
    case 64: try { x.set(n); sim_out(x.get()); } catch (...) { sim_guard(); } break;
  }
}
}  // namespace

extern "C" int64_t sim_calls_op(int what, int a, int b, int64_t n) {
  Guard g;
  go(what, a, b, n);
  g.done = true;
  return 0;
}
extern "C" void sim_calls_begin() {
  Guard g;
  for (int i = 0; i < 3; i++) o.push_back(Obj::make(10 + i));
  e.push_back(En::make(3)), e.push_back(En::make(4));
  g.done = true;
}
extern "C" void sim_calls_end() {
  Guard g;
  std::vector<Obj>().swap(o), std::vector<En>().swap(e), fi.clear(), fo.clear();
  it.reset(), r.reset(), v.reset();
  g.done = true;
}
// A C++ type's text, for Rust.
extern "C" void sim_calls_write(lossy_formatter::LossyFormatter* f, int64_t n) {
  Guard g;
  for (; n > 0; n /= 5) switch (n % 5) {
      case 0: sim_out(f->write_byte('a')); break;
      case 1: sim_out(f->write_bytes("x\xffyz", 4)); break;
      case 2: sim_out(f->write_fill(7, 'b')); break;
      case 3: sim_out(f->flush()); break;
      case 4: sim_out(f->write_byte('\xe2')); break;
    }
  sim_out(f->flush());
  g.done = true;
}
