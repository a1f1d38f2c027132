// The C++ side of C03: wakers of two designs, and futures held and polled from C++.
#include "sim.h"
#include "support/rs_std/cpp_waker.h"
#include "support/rs_std/dyn_erased_future.h"
#include "support/rs_std/waker.h"

extern "C" {
// The simulated executor: task `t` was woken.
void sim_woken(u64 task);
// One more (or less) reference to a waker of task `t`.
void sim_waker_ref(u64 task, long delta);
}
namespace {
constexpr unsigned kAlive = 0x600d600d, kDead = 0xdeaddead;
struct Dead {
  void* p;
  Dead* next;
};
Dead* graveyard = nullptr;
long waker_objects = 0;

// Shared: clones are counted references to one object. Otherwise each clone is an object.
// Base is rs_std::Waker or rs_std::CppWaker.
template <class Base>
struct SimWaker final : Base {
  unsigned magic = kAlive;
  bool shared;
  u64 task;
  long refs = 1;
  SimWaker(u64 task, bool shared) : shared(shared), task(task) {
    waker_objects++;
    sim_waker_ref(task, 1);
  }
  bool ok(const char* what) {
    if (magic == kAlive && refs > 0) return true;
    sim_fail("waker-use-after-release", what);
    return false;
  }
  void release() {
    sim_waker_ref(task, -1);
    if (--refs == 0) {
      // Kept until the end of the run, to notice any later use.
      magic = kDead;
      waker_objects--;
      graveyard = new Dead{this, graveyard};
    }
  }
  void WakeByRef() override {
    if (!ok("wake by reference of a released waker")) return;
    sim_woken(task);
    ok("a waker was released while it was woken by reference");
  }
  void WakeAndDestroy() override {
    if (!ok("wake of a released waker")) return;
    u64 t = task;
    release();
    sim_woken(t);
  }
  Base* Clone() override {
    if (!ok("clone of a released waker")) return this;
    if (!shared) return new SimWaker(task, false);
    refs++;
    sim_waker_ref(task, 1);
    return this;
  }
  void Destroy() override {
    if (!ok("drop of a released waker")) return;
    release();
  }
};
template <int N>
struct Out;
}  // namespace

struct Unit {};
struct Own {
  u64 h;
};
struct alignas(32) Big {
  u64 w[12];
};

extern "C" {
void* waker_new(int cpp, u64 task, int shared) {
  if (cpp) return static_cast<rs_std::CppWaker*>(new SimWaker<rs_std::CppWaker>(task, shared));
  return static_cast<rs_std::Waker*>(new SimWaker<rs_std::Waker>(task, shared));
}
// The executor's own uses, through the interface Rust uses. 0 clone, 1 wake, 2 wake by reference, 3 drop.
void* waker_op(int cpp, void* w, int what) {
  using namespace rs_std::internal;
  if (cpp) {
    auto* p = static_cast<rs_std::CppWaker*>(w);
    if (what == 0) return rs_std_cpp_waker_clone(p);
    if (what == 1) rs_std_cpp_waker_wake_and_destroy(p);
    if (what == 2) rs_std_cpp_waker_wake_by_ref(p);
    if (what == 3) rs_std_cpp_waker_drop(p);
  } else {
    auto* p = static_cast<rs_std::Waker*>(w);
    if (what == 0) return rs_std_waker_clone(p);
    if (what == 1) rs_std_waker_wake_and_destroy(p);
    if (what == 2) rs_std_waker_wake_by_ref(p);
    if (what == 3) rs_std_waker_drop(p);
  }
  return nullptr;
}
long waker_objects_now() { return waker_objects; }
void waker_reset() {
  while (graveyard) {
    Dead* d = graveyard;
    graveyard = d->next;
    ::operator delete(d->p);
    delete d;
  }
  waker_objects = 0;
}
}

using crubit::DynErasedFuture;
template <class T>
static __attribute__((noinline)) bool by_value(DynErasedFuture<T> f, const void* w, void* out) {
  return w ? f.Poll(static_cast<const rs_std::Waker*>(w), static_cast<T*>(out)) : false;
}
template <class T>
static bool future_op_of(int what, void* f, void* g, const void* w, void* out) {
  auto* p = static_cast<DynErasedFuture<T>*>(f);
  switch (what) {
    case 0: return p->Poll(static_cast<const rs_std::Waker*>(w), static_cast<T*>(out));
    case 1:
      new (g) DynErasedFuture<T>(std::move(*p));
      return false;
    case 2:
      p->~DynErasedFuture<T>();
      return false;
    case 3: return by_value<T>(std::move(*p), w, out);
    case 4: {  // moved around
      DynErasedFuture<T> a(std::move(*p));
      DynErasedFuture<T> b(std::move(a));
      new (g) DynErasedFuture<T>(std::move(b));
      return false;
    }
  }
  return false;
}
extern "C" bool future_op(int type, int what, void* f, void* g, const void* w, void* out) {
  switch (type) {
    case 0: return future_op_of<Unit>(what, f, g, w, out);
    case 1: return future_op_of<Own>(what, f, g, w, out);
    case 2: return future_op_of<Big>(what, f, g, w, out);
    default: return future_op_of<u64>(what, f, g, w, out);
  }
}
extern "C" size_t future_size() { return sizeof(DynErasedFuture<Own>); }
