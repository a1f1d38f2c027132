// Stand-in for libc++'s control block (the real header is not installed here). Same states and
// transitions as libc++; every atomic step is a scheduling point of the simulator.
#pragma once
extern "C" void sim_yield(int where);
namespace std {
class __shared_count {
 protected:
  long __shared_owners_;
  virtual ~__shared_count() {}

 private:
  virtual void __on_zero_shared() noexcept = 0;

 public:
  explicit __shared_count(long refs = 0) noexcept : __shared_owners_(refs) {}
  void __add_shared() noexcept {
    sim_yield(0);
    __atomic_add_fetch(&__shared_owners_, 1, __ATOMIC_RELAXED);
  }
  bool __release_shared() noexcept {
    sim_yield(1);
    if (__atomic_add_fetch(&__shared_owners_, -1, __ATOMIC_ACQ_REL) == -1) {
      sim_yield(2);
      __on_zero_shared();
      return true;
    }
    return false;
  }
  long use_count() const noexcept {
    sim_yield(3);
    return __atomic_load_n(&__shared_owners_, __ATOMIC_RELAXED) + 1;
  }
};
class __shared_weak_count : private __shared_count {
  long __shared_weak_owners_;

 protected:
  ~__shared_weak_count() override {}

 public:
  explicit __shared_weak_count(long refs = 0) noexcept : __shared_count(refs), __shared_weak_owners_(refs) {}
  void __add_shared() noexcept { __shared_count::__add_shared(); }
  void __add_weak() noexcept {
    sim_yield(4);
    __atomic_add_fetch(&__shared_weak_owners_, 1, __ATOMIC_RELAXED);
  }
  void __release_shared() noexcept {
    if (__shared_count::__release_shared()) __release_weak();
  }
  void __release_weak() noexcept {
    sim_yield(5);
    if (__atomic_add_fetch(&__shared_weak_owners_, -1, __ATOMIC_ACQ_REL) == -1) {
      sim_yield(6);
      __on_zero_shared_weak();
    }
  }
  __shared_weak_count* lock() noexcept {
    long n = __atomic_load_n(&__shared_owners_, __ATOMIC_SEQ_CST);
    while (n != -1) {
      sim_yield(7);
      if (__atomic_compare_exchange_n(&__shared_owners_, &n, n + 1, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return this;
    }
    return nullptr;
  }
  long use_count() const noexcept { return __shared_count::use_count(); }

 private:
  virtual void __on_zero_shared_weak() noexcept = 0;
};
}  // namespace std
