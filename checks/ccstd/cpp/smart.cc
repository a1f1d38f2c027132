// The real allocator seam and control block, plus a C++ owner of shared objects.
#include <stdint.h>

#include "support/cc_std_impl/std_allocator.h"

using crubit_cc_std_internal::std_allocator::DynControlBlock;
using crubit_cc_std_internal::std_allocator::FunctionToCall;
using crubit_cc_std_internal::std_allocator::shared_weak_count;
namespace sa = crubit_cc_std_internal::std_allocator;

extern "C" {
void* sim_new(size_t n, size_t align);
void sim_delete(void* p, size_t n, size_t align);
void sim_elem_drop(uint64_t id, const void* at);
uint64_t sim_elem_new(const void* at);

void* h_cpp_new(size_t n, size_t a) { return sa::cpp_new(n, a); }
void h_cpp_delete(void* p, size_t n, size_t a) { sa::cpp_delete(p, n, a); }
void h_ref(shared_weak_count* c) { sa::shared_ptr_ref(c); }
void h_unref(shared_weak_count* c) { sa::shared_ptr_unref(c); }
size_t h_use_count(const shared_weak_count* c) { return sa::shared_ptr_use_count(c); }
shared_weak_count* h_emplace(DynControlBlock* p, DynControlBlock::DeleterFn d) { return DynControlBlock::Emplace(p, d); }
void h_dcb_drop(DynControlBlock* p) { p->~DynControlBlock(); }
}
static_assert(sizeof(DynControlBlock) == 32);

// All C++ memory comes from the simulator's allocator. 0 as size or alignment means "unknown".
void* operator new(size_t n) { return sim_new(n, 16); }
void* operator new[](size_t n) { return sim_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return sim_new(n, (size_t)a); }
void operator delete(void* p) noexcept { sim_delete(p, (size_t)-1, 16); }
void operator delete[](void* p) noexcept { sim_delete(p, (size_t)-1, 16); }
void operator delete(void* p, size_t n) noexcept { sim_delete(p, n, 16); }
void operator delete[](void* p, size_t n) noexcept { sim_delete(p, n, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { sim_delete(p, (size_t)-1, (size_t)a); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { sim_delete(p, n, (size_t)a); }

// What C++'s shared_ptr and weak_ptr do with the control block.
extern "C" {
void cxx_add_shared(void* c) { if (c) reinterpret_cast<std::__shared_weak_count*>(c)->__add_shared(); }
void cxx_release_shared(void* c) { if (c) reinterpret_cast<std::__shared_weak_count*>(c)->__release_shared(); }
void cxx_add_weak(void* c) { if (c) reinterpret_cast<std::__shared_weak_count*>(c)->__add_weak(); }
void cxx_release_weak(void* c) { if (c) reinterpret_cast<std::__shared_weak_count*>(c)->__release_weak(); }
bool cxx_lock(void* c) { return c && reinterpret_cast<std::__shared_weak_count*>(c)->lock() != nullptr; }
}

// A C++-made shared object: std::make_shared<Obj>.
struct Obj { uint64_t id; int64_t tag; uint64_t owner; int64_t sub[2]; void* next[2]; };
extern "C" __attribute__((weak)) void sim_destroyed(Obj*);
struct MadeShared final : std::__shared_weak_count {
  Obj o;
  explicit MadeShared(int64_t tag, uint64_t owner) : o{} { o.id = sim_elem_new(&o); o.tag = tag; o.owner = owner; o.sub[0] = tag + 1; o.sub[1] = owner; }
  void __on_zero_shared() noexcept override { sim_destroyed(&o); }
  void __on_zero_shared_weak() noexcept override { delete this; }
};
extern "C" void cxx_make_shared(int64_t tag, uint64_t owner, Obj** p, void** c) {
  auto* m = new MadeShared(tag, owner);
  *p = &m->o;
  *c = static_cast<std::__shared_weak_count*>(m);
}
