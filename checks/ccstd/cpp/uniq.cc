// C++ users of unique_ptr, and a polymorphic class.
#include <stdint.h>
#include <memory>
extern "C" {
void sim_elem_drop(uint64_t id, const void* at);
uint64_t sim_elem_new(const void* at);
}
struct Obj {
  uint64_t id; int64_t tag; int64_t pad;
  Obj(int64_t t) : id(sim_elem_new(this)), tag(t), pad(0) {}
  Obj(const Obj&) = delete;
  ~Obj() { sim_elem_drop(id, this); }
};
struct alignas(64) BigObj : Obj { using Obj::Obj; char more[100]; };
struct Base {
  int64_t tag;
  Base(int64_t t) : tag(t) {}
  virtual ~Base() {}
};
struct Derived : Base {
  Obj o; char bulk[200];
  Derived(int64_t t) : Base(t), o(t) {}
};
extern "C" {
void u_new(int big, int64_t tag, std::unique_ptr<Obj>* out) { if (big) *reinterpret_cast<std::unique_ptr<BigObj>*>(out) = std::make_unique<BigObj>(tag); else *out = std::make_unique<Obj>(tag); }
void u_reset(int big, std::unique_ptr<Obj>* p) { if (big) reinterpret_cast<std::unique_ptr<BigObj>*>(p)->reset(); else p->reset(); }
int64_t u_tag(const std::unique_ptr<Obj>* p) { return *p ? (*p)->tag : -1; }
void u_move(int big, std::unique_ptr<Obj>* d, std::unique_ptr<Obj>* s) { if (big) { auto* a = reinterpret_cast<std::unique_ptr<BigObj>*>(d); auto* b = reinterpret_cast<std::unique_ptr<BigObj>*>(s); *a = std::move(*b); } else *d = std::move(*s); }
void u_swap(std::unique_ptr<Obj>* d, std::unique_ptr<Obj>* s) { d->swap(*s); }
void v_new(int64_t tag, std::unique_ptr<Base>* out) { *out = std::make_unique<Derived>(tag); }
void v_reset(std::unique_ptr<Base>* p) { p->reset(); }
void v_move(std::unique_ptr<Base>* d, std::unique_ptr<Base>* s) { *d = std::move(*s); }
void v_delete(Base* p) { delete p; }
}
