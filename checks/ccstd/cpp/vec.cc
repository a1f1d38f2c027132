// The C++ side of the shared vector: the same three words used as a real std::vector.
#include <stdint.h>
#include <utility>
#include <vector>
extern "C" {
uint64_t sim_elem_clone(uint64_t id);
void sim_elem_drop(uint64_t id, const void* at);
uint64_t sim_elem_new(const void* at);
}
template <int A>
struct alignas(A) Elem {
  uint64_t id; int64_t tag; int64_t check;
  explicit Elem(int64_t t) : id(sim_elem_new(nullptr)), tag(t), check(t ^ 0x5a5a) {}
  Elem() : Elem(0) {}
  Elem(const Elem& o) : id(sim_elem_clone(o.id)), tag(o.tag), check(o.check) {}
  Elem(Elem&& o) noexcept : id(o.id), tag(o.tag), check(o.check) { o.id = 0; }
  Elem& operator=(Elem o) noexcept { std::swap(id, o.id); tag = o.tag; check = o.check; return *this; }
  ~Elem() { if (id) sim_elem_drop(id, nullptr); }
};
template <int A>
int64_t op(int what, void* a, void* b, int64_t x, int64_t y) {
  auto& v = *static_cast<std::vector<Elem<A>>*>(a);
  auto& w = *static_cast<std::vector<Elem<A>>*>(b);
  switch (what) {
    case 0: v.push_back(Elem<A>(x)); break;
    case 1: v.pop_back(); break;
    case 2: v.insert(v.begin() + y, Elem<A>(x)); break;
    case 3: v.erase(v.begin() + y); break;
    case 4: v.clear(); break;
    case 5: v.reserve(v.size() + x); break;
    case 6: v.shrink_to_fit(); break;
    case 7: v.swap(w); break;
    case 8: v = std::move(w); break;
    case 9: v = w; break;
    case 10: v.resize(x, Elem<A>(y)); break;
    case 11: v = std::vector<Elem<A>>(); break;
    case 12: return (int64_t)v.size();
    case 13: return v[x].tag;
    case 14: v[x] = Elem<A>(y); break;
    case 15: return (int64_t)v.capacity();
  }
  return 0;
}
extern "C" int64_t cxx_vec(int big, int what, void* a, void* b, int64_t x, int64_t y) {
  return big ? op<64>(what, a, b, x, y) : op<8>(what, a, b, x, y);
}
