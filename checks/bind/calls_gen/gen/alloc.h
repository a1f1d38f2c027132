// Stands for the bindings of `alloc`: a String, which Rust code of the check drops and reads.
#pragma once
#include <cstdint>
#include <cstring>
#include <string_view>
#include "support/internal/slot.h"
extern "C" void sim_string_drop(void*);
extern "C" const char* sim_string_data(const void*, uint64_t*);
namespace rs::alloc::string {
struct alignas(8) [[clang::trivial_abi]] String final {
  String() = delete;
  String(const String&) = delete;
  String(String&&) = delete;
  String(::crubit::UnsafeRelocateTag, String&& o) { memcpy(this, &o, sizeof *this); }
  ~String() { sim_string_drop(this); }
  std::string_view as_str() const {
    uint64_t n;
    const char* p = sim_string_data(this, &n);
    return {p, n};
  }
  unsigned char bytes[24];
};
}  // namespace rs::alloc::string
namespace alloc = rs::alloc;
