// What the C++ side of the simulation shares: the registry of owned things (kept by the Rust side),
// the value stream and the digest, both implemented alike in Rust.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <optional>
#include <string_view>
#include <tuple>
#include <utility>

using u8 = uint8_t;
using u64 = uint64_t;

extern "C" {
u64 reg_new(u64 val);
void reg_ref(u64 h);
void reg_unref(u64 h);
u64 reg_val(u64 h);
void sim_fail(const char* cls, const char* what);
}

struct Stream {
  u64 s;
  u64 next() {
    s += 0x9e3779b97f4a7c15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};
struct Digest {
  u64 h = 0x1234567;
  void add(u64 x) {
    h = (h ^ x) * 0x100000001b3ull;
    h ^= h >> 29;
  }
};
