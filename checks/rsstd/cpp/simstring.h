// A stand-in for libc++'s std::string: three words, and (as the standard allows) not relocatable by
// copying its bytes: it points to itself. Its storage is a registered resource.
#pragma once
#include "sim.h"
namespace sim_std {
using namespace ::std;

template <class C = char>
class basic_string {
  struct Rep {
    u64 handle;
    size_t n;
    char bytes[];
  };
  basic_string* self_;
  Rep* rep_;
  u64 magic_;
  static constexpr u64 kLive = 0x57a1e57a1e57a1e5ull;

  void check(const char* what) const {
    if (magic_ != kLive) sim_fail("string-not-live", what);
    if (self_ != this) sim_fail("string-moved-bitwise", what);
  }
  void init(const char* p, size_t n) {
    self_ = this;
    magic_ = kLive;
    rep_ = static_cast<Rep*>(malloc(sizeof(Rep) + n + 1));
    rep_->handle = reg_new(n);
    rep_->n = n;
    if (n) memcpy(rep_->bytes, p, n);
    rep_->bytes[n] = 0;
  }

 public:
  basic_string() { init("", 0); }
  basic_string(const char* p, size_t n) { init(p, n); }
  basic_string(const basic_string& o) {
    o.check("copied");
    init(o.rep_->bytes, o.rep_->n);
  }
  basic_string(basic_string&& o) {
    o.check("moved");
    init("", 0);
    swap(rep_, o.rep_);
  }
  ~basic_string() {
    check("destroyed");
    reg_unref(rep_->handle);
    memset(rep_->bytes, 0xdd, rep_->n);
    free(rep_);
    magic_ = 0xdeadull;
    rep_ = nullptr;
  }
  size_t size() const {
    check("size");
    return rep_->n;
  }
  const char* data() const {
    check("data");
    return rep_->bytes;
  }
  char* data() {
    check("data");
    return rep_->bytes;
  }
  friend bool operator==(const basic_string& a, const basic_string& b) {
    a.check("compared");
    b.check("compared");
    return a.rep_->n == b.rep_->n && memcmp(a.rep_->bytes, b.rep_->bytes, a.rep_->n) == 0;
  }
};
using string = basic_string<>;
static_assert(sizeof(string) == 24);
}  // namespace sim_std
