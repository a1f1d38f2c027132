// Types of C++'s own in the containers that bindings are made of.
#pragma once
#include <cstdint>
#include <memory>
#include <utility>

#include "api.h"

extern "C" uint64_t sim_tok_new(int64_t v);
extern "C" uint64_t sim_tok_clone(uint64_t id);
extern "C" void sim_tok_drop(uint64_t id);
extern "C" int64_t sim_tok_get(uint64_t id);
extern "C" void sim_tok_set(uint64_t id, int64_t v);

namespace vals {
struct Raw {
  static constexpr uint64_t kNone = ~uint64_t{0};
  uint64_t id;
  explicit Raw(uint64_t i) : id(i) {}
  ~Raw() {
    if (id != kNone) sim_tok_drop(id);
  }
  int64_t get() const { return id == kNone ? -5 : sim_tok_get(id); }
  void set(int64_t v) { sim_tok_set(id, v); }
  uint64_t copy() const { return id == kNone ? kNone : sim_tok_clone(id); }
  uint64_t release() { return std::exchange(id, kNone); }
  void become(uint64_t i) {
    if (id != kNone) sim_tok_drop(id);
    id = i;
  }
};
// One that copies when it is moved: a moved-from one holds a value yet.
struct Nat : Raw {
  Nat() : Raw(sim_tok_new(0)) {}
  explicit Nat(int64_t v) : Raw(sim_tok_new(v)) {}
  Nat(const Nat& o) : Raw(o.copy()) {}
  Nat& operator=(const Nat& o) {
    if (this != &o) become(o.copy());
    return *this;
  }
  static Nat make(int64_t v) { return Nat(v); }
};
// One that only moves.
struct Nmo : Raw {
  explicit Nmo(int64_t v) : Raw(sim_tok_new(v)) {}
  Nmo(Nmo&& o) : Raw(o.release()) {}
  Nmo& operator=(Nmo&& o) {
    if (this != &o) become(o.release());
    return *this;
  }
  static Nmo make(int64_t v) { return Nmo(v); }
};
// One that is not assigned to.
struct Nas : Raw {
  Nas() : Raw(sim_tok_new(0)) {}
  explicit Nas(int64_t v) : Raw(sim_tok_new(v)) {}
  Nas(const Nas& o) : Raw(o.copy()) {}
  Nas& operator=(const Nas&) = delete;
  static Nas make(int64_t v) { return Nas(v); }
};
template <typename T>
inline constexpr bool kNative = std::is_base_of_v<Raw, T>;
}  // namespace vals

// As the generator writes them.
#define OPTION_OF(T)                                                                        \
  template <>                                                                               \
  struct rs_std::Option<T> : public rs_std::OptionBase<rs_std::Option<T>, T> {              \
    using base_type = rs_std::OptionBase<rs_std::Option<T>, T>;                             \
    constexpr Option() = default;                                                           \
    constexpr Option(std::nullopt_t) noexcept : base_type(std::nullopt) {}                  \
    constexpr Option& operator=(std::nullopt_t) noexcept {                                  \
      base_type::operator=(std::nullopt);                                                   \
      return *this;                                                                         \
    }                                                                                       \
    template <typename U>                                                                   \
      requires(rs_std::OptionForwardConstructible<Option, T, U>)                            \
    Option(U&& value) noexcept : base_type(std::forward<U>(value)) {}                       \
    template <typename U>                                                                   \
      requires(rs_std::OptionForwardConstructible<Option, T, U>)                            \
    Option& operator=(U&& value) noexcept {                                                 \
      base_type::operator=(std::forward<U>(value));                                         \
      return *this;                                                                         \
    }                                                                                       \
    template <typename Opt>                                                                 \
      requires(rs_std::OptionFromStdOptional<T, Opt>)                                       \
    Option(Opt&& value) noexcept : base_type(std::forward<Opt>(value)) {}                   \
    template <typename Opt>                                                                 \
      requires(rs_std::OptionFromStdOptional<T, Opt>)                                       \
    Option& operator=(Opt&& value) noexcept {                                               \
      base_type::operator=(std::forward<Opt>(value));                                       \
      return *this;                                                                         \
    }                                                                                       \
    template <typename... Args>                                                             \
    explicit Option(std::in_place_t ip, Args&&... args) noexcept                            \
        : base_type(ip, std::forward<Args>(args)...) {}                                     \
    Option(const Option&) = delete;                                                         \
    Option& operator=(const Option&) = delete;                                              \
    constexpr ~Option() noexcept { this->reset(); }                                         \
    T* some_ptr() { return reinterpret_cast<T*>(storage_); }                                \
    const T* some_const_ptr() const { return reinterpret_cast<const T*>(storage_); }        \
    void set_some_tag() { tag_ = 1; }                                                       \
    void set_none_tag() { tag_ = 0; }                                                       \
    bool is_none() const { return tag_ == 0; }                                              \
                                                                                            \
   private:                                                                                 \
    uint64_t tag_;                                                                          \
    alignas(T) unsigned char storage_[sizeof(T)];                                           \
  }
#define RESULT_OF(T, F_)                                                                    \
  template <>                                                                               \
  struct rs_std::Result<T, F_> : public rs_std::ResultBase<rs_std::Result<T, F_>, T, F_> {  \
    using base_type = rs_std::ResultBase<rs_std::Result<T, F_>, T, F_>;                     \
    template <typename U = T>                                                               \
      requires(rs_std::ResultForwardConstructible<Result, T, U>)                            \
    Result(U&& value) noexcept : base_type(std::forward<U>(value)) {}                       \
    template <typename U = T>                                                               \
      requires(rs_std::ResultForwardConstructible<Result, T, U>)                            \
    Result& operator=(U&& value) noexcept {                                                 \
      base_type::operator=(std::forward<U>(value));                                         \
      return *this;                                                                         \
    }                                                                                       \
    template <typename F>                                                                   \
      requires(rs_std::ResultUnexpectedConstructible<F_, F>)                                \
    Result(rs_std::unexpected<F>&& err) noexcept : base_type(std::move(err)) {}             \
    template <typename F>                                                                   \
      requires(rs_std::ResultUnexpectedConstructible<F_, F>)                                \
    Result& operator=(rs_std::unexpected<F>&& err) noexcept {                               \
      base_type::operator=(std::move(err));                                                 \
      return *this;                                                                         \
    }                                                                                       \
    template <typename... Args>                                                             \
    explicit Result(std::in_place_t ip, Args&&... args) noexcept                            \
        : base_type(ip, std::forward<Args>(args)...) {}                                     \
    template <typename... Args>                                                             \
    explicit Result(rs_std::unexpect_t u, Args&&... args) noexcept                          \
        : base_type(u, std::forward<Args>(args)...) {}                                      \
    Result(const Result&) = delete;                                                         \
    Result& operator=(const Result&) = delete;                                              \
    ~Result() noexcept { this->Reset(); }                                                   \
    T* ok_ptr() { return reinterpret_cast<T*>(storage_); }                                  \
    const T* ok_const_ptr() const { return reinterpret_cast<const T*>(storage_); }          \
    F_* err_ptr() { return reinterpret_cast<F_*>(storage_); }                               \
    const F_* err_const_ptr() const { return reinterpret_cast<const F_*>(storage_); }       \
    void set_ok_tag() { tag_ = 0; }                                                         \
    void set_err_tag() { tag_ = 1; }                                                        \
    bool has_value_impl() const { return tag_ == 0; }                                       \
                                                                                            \
   private:                                                                                 \
    uint64_t tag_;                                                                          \
    alignas(T) alignas(F_) unsigned char storage_[sizeof(T) > sizeof(F_) ? sizeof(T) : sizeof(F_)]; \
  }
OPTION_OF(vals::Nat);
OPTION_OF(vals::Nmo);
OPTION_OF(vals::Nas);
RESULT_OF(vals::Nat, vals::Cln);
RESULT_OF(vals::Nmo, vals::Cln);
RESULT_OF(vals::Nas, vals::Cln);
