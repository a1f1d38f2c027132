// A stand-in for the parts of absl::AnyInvocable that Crubit relies on, after absl's own: the real
// one of a current absl release is not installed here.
#pragma once
#include <cassert>
#include <cstddef>
#include <cstring>
#include <exception>
#include <type_traits>
#include <utility>

namespace absl {
template <class Sig>
class AnyInvocable;
namespace internal_any_invocable {
enum class FunctionToCall : unsigned char { dispose, relocate_from_to, relocate_from_to_and_query_rust };
union TypeErasedState {
  struct {
    void* target;
    size_t size;
  } remote;
  alignas(16) char storage[2 * sizeof(void*)];
};
template <class T>
using ForwardedParameter = std::conditional_t<std::is_scalar_v<T> || std::is_reference_v<T>, T, T&&>;
template <class T>
using ForwardedParameterType = ForwardedParameter<T>;
using ManagerType = void(FunctionToCall, TypeErasedState*, TypeErasedState*) noexcept;
inline void EmptyManager(FunctionToCall op, TypeErasedState*, TypeErasedState*) noexcept {}

template <class Sig>
struct ImplOf;
#define SIM_ANY(qual)                                                                                   \
  template <class R, class... P>                                                                        \
  struct ImplOf<R(P...) qual> {                                                                         \
    using Invoker = R(TypeErasedState*, ForwardedParameterType<P>...);                                  \
    TypeErasedState state_;                                                                             \
    ManagerType* manager_ = EmptyManager;                                                               \
    Invoker* invoker_ = nullptr;                                                                        \
    static R InvokedAfterMove(TypeErasedState*, ForwardedParameterType<P>...) { std::terminate(); }     \
    R operator()(P... args) qual {                                                                      \
      Invoker* i = invoker_;                                                                            \
      auto* self = const_cast<ImplOf*>(this);                                                           \
      if constexpr (std::is_rvalue_reference_v<int qual>) {                                             \
        self->invoker_ = InvokedAfterMove;                                                              \
        self->manager_ = EmptyManager;                                                                  \
      }                                                                                                 \
      return i(&self->state_, std::forward<ForwardedParameterType<P>>(args)...);                        \
    }                                                                                                   \
  };
SIM_ANY(const)
SIM_ANY()
SIM_ANY(&&)
#undef SIM_ANY
}  // namespace internal_any_invocable

template <class Sig>
class AnyInvocable : private internal_any_invocable::ImplOf<Sig> {
  using Impl = internal_any_invocable::ImplOf<Sig>;

 public:
  using State = internal_any_invocable::TypeErasedState;
  AnyInvocable() noexcept {}
  AnyInvocable(std::nullptr_t) noexcept {}
  AnyInvocable(State* state, internal_any_invocable::ManagerType* manager, typename Impl::Invoker* invoker) noexcept {
    manager(internal_any_invocable::FunctionToCall::relocate_from_to, state, &this->state_);
    this->manager_ = manager;
    this->invoker_ = invoker;
  }
  AnyInvocable(AnyInvocable&& o) noexcept { take(o); }
  AnyInvocable& operator=(AnyInvocable&& o) noexcept {
    clear();
    take(o);
    return *this;
  }
  AnyInvocable& operator=(std::nullptr_t) noexcept {
    clear();
    return *this;
  }
  ~AnyInvocable() { this->manager_(internal_any_invocable::FunctionToCall::dispose, &this->state_, &this->state_); }
  explicit operator bool() const noexcept { return this->invoker_ != nullptr; }
  using Impl::operator();

  // As any_invocable_crubit_abi.h does before it passes the target to Rust: whether it is Rust's own.
  bool SimTakeRust(State* out) {
    bool is_rust = false;
    bool* p = &is_rust;
    memset(out, 0, sizeof *out);
    memcpy(out, &p, sizeof p);
    this->manager_(internal_any_invocable::FunctionToCall::relocate_from_to_and_query_rust, &this->state_, out);
    this->manager_ = internal_any_invocable::EmptyManager;
    this->invoker_ = nullptr;
    return is_rust;
  }

 private:
  void clear() {
    this->manager_(internal_any_invocable::FunctionToCall::dispose, &this->state_, &this->state_);
    this->manager_ = internal_any_invocable::EmptyManager;
    this->invoker_ = nullptr;
  }
  void take(AnyInvocable& o) {
    o.manager_(internal_any_invocable::FunctionToCall::relocate_from_to, &o.state_, &this->state_);
    this->manager_ = o.manager_;
    this->invoker_ = o.invoker_;
    o.manager_ = internal_any_invocable::EmptyManager;
    o.invoker_ = nullptr;
  }
};
}  // namespace absl
