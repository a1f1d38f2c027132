// Stands for the bindings of `core`, as much of them as the bindings of `calls` mention.
#pragma once
#include <cstdint>
namespace rs::core {
namespace iter {
struct Iterator;
struct IntoIterator;
}  // namespace iter
namespace cmp {
struct Eq;
struct Ord;
struct Ordering {
  signed char v;
};
}  // namespace cmp
namespace fmt {
struct Debug;
struct Display;
}  // namespace fmt
}  // namespace rs::core
namespace core = rs::core;
