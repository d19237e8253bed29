#pragma once
#include <span>
namespace absl { template <typename T> using Span = std::span<T>; }
