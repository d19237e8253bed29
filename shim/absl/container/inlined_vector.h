#pragma once
#include <vector>
namespace absl { template <typename T, unsigned long N> using InlinedVector = std::vector<T>; }
