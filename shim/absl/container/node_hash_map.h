#pragma once
#include "absl/container/flat_hash_map.h"
namespace absl { template <typename... A> using node_hash_map = flat_hash_map<A...>; }
