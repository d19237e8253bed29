#pragma once
#include "absl/container/shim_sorted.h"
namespace absl { template <typename K, typename H = void, typename E = void, typename A = void> class flat_hash_set : public absl_shim::Table<absl_shim::SetTraits<K>, std::less<>, false> { public: using absl_shim::Table<absl_shim::SetTraits<K>, std::less<>, false>::Table; };
template <typename K, typename H = void, typename E = void, typename A = void> using node_hash_set = flat_hash_set<K, H, E, A>; }
