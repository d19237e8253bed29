#pragma once
#include "absl/container/shim_sorted.h"
namespace absl { template <typename K, typename V, typename H = void, typename E = void, typename A = void> class flat_hash_map : public absl_shim::MapTable<K, V, std::less<>, false> { public: using absl_shim::MapTable<K, V, std::less<>, false>::MapTable; }; }
