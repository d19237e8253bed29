#pragma once
#include "absl/container/shim_sorted.h"
namespace absl { template <typename K, typename V, typename L = typename absl_shim::DefLess<K>::type, typename A = void> class btree_map : public absl_shim::MapTable<K, V, L, true> { public: using absl_shim::MapTable<K, V, L, true>::MapTable; }; }
