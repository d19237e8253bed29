#pragma once
#include "absl/container/shim_sorted.h"
namespace absl { template <typename K, typename L = typename absl_shim::DefLess<K>::type, typename A = void> class btree_set : public absl_shim::Table<absl_shim::SetTraits<K>, L, true> { public: using absl_shim::Table<absl_shim::SetTraits<K>, L, true>::Table; }; }
