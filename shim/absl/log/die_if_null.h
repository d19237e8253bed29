#pragma once
#include "absl/log/check.h"
namespace absl_shim { template <typename T> T die_if_null(T t) { if (t == nullptr) abort(); return t; } }
#define ABSL_DIE_IF_NULL(x) ::absl_shim::die_if_null(x)
