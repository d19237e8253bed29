#pragma once
#include "absl/log/check.h"
#define LOG_INFO_ ::absl_shim::NullLog()
#define LOG_WARNING_ ::absl_shim::NullLog()
#define LOG_ERROR_ ::absl_shim::NullLog()
#define LOG_FATAL_ ::absl_shim::Fatal("LOG(FATAL)", __FILE__, __LINE__)
#define LOG(x) LOG_##x##_
