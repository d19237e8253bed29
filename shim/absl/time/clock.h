#pragma once
#include "absl/time/time.h"
namespace absl { inline int64_t g_shim_clock = 1000000; inline Time Now() { Time t; t.ns = (g_shim_clock += 1000); return t; } inline void SleepFor(Duration) {} inline int64_t GetCurrentTimeNanos() { return g_shim_clock += 1000; } }
