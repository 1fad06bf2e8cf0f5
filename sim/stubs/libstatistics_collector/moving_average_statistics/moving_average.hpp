#pragma once
#include <mutex>
#include "libstatistics_collector/moving_average_statistics/types.hpp"
#include "rcpputils/pointer_traits.hpp"
#define RCPPUTILS_TSA_GUARDED_BY(x)
#define RCPPUTILS_TSA_REQUIRES(x)
