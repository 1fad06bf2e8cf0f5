#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
namespace libstatistics_collector::moving_average_statistics
{
struct StatisticData
{
  double average = std::nan("");
  double min = std::nan("");
  double max = std::nan("");
  double standard_deviation = std::nan("");
  uint64_t sample_count = 0;
};
}
