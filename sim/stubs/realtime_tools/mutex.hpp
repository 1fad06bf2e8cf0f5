#pragma once
#include <mutex>
namespace realtime_tools
{
// priority inheritance has no observable effect under the simulated scheduler
class prio_inherit_mutex : public std::mutex {};
class prio_inherit_recursive_mutex : public std::recursive_mutex {};
}
