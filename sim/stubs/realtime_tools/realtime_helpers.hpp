#pragma once
#include <string>
#include <utility>
#include <vector>
namespace simros { bool rt_kernel(); bool sched_ok(); }
namespace realtime_tools
{
inline bool has_realtime_kernel() { return simros::rt_kernel(); }
inline std::pair<bool, std::string> lock_memory() { return {simros::sched_ok(), "simulated"}; }
inline bool lock_memory(std::string & m) { m = "simulated"; return simros::sched_ok(); }
inline bool configure_sched_fifo(int) { return simros::sched_ok(); }
inline std::pair<bool, std::string> set_current_thread_affinity(int) { return {simros::sched_ok(), "simulated"}; }
inline std::pair<bool, std::string> set_current_thread_affinity(const std::vector<int> &) { return {simros::sched_ok(), "simulated"}; }
}
