#pragma once
#include "rt.hpp"
#include <cstdint>
#include <vector>
namespace simrt
{
struct Deviation { uint64_t point; int target; };
// schedule record / replay
void record_schedule(std::vector<Deviation> * out);      // record deviations from the default schedule
void replay_schedule(const std::vector<Deviation> * in);  // follow exactly these deviations
extern "C" {
extern bool g_sim_active;
extern int g_np;
extern uint64_t g_points;
extern uint64_t g_next_stop;
}
void access_slow();
void sync_point(const char * what);
}
