// Explicit, text serialisable description of one simulated run.
#pragma once
#include "rt.hpp"
#include "rt_internal.hpp"
#include <map>
#include <string>
#include <vector>

struct IfPlan { std::string name; std::string min, max, type = "double"; bool enable = true; };
struct JointPlan
{
  std::string name;
  std::vector<IfPlan> cmd;
  std::vector<std::string> state;
  bool gpio = false;
  // URDF limits
  bool has_limit = false;
  double lower = -1, upper = 1, velocity = 1, effort = 10;
  bool has_soft = false;
  double soft_lower = -0.9, soft_upper = 0.9, k_pos = 10, k_vel = 5;
  double accel = 0;  // ros2_control max acceleration (0: none)
  bool continuous = false;
  bool limits_enable = true;
};
struct HwPlan
{
  std::string name, kind = "system", plugin, group;  // kind: system actuator sensor
  int rw_rate = 0;
  bool is_async = false;
  std::string initial = "active";  // unconfigured inactive active
  std::vector<JointPlan> joints;
  bool own_modes = false;
};
struct CtrlPlan
{
  std::string name;
  bool chainable = false;
  int nref = 0, nstate = 0;
  std::vector<std::string> cmd, state;
  std::string cmd_type = "individual", state_type = "individual";
  int rate = 0;
  bool is_async = false;
  std::vector<std::string> fallbacks;
  std::string type;   // plugin class name
  int wave = 0;       // commanded value pattern
};
struct FaultPlan
{
  std::string who, cb, eff;  // eff: error failure deactivate throw slow nan
  int nth = 0;               // fires at the nth invocation of the callback (0 based) ...
  int count = 1;             // ... and for count invocations
  int64_t arg = 0;           // duration for slow
  int fired = 0;
};
struct OpPlan
{
  int client = 0;
  int64_t delay = 0;   // ns to wait before
  std::string op;      // load configure cleanup unload switch sethw listc listh listi types reload audit jump desc shutdown nop settle
  std::vector<std::string> a, b;
  int strict = 2;
  bool asap = true;
  int64_t timeout = 0;
  int64_t num = 0;
  std::string str;
};
struct Plan
{
  std::string profile = "all";
  uint64_t seed = 0, sched_seed = 1, work_seed = 1;
  simrt::SchedConfig sched;
  // controller manager
  int update_rate = 100;
  bool enforce_limits = true, handle_exceptions = true, allow_inactive_hw = false, deact_on_self = true;
  std::string default_strictness = "strict";
  bool manage_overruns = true, use_sim_time = false, expect_blocking = false, shutdown_on_init_failure = false;
  double min_cycle = 0.0001;
  int exec_threads = 4;
  bool introspect = false;
  int64_t desc_at = 0;        // ns: publication of the robot description (0: latched before start)
  int64_t run_ns = 3000000000ll;
  int64_t sim_step = 0;       // simulated /clock step (use_sim_time)
  bool final_audit = true;
  int64_t shutdown_at = -1;   // >= 0: shut down at this time after start whatever happens
  std::vector<HwPlan> hw;
  std::vector<CtrlPlan> ctrl;
  std::vector<FaultPlan> faults;
  std::vector<OpPlan> ops;
  std::vector<simrt::Deviation> devs;  // replay: explicit schedule
  bool has_devs = false;
  std::map<std::string, std::string> extra;

  std::string text() const;
  static Plan parse(const std::string & s);
  CtrlPlan * ctrl_of(const std::string & n);
  HwPlan * hw_of(const std::string & n);
};
Plan generate(const std::string & profile, uint64_t seed);
std::string make_urdf(const Plan & p);
