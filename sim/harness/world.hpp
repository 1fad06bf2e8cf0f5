// Ground truth of one simulated run: what the plugins really experienced, plus the oracles.
#pragma once
#include "plan.hpp"
#include "rt.hpp"
#include <array>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace controller_interface { class ControllerInterfaceBase; }
namespace hardware_interface { class HardwareComponentInterface; }

// lifecycle ids
enum : int { S_UNKNOWN = 0, S_UNCONF = 1, S_INACTIVE = 2, S_ACTIVE = 3, S_FINAL = 4, S_BUSY = 10, S_ERRPROC = 15 };
const char * state_name(int s);

struct CtrlObj
{
  int id = 0;
  std::string name;
  std::string cls;
  bool alive = true, inited = false, loaded = false;
  controller_interface::ControllerInterfaceBase * p = nullptr;
  const CtrlPlan * plan = nullptr;
  std::set<std::string> held_cmd, held_state;
  bool chained = false;
  int in_update = 0, in_lc = 0;
  uint64_t n_update = 0;
  int n_act = 0, n_deact = 0, n_conf = 0, n_clean = 0, n_shut = 0, n_err = 0, n_init = 0;
  int act_ok = 0;               // successful activations
  bool err_failed = false;      // finalized because the error could not be handled
  bool refused_chained = false; // refused to change its chained mode
  bool deact_failed = false;    // its deactivation callback refused (stays active by lifecycle rules)
  bool deact_kept = false;      // ... and it was not given interfaces again since
  bool assigned = false;
  // schedule
  uint64_t last_upd_cycle = 0, upd_in_cycle = 0, last_upd_seq = 0;
  int64_t last_upd_time = -1, act_time = -1;
  uint64_t act_cycle = 0, deact_cycle = 0, act_seq = 0, deact_seq = 0, change_seq = 0;
  uint64_t updates_since_act = 0, cycles_since_act = 0;
  uint64_t fail_cycle = 0;      // last cycle in which its update failed
  uint64_t chained_calls = 0;
  int64_t last_upd_now = -1;
  bool fail_pending = false, discarded = false;
  uint64_t live_n = 0, live_cycle = 0;   // asynchronous progress
  int64_t live_t = 0;
  // statistics since the latest activation, after each update: periodicity in Hz
  struct Sample { double avg, dev, lo, hi; };
  std::vector<Sample> per;
  double per_m2 = 0, exec_min = 1e300;
  int deact_before = 0;
  int64_t upd_begin = 0, upd_period = 0;
  bool upd_first = false;
  uint64_t inactive_at_cycle = 0;
  std::set<std::string> last_held_cmd, last_held_state;  // holdings of its latest activation
  int state() const;            // real lifecycle state
  bool is_async() const;
  unsigned rate() const;
};
struct HwObj
{
  int id = 0;
  std::string name;
  bool alive = true;
  hardware_interface::HardwareComponentInterface * p = nullptr;
  const HwPlan * plan = nullptr;
  int st = S_UNKNOWN;          // own model driven by the callbacks
  int in_rw = 0, in_lc = 0;
  int pending_err = 0;         // an on_error call is expected
  bool init_ok = false;
  int n_read = 0, n_write = 0, ok_act = 0, n_act = 0, n_deact = 0, n_conf = 0, n_clean = 0, n_shut = 0, n_err = 0;
  int64_t last_read_t = -1, last_write_t = -1;
  uint64_t last_read_cycle = 0, last_write_cycle = 0;
  uint64_t reads_since = 0, cycles_since = 0;
  uint64_t change_seq = 0, act_cycle = 0, deact_cycle = 0;
  uint64_t fail_cycle = 0;
  bool io_failed = false;      // an i/o error was reported and the component not reactivated since
  std::map<std::string, double> written;  // last values seen in write
  std::vector<std::string> prep_start, prep_stop;
  uint64_t prep_seq = 0, perf_seq = 0;
  bool prep_ok = false;
  std::map<std::string, int> mode;  // interfaces the component was last asked to start (1) or stop (0), -1: unknown
  bool fail_open = false, threw = false, fail_wr = false, lc_failed = false, ever_io_failed = false;
  int st_alt = 0;
  uint64_t read_skipped_cycle = 0, deact_asked = 0, change_cycle = 0;
  int64_t last_read_now = -1, last_write_now = -1;
  bool read_due = false, write_due = false;
  int act_at_write = -1;
  std::function<std::optional<double>(const std::string &)> get_state, get_cmd;  // without waiting
  uint64_t live_n = 0, live_cycle = 0;   // asynchronous progress
  int64_t live_t = 0;
  bool refused = false;        // destroyed because its description was refused
  bool group_pending = false;  // another member failed: an on_error call is expected
  struct GroupFail { std::string by; uint64_t cycle; int ok_act; };
  GroupFail group_fail{"", 0, -1};  // last failure of another member while this one was active
  int reported() const;        // lifecycle state the framework keeps for it
};

inline bool only_starts(const OpPlan & o) { return (o.op == "switch" && o.b.empty()) || o.op == "listc" || o.op == "listh" || o.op == "listi" || o.op == "types"; }
struct Violation { std::string prop, sig, msg; int64_t t; uint64_t cycle; };

struct CtrlSnap { int obj = -1; int state = 0; bool chained = false; std::set<std::string> cmd; uint64_t change_seq = 0; bool loaded = false; int n_act = 0; };
struct Snap
{
  std::map<std::string, CtrlSnap> c;   // alive and initialised controllers by name
  std::map<std::string, int> h;
  uint64_t cycle = 0, disturb = 0;
  int64_t t = 0;
};

struct Req
{
  int id = 0, op = 0;
  const OpPlan * plan = nullptr;
  std::string what;
  int64_t t_sent = 0, t_begin = 0, t_end = 0;
  bool sent = false, begun = false, done = false, ok = false;
  std::string msg;
  Snap pre, post;
  uint64_t seq_begin = 0, seq_end = 0, cycle_begin = 0;
  uint64_t slow_ns = 0, pre_disturb_until = 0;
  int faults = 0;
  std::set<std::string> cb_faults;                 // who.callback of faults fired during the request
  std::set<std::string> activated;                 // controllers whose activation callback ran
  std::map<std::string, std::set<std::string>> deactivated;
  bool timed_out = false;
  int64_t slow_open = 0;
  uint64_t slow0 = 0, mode0 = 0, cycle_end = 0;
  std::shared_ptr<void> resp;
};

struct FaultHit { std::string eff; int64_t arg = 0; explicit operator bool() const { return !eff.empty(); } };

struct CycleCtrl { int id; bool due; int n_act, n_deact; uint64_t n_update; bool low; };
struct HwFail { int hw; bool wr; std::string eff; std::vector<std::array<int, 3>> deps /*ctrl,n_act,n_deact*/; std::vector<int> cmd_deps; std::vector<std::array<int, 3>> active; std::vector<std::pair<int, int>> hw_st; uint64_t cycle; bool async; int ok_act; int left; std::vector<std::array<int, 2>> members /*hw,ok_act*/; };
struct CtrlFail { int ctrl; std::string eff; std::set<int> chain; std::vector<std::array<int, 3>> active; uint64_t cycle; bool async; };
struct ModeEvt { uint64_t seq, cycle; int hw; bool prep, ok; std::set<std::string> start, stop; bool in_req; };
struct Pending { uint64_t cycle; std::function<void()> f; };
struct LastCmd { double v; uint64_t cycle; int ctrl; };

struct World
{
  Plan plan;
  std::vector<std::unique_ptr<CtrlObj>> ctrls;
  std::vector<std::unique_ptr<HwObj>> hws;
  std::map<std::string, std::set<int>> holders;       // command interface -> controller objects
  std::vector<Violation> viols;
  std::map<std::string, uint64_t> probes, faults_fired, ops_done;
  std::map<std::string, int> cb_count;                // invocation counters of fault points
  // control loop
  uint64_t cycle = 0;
  int phase = 0;                                      // 0 idle 1 read 2 update 3 write
  int64_t cycle_start = -1, prev_cycle_start = -1, cycle_end = -1, period_in = 0;
  int64_t rt_spend = 0;                               // plugin time spent on the RT fiber in this cycle
  int rt_fiber = -1;
  uint64_t seq = 1;                                   // event sequence
  uint64_t disturb_seq = 0, disturb_cycle_until = 0;  // failures handled outside of requests
  uint64_t last_change_seq = 0;
  int64_t last_change_t = 0;
  uint64_t last_change_cycle = 0;
  std::vector<std::unique_ptr<Req>> reqs;
  Req * cur = nullptr;                                // request being executed by the manager
  std::map<std::string, int> obj_of_name;             // latest object loaded under the name
  bool shutting_down = false, shutdown_done = false, main_returned = false;
  bool desc_sent = false, services_up = false;
  uint64_t services_up_cycle = 0;
  std::map<std::string, uint64_t> who_failed;  // until which cycle the last failure can have consequences
  int64_t shutdown_t = 0;
  int shutdown_fiber = -1;
  uint64_t trace_hash = 1469598103934665603ull;
  std::vector<std::string> log;                       // short history for reports
  std::set<uint64_t> state_hashes;                    // distinct abstract states seen
  // activity topic
  bool have_activity = false;
  std::map<std::string, int> act_ctrl, act_hw;
  // per cycle
  std::vector<int> order;                             // controller objects in update order of this cycle
  std::set<int> fired_ctrl_fail, fired_hw_fail;
  std::vector<std::pair<std::string, int>> stat;
  std::vector<CycleCtrl> cc;                          // controllers active when the update phase began
  std::vector<HwFail> hwfail;                         // hardware failures of this cycle
  std::vector<CtrlFail> cfail;                        // controller failures of this cycle
  std::vector<ModeEvt> modes;
  std::vector<Pending> pend;
  std::map<std::string, LastCmd> last_cmd;
  std::set<std::string> tainted_hw;                   // hardware whose failure was handled at some time
  int64_t slow_until = 0;                             // end of the slow callbacks in progress
  uint64_t slow_total = 0;                            // plugin time spent in slow callbacks so far
  std::map<int, std::pair<std::string, uint64_t>> unloaded;  // objects that must be destroyed soon
  bool services_seen = false;
  uint64_t req_cycle = 0;                             // last cycle in which a request was executing
  uint64_t n_settled = 0, disturb_prev = 0, outside_switch_cycle = 0, reload_cycle = 0, mode_refused_cycle = 0;
  Req * mode_refused_req = nullptr;
  bool req_in_cycle = false;
  uint64_t other_req_cycle = 0;   // last cycle with a request that is more than an activation or a query
  uint64_t n_req_begun = 0;
  double cm_rate_min = 1e300, cm_rate_max = -1e300;
  int64_t jitter_tol = 0;
  std::vector<int> phases;
  std::vector<int64_t> cycle_main_start;
  std::set<std::string> recent_req_names;
  std::vector<std::pair<int64_t, int64_t>> simlog;    // steps of the simulated clock: time, value
  int64_t loop_prev_sim = 0, loop_prev_start = -1;    // start of the previous cycle
  int64_t grid_slack = 100000;
  int64_t loop_next = -1;                             // model of the planned start of the next cycle
  size_t simlog_from = 0;
  bool loop_prev_stepped = false;
  std::vector<HwFail> async_hwfail;
  std::vector<CtrlFail> async_cfail;
  std::map<std::string, std::vector<int64_t>> exec_times;
  std::shared_ptr<void> limits_state;
  std::string limits_why;
  std::map<std::string, std::pair<int64_t, uint64_t>> rate_param;  // update_rate set at run time: value, sequence
};
extern World * W;

void violate(const char * prop, const std::string & sig, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
void probe(const std::string & name);
void note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));  // history line
FaultHit fire(const std::string & who, const std::string & cb);
void spend(int64_t ns);  // slow plugin work
void mark_disturb(bool async);
void changed();          // some lifecycle state changed
Snap take_snap();
CtrlObj * live_ctrl(const std::string & name);
HwObj * live_hw(const std::string & name);
const HwPlan * hw_of_interface(const std::string & itf);    // component owning the interface (nullptr: none)
std::string ctrl_of_interface(const std::string & itf);     // controller exporting the interface ("" none)
bool quiet_for(const Req & r);

// hooks called by the plugins (all inside NoPreempt)
void on_ctrl_created(CtrlObj *);
void ora_assign(CtrlObj *);
void ora_release(CtrlObj *);
void ora_ctrl_lc(CtrlObj *, const char * cb, bool begin, int result);
void ora_update_begin(CtrlObj *, int64_t time_ns, int64_t period_ns);
void ora_update_end(CtrlObj *, const std::string & eff);
void ora_hw_lc(HwObj *, const char * cb, bool begin, int result, bool threw);
void ora_rw_begin(HwObj *, bool wr, int64_t time_ns, int64_t period_ns);
void ora_rw_end(HwObj *, bool wr, const std::string & eff);
void ora_mode(HwObj *, bool prepare, const std::vector<std::string> & start, const std::vector<std::string> & stop, bool ok);
// limits
void lim_set_begin(CtrlObj *, const std::string & itf, double v);
void lim_set_end(CtrlObj *, const std::string & itf, double v, bool ok, bool threw, std::optional<double> stored);
void lim_forget();
void lim_update_begin();
void lim_update_end();
void lim_write(HwObj *, const std::string & itf, double v);
// start-up
void su_publish(const std::string & text, const std::string & kind);
bool su_initialised();
int su_bad();
void su_hw_init_result(const std::string & name, bool ok);
void su_hw_created();
void su_hw_destroyed(HwObj *);
void su_hw_lc(HwObj *, const std::string & cb);
void su_deliver(const std::string & topic, const void * msg, bool begin);
void su_final();
// diagnostics
void diag_activate(CtrlObj *);
void diag_update_begin(CtrlObj *, int64_t period_ns, bool first);
void diag_update_end(CtrlObj *, const std::string & eff);
void diag_setup(const Plan &);
// control loop
void ora_phase(int phase, bool begin, int64_t time_ns, int64_t period_ns);
// requests
void ora_req_begin(Req *);
void ora_req_end(Req *);
void ora_final();
void register_plugins();
bool inside_rt();
