// One simulated run, batches of runs in forked processes, replay and minimisation.
#include "world.hpp"
#include <deque>
#include "controller_manager_msgs/msg/controller_manager_activity.hpp"
#include "controller_manager_msgs/srv/cleanup_controller.hpp"
#include "controller_manager_msgs/srv/configure_controller.hpp"
#include "controller_manager_msgs/srv/list_controller_types.hpp"
#include "controller_manager_msgs/srv/list_controllers.hpp"
#include "controller_manager_msgs/srv/list_hardware_components.hpp"
#include "controller_manager_msgs/srv/list_hardware_interfaces.hpp"
#include "controller_manager_msgs/srv/load_controller.hpp"
#include "controller_manager_msgs/srv/reload_controller_libraries.hpp"
#include "controller_manager_msgs/srv/set_hardware_component_state.hpp"
#include "controller_manager_msgs/srv/switch_controller.hpp"
#include "controller_manager_msgs/srv/unload_controller.hpp"
#include "rt_internal.hpp"
#include "simros/control.hpp"
#include "std_msgs/msg/string.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>

using simrt::NoPreempt;
using std::string;
using std::vector;
namespace cms = controller_manager_msgs::srv;
int ros2_control_node_main(int argc, char ** argv);
void handles_main();
void mock_main();
void register_mock();

// ---------------------------------------------------------------------- hooks into the real main loop
namespace rclcpp { class Time; class Duration; }
#include "controller_manager/controller_manager.hpp"
#define CMF(fn, mangled, ph)                                                                                      \
  extern "C" decltype(std::declval<controller_manager::ControllerManager>().fn(std::declval<rclcpp::Time>(), std::declval<rclcpp::Duration>())) \
  __real_##mangled(controller_manager::ControllerManager *, const rclcpp::Time &, const rclcpp::Duration &);      \
  extern "C" decltype(std::declval<controller_manager::ControllerManager>().fn(std::declval<rclcpp::Time>(), std::declval<rclcpp::Duration>())) \
  __wrap_##mangled(controller_manager::ControllerManager * cm, const rclcpp::Time & t, const rclcpp::Duration & d)
extern "C" {
void __real__ZN18controller_manager17ControllerManager4readERKN6rclcpp4TimeERKNS1_8DurationE(controller_manager::ControllerManager *, const rclcpp::Time &, const rclcpp::Duration &);
void __real__ZN18controller_manager17ControllerManager5writeERKN6rclcpp4TimeERKNS1_8DurationE(controller_manager::ControllerManager *, const rclcpp::Time &, const rclcpp::Duration &);
controller_interface::return_type __real__ZN18controller_manager17ControllerManager6updateERKN6rclcpp4TimeERKNS1_8DurationE(controller_manager::ControllerManager *, const rclcpp::Time &, const rclcpp::Duration &);
void __wrap__ZN18controller_manager17ControllerManager4readERKN6rclcpp4TimeERKNS1_8DurationE(controller_manager::ControllerManager * cm, const rclcpp::Time & t, const rclcpp::Duration & d)
{
  ora_phase(1, true, t.nanoseconds(), d.nanoseconds());
  __real__ZN18controller_manager17ControllerManager4readERKN6rclcpp4TimeERKNS1_8DurationE(cm, t, d);
  ora_phase(1, false, t.nanoseconds(), d.nanoseconds());
}
void __wrap__ZN18controller_manager17ControllerManager5writeERKN6rclcpp4TimeERKNS1_8DurationE(controller_manager::ControllerManager * cm, const rclcpp::Time & t, const rclcpp::Duration & d)
{
  ora_phase(3, true, t.nanoseconds(), d.nanoseconds());
  __real__ZN18controller_manager17ControllerManager5writeERKN6rclcpp4TimeERKNS1_8DurationE(cm, t, d);
  ora_phase(3, false, t.nanoseconds(), d.nanoseconds());
}
controller_interface::return_type __wrap__ZN18controller_manager17ControllerManager6updateERKN6rclcpp4TimeERKNS1_8DurationE(controller_manager::ControllerManager * cm, const rclcpp::Time & t, const rclcpp::Duration & d)
{
  ora_phase(2, true, t.nanoseconds(), d.nanoseconds());
  auto r = __real__ZN18controller_manager17ControllerManager6updateERKN6rclcpp4TimeERKNS1_8DurationE(cm, t, d);
  ora_phase(2, false, t.nanoseconds(), d.nanoseconds());
  return r;
}
}

namespace
{
int out_fd = -1;
bool g_log_out = false;
std::vector<simrt::Deviation> g_rec;
bool g_want_devs = false;
string g_fatal_kind, g_fatal_detail;
double g_t0 = 0;

string esc(const string & s)
{
  string r;
  for (char c : s) { if (c == '\n' || c == '\t' || c == '\r') r += ' '; else r += c; }
  return r;
}
void write_all(const string & s)
{
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = ::write(out_fd, s.data() + o, s.size() - o);
    if (n <= 0) break;
    o += static_cast<size_t>(n);
  }
}
string fatal_context(const string & stack)
{
  // innermost functions of the code under test
  std::istringstream in(stack);
  vector<string> v;
  string tok, all = stack;
  size_t p = 0;
  while (p < all.size()) {
    size_t q = all.find(" < ", p);
    string f = all.substr(p, q == string::npos ? q : q - p);
    if (f.find("controller_manager::") == 0 || f.find("hardware_interface::") == 0 || f.find("controller_interface::") == 0 || f.find("joint_limits::") == 0 || f.find("mock_components::") == 0 || f.find("bool controller_manager") == 0) v.push_back(f);
    if (q == string::npos) break;
    p = q + 3;
  }
  string r;
  for (size_t i = 0; i < v.size() && i < 2; ++i) r += (i ? "<" : "") + v[i];
  auto a = r.find('[');
  if (a != string::npos) r = r.substr(0, a);
  for (auto & c : r) if (c == ' ') c = '_';
  return r;
}
[[noreturn]] void emit_and_exit()
{
  std::ostringstream o;
  string P = W->plan.profile;
  if (!g_fatal_kind.empty()) {
    string st;
    auto p = g_fatal_detail.find(" @@ ");
    if (p != string::npos) st = g_fatal_detail.substr(p + 4);
    string ctx = g_fatal_kind == "deadlock" ? "" : fatal_context(st);
    o << "V\t" << P << "\t" << P << "/" << g_fatal_kind << (ctx.empty() ? "" : "/" + ctx) << "\t" << W->cycle << "\t" << simrt::now_ns() << "\t" << esc(g_fatal_detail) << "\n";
  }
  su_final();
  for (auto & v : W->viols) o << "V\t" << v.prop << "\t" << v.sig << "\t" << v.cycle << "\t" << v.t << "\t" << esc(v.msg) << "\n";
  for (auto & p : W->probes) o << "P\t" << p.first << "\t" << p.second << "\n";
  for (auto & p : W->faults_fired) o << "F\t" << p.first << "\t" << p.second << "\n";
  for (auto & p : W->ops_done) o << "O\t" << p.first << "\t" << p.second << "\n";
  auto & c = simrt::counters();
  o << "S\tcycles\t" << W->cycle << "\nS\tsim_ns\t" << simrt::now_ns() - 1000000000000ll << "\nS\tsteps\t" << c.steps << "\nS\tswitches\t" << c.switches << "\nS\tpreemptions\t" << c.preemptions << "\nS\tspurious\t" << c.spurious << "\nS\tsettled\t" << W->n_settled << "\nS\treqs\t" << W->reqs.size() << "\nS\twall_us\t" << static_cast<long long>((simrt::real_seconds() - g_t0) * 1e6) << "\n";
  o << "H\t" << W->trace_hash << "\t" << c.sched_hash << "\n";
  o << "Q";
  for (auto h : W->state_hashes) o << "\t" << h;
  o << "\n";
  if (g_want_devs) {
    o << "D";
    for (auto & d : g_rec) o << "\t" << d.point << ":" << d.target;
    o << "\n";
  }
  if (g_log_out) for (auto & l : W->log) o << "L\t" << esc(l) << "\n";
  o << "E\n";
  write_all(o.str());
  _exit(0);
}
void on_fatal(simrt::Fatal f, const char * d)
{
  g_fatal_kind = simrt::fatal_name(f);
  g_fatal_detail = string(d) + " [thread " + simrt::current_fiber_name() + "] @@ " + simrt::shadow_stack();
  if (f == simrt::Fatal::Deadlock || f == simrt::Fatal::TimeCap || f == simrt::Fatal::StepCap || f == simrt::Fatal::Stuck) g_fatal_detail += " || " + simrt::dump_fibers();
  if (simrt::trace_on()) simrt::tracef("FATAL %s: %s", g_fatal_kind.c_str(), g_fatal_detail.c_str());
  if (W && f == simrt::Fatal::Terminate) {
    // a process that ends because of an exception while it is being shut down is judged by C16 only
    string end;
    if (W->shutting_down && W->plan.profile != "C16") end = "terminated_while_shutting_down";
    // documented behaviour of hardware_components_initial_state.shutdown_on_initial_state_failure
    if (W->plan.shutdown_on_init_failure && g_fatal_detail.find("Failed to set the initial state of the component") != string::npos) end = "initial_state_failure_ends_process";
    if (!end.empty()) {
      g_fatal_kind.clear();
      W->probes[end]++;
    }
  }
  emit_and_exit();
}

constexpr int64_t MS = 1000000;
const string CM = "/controller_manager/";

template <class Q> std::shared_ptr<const void> mk(const std::function<void(typename Q::Request &)> & f)
{
  auto r = std::make_shared<typename Q::Request>();
  if (f) f(*r);
  return std::static_pointer_cast<const void>(std::shared_ptr<const typename Q::Request>(r));
}
string bad_description(const string & kind)
{
  Plan p = W->plan;
  if (kind == "empty") return "";
  if (kind == "garbage") return "<robot name=\"x\"><ros2_control";
  if (kind == "text") return "hello";
  if (kind == "truncated") { string s = make_urdf(p); return s.substr(0, s.size() * 2 / 3); }
  if (kind == "noplugin") { for (auto & h : p.hw) h.plugin = "sim/DoesNotExist"; return make_urdf(p); }
  if (kind == "noplugin_last") { if (!p.hw.empty()) p.hw.back().plugin = "sim/DoesNotExist"; return make_urdf(p); }
  if (kind == "limits_noplugin") {
    for (auto & h : p.hw) for (auto & j : h.joints) { j.lower *= 0.3; j.upper *= 0.3; j.velocity *= 0.4; j.effort *= 0.4; for (auto & c : j.cmd) { c.min.clear(); c.max.clear(); c.enable = true; } }
    if (!p.hw.empty()) p.hw.back().plugin = "sim/DoesNotExist";
    return make_urdf(p);
  }
  if (kind == "duphw2") {
    string s = make_urdf(p);
    auto a = s.find("<ros2_control "), b = s.find("</ros2_control>", a);
    if (a != string::npos && b != string::npos) { b += 15; string blk = s.substr(a, b - a); s.insert(b, blk); }
    return s;
  }
  if (kind == "nohw") { p.hw.clear(); return make_urdf(p); }
  if (kind == "badtype") { for (auto & h : p.hw) h.kind = "wheel"; return make_urdf(p); }
  if (kind == "badrate") { string s = make_urdf(p); auto i = s.find("<ros2_control name="); if (i != string::npos) s.insert(i + 14, "rw_rate=\"-5\" "); return s; }
  if (kind == "duphw") { if (!p.hw.empty()) p.hw.push_back(p.hw[0]); return make_urdf(p); }
  if (kind == "other") { for (auto & h : p.hw) h.name += "x"; for (auto & h : p.hw) for (auto & j : h.joints) j.name += "x"; return make_urdf(p); }
  return make_urdf(p);
}
void publish_description(const string & kind, bool latched)
{
  NoPreempt np;
  std_msgs::msg::String m;
  m.data = bad_description(kind);
  note("publish description %s", kind.c_str());
  su_publish(m.data, kind);
  simros::inject("/robot_description", m, latched);
  if (kind == "good") W->desc_sent = true;
}
string op_text(const OpPlan & o)
{
  string s = o.op;
  if (!o.str.empty()) s += " " + o.str;
  if (o.op == "sethw") s += string(" ") + state_name(static_cast<int>(o.num));
  if (o.op == "switch") {
    s += " +[";
    for (auto & x : o.a) s += x + " ";
    s += "] -[";
    for (auto & x : o.b) s += x + " ";
    s += "] strictness " + std::to_string(o.strict) + (o.asap ? " asap" : "") + " timeout " + std::to_string(o.timeout / 1000000) + "ms";
  }
  return s;
}
// sends a request and waits for its answer
void do_request(const OpPlan & op)
{
  Req * r;
  int done_obj = 0;
  std::shared_ptr<bool> answered;
  std::shared_ptr<int> key;
  {
    NoPreempt np;
    auto up = std::make_unique<Req>();
    r = up.get();
    r->id = static_cast<int>(W->reqs.size());
    r->plan = &op;
    r->what = op_text(op);
    r->t_sent = simrt::now_ns();
    W->reqs.push_back(std::move(up));
    answered = std::make_shared<bool>(false);
    key = std::make_shared<int>(0);
    (void)done_obj;
    string svc;
    std::shared_ptr<const void> q;
    if (op.op == "load") { svc = "load_controller"; q = mk<cms::LoadController>([&](auto & x) { x.name = op.str; }); }
    else if (op.op == "configure") { svc = "configure_controller"; q = mk<cms::ConfigureController>([&](auto & x) { x.name = op.str; }); }
    else if (op.op == "cleanup") { svc = "cleanup_controller"; q = mk<cms::CleanupController>([&](auto & x) { x.name = op.str; }); }
    else if (op.op == "unload") { svc = "unload_controller"; q = mk<cms::UnloadController>([&](auto & x) { x.name = op.str; }); }
    else if (op.op == "reload") { svc = "reload_controller_libraries"; q = mk<cms::ReloadControllerLibraries>([&](auto & x) { x.force_kill = op.num != 0; }); }
    else if (op.op == "listc") { svc = "list_controllers"; q = mk<cms::ListControllers>(nullptr); }
    else if (op.op == "types") { svc = "list_controller_types"; q = mk<cms::ListControllerTypes>(nullptr); }
    else if (op.op == "listh") { svc = "list_hardware_components"; q = mk<cms::ListHardwareComponents>(nullptr); }
    else if (op.op == "listi") { svc = "list_hardware_interfaces"; q = mk<cms::ListHardwareInterfaces>(nullptr); }
    else if (op.op == "sethw") { svc = "set_hardware_component_state"; q = mk<cms::SetHardwareComponentState>([&](auto & x) { x.name = op.str; x.target_state.id = static_cast<uint8_t>(op.num); }); }
    else if (op.op == "switch") {
      svc = "switch_controller";
      q = mk<cms::SwitchController>([&](auto & x) {
        x.activate_controllers = op.a;
        x.deactivate_controllers = op.b;
        x.strictness = op.strict;
        x.activate_asap = op.asap;
        x.timeout.sec = static_cast<int32_t>(op.timeout / 1000000000ll);
        x.timeout.nanosec = static_cast<uint32_t>(op.timeout % 1000000000ll);
      });
    } else return;
    auto ans = answered;
    auto k = key;
    int64_t delay = 0;
    if (op.op != "switch" && op.op != "sethw") delay = 0;
    bool sent = simros::call_service(CM + svc, q, [r, ans, k](std::shared_ptr<void> resp) {
      r->resp = resp;
      ora_req_end(r);
      *ans = true;
      simrt::wake_all(k.get());
    }, delay, [r]() { ora_req_begin(r); });
    r->sent = sent;
    if (!sent) { probe("service_absent"); r->done = true; return; }
  }
  int64_t dl = simrt::now_ns() + 40000 * MS + op.timeout;
  while (!*answered) {
    if (!simrt::wait_on(key.get(), dl, "answer") && simrt::now_ns() >= dl) break;
    if (W->main_returned) return;
  }
  NoPreempt np;
  if (!*answered && !W->shutting_down) {
    violate("C05", "unanswered-" + op.op, "request %s was not answered within 40 s; %s", r->what.c_str(), simrt::dump_fibers().c_str());
    emit_and_exit();
  }
}
void request_shutdown()
{
  {
    NoPreempt np;
    if (W->shutting_down) return;
    note("SHUTDOWN requested");
    W->shutting_down = true;
    W->shutdown_t = simrt::now_ns();
    W->shutdown_fiber = simrt::current_fiber();
    if (W->cur) probe("shutdown_during_request_" + W->cur->plan->op);
    if (W->phase) probe("shutdown_during_phase" + std::to_string(W->phase));
  }
  rclcpp::shutdown();
  NoPreempt np;
  W->shutdown_done = true;
  note("shutdown done");
}
// what an operator does after failures: bring everything back that went down
void revive(const OpPlan & op)
{
  static std::deque<OpPlan> ops;
  auto go = [&](const char * what, const string & n, int64_t num) {
    OpPlan * o;
    {
      NoPreempt np;
      ops.emplace_back();
      o = &ops.back();
      o->op = what; o->client = op.client; o->str = n; o->num = num;
      if (o->op == "switch") { o->a = {n}; o->strict = 1; o->asap = op.asap; }
    }
    do_request(*o);
  };
  vector<string> hw, conf, act;
  {
    NoPreempt np;
    probe("revive");
    for (auto & h : W->hws) if (h->alive && h->init_ok && h->st != S_ACTIVE && h->st != S_FINAL) hw.push_back(h->name);
  }
  for (auto & n : hw) go("sethw", n, 3);
  {
    NoPreempt np;
    for (auto & c : W->ctrls) if (c->alive && c->loaded && c->state() == S_UNCONF) conf.push_back(c->name);
  }
  for (auto & n : conf) go("configure", n, 0);
  {
    NoPreempt np;
    for (auto & c : W->ctrls) if (c->alive && c->loaded && c->state() == S_INACTIVE) act.push_back(c->name);
  }
  for (size_t i = act.size(); i-- > 0;) go("switch", act[(i + static_cast<size_t>(op.num)) % act.size()], 0);
  simrt::sleep_ns(25 * 1000000000ll / W->plan.update_rate);
}
void exec_op(const OpPlan & op)
{
  if (op.delay) simrt::sleep_ns(op.delay);
  if (W->shutting_down && op.op != "nop") {
    if (op.op == "shutdown") return;
  }
  if (op.op == "nop") return;
  if (op.op == "settle") { simrt::sleep_ns(op.num); return; }
  if (op.op == "jump") { NoPreempt np; note("wall clock jumps by %lld ns", static_cast<long long>(op.num)); W->faults_fired["clock:jump"]++; simrt::jump_wall(op.num); return; }
  if (op.op == "setrate") {
    NoPreempt np;
    note("update_rate of %s is set to %lld Hz", op.str.c_str(), static_cast<long long>(op.num));
    W->faults_fired["parameter:update_rate"]++;
    auto * c = live_ctrl(op.str);
    rclcpp::ParameterValue v(static_cast<int64_t>(op.num));
    if (c && c->p && c->inited) c->p->get_node()->set_parameter(rclcpp::Parameter("update_rate", v));
    simros::set_param("/" + op.str, "update_rate", v);
    W->rate_param[op.str] = {op.num, W->seq};
    return;
  }
  if (op.op == "desc") { W->faults_fired["description:" + op.str]++; publish_description(op.str, true); return; }
  if (op.op == "shutdown") { request_shutdown(); return; }
  if (op.op == "revive") { revive(op); return; }
  if (op.op == "audit") {
    static OpPlan l[3];
    const char * n[3] = {"listc", "listh", "listi"};
    for (int i = 0; i < 3; ++i) { { NoPreempt np; l[i] = OpPlan(); l[i].op = n[i]; } do_request(l[i]); }
    return;
  }
  do_request(op);
}
bool wait_services(int64_t limit)
{
  int64_t dl = simrt::now_ns() + limit;
  while (simrt::now_ns() < dl && !W->shutting_down && !W->main_returned) {
    {
      NoPreempt np;
      if (simros::service_exists(CM + "set_hardware_component_state")) { W->services_up = true; W->services_up_cycle = W->cycle; return true; }
    }
    simrt::sleep_ns(5 * MS);
  }
  return false;
}
void client_main(int id)
{
  // the plan's operations of this client in order
  for (size_t i = 0; i < W->plan.ops.size(); ++i) {
    const OpPlan & op = W->plan.ops[i];
    if (op.client != id) continue;
    if (W->main_returned) return;
    exec_op(op);
  }
}
void driver_main()
{
  std::set<int> ids, early;
  for (auto & o : W->plan.ops) (o.client >= 100 ? early : ids).insert(o.client);
  vector<int> fib;
  for (int i : early) fib.push_back(simrt::spawn(("early" + std::to_string(i)).c_str(), [i]() { client_main(i); }));
  if (W->plan.desc_at > 0) { simrt::sleep_ns(W->plan.desc_at); if (!W->plan.extra.count("nodesc")) publish_description("good", true); }
  bool up = wait_services(W->plan.run_ns);
  if (up) probe("services_up");
  if (up || W->plan.extra.count("nodesc"))
    for (int i : ids) fib.push_back(simrt::spawn(("client" + std::to_string(i)).c_str(), [i]() { client_main(i); }));
  for (int f : fib) simrt::join(f);
  if (!W->shutting_down && W->plan.final_audit && W->services_up) {
    // let things settle: at least ten cycles, more after failures of asynchronous parts
    int64_t per = 1000000000ll / W->plan.update_rate;
    simrt::sleep_ns(12 * per + MS);
    for (int k = 0; k < 400 && W->disturb_cycle_until >= W->cycle; ++k) simrt::sleep_ns(per);
    simrt::sleep_ns(8 * per);
    static OpPlan a;
    a.op = "audit";
    exec_op(a);
    simrt::sleep_ns(3 * per);
  }
  request_shutdown();
}
void monitor_main()
{
  uint64_t last = 0;
  int64_t last_t = simrt::now_ns();
  uint64_t slow = 0;
  for (;;) {
    simrt::sleep_ns(250 * MS);
    NoPreempt np;
    if (W->main_returned) return;
    int64_t now = simrt::now_ns();
    if (W->cycle != last || W->slow_total != slow) { last = W->cycle; last_t = now; slow = W->slow_total; }
    bool sim_paused = W->plan.use_sim_time;
    if (W->cycle > 0 && now - last_t > 6000 * MS && !W->shutting_down && !sim_paused) {
      violate("C05", "loop-stalled", "the control loop did not run for %.1f s; %s", static_cast<double>(now - last_t) / 1e9, simrt::dump_fibers().c_str());
      emit_and_exit();
    }
    if (W->shutting_down && now - W->shutdown_t > 15000 * MS && now - last_t > 5000 * MS) {
      violate("C16", W->shutdown_done ? "main-does-not-return" : "shutdown-hangs", "the process did not end within %.1f s after the shutdown request; %s", static_cast<double>(now - W->shutdown_t) / 1e9, simrt::dump_fibers().c_str());
      emit_and_exit();
    }
    if (W->shutting_down && now - W->shutdown_t > 60000 * MS) {
      violate("C16", W->shutdown_done ? "main-does-not-return" : "shutdown-hangs", "the process did not end within 60 s after the shutdown request; %s", simrt::dump_fibers().c_str());
      emit_and_exit();
    }
  }
}
void sim_clock_main()
{
  int64_t t = W->plan.extra.count("clock0") ? strtoll(W->plan.extra["clock0"].c_str(), nullptr, 10) : 1000000;
  int64_t step = std::max<int64_t>(W->plan.sim_step, 100000);
  int64_t real = W->plan.extra.count("clockreal") ? strtoll(W->plan.extra["clockreal"].c_str(), nullptr, 10) : step;
  simrt::sleep_ns(50 * MS);
  vector<std::array<int64_t, 3>> pauses;  // at sim time, duration, jump
  for (auto & e : W->plan.extra)
    if (e.first.rfind("clockpause.", 0) == 0) { long long a = 0, b = 0, c = 0; sscanf(e.second.c_str(), "%lld:%lld:%lld", &a, &b, &c); pauses.push_back({a, b, c}); }
  for (;;) {
    {
      NoPreempt np;
      if (W->main_returned) return;
      W->simlog.push_back({simrt::now_ns(), t});
      simros::set_sim_clock(t);
    }
    simrt::sleep_ns(real);
    t += step;
    for (auto & p : pauses)
      if (p[1] && t >= p[0]) {
        { NoPreempt np; note("simulated clock pauses at %lld", static_cast<long long>(t)); W->faults_fired["clock:pause"]++; }
        simrt::sleep_ns(p[1]);
        t += p[2];
        p[1] = 0;
      }
  }
}
void set_params(const Plan & p)
{
  auto P = [&](const string & n, const rclcpp::ParameterValue & v) { simros::set_param("/controller_manager", n, v); };
  P("update_rate", rclcpp::ParameterValue(static_cast<int64_t>(p.update_rate)));
  P("enforce_command_limits", rclcpp::ParameterValue(p.enforce_limits));
  P("handle_exceptions", rclcpp::ParameterValue(p.handle_exceptions));
  vector<string> un, in;
  for (auto & h : p.hw) { if (h.initial == "unconfigured") un.push_back(h.name); if (h.initial == "inactive") in.push_back(h.name); }
  P("hardware_components_initial_state.unconfigured", rclcpp::ParameterValue(un));
  P("hardware_components_initial_state.inactive", rclcpp::ParameterValue(in));
  P("hardware_components_initial_state.shutdown_on_initial_state_failure", rclcpp::ParameterValue(p.shutdown_on_init_failure));
  P("defaults.switch_controller.strictness", rclcpp::ParameterValue(p.default_strictness));
  P("defaults.allow_controller_activation_with_inactive_hardware", rclcpp::ParameterValue(p.allow_inactive_hw));
  P("defaults.deactivate_controllers_on_hardware_self_deactivate", rclcpp::ParameterValue(p.deact_on_self));
  P("overruns.manage", rclcpp::ParameterValue(p.manage_overruns));
  P("hardware_synchronization.expect_blocking_read_write", rclcpp::ParameterValue(p.expect_blocking));
  P("hardware_synchronization.minimum_cycle_time", rclcpp::ParameterValue(p.min_cycle));
  if (p.use_sim_time) P("use_sim_time", rclcpp::ParameterValue(true));
  for (auto & c : p.ctrl) {
    if (!c.type.empty()) P(c.name + ".type", rclcpp::ParameterValue(c.type));
    if (!c.fallbacks.empty()) P(c.name + ".fallback_controllers", rclcpp::ParameterValue(c.fallbacks));
    if (c.rate > 0) simros::set_param("/" + c.name, "update_rate", rclcpp::ParameterValue(static_cast<int64_t>(c.rate)));
    if (c.is_async) simros::set_param("/" + c.name, "is_async", rclcpp::ParameterValue(true));
  }
}
// runs the plan in this process; never returns
[[noreturn]] void run_plan(const Plan & plan)
{
  g_t0 = simrt::real_seconds();
  W = new World();
  W->plan = plan;
  if (plan.sched.wake_latency_max_ns) W->jitter_tol = static_cast<int64_t>(plan.sched.wake_latency_max_ns);
  simrt::set_fatal_handler(&on_fatal);
  static std::vector<simrt::Deviation> devs;
  devs = plan.devs;
  if (plan.has_devs) simrt::replay_schedule(&devs);
  else if (g_want_devs) simrt::record_schedule(&g_rec);
  register_plugins();
  simros::set_introspect_all(plan.introspect);
  simros::set_executor_threads(static_cast<size_t>(plan.exec_threads));
  simros::set_rt(false, true);
  set_params(plan);
  diag_setup(plan);
  simros::set_topic_hook([](const string & topic, const char *, const void * m) {
    if (topic != "/controller_manager/activity") return;
    auto & a = *static_cast<const controller_manager_msgs::msg::ControllerManagerActivity *>(m);
    NoPreempt np;
    W->act_ctrl.clear();
    W->act_hw.clear();
    for (auto & c : a.controllers) W->act_ctrl[c.name] = c.state.id;
    for (auto & c : a.hardware_components) W->act_hw[c.name] = c.state.id;
    W->have_activity = true;
  });
  simros::set_deliver_hook(su_deliver);
  simros::set_log_hook([](int lvl, const char *, const char * msg) {
    if (simrt::trace_on() && lvl >= 20) simrt::tracef("    [log %d %s] %s", lvl, simrt::current_fiber_name(), msg);
  });
  if (plan.profile == "C15") {
    simrt::run(plan.sched, plan.sched_seed, plan.work_seed, handles_main);
    emit_and_exit();
  }
  if (plan.profile == "C21") {
    register_mock();
    simrt::run(plan.sched, plan.sched_seed, plan.work_seed, mock_main);
    emit_and_exit();
  }
  simrt::run(plan.sched, plan.sched_seed, plan.work_seed, []() {
    if (W->plan.desc_at == 0 && !W->plan.extra.count("nodesc")) publish_description("good", true);
    if (W->plan.use_sim_time) simrt::spawn("simclock", sim_clock_main);
    simrt::spawn("driver", driver_main);
    simrt::spawn("monitor", monitor_main);
    if (W->plan.shutdown_at >= 0) simrt::spawn("killer", []() { simrt::sleep_ns(W->plan.shutdown_at); request_shutdown(); });
    static char a0[] = "ros2_control_node";
    static char * av[] = {a0, nullptr};
    simrt::set_next_fiber_name("rt");
    try {
      ros2_control_node_main(1, av);
    } catch (const std::exception & e) {
      NoPreempt np;
      note("main ends with exception %s", e.what());
      if (W->plan.shutdown_on_init_failure) probe("main_exception");
      else violate(W->plan.profile.c_str(), "main-exception", "main ends with exception %s", e.what());
    }
    NoPreempt np;
    W->main_returned = true;
    note("main returned");
    if (W->shutting_down && W->shutdown_t > 0) {
      int64_t took = simrt::now_ns() - W->shutdown_t - static_cast<int64_t>(W->slow_total);
      if (took > 5000 * MS && !W->plan.use_sim_time) violate("C16", "shutdown-slow", "process end took %.2f s after the shutdown request", static_cast<double>(took) / 1e9);
    }
    ora_final();
  });
  emit_and_exit();
}

// ---------------------------------------------------------------------- results
struct Result
{
  bool complete = false, killed = false;
  vector<Violation> v;
  std::map<string, uint64_t> p, f, o, s;
  uint64_t h1 = 0, h2 = 0;
  vector<uint64_t> q;
  vector<simrt::Deviation> devs;
  vector<string> log;
};
Result parse_result(const string & t)
{
  Result r;
  std::istringstream in(t);
  string line;
  while (std::getline(in, line)) {
    vector<string> f;
    size_t p = 0;
    for (;;) { size_t q = line.find('\t', p); f.push_back(line.substr(p, q == string::npos ? q : q - p)); if (q == string::npos) break; p = q + 1; }
    if (f[0] == "V" && f.size() >= 6) r.v.push_back({f[1], f[2], f[5], strtoll(f[4].c_str(), nullptr, 10), strtoull(f[3].c_str(), nullptr, 10)});
    else if (f[0] == "P") r.p[f[1]] = strtoull(f[2].c_str(), nullptr, 10);
    else if (f[0] == "F") r.f[f[1]] = strtoull(f[2].c_str(), nullptr, 10);
    else if (f[0] == "O") r.o[f[1]] = strtoull(f[2].c_str(), nullptr, 10);
    else if (f[0] == "S") r.s[f[1]] = strtoull(f[2].c_str(), nullptr, 10);
    else if (f[0] == "H") { r.h1 = strtoull(f[1].c_str(), nullptr, 10); r.h2 = strtoull(f[2].c_str(), nullptr, 10); }
    else if (f[0] == "Q") for (size_t i = 1; i < f.size(); ++i) r.q.push_back(strtoull(f[i].c_str(), nullptr, 10));
    else if (f[0] == "D") for (size_t i = 1; i < f.size(); ++i) { auto c = f[i].find(':'); r.devs.push_back({strtoull(f[i].c_str(), nullptr, 10), atoi(f[i].c_str() + c + 1)}); }
    else if (f[0] == "L") r.log.push_back(f.size() > 1 ? f[1] : "");
    else if (f[0] == "E") r.complete = true;
  }
  return r;
}
struct Child { pid_t pid = -1; int fd = -1; string buf; double t0 = 0; size_t tag = 0; };
// runs jobs(i) in forked children, at most n at a time; done(i, result) in order of completion
void pool(size_t n, const std::function<bool(size_t, Plan &)> & next, const std::function<bool(size_t, Result &&)> & done, double kill_s, bool want_devs = false, bool want_log = false, bool trace = false)
{
  vector<Child> act;
  size_t idx = 0;
  bool more = true;
  for (;;) {
    while (more && act.size() < n) {
      Plan p;
      if (!next(idx, p)) { more = false; break; }
      int fd[2];
      if (pipe(fd)) abort();
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        close(fd[0]);
        for (auto & c : act) close(c.fd);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        out_fd = fd[1];
        g_want_devs = want_devs;
        g_log_out = want_log;
        if (trace) simrt::trace_enable(true);
        run_plan(p);
      }
      close(fd[1]);
      Child c;
      c.pid = pid; c.fd = fd[0]; c.t0 = simrt::real_seconds(); c.tag = idx++;
      act.push_back(c);
    }
    if (act.empty()) return;
    vector<pollfd> pf;
    for (auto & c : act) pf.push_back({c.fd, POLLIN, 0});
    ::poll(pf.data(), pf.size(), 200);
    for (size_t i = act.size(); i-- > 0;) {
      Child & c = act[i];
      bool fin = false, killed = false;
      if (pf[i].revents) {
        char b[65536];
        ssize_t k = ::read(c.fd, b, sizeof b);
        if (k > 0) c.buf.append(b, static_cast<size_t>(k));
        else fin = true;
      }
      if (!fin && simrt::real_seconds() - c.t0 > kill_s) { kill(c.pid, SIGKILL); fin = killed = true; }
      if (fin) {
        close(c.fd);
        int st;
        waitpid(c.pid, &st, 0);
        Result r = parse_result(c.buf);
        r.killed = killed;
        size_t tag = c.tag;
        act.erase(act.begin() + static_cast<long>(i));
        if (!done(tag, std::move(r))) more = false;
      }
    }
  }
}
Result run_once(const Plan & p, bool devs = false, bool log = false, bool trace = false)
{
  Result out;
  pool(1, [&](size_t i, Plan & x) { if (i) return false; x = p; return true; }, [&](size_t, Result && r) { out = std::move(r); return true; }, 120, devs, log, trace);
  return out;
}
const Violation * find_sig(const Result & r, const string & sig)
{
  for (auto & v : r.v) if (v.sig == sig) return &v;
  return nullptr;
}
string js(const string & s)
{
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}
string js(const std::map<string, uint64_t> & m)
{
  string r = "{";
  for (auto & x : m) r += (r.size() > 1 ? "," : "") + js(x.first) + ":" + std::to_string(x.second);
  return r + "}";
}
string read_file(const string & p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

// ---------------------------------------------------------------------- minimisation
struct Mini
{
  Plan best;
  string sig;
  size_t workers = 8;
  double deadline = 0;
  int tries = 0;
  bool time_left() { return simrt::real_seconds() < deadline; }
  // evaluates candidates in parallel, takes the first (lowest index) that still fails
  bool take_first(const vector<Plan> & cand)
  {
    if (cand.empty() || !time_left()) return false;
    size_t best_i = cand.size();
    pool(workers, [&](size_t i, Plan & p) { if (i >= cand.size() || best_i != cand.size() || !time_left()) return false; p = cand[i]; return true; },
      [&](size_t i, Result && r) { tries++; if (find_sig(r, sig) && i < best_i) best_i = i; return true; }, 30);
    if (best_i == cand.size()) return false;
    best = cand[best_i];
    return true;
  }
  template <class T> void ddmin(vector<T> Plan::*m)
  {
    size_t n = 2;
    while ((best.*m).size() >= 1 && time_left()) {
      size_t len = (best.*m).size();
      n = std::min(n, len);
      size_t ch = (len + n - 1) / n;
      vector<Plan> c;
      for (size_t s = 0; s < len; s += ch) {
        Plan p = best;
        auto & v = p.*m;
        v.erase(v.begin() + static_cast<long>(s), v.begin() + static_cast<long>(std::min(len, s + ch)));
        c.push_back(p);
      }
      if (take_first(c)) { n = std::max<size_t>(2, n - 1); continue; }
      if (ch == 1) break;
      n = std::min(len, n * 2);
    }
  }
  void run()
  {
    for (int round = 0; round < 2 && time_left(); ++round) {
      ddmin(&Plan::ops);
      ddmin(&Plan::faults);
      if (round == 0) {
        // simpler environment
        vector<std::function<void(Plan &)>> simp = {
          [](Plan & p) { p.sched.preempt_mean = 0; }, [](Plan & p) { p.sched.spurious_wake_prob = 0; }, [](Plan & p) { p.sched.wake_latency_max_ns = 0; },
          [](Plan & p) { p.sched.policy = simrt::SchedPolicy::Sticky; }, [](Plan & p) { p.sched.sync_switch_prob = 0.02; }, [](Plan & p) { p.exec_threads = 2; },
          [](Plan & p) { p.introspect = false; }, [](Plan & p) { p.enforce_limits = false; },
          [](Plan & p) { for (auto & o : p.ops) o.client = o.client >= 100 ? o.client : 0; }};
        for (auto & f : simp) { Plan p = best; f(p); take_first({p}); }
        // controllers and hardware not mentioned
        for (size_t i = best.ctrl.size(); i-- > 0 && time_left();) { Plan p = best; p.ctrl.erase(p.ctrl.begin() + static_cast<long>(i)); take_first({p}); }
        for (size_t i = best.hw.size(); i-- > 0 && time_left();) { if (best.hw.size() == 1) break; Plan p = best; p.hw.erase(p.hw.begin() + static_cast<long>(i)); take_first({p}); }
      }
    }
    // explicit schedule
    Result r = run_once(best, true);
    if (!find_sig(r, sig)) return;
    Plan p = best;
    p.has_devs = true;
    p.devs = r.devs;
    Result r2 = run_once(p);
    if (!find_sig(r2, sig)) return;  // keep the seeded form
    best = p;
    ddmin(&Plan::devs);
  }
};
}  // namespace

int main(int argc, char ** argv)
{
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(ADDR_NO_RANDOMIZE | static_cast<unsigned long>(personality(0xffffffff))) >= 0 && !getenv("SIM_REEXEC")) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  signal(SIGPIPE, SIG_IGN);
  std::map<string, string> o;
  string cmd = argc > 1 ? argv[1] : "";
  vector<string> pos;
  for (int i = 2; i < argc; ++i) {
    string a = argv[i];
    if (a.rfind("--", 0) == 0) { if (i + 1 < argc && string(argv[i + 1]).rfind("--", 0) != 0) { o[a.substr(2)] = argv[i + 1]; ++i; } else o[a.substr(2)] = "1"; }
    else pos.push_back(a);
  }
  auto num = [&](const string & k, long long d) { return o.count(k) ? strtoll(o[k].c_str(), nullptr, 10) : d; };
  size_t workers = static_cast<size_t>(num("workers", 8));
  if (cmd == "plan") { std::cout << generate(o["profile"], static_cast<uint64_t>(num("seed", 1))).text(); return 0; }
  if (cmd == "run" || cmd == "replay") {
    Plan p = cmd == "run" ? generate(o["profile"], static_cast<uint64_t>(num("seed", 1))) : Plan::parse(read_file(pos.at(0)));
    Result r = run_once(p, false, o.count("log") > 0, o.count("trace") > 0);
    if (!r.complete) { printf("INCOMPLETE\n"); return 3; }
    for (auto & l : r.log) printf("%s\n", l.c_str());
    for (auto & v : r.v) printf("VIOL %s [cycle %llu t %.6f] %s\n", v.sig.c_str(), static_cast<unsigned long long>(v.cycle), static_cast<double>(v.t - 1000000000000ll) / 1e9, v.msg.c_str());
    if (o.count("stats")) printf("stats %s\nprobes %s\nfaults %s\nops %s\n", js(r.s).c_str(), js(r.p).c_str(), js(r.f).c_str(), js(r.o).c_str());
    printf("HASH %llu %llu\n", static_cast<unsigned long long>(r.h1), static_cast<unsigned long long>(r.h2));
    if (o.count("sig")) return find_sig(r, o["sig"]) ? 1 : 0;
    return r.v.empty() ? 0 : 1;
  }
  if (cmd == "minimize") {
    Mini m;
    m.best = pos.empty() ? generate(o["profile"], static_cast<uint64_t>(num("seed", 1))) : Plan::parse(read_file(pos[0]));
    m.sig = o["sig"];
    m.workers = workers;
    m.deadline = simrt::real_seconds() + static_cast<double>(num("wall", 60));
    Result r0 = run_once(m.best);
    if (!find_sig(r0, m.sig)) { fprintf(stderr, "does not reproduce\n"); return 3; }
    Plan orig = m.best;
    m.run();
    Result r = run_once(m.best, false, true);
    if (!find_sig(r, m.sig)) { m.best = orig; r = run_once(orig, false, true); }
    std::ostringstream f;
    f << "# violation " << m.sig << "\n# " << (find_sig(r, m.sig) ? find_sig(r, m.sig)->msg : "") << "\n# profile " << m.best.profile << " seed " << m.best.seed << "\n# expect_hash " << r.h1 << " " << r.h2 << "\n# minimised in " << m.tries << " runs: " << m.best.ops.size() << " operations, " << m.best.faults.size() << " faults, " << (m.best.has_devs ? std::to_string(m.best.devs.size()) + " schedule deviations" : string("seeded schedule")) << "\n" << m.best.text() << "end\n# history of the failing run\n";
    for (auto & l : r.log) f << "# " << l << "\n";
    if (o.count("out")) { std::ofstream out(o["out"]); out << f.str(); } else std::cout << f.str();
    return 0;
  }
  if (cmd == "batch") {
    // runs seeds from..from+count-1, prints one JSON object
    uint64_t from = static_cast<uint64_t>(num("from", 1)), count = static_cast<uint64_t>(num("count", 100));
    double wall = static_cast<double>(num("wall", 600)), t0 = simrt::real_seconds();
    string profile = o["profile"];
    std::map<string, uint64_t> P, F, O, S, sigs;
    struct First { uint64_t seed; string msg, prop; };
    std::map<string, First> first;
    std::set<uint64_t> states, scheds;
    std::set<string> cases;
    uint64_t runs = 0, incomplete = 0, killed = 0, hash = 0;
    vector<uint64_t> inc;
    pool(workers, [&](size_t i, Plan & p) {
      if (i >= count || simrt::real_seconds() - t0 > wall) return false;
      p = generate(profile, from + i);
      return true;
    }, [&](size_t i, Result && r) {
      runs++;
      if (r.killed) killed++;
      if (!r.complete) { incomplete++; inc.push_back(from + i); return true; }
      for (auto & x : r.p) P[x.first] += x.second;
      for (auto & x : r.f) F[x.first] += x.second;
      for (auto & x : r.o) O[x.first] += x.second;
      for (auto & x : r.s) S[x.first] += x.second;
      states.insert(r.q.begin(), r.q.end());
      scheds.insert(r.h2);
      uint64_t z = (r.h1 ^ r.h2) + 0x9E3779B97F4A7C15ull * (from + i);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      hash += z;
      std::set<string> seen;
      for (auto & v : r.v) {
        if (!seen.insert(v.sig).second) continue;
        sigs[v.sig]++;
        auto it = first.find(v.sig);
        if (it == first.end() || from + i < it->second.seed) first[v.sig] = {from + i, v.msg, v.prop};
      }
      if (o.count("hashes")) fprintf(stderr, "%llu %llu %llu\n", static_cast<unsigned long long>(from + i), static_cast<unsigned long long>(r.h1), static_cast<unsigned long long>(r.h2));
      return true;
    }, static_cast<double>(num("kill", 60)));
    if (o.count("dump")) {
      std::ofstream d(o["dump"], std::ios::binary);
      for (auto h : scheds) d.write(reinterpret_cast<const char *>(&h), 8);
      uint64_t sep = 0;
      d.write(reinterpret_cast<const char *>(&sep), 8);
      for (auto h : states) d.write(reinterpret_cast<const char *>(&h), 8);
    }
    printf("{\"runs\":%llu,\"incomplete\":%llu,\"killed\":%llu,\"wall_s\":%.2f,\"states\":%zu,\"schedules\":%zu,\"hash\":\"%llx\",\n\"stats\":%s,\n\"probes\":%s,\n\"faults\":%s,\n\"ops\":%s,\n\"violations\":[", static_cast<unsigned long long>(runs), static_cast<unsigned long long>(incomplete), static_cast<unsigned long long>(killed), simrt::real_seconds() - t0, states.size(), scheds.size(), static_cast<unsigned long long>(hash), js(S).c_str(), js(P).c_str(), js(F).c_str(), js(O).c_str());
    bool c = false;
    for (auto & x : first) { printf("%s\n{\"sig\":%s,\"prop\":%s,\"seed\":%llu,\"count\":%llu,\"msg\":%s}", c ? "," : "", js(x.first).c_str(), js(x.second.prop).c_str(), static_cast<unsigned long long>(x.second.seed), static_cast<unsigned long long>(sigs[x.first]), js(x.second.msg).c_str()); c = true; }
    printf("],\"incomplete_seeds\":[");
    for (size_t i = 0; i < inc.size(); ++i) printf("%s%llu", i ? "," : "", static_cast<unsigned long long>(inc[i]));
    printf("]}\n");
    return 0;
  }
  fprintf(stderr, "usage: sim run|replay|batch|minimize|plan\n");
  return 2;
}
