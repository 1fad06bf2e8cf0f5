// Implementation of the simulated ROS graph.
#include "simros/control.hpp"
#include "realtime_tools/realtime_helpers.hpp"
#include "pal_statistics/pal_statistics_utils.hpp"
#include "rt.hpp"
#include <stdarg.h>

using simrt::NoPreempt;

namespace simros
{
namespace
{
struct Graph
{
  std::vector<std::weak_ptr<Entity>> entities;
  std::vector<std::weak_ptr<SubBase>> subs;
  std::vector<std::weak_ptr<ServiceBase>> services;
  struct Latched { const char * type; std::shared_ptr<const void> msg; };
  std::map<std::string, Latched> latched;
  std::map<std::string, std::map<std::string, rclcpp::ParameterValue>> overrides;
  std::vector<rclcpp::NodeFacade *> nodes;
  std::function<void(int, const char *, const char *)> log_hook;
  std::function<void(const std::string &, const char *, const void *)> topic_hook;
  std::function<void(const std::string &)> create_hook;
  std::function<void(const std::string &, const void *, bool)> deliver_hook;
  std::function<void(const char *, const std::string &)> exec_hook;
  std::map<const void *, int64_t> throttles;
  int64_t sim_clock = 0;
  bool rtk = false, sched = true;
  size_t exec_threads = 4;
  bool introspect_all = false;
};
Graph & g() { static Graph * x = new Graph; return *x; }
char exec_obj, clock_obj;
}  // namespace

void set_log_hook(std::function<void(int, const char *, const char *)> f) { g().log_hook = f; }
void set_topic_hook(std::function<void(const std::string &, const char *, const void *)> f) { g().topic_hook = f; }
void set_deliver_hook(std::function<void(const std::string &, const void *, bool)> f) { g().deliver_hook = f; }
void set_create_hook(std::function<void(const std::string &)> f) { g().create_hook = f; }
void set_exec_hook(std::function<void(const char *, const std::string &)> f) { g().exec_hook = f; }
std::vector<rclcpp::NodeFacade *> nodes() { return g().nodes; }
void set_rt(bool k, bool s) { g().rtk = k; g().sched = s; }
bool rt_kernel() { return g().rtk; }
bool sched_ok() { return g().sched; }
void set_executor_threads(size_t n) { g().exec_threads = n; }
void set_introspect_all(bool b) { g().introspect_all = b; }
void name_next_thread(const char * n) { simrt::set_next_fiber_name(n); }
int64_t get_sim_clock() { return g().sim_clock; }
void set_sim_clock(int64_t ns) { g().sim_clock = ns; simrt::wake_all(&clock_obj); }
void set_param(const std::string & fqn, const std::string & n, const rclcpp::ParameterValue & v) { g().overrides[fqn][n] = v; }

void log_write(int level, const char * logger, const char * fmt, ...)
{
  NoPreempt np;
  static char buf[16384];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (simrt::trace_on()) simrt::tracef("  [%s] [%s] %s", level >= 50 ? "FATAL" : level >= 40 ? "ERROR" : level >= 30 ? "WARN" : "INFO", logger ? logger : "", buf);
  if (g().log_hook) g().log_hook(level, logger ? logger : "", buf);
}
bool log_throttle(const void * site, double ms)
{
  NoPreempt np;
  auto it = g().throttles.find(site);
  int64_t n = simrt::now_ns();
  if (it != g().throttles.end() && n - it->second < static_cast<int64_t>(ms * 1e6)) return false;
  g().throttles[site] = n;
  return true;
}
int64_t clock_ns(rcl_clock_type_t type, bool sim_time)
{
  if (type == RCL_ROS_TIME && sim_time) return g().sim_clock;
  timespec ts;
  clock_gettime(type == RCL_STEADY_TIME ? CLOCK_MONOTONIC : CLOCK_REALTIME, &ts);
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
std::string resolve_topic(const NodeCore & n, const std::string & t)
{
  if (t.rfind("~/", 0) == 0) return n.fqn() + "/" + t.substr(2);
  if (!t.empty() && t[0] == '/') return t;
  return (n.ns.empty() || n.ns == "/" ? "/" : (n.ns[0] == '/' ? n.ns : "/" + n.ns) + "/") + t;
}
void register_entity(const std::shared_ptr<Entity> & e)
{
  NoPreempt np;
  auto & v = g().entities;
  v.erase(std::remove_if(v.begin(), v.end(), [](auto & w) { return w.expired(); }), v.end());
  v.push_back(e);
}
void push_item(const std::shared_ptr<Entity> & e, std::function<void()> fn, int64_t delay)
{
  NoPreempt np;
  e->queue.push_back({simrt::now_ns() + delay, std::move(fn)});
  simrt::wake_all(&exec_obj);
}
size_t pending_items()
{
  NoPreempt np;
  size_t n = 0;
  for (auto & w : g().entities)
    if (auto e = w.lock()) n += e->queue.size();
  return n;
}
static void deliver_to(const std::weak_ptr<SubBase> & ws, const std::shared_ptr<const void> & copy)
{
  auto s = ws.lock();
  if (!s) return;
  if (g().deliver_hook) g().deliver_hook(s->topic, copy.get(), true);
  s->deliver(copy);
  if (g().deliver_hook) g().deliver_hook(s->topic, copy.get(), false);
}
void topic_publish(const std::string & topic, const char * type, const void * msg, bool latched, std::shared_ptr<const void> copy)
{
  NoPreempt np;
  if (g().topic_hook) g().topic_hook(topic, type, msg);
  if (latched) g().latched[topic] = {type, copy};
  for (auto & w : g().subs) {
    auto s = w.lock();
    if (s && s->topic == topic && !strcmp(s->type, type)) {
      std::weak_ptr<SubBase> ws = s;
      push_item(s, [ws, copy]() { deliver_to(ws, copy); });
    }
  }
}
void topic_subscribe(const std::shared_ptr<SubBase> & s)
{
  NoPreempt np;
  register_entity(s);
  g().subs.push_back(s);
  auto it = g().latched.find(s->topic);
  if (it != g().latched.end() && !strcmp(it->second.type, s->type)) {
    std::weak_ptr<SubBase> ws = s;
    auto copy = it->second.msg;
    push_item(s, [ws, copy]() { deliver_to(ws, copy); });
  }
}
void service_register(const std::shared_ptr<ServiceBase> & s)
{
  NoPreempt np;
  register_entity(s);
  g().services.push_back(s);
}
bool service_exists(const std::string & name)
{
  NoPreempt np;
  for (auto & w : g().services)
    if (auto s = w.lock())
      if (s->service_name == name) return true;
  return false;
}
bool call_service(const std::string & name, std::shared_ptr<const void> req, std::function<void(std::shared_ptr<void>)> done, int64_t delay, std::function<void()> pre)
{
  NoPreempt np;
  for (auto & w : g().services) {
    auto s = w.lock();
    if (s && s->service_name == name) {
      std::weak_ptr<ServiceBase> ws = s;
      push_item(s, [ws, req, done, pre]() {
        auto s2 = ws.lock();
        if (!s2) return;
        if (pre) { NoPreempt np3; pre(); }
        auto r = s2->invoke(req);
        NoPreempt np2;
        done(r);
      }, delay);
      return true;
    }
  }
  return false;
}
NodeCore::~NodeCore() {}
std::shared_ptr<NodeCore> make_node(const std::string & name, const std::string & ns, const rclcpp::NodeOptions & o)
{
  NoPreempt np;
  auto c = std::make_shared<NodeCore>();
  c->name = name;
  c->ns = ns;
  std::string ln = c->fqn().substr(1);
  for (auto & ch : ln) if (ch == '/') ch = '.';
  c->logger = rclcpp::Logger(ln);
  c->clock = std::make_shared<rclcpp::Clock>(RCL_ROS_TIME);
  c->allow_undeclared = o.allow_undeclared_parameters();
  c->default_group = std::make_shared<rclcpp::CallbackGroup>(rclcpp::CallbackGroupType::MutuallyExclusive);
  auto it = g().overrides.find(c->fqn());
  if (it != g().overrides.end()) c->overrides = it->second;
  for (auto & p : o.parameter_overrides()) c->overrides[p.get_name()] = p.get_parameter_value();
  const auto & a = o.arguments();
  for (size_t i = 0; i + 1 < a.size(); ++i) {
    if (a[i] == RCL_PARAM_FLAG || a[i] == RCL_SHORT_PARAM_FLAG) {
      auto p = a[i + 1].find(":=");
      if (p == std::string::npos) continue;
      std::string n = a[i + 1].substr(0, p), v = a[i + 1].substr(p + 2);
      if (v == "true" || v == "false") c->overrides[n] = rclcpp::ParameterValue(v == "true");
    }
  }
  bool st = false;
  auto ov = c->overrides.find("use_sim_time");
  if (ov != c->overrides.end() && ov->second.get_type() == rclcpp::PARAMETER_BOOL) st = ov->second.get<bool>();
  c->clock->sim_time_ = st;
  c->params["use_sim_time"] = rclcpp::Parameter("use_sim_time", rclcpp::ParameterValue(st));
  if (o.automatically_declare_parameters_from_overrides())
    for (auto & e : c->overrides) c->params[e.first] = rclcpp::Parameter(e.first, e.second);
  return c;
}
}  // namespace simros

namespace pluginlib
{
std::map<std::pair<std::type_index, std::string>, std::function<void *()>> & Registry::get()
{
  static auto * m = new std::map<std::pair<std::type_index, std::string>, std::function<void *()>>();
  return *m;
}
void before_create(const std::string & c) { if (simros::g().create_hook) simros::g().create_hook(c); }
}  // namespace pluginlib

namespace rclcpp
{
namespace contexts
{
std::shared_ptr<Context> get_global_default_context()
{
  static std::shared_ptr<Context> * c = new std::shared_ptr<Context>(std::make_shared<Context>());
  return *c;
}
}  // namespace contexts
PreShutdownCallbackHandle Context::add_pre_shutdown_callback(std::function<void()> cb)
{
  auto p = std::make_shared<std::function<void()>>(std::move(cb));
  std::lock_guard<std::mutex> l(pre_mtx_);
  pre_.push_back(p);
  PreShutdownCallbackHandle h;
  h.cb = p;
  return h;
}
bool Context::remove_pre_shutdown_callback(const PreShutdownCallbackHandle & h)
{
  auto p = h.cb.lock();
  if (!p) return false;
  std::lock_guard<std::mutex> l(pre_mtx_);
  auto it = std::find(pre_.begin(), pre_.end(), p);
  if (it == pre_.end()) return false;
  pre_.erase(it);
  return true;
}
bool Context::shutdown(const std::string & reason)
{
  while (shutting_down_) { simrt::yield_point(); if (!valid_) return false; }
  if (!valid_) return false;
  shutting_down_ = true;
  std::vector<std::shared_ptr<std::function<void()>>> v;
  {
    std::lock_guard<std::mutex> l(pre_mtx_);
    v = pre_;
  }
  for (auto & f : v) (*f)();
  shutdown_reason_ = reason;
  valid_ = false;
  shutting_down_ = false;
  simrt::wake_all(&simros::exec_obj);
  simrt::wake_all(&simros::clock_obj);
  return true;
}
void init(int, char const * const *) { contexts::get_global_default_context()->valid_ = true; }
bool ok(std::shared_ptr<Context> c)
{
  if (!c) c = contexts::get_global_default_context();
  simrt::yield_point();
  return c->is_valid();
}
bool shutdown(std::shared_ptr<Context> c, const std::string & r)
{
  if (!c) c = contexts::get_global_default_context();
  return c->shutdown(r);
}

bool Clock::started()
{
  simrt::yield_point();
  if (ros_time_is_active()) return simros::g().sim_clock > 0;
  return true;
}
bool Clock::wait_until_started(std::shared_ptr<Context> c)
{
  if (!c || !c->is_valid()) throw std::runtime_error("context cannot be slept with because it's invalid");
  while (!started()) {
    if (!c->is_valid()) return false;
    simrt::wait_on(&simros::clock_obj, -1, "sim-clock");
  }
  return true;
}
bool Clock::sleep_until(Time until, std::shared_ptr<Context> c)
{
  if (!c || !c->is_valid()) throw std::runtime_error("context cannot be slept with because it's invalid");
  if (until.get_clock_type() != type_) throw std::runtime_error("until's clock type does not match this clock's type");
  bool active = ros_time_is_active();
  if (active) {
    while (simros::g().sim_clock < until.nanoseconds()) {
      if (!c->is_valid()) return false;
      simrt::wait_on(&simros::clock_obj, -1, "sim-clock");
    }
    return true;
  }
  int64_t off = type_ == RCL_STEADY_TIME ? 0 : simrt::wall_ns() - simrt::now_ns();
  int64_t dl = until.nanoseconds() - off;
  while (simrt::now_ns() < dl) {
    if (!c->is_valid()) return false;
    simrt::wait_on(&simros::clock_obj, dl, "clock-sleep");
    off = type_ == RCL_STEADY_TIME ? 0 : simrt::wall_ns() - simrt::now_ns();
    dl = until.nanoseconds() - off;
  }
  simrt::yield_point();
  return now() >= until;
}
bool Clock::sleep_for(Duration d, std::shared_ptr<Context> c) { return sleep_until(now() + d, c); }

namespace node_interfaces
{
bool NodeParametersInterface::has_parameter(const std::string & n) const
{
  std::lock_guard<std::recursive_mutex> l(core->mtx);
  return core->params.count(n) > 0;
}
const ParameterValue & NodeParametersInterface::declare_parameter(const std::string & n, const ParameterValue & v, const rcl_interfaces::msg::ParameterDescriptor & d, bool ignore_override)
{
  std::lock_guard<std::recursive_mutex> l(core->mtx);
  if (n.empty()) throw exceptions::InvalidParametersException("parameter name must not be empty");
  if (core->params.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
  ParameterValue val = v;
  auto it = core->overrides.find(n);
  if (!ignore_override && it != core->overrides.end()) {
    if (v.get_type() != PARAMETER_NOT_SET && v.get_type() != it->second.get_type() && !d.dynamic_typing) throw exceptions::InvalidParameterTypeException(n, "override has the wrong type");
    val = it->second;
  }
  auto & p = core->params[n];
  p = Parameter(n, val);
  return p.get_parameter_value();
}
bool NodeParametersInterface::get_parameter(const std::string & n, Parameter & p) const
{
  std::lock_guard<std::recursive_mutex> l(core->mtx);
  auto it = core->params.find(n);
  if (it != core->params.end() && (it->second.get_type() != PARAMETER_NOT_SET || core->allow_undeclared)) { p = it->second; return true; }
  return false;
}
Parameter NodeParametersInterface::get_parameter(const std::string & n) const
{
  std::lock_guard<std::recursive_mutex> l(core->mtx);
  auto it = core->params.find(n);
  if (it != core->params.end()) return it->second;
  if (core->allow_undeclared) return Parameter(n);
  throw exceptions::ParameterNotDeclaredException(n);
}
std::vector<Parameter> NodeParametersInterface::get_parameters(const std::vector<std::string> & ns) const
{
  std::vector<Parameter> r;
  for (auto & n : ns) r.push_back(get_parameter(n));
  return r;
}
rcl_interfaces::msg::SetParametersResult NodeParametersInterface::set_parameters_atomically(const std::vector<Parameter> & p)
{
  std::lock_guard<std::recursive_mutex> l(core->mtx);
  rcl_interfaces::msg::SetParametersResult r;
  r.successful = true;
  for (auto & x : p)
    if (!core->params.count(x.get_name()) && !core->allow_undeclared) throw exceptions::ParameterNotDeclaredException(x.get_name());
  for (auto & cb : core->on_set) {
    r = (*cb)(p);
    if (!r.successful) return r;
  }
  for (auto & x : p) core->params[x.get_name()] = x;
  for (auto & cb : core->post_set) (*cb)(p);
  return r;
}
std::vector<rcl_interfaces::msg::SetParametersResult> NodeParametersInterface::set_parameters(const std::vector<Parameter> & p)
{
  std::vector<rcl_interfaces::msg::SetParametersResult> r;
  for (auto & x : p) r.push_back(set_parameters_atomically({x}));
  return r;
}
OnSetParametersCallbackHandle::SharedPtr NodeParametersInterface::add_on_set_parameters_callback(std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> cb)
{
  std::lock_guard<std::recursive_mutex> l(core->mtx);
  auto p = std::make_shared<std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)>>(std::move(cb));
  core->on_set.push_back(p);
  auto h = std::make_shared<OnSetParametersCallbackHandle>();
  h->keep = p;
  return h;
}
}  // namespace node_interfaces

NodeFacade::NodeFacade(const std::string & name, const std::string & ns, const NodeOptions & o)
{
  NoPreempt np;
  bool bad = name.empty();
  for (char c : name) if (!(isalnum(static_cast<unsigned char>(c)) || c == '_')) bad = true;
  if (!name.empty() && isdigit(static_cast<unsigned char>(name[0]))) bad = true;
  if (bad) throw std::runtime_error("Invalid node name: '" + name + "'");
  core_ = simros::make_node(name, ns, o);
  ns_disp_ = ns.empty() ? "/" : (ns[0] == '/' ? ns : "/" + ns);
  fqn_ = core_->fqn();
  base_ = std::make_shared<node_interfaces::NodeBaseInterface>();
  base_->core = core_;
  clock_itf_ = std::make_shared<node_interfaces::NodeClockInterface>();
  clock_itf_->core = core_;
  log_itf_ = std::make_shared<node_interfaces::NodeLoggingInterface>();
  log_itf_->core = core_;
  par_itf_ = std::make_shared<node_interfaces::NodeParametersInterface>();
  par_itf_->core = core_;
  simros::g().nodes.push_back(this);
}
NodeFacade::~NodeFacade()
{
  NoPreempt np;
  auto & v = simros::g().nodes;
  v.erase(std::remove(v.begin(), v.end(), this), v.end());
}
node_interfaces::PostSetParametersCallbackHandle::SharedPtr NodeFacade::add_post_set_parameters_callback(std::function<void(const std::vector<Parameter> &)> cb)
{
  std::lock_guard<std::recursive_mutex> l(core_->mtx);
  auto p = std::make_shared<std::function<void(const std::vector<Parameter> &)>>(std::move(cb));
  core_->post_set.push_back(p);
  auto h = std::make_shared<node_interfaces::PostSetParametersCallbackHandle>();
  h->keep = p;
  return h;
}
TimerBase::SharedPtr NodeFacade::make_timer(int64_t ns, std::function<void()> cb, CallbackGroup::SharedPtr gr)
{
  NoPreempt np;
  auto t = std::make_shared<TimerBase>();
  t->node = core_;
  t->group = gr ? gr : core_->default_group;
  t->timer_period = ns > 0 ? ns : 1;
  t->timer_next = simrt::now_ns() + t->timer_period;
  t->timer_cb = std::move(cb);
  t->name = "timer:" + core_->name;
  simros::register_entity(t);
  simrt::wake_all(&simros::exec_obj);
  return t;
}
Node::Node(const std::string & n, const NodeOptions & o) : NodeFacade(n, "", o) {}
Node::Node(const std::string & n, const std::string & ns, const NodeOptions & o) : NodeFacade(n, ns, o) {}
Node::~Node() {}

Executor::Executor() {}
Executor::~Executor()
{
  for (auto & n : nodes_) { n->associated = false; n->executor = nullptr; }
}
void Executor::add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool)
{
  simrt::yield_point();
  NoPreempt np;
  if (n->core->associated.exchange(true)) throw std::runtime_error("Node '" + n->core->fqn() + "' has already been added to an executor.");
  n->core->executor = this;
  nodes_.push_back(n->core);
  simrt::wake_all(&simros::exec_obj);
}
void Executor::remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool)
{
  simrt::yield_point();
  NoPreempt np;
  if (!n->core->associated.load()) throw std::runtime_error("Node needs to be associated with an executor.");
  auto it = std::find(nodes_.begin(), nodes_.end(), n->core);
  if (it == nodes_.end()) throw std::runtime_error("Node needs to be associated with this executor.");
  nodes_.erase(it);
  n->core->executor = nullptr;
  n->core->associated = false;
  simrt::wake_all(&simros::exec_obj);
}
void Executor::cancel()
{
  simrt::yield_point();
  spinning_ = false;
  simrt::wake_all(&simros::exec_obj);
}
bool Executor::take(std::function<void()> & fn, std::shared_ptr<CallbackGroup> & grp, std::string & name, int64_t & next)
{
  NoPreempt np;
  next = -1;
  std::vector<std::shared_ptr<simros::Entity>> ready;
  int64_t now = simrt::now_ns();
  for (auto & w : simros::g().entities) {
    auto e = w.lock();
    if (!e) continue;
    auto n = e->node.lock();
    if (!n || n->executor != this) continue;
    if (e->group->busy) continue;
    if (e->timer_period) {
      if (e->canceled) continue;
      if (e->timer_next <= now) ready.push_back(e);
      else if (next < 0 || e->timer_next < next) next = e->timer_next;
    }
    if (!e->queue.empty()) {
      if (e->queue.front().not_before <= now) ready.push_back(e);
      else if (next < 0 || e->queue.front().not_before < next) next = e->queue.front().not_before;
    }
  }
  if (ready.empty()) return false;
  auto e = ready[simrt::workload_rng().below(ready.size())];
  if (e->group->type == CallbackGroupType::MutuallyExclusive) e->group->busy = true;
  grp = e->group;
  name = e->name;
  if (e->timer_period) {
    e->timer_next += e->timer_period;
    if (e->timer_next <= now) e->timer_next = now + e->timer_period;
    auto te = e;
    fn = [te]() { te->timer_cb(); };
  } else {
    auto f = std::move(e->queue.front().fn);
    e->queue.erase(e->queue.begin());
    fn = [e, f]() { f(); };
  }
  return true;
}
void Executor::worker()
{
  while (rclcpp::ok() && spinning_) {
    std::function<void()> fn;
    std::shared_ptr<CallbackGroup> grp;
    std::string name;
    int64_t next;
    if (take(fn, grp, name, next)) {
      { NoPreempt np; if (simros::g().exec_hook) simros::g().exec_hook("begin", name); }
      fn();
      fn = nullptr;
      { NoPreempt np; if (simros::g().exec_hook) simros::g().exec_hook("end", name); }
      grp->busy = false;
      simrt::wake_all(&simros::exec_obj);
    } else {
      simrt::wait_on(&simros::exec_obj, next, "executor");
    }
  }
}
void executors::MultiThreadedExecutor::spin()
{
  if (spinning_.exchange(true)) throw std::runtime_error("spin() called while already spinning");
  std::vector<std::thread> th;
  size_t n = simros::g().exec_threads;
  for (size_t i = 0; i + 1 < n; ++i) {
    simrt::set_next_fiber_name(("exec" + std::to_string(i + 1)).c_str());
    th.emplace_back([this]() { worker(); });
  }
  worker();
  for (auto & t : th) t.join();
  spinning_ = false;
}
void executors::SingleThreadedExecutor::spin()
{
  if (spinning_.exchange(true)) throw std::runtime_error("spin() called while already spinning");
  worker();
  spinning_ = false;
}
}  // namespace rclcpp

namespace rclcpp_lifecycle
{
namespace
{
const State & st(uint8_t id)
{
  static std::map<uint8_t, State> * t = new std::map<uint8_t, State>{
    {0, State(0, "unknown")}, {1, State(1, "unconfigured")}, {2, State(2, "inactive")}, {3, State(3, "active")}, {4, State(4, "finalized")},
    {10, State(10, "configuring")}, {11, State(11, "cleaningup")}, {12, State(12, "shuttingdown")}, {13, State(13, "activating")}, {14, State(14, "deactivating")}, {15, State(15, "errorprocessing")}};
  return t->at(id);
}
}  // namespace
LifecycleNode::LifecycleNode(const std::string & n, const std::string & ns, const rclcpp::NodeOptions & o, bool) : NodeFacade(n, ns, o) { core_->is_lifecycle = true; }
LifecycleNode::~LifecycleNode() {}
const State & LifecycleNode::get_current_state() const { return st(state_id_.load()); }
void LifecycleNode::set_state(uint8_t id) { state_id_.store(id); simrt::yield_point(); }
LifecycleNode::CallbackReturn LifecycleNode::run(const Cb & f, const State & prev)
{
  try { return f ? f(prev) : CallbackReturn::SUCCESS; }
  catch (const std::exception & e) {
    simros::log_write(40, get_name(), "Caught exception in lifecycle callback: %s", e.what());
    return CallbackReturn::ERROR;
  }
}
// which: 0 configure 1 cleanup 2 activate 3 deactivate 4 shutdown
const State & LifecycleNode::change(int which)
{
  uint8_t from;
  uint8_t trans[5] = {10, 11, 13, 14, 12};
  {
    std::lock_guard<std::recursive_mutex> l(smtx_);
    from = state_id_.load();
    bool okk = false;
    switch (which) {
      case 0: okk = from == 1; break;
      case 1: okk = from == 2; break;
      case 2: okk = from == 2; break;
      case 3: okk = from == 3; break;
      case 4: okk = from == 1 || from == 2 || from == 3; break;
    }
    if (!okk) {
      simros::log_write(40, get_name(), "Unable to start transition %d from current state %s", which, st(from).label().c_str());
      return get_current_state();
    }
    set_state(trans[which]);
  }
  auto r = run(cb_[which], st(from));
  uint8_t goal_ok[5] = {2, 1, 3, 2, 4};
  uint8_t goal_fail[5] = {1, 2, 2, 3, 4};
  if (r == CallbackReturn::SUCCESS) set_state(goal_ok[which]);
  else if (r == CallbackReturn::FAILURE) set_state(goal_fail[which]);
  else {
    set_state(15);
    auto e = run(cb_[5], st(from));
    set_state(e == CallbackReturn::SUCCESS ? 1 : 4);
  }
  return get_current_state();
}
const State & LifecycleNode::configure() { return change(0); }
const State & LifecycleNode::cleanup() { return change(1); }
const State & LifecycleNode::activate() { return change(2); }
const State & LifecycleNode::deactivate() { return change(3); }
const State & LifecycleNode::shutdown() { return change(4); }
}  // namespace rclcpp_lifecycle

namespace pal_statistics
{
namespace
{
std::map<std::string, std::shared_ptr<StatisticsRegistry>> & regs()
{
  static auto * m = new std::map<std::string, std::shared_ptr<StatisticsRegistry>>();
  return *m;
}
}  // namespace
std::shared_ptr<StatisticsRegistry> getRegistry(const std::string & k)
{
  NoPreempt np;
  auto & p = regs()[k];
  if (!p) p = std::make_shared<StatisticsRegistry>();
  return p;
}
void clearAll() { NoPreempt np; regs().clear(); }
Registration::~Registration() { if (auto r = reg_.lock()) r->unregisterId(id_); }
bool RegistrationsRAII::remove(const std::string & n)
{
  std::lock_guard<std::mutex> l(m_);
  bool any = false;
  std::vector<Registration> keep;
  for (auto & r : regs_) {
    if (r.name_ == n) any = true;
    else keep.push_back(std::move(r));
  }
  regs_.swap(keep);  // the removed ones unregister themselves when 'keep' is destroyed
  return any;
}
bool RegistrationsRAII::enableAll() { std::lock_guard<std::mutex> l(m_); for (auto & r : regs_) if (auto x = r.reg_.lock()) x->setEnabled(r.id_, true); return true; }
bool RegistrationsRAII::disableAll() { std::lock_guard<std::mutex> l(m_); for (auto & r : regs_) if (auto x = r.reg_.lock()) x->setEnabled(r.id_, false); return true; }
IdType StatisticsRegistry::registerFunction(const std::string & n, const std::function<double()> & f, RegistrationsRAII * b, bool en)
{
  IdType id;
  {
    std::lock_guard<std::mutex> l(m_);
    id = next_++;
    vars_[id] = Var{n, f, en};
  }
  if (b) b->add(Registration(n, id, weak_from_this()));
  return id;
}
void StatisticsRegistry::unregisterVariable(const std::string & n, RegistrationsRAII * b)
{
  if (b && b->remove(n)) return;
  std::lock_guard<std::mutex> l(m_);
  for (auto it = vars_.begin(); it != vars_.end();) it = it->second.name == n ? vars_.erase(it) : std::next(it);
}
void StatisticsRegistry::unregisterId(IdType id) { std::lock_guard<std::mutex> l(m_); vars_.erase(id); }
void StatisticsRegistry::setEnabled(IdType id, bool e) { std::lock_guard<std::mutex> l(m_); auto it = vars_.find(id); if (it != vars_.end()) it->second.enabled = e; }
void StatisticsRegistry::sample()
{
  std::unique_lock<std::mutex> l(m_, std::try_to_lock);
  if (!l.owns_lock()) return;
  for (auto & v : vars_)
    if (v.second.enabled || simros::g().introspect_all) {
      volatile double x = v.second.fn();
      (void)x;
    }
}
void sampleRegistry(const std::string & k) { getRegistry(k)->sample(); }
}  // namespace pal_statistics
namespace simros
{
std::vector<std::string> alive_registrations()
{
  NoPreempt np;
  std::vector<std::string> r;
  for (auto & k : pal_statistics::regs())
    for (auto & v : k.second->vars_) r.push_back(v.second.name);
  return r;
}
}
