// Simulated plugins: hardware components and controllers whose behaviour is decided by the plan.
#include "world.hpp"
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "simros/control.hpp"
#include <cmath>

using hardware_interface::CallbackReturn;
using simrt::NoPreempt;
using std::string;

namespace
{
// ------------------------------------------------------------------ command patterns
double wave_value(const CtrlPlan & c, uint64_t k, size_t i, const string & itf)
{
  uint64_t h = 1469598103934665603ull;
  for (char ch : c.name + itf) h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ull;
  h ^= k * 0x9E3779B97F4A7C15ull + i;
  simrt::Rng r;
  r.seed(h);
  double u = r.unit() * 2 - 1;
  switch (c.wave) {
    case 0: return 0.5 * std::sin(0.05 * static_cast<double>(k) + static_cast<double>(i));
    case 1: return u * 3.0;                       // jumps around and beyond the usual limits
    case 2: return r.chance(0.2) ? (u > 0 ? INFINITY : -INFINITY) : u;
    case 3: return r.chance(0.2) ? NAN : u * 2;
    case 4: return (k / 7) % 2 ? 100.0 : -100.0;  // square wave far outside
    case 5: return r.chance(0.1) ? NAN : r.chance(0.1) ? INFINITY : r.chance(0.3) ? u * 1e6 : u * 0.3;
    case 6: return 1e-3 * static_cast<double>(k % 5);
    default: return u;
  }
}

template <class B> class SimCtrl : public B
{
public:
  SimCtrl()
  {
    NoPreempt np;
    auto up = std::make_unique<CtrlObj>();
    o = up.get();
    o->id = static_cast<int>(W->ctrls.size());
    o->p = this;
    W->ctrls.push_back(std::move(up));
  }
  ~SimCtrl() override
  {
    NoPreempt np;
    if (o->in_update) violate("C20", "destroyed-in-update", "controller %s destroyed while its update runs", o->name.c_str());
    ora_release(o);
    o->alive = false;
    o->p = nullptr;
    note("destroy ctrl %s#%d", o->name.c_str(), o->id);
  }
  CallbackReturn on_init() override
  {
    FaultHit f;
    {
      NoPreempt np;
      o->name = this->get_node()->get_name();
      o->plan = W->plan.ctrl_of(o->name);
      o->n_init++;
      on_ctrl_created(o);
      f = fire(o->name, "init");
    }
    if (f.eff == "slow") spend(f.arg);
    if (f.eff == "throw") throw std::runtime_error("simulated init exception");
    if (f.eff == "failure") return CallbackReturn::FAILURE;
    if (f.eff == "error") return CallbackReturn::ERROR;
    NoPreempt np;
    o->inited = true;
    return CallbackReturn::SUCCESS;
  }
  controller_interface::InterfaceConfiguration command_interface_configuration() const override { return conf(true); }
  controller_interface::InterfaceConfiguration state_interface_configuration() const override { return conf(false); }
  CallbackReturn on_configure(const rclcpp_lifecycle::State &) override { return lc("configure"); }
  CallbackReturn on_activate(const rclcpp_lifecycle::State &) override { return lc("activate"); }
  CallbackReturn on_deactivate(const rclcpp_lifecycle::State &) override { return lc("deactivate"); }
  CallbackReturn on_cleanup(const rclcpp_lifecycle::State &) override { return lc("cleanup"); }
  CallbackReturn on_shutdown(const rclcpp_lifecycle::State &) override { return lc("shutdown"); }
  CallbackReturn on_error(const rclcpp_lifecycle::State &) override
  {
    CallbackReturn r = lc("error");
    if (r == CallbackReturn::SUCCESS && W->plan.extra.count("errfail." + o->name)) r = CallbackReturn::FAILURE;
    return r;
  }
  void assign_interfaces(std::vector<hardware_interface::LoanedCommandInterface> && c, std::vector<hardware_interface::LoanedStateInterface> && s) override
  {
    {
      NoPreempt np;
      o->held_cmd.clear();
      o->held_state.clear();
      for (auto & i : c) o->held_cmd.insert(i.get_name());
      for (auto & i : s) o->held_state.insert(i.get_name());
      ora_assign(o);
    }
    B::assign_interfaces(std::move(c), std::move(s));
  }
  void release_interfaces() override
  {
    { NoPreempt np; ora_release(o); }  // from here on the controller does not use them any more
    B::release_interfaces();
  }

protected:
  controller_interface::InterfaceConfiguration conf(bool cmd) const
  {
    NoPreempt np;
    controller_interface::InterfaceConfiguration c;
    if (!o->plan) { c.type = controller_interface::interface_configuration_type::NONE; return c; }
    const string & t = cmd ? o->plan->cmd_type : o->plan->state_type;
    if (t == "all") c.type = controller_interface::interface_configuration_type::ALL;
    else if (t == "none") c.type = controller_interface::interface_configuration_type::NONE;
    else if (t == "best") { c.type = controller_interface::interface_configuration_type::INDIVIDUAL_BEST_EFFORT; c.names = cmd ? o->plan->cmd : o->plan->state; }
    else if (t == "regex") { c.type = controller_interface::interface_configuration_type::REGEX; c.names = cmd ? o->plan->cmd : o->plan->state; }
    else { c.type = controller_interface::interface_configuration_type::INDIVIDUAL; c.names = cmd ? o->plan->cmd : o->plan->state; }
    return c;
  }
  CallbackReturn lc(const char * cb)
  {
    FaultHit f;
    {
      NoPreempt np;
      ora_ctrl_lc(o, cb, true, 0);
      f = fire(o->name, cb);
    }
    if (f.eff == "slow") spend(f.arg);
    else simrt::yield_point();
    if (f.eff == "throw") {
      { NoPreempt np; ora_ctrl_lc(o, cb, false, 2); }
      throw std::runtime_error(string("simulated exception in ") + cb);
    }
    NoPreempt np;
    CallbackReturn r = CallbackReturn::SUCCESS;
    if (f.eff == "failure") r = CallbackReturn::FAILURE;
    if (f.eff == "error") r = CallbackReturn::ERROR;
    ora_ctrl_lc(o, cb, false, r == CallbackReturn::SUCCESS ? 0 : r == CallbackReturn::FAILURE ? 1 : 2);
    return r;
  }
  controller_interface::return_type work(const rclcpp::Time & t, const rclcpp::Duration & p)
  {
    FaultHit f;
    uint64_t k;
    {
      NoPreempt np;
      ora_update_begin(o, t.nanoseconds(), p.nanoseconds());
      f = fire(o->name, "update");
      k = o->n_update;
    }
    if (f.eff == "slow") spend(f.arg);
    size_t i = 0;
    double sum = 0;
    for (auto & s : this->state_interfaces_) {
      if (s.is_castable_to_double()) {
        auto v = s.get_optional();
        if (v.has_value()) sum += v.value();
      }
    }
    for (auto & c : this->command_interfaces_) {
      string n;
      double v;
      {
        NoPreempt np;
        n = c.get_name();
        v = o->plan ? wave_value(*o->plan, k, i, n) : 0;
        if (f.eff == "nan") v = NAN;
        // keep references well behaved: they feed other controllers
        ++i;
      }
      { NoPreempt np; lim_set_begin(o, n, v); }
      bool set = false;
      try {
        set = c.set_value(v);
      } catch (const std::exception & e) {
        NoPreempt np;
        note("%s: setting %s to %g throws", o->name.c_str(), n.c_str(), v);
        lim_set_end(o, n, v, false, true, std::nullopt);
        mark_disturb(o->is_async());
        ora_update_end(o, "throw");
        throw;
      }
      NoPreempt np;
      lim_set_end(o, n, v, set, false, set ? c.get_optional(1) : std::nullopt);
      if (!set) probe("cmd_set_value_busy");
      W->last_cmd[n] = LastCmd{v, set ? W->cycle : 0, o->id};
    }
    (void)sum;
    simrt::yield_point();
    {
      NoPreempt np;
      ora_update_end(o, f.eff == "slow" || f.eff == "nan" ? "" : f.eff);
    }
    if (f.eff == "throw") throw std::runtime_error("simulated update exception");
    if (f.eff == "throwint") throw 42;
    if (f.eff == "error") return controller_interface::return_type::ERROR;
    return controller_interface::return_type::OK;
  }

public:
  CtrlObj * o;
};

class SimController : public SimCtrl<controller_interface::ControllerInterface>
{
public:
  controller_interface::return_type update(const rclcpp::Time & t, const rclcpp::Duration & p) override { return work(t, p); }
};

class SimChainable : public SimCtrl<controller_interface::ChainableControllerInterface>
{
public:
  std::vector<hardware_interface::CommandInterface::SharedPtr> on_export_reference_interfaces_list() override
  {
    NoPreempt np;
    std::vector<hardware_interface::CommandInterface::SharedPtr> r;
    string bad;
    if (auto it = W->plan.extra.find("badexport." + o->name); it != W->plan.extra.end()) bad = it->second;
    int n = o->plan ? o->plan->nref : 0;
    for (int i = 0; i < n; ++i) {
      hardware_interface::InterfaceInfo info;
      info.name = "ref" + std::to_string(i);
      info.data_type = "double";
      info.initial_value = "0.0";
      string prefix = o->name;
      if (bad == "prefix" && i == n - 1) prefix = "zz" + o->name;
      if (bad == "dup" && i == n - 1 && n > 1) info.name = "ref0";
      hardware_interface::InterfaceDescription d(prefix, info);
      r.push_back(std::make_shared<hardware_interface::CommandInterface>(d));
    }
    return r;
  }
  std::vector<hardware_interface::StateInterface::SharedPtr> on_export_state_interfaces_list() override
  {
    NoPreempt np;
    std::vector<hardware_interface::StateInterface::SharedPtr> r;
    int n = o->plan ? o->plan->nstate : 0;
    for (int i = 0; i < n; ++i) {
      hardware_interface::InterfaceInfo info;
      info.name = "est" + std::to_string(i);
      info.data_type = "double";
      info.initial_value = "0.0";
      hardware_interface::InterfaceDescription d(o->name, info);
      r.push_back(std::make_shared<hardware_interface::StateInterface>(d));
    }
    return r;
  }
  bool on_set_chained_mode(bool m) override
  {
    NoPreempt np;
    FaultHit f = fire(o->name, "chained");
    o->chained_calls++;
    if (f.eff == "error") { o->refused_chained = true; note("%s refuses chained mode %d", o->name.c_str(), m); return false; }
    o->chained = m;
    note("%s chained mode %d", o->name.c_str(), m);
    return true;
  }
  controller_interface::return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override
  {
    NoPreempt np;
    if (o->chained) violate("C08", "subscriber-reference-in-chained-mode", "%s takes references from subscribers in chained mode", o->name.c_str());
    o->upd_in_cycle |= 0;
    return controller_interface::return_type::OK;
  }
  controller_interface::return_type update_and_write_commands(const rclcpp::Time & t, const rclcpp::Duration & p) override { return work(t, p); }
};

template <class B> class SimHw : public B
{
public:
  SimHw()
  {
    NoPreempt np;
    auto up = std::make_unique<HwObj>();
    o = up.get();
    o->id = static_cast<int>(W->hws.size());
    o->p = this;
    W->hws.push_back(std::move(up));
    su_hw_created();
  }
  ~SimHw() override
  {
    NoPreempt np;
    if (o->in_rw) violate("C12", "hw-destroyed-in-io", "hardware %s destroyed while read/write runs", o->name.c_str());
    su_hw_destroyed(o);
    o->alive = false;
    o->p = nullptr;
    note("destroy hw %s#%d", o->name.c_str(), o->id);
  }
  CallbackReturn on_init(const hardware_interface::HardwareComponentInterfaceParams & params) override
  {
    if (B::on_init(params) != CallbackReturn::SUCCESS) return CallbackReturn::ERROR;
    FaultHit f;
    {
      NoPreempt np;
      o->name = params.hardware_info.name;
      su_hw_init_result(o->name, false);
      o->plan = W->plan.hw_of(o->name);
      f = fire(o->name, "init");
      note("hw %s init %s", o->name.c_str(), f.eff.c_str());
    }
    if (f.eff == "slow") spend(f.arg);
    if (f.eff == "throw") throw std::runtime_error("simulated hw init exception");
    if (f.eff == "failure") return CallbackReturn::FAILURE;
    if (f.eff == "error") return CallbackReturn::ERROR;
    NoPreempt np;
    o->get_state = [this](const string & n) -> std::optional<double> {
      if (!this->has_state(n)) return std::nullopt;
      return this->get_state_interface_handle(n)->template get_optional<double>();
    };
    o->get_cmd = [this](const string & n) -> std::optional<double> {
      if (!this->has_command(n)) return std::nullopt;
      return this->get_command_interface_handle(n)->template get_optional<double>();
    };
    su_hw_init_result(o->name, true);
    o->init_ok = true;
    o->st = S_UNCONF;
    return CallbackReturn::SUCCESS;
  }
  CallbackReturn on_configure(const rclcpp_lifecycle::State &) override { return lc("configure"); }
  CallbackReturn on_activate(const rclcpp_lifecycle::State &) override { return lc("activate"); }
  CallbackReturn on_deactivate(const rclcpp_lifecycle::State &) override { return lc("deactivate"); }
  CallbackReturn on_cleanup(const rclcpp_lifecycle::State &) override { return lc("cleanup"); }
  CallbackReturn on_shutdown(const rclcpp_lifecycle::State &) override { return lc("shutdown"); }
  CallbackReturn on_error(const rclcpp_lifecycle::State &) override { return lc("error"); }
  hardware_interface::return_type prepare_command_mode_switch(const std::vector<string> & a, const std::vector<string> & b) override { return mode(true, a, b); }
  hardware_interface::return_type perform_command_mode_switch(const std::vector<string> & a, const std::vector<string> & b) override { return mode(false, a, b); }
  hardware_interface::return_type read(const rclcpp::Time & t, const rclcpp::Duration & p) override
  {
    FaultHit f;
    {
      NoPreempt np;
      ora_rw_begin(o, false, t.nanoseconds(), p.nanoseconds());
      f = fire(o->name, "read");
    }
    if (f.eff == "slow") spend(f.arg);
    else simrt::yield_point();
    if (o->plan && o->st >= S_INACTIVE) {
      for (auto & j : o->plan->joints)
        for (auto & s : j.state) {
          string n;
          double v;
          {
            NoPreempt np;
            n = j.name + "/" + s;
            auto it = o->written.find(n);
            v = it != o->written.end() && std::isfinite(it->second) ? it->second : 0.0;
            auto off = W->plan.extra.find("stateoff." + n);
            if (off != W->plan.extra.end()) {
              // a joint that is somewhere else for a while
              double val; unsigned long long from = 0, to = ~0ull;
              if (sscanf(off->second.c_str(), "%lf:%llu:%llu", &val, &from, &to) >= 1 && W->cycle >= from && W->cycle < to) v = val;
            }
            if (f.eff == "nanstate") v = NAN;
          }
          if (this->has_state(n)) {
            auto h = this->get_state_interface_handle(n);
            (void)h->set_value(v, true);
          }
        }
    }
    { NoPreempt np; ora_rw_end(o, false, f.eff == "slow" || f.eff == "nanstate" ? "" : f.eff); }
    return effect(f, "read");
  }
  hardware_interface::return_type wr(const rclcpp::Time & t, const rclcpp::Duration & p)
  {
    FaultHit f;
    {
      NoPreempt np;
      ora_rw_begin(o, true, t.nanoseconds(), p.nanoseconds());
      f = fire(o->name, "write");
    }
    if (f.eff == "slow") spend(f.arg);
    else simrt::yield_point();
    if (o->plan)
      for (auto & j : o->plan->joints)
        for (auto & c : j.cmd) {
          string n;
          { NoPreempt np; n = j.name + "/" + c.name; }
          if (this->has_command(n) && c.type == "double") {
            double v = this->template get_command<double>(n);
            NoPreempt np;
            o->written[n] = v;
            lim_write(o, n, v);
          }
        }
    { NoPreempt np; ora_rw_end(o, true, f.eff == "slow" ? "" : f.eff); }
    return effect(f, "write");
  }

protected:
  hardware_interface::return_type effect(const FaultHit & f, const char * what)
  {
    if (f.eff == "throw") throw std::runtime_error(string("simulated exception in ") + what);
    if (f.eff == "throwint") throw 7;
    if (f.eff == "error") return hardware_interface::return_type::ERROR;
    if (f.eff == "deactivate") return hardware_interface::return_type::DEACTIVATE;
    return hardware_interface::return_type::OK;
  }
  CallbackReturn lc(const char * cb)
  {
    FaultHit f;
    {
      NoPreempt np;
      ora_hw_lc(o, cb, true, 0, false);
      f = fire(o->name, cb);
    }
    if (f.eff == "slow") spend(f.arg);
    else simrt::yield_point();
    if (f.eff == "throw") {
      { NoPreempt np; ora_hw_lc(o, cb, false, 2, true); }
      throw std::runtime_error(string("simulated exception in ") + cb);
    }
    NoPreempt np;
    CallbackReturn r = CallbackReturn::SUCCESS;
    if (f.eff == "failure") r = CallbackReturn::FAILURE;
    if (f.eff == "error") r = CallbackReturn::ERROR;
    if (!strcmp(cb, "error") && !f && W->plan.extra.count("errfail." + o->name)) r = CallbackReturn::FAILURE;
    ora_hw_lc(o, cb, false, r == CallbackReturn::SUCCESS ? 0 : r == CallbackReturn::FAILURE ? 1 : 2, false);
    return r;
  }
  hardware_interface::return_type mode(bool prep, const std::vector<string> & a, const std::vector<string> & b)
  {
    FaultHit f;
    {
      NoPreempt np;
      f = fire(o->name, prep ? "prepare" : "perform");
    }
    if (f.eff == "slow") spend(f.arg);
    else simrt::yield_point();
    bool ok = f.eff != "error" && f.eff != "throw" && f.eff != "throwint";
    { NoPreempt np; ora_mode(o, prep, a, b, ok); }
    if (f.eff == "throwint") throw 9;
    if (f.eff == "throw") throw std::runtime_error("simulated mode switch exception");
    return ok ? hardware_interface::return_type::OK : hardware_interface::return_type::ERROR;
  }

public:
  HwObj * o;
};
class SimSystem : public SimHw<hardware_interface::SystemInterface>
{
public:
  hardware_interface::return_type write(const rclcpp::Time & t, const rclcpp::Duration & p) override { return wr(t, p); }
};
class SimActuator : public SimHw<hardware_interface::ActuatorInterface>
{
public:
  hardware_interface::return_type write(const rclcpp::Time & t, const rclcpp::Duration & p) override { return wr(t, p); }
};
class SimSensor : public SimHw<hardware_interface::SensorInterface>
{
};
}  // namespace

bool CtrlObj::is_async() const { return p && p->is_async(); }
unsigned CtrlObj::rate() const { return p ? p->get_update_rate() : 0; }
int CtrlObj::state() const
{
  if (!alive || !p || name.empty()) return S_UNKNOWN;
  return p->get_node()->get_current_state().id();
}
int HwObj::reported() const { return alive && p && init_ok ? p->get_lifecycle_state().id() : S_UNKNOWN; }

void register_plugins()
{
  auto & r = pluginlib::Registry::get();
  auto C = std::type_index(typeid(controller_interface::ControllerInterface));
  auto CC = std::type_index(typeid(controller_interface::ChainableControllerInterface));
  auto S = std::type_index(typeid(hardware_interface::SystemInterface));
  auto A = std::type_index(typeid(hardware_interface::ActuatorInterface));
  auto N = std::type_index(typeid(hardware_interface::SensorInterface));
  r[{C, "sim/Controller"}] = []() -> void * { return static_cast<controller_interface::ControllerInterface *>(new SimController); };
  r[{CC, "sim/Chainable"}] = []() -> void * { return static_cast<controller_interface::ChainableControllerInterface *>(new SimChainable); };
  r[{C, "sim/ThrowingCtor"}] = []() -> void * { throw std::runtime_error("simulated constructor exception"); };
  r[{S, "sim/System"}] = []() -> void * { return static_cast<hardware_interface::SystemInterface *>(new SimSystem); };
  r[{A, "sim/Actuator"}] = []() -> void * { return static_cast<hardware_interface::ActuatorInterface *>(new SimActuator); };
  r[{N, "sim/Sensor"}] = []() -> void * { return static_cast<hardware_interface::SensorInterface *>(new SimSensor); };
}
