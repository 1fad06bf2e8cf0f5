// Small test bench for demonstrations: the real controller manager and resource manager on simulated ROS headers.
// Everything runs in one process in virtual time; controllers and hardware are scripted by name.
#pragma once
#include <unistd.h>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_manager/controller_manager.hpp"
#include "controller_manager_msgs/srv/switch_controller.hpp"
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/resource_manager.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "rt.hpp"
#include "simros/control.hpp"
#include "std_msgs/msg/string.hpp"

using std::string;
using std::vector;
using CR = hardware_interface::CallbackReturn;
using HR = hardware_interface::return_type;
using UR = controller_interface::return_type;
constexpr int64_t MS = 1000000;

// ------------------------------------------------------------------ scripts
struct CtrlScript
{
  vector<string> cmd, state;                 // claimed interfaces
  int refs = 0, ests = 0;                    // exported by chainable controllers
  std::function<UR(controller_interface::ControllerInterfaceBase *)> update;
  std::function<CR(const string &)> lc;      // configure, activate, deactivate, cleanup, shutdown, error
  std::function<bool(bool)> chained;
  std::function<void(const rclcpp::Time &, const rclcpp::Duration &)> timing;
  int updates = 0, activations = 0, deactivations = 0, alive = 0;
  bool chained_mode = false, holds = false;
  bool held_at_activate = false;
};
struct HwScript
{
  std::function<HR()> read, write;
  std::function<HR(bool prepare, const vector<string> & start, const vector<string> & stop)> mode;
  std::function<CR(const string &)> lc;
  std::function<void(bool write, const rclcpp::Time &, const rclcpp::Duration &)> timing;
  int reads = 0, writes = 0, performs = 0, prepares = 0;
  vector<string> calls;
  hardware_interface::HardwareComponentInterface * self = nullptr;
};
inline std::map<string, CtrlScript> CTRL;
inline std::map<string, HwScript> HW;

template <class B> class DemoCtrlBase : public B
{
public:
  CtrlScript & s() const { return CTRL[this->get_node()->get_name()]; }
  CR on_init() override { s().alive++; return run("init"); }
  ~DemoCtrlBase() override {}
  controller_interface::InterfaceConfiguration command_interface_configuration() const override
  {
    return {controller_interface::interface_configuration_type::INDIVIDUAL, s().cmd};
  }
  controller_interface::InterfaceConfiguration state_interface_configuration() const override
  {
    return {controller_interface::interface_configuration_type::INDIVIDUAL, s().state};
  }
  CR on_configure(const rclcpp_lifecycle::State &) override { return run("configure"); }
  CR on_activate(const rclcpp_lifecycle::State &) override
  {
    s().activations++;
    s().held_at_activate = this->command_interfaces_.size() == s().cmd.size();
    return run("activate");
  }
  CR on_deactivate(const rclcpp_lifecycle::State &) override { s().deactivations++; return run("deactivate"); }
  CR on_cleanup(const rclcpp_lifecycle::State &) override { return run("cleanup"); }
  CR on_shutdown(const rclcpp_lifecycle::State &) override { return run("shutdown"); }
  CR on_error(const rclcpp_lifecycle::State &) override { return run("error"); }
  CR run(const char * w) { return s().lc ? s().lc(w) : CR::SUCCESS; }
  vector<hardware_interface::LoanedCommandInterface> & cmds() { return this->command_interfaces_; }
  vector<hardware_interface::LoanedStateInterface> & states() { return this->state_interfaces_; }
  UR work(const rclcpp::Time & t, const rclcpp::Duration & p)
  {
    s().updates++;
    if (s().timing) s().timing(t, p);
    return s().update ? s().update(this) : UR::OK;
  }
};
class DemoController : public DemoCtrlBase<controller_interface::ControllerInterface>
{
public:
  UR update(const rclcpp::Time & t, const rclcpp::Duration & p) override { return work(t, p); }
};
class DemoChainable : public DemoCtrlBase<controller_interface::ChainableControllerInterface>
{
public:
  vector<hardware_interface::CommandInterface::SharedPtr> on_export_reference_interfaces_list() override
  {
    vector<hardware_interface::CommandInterface::SharedPtr> r;
    for (int i = 0; i < s().refs; ++i) {
      hardware_interface::InterfaceInfo info;
      info.name = "ref" + std::to_string(i);
      info.data_type = "double";
      info.initial_value = "0.0";
      r.push_back(std::make_shared<hardware_interface::CommandInterface>(hardware_interface::InterfaceDescription(get_node()->get_name(), info)));
    }
    return r;
  }
  vector<hardware_interface::StateInterface::SharedPtr> on_export_state_interfaces_list() override
  {
    vector<hardware_interface::StateInterface::SharedPtr> r;
    for (int i = 0; i < s().ests; ++i) {
      hardware_interface::InterfaceInfo info;
      info.name = "est" + std::to_string(i);
      info.data_type = "double";
      info.initial_value = "0.0";
      r.push_back(std::make_shared<hardware_interface::StateInterface>(hardware_interface::InterfaceDescription(get_node()->get_name(), info)));
    }
    return r;
  }
  bool on_set_chained_mode(bool m) override
  {
    if (s().chained && !s().chained(m)) return false;
    s().chained_mode = m;
    return true;
  }
  UR update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override { return UR::OK; }
  UR update_and_write_commands(const rclcpp::Time & t, const rclcpp::Duration & p) override { return work(t, p); }
};
template <class B> class DemoHw : public B
{
public:
  string n;
  HwScript & s() const { return HW[n]; }
  CR on_init(const hardware_interface::HardwareComponentInterfaceParams & p) override
  {
    if (B::on_init(p) != CR::SUCCESS) return CR::ERROR;
    n = p.hardware_info.name;
    s().self = this;
    return run("init");
  }
  CR run(const char * w)
  {
    s().calls.push_back(w);
    return s().lc ? s().lc(w) : CR::SUCCESS;
  }
  CR on_configure(const rclcpp_lifecycle::State &) override { return run("configure"); }
  CR on_activate(const rclcpp_lifecycle::State &) override { return run("activate"); }
  CR on_deactivate(const rclcpp_lifecycle::State &) override { return run("deactivate"); }
  CR on_cleanup(const rclcpp_lifecycle::State &) override { return run("cleanup"); }
  CR on_shutdown(const rclcpp_lifecycle::State &) override { return run("shutdown"); }
  CR on_error(const rclcpp_lifecycle::State &) override { return run("error"); }
  HR prepare_command_mode_switch(const vector<string> & a, const vector<string> & b) override
  {
    s().prepares++;
    return s().mode ? s().mode(true, a, b) : HR::OK;
  }
  HR perform_command_mode_switch(const vector<string> & a, const vector<string> & b) override
  {
    s().performs++;
    return s().mode ? s().mode(false, a, b) : HR::OK;
  }
  HR read(const rclcpp::Time & t, const rclcpp::Duration & p) override
  {
    s().reads++;
    if (s().timing) s().timing(false, t, p);
    return s().read ? s().read() : HR::OK;
  }
  HR wr(const rclcpp::Time & t, const rclcpp::Duration & p)
  {
    s().writes++;
    if (s().timing) s().timing(true, t, p);
    return s().write ? s().write() : HR::OK;
  }
};
class DemoSystem : public DemoHw<hardware_interface::SystemInterface>
{
public:
  HR write(const rclcpp::Time & t, const rclcpp::Duration & p) override { return wr(t, p); }
};
class DemoActuator : public DemoHw<hardware_interface::ActuatorInterface>
{
public:
  HR write(const rclcpp::Time & t, const rclcpp::Duration & p) override { return wr(t, p); }
};
class DemoSensor : public DemoHw<hardware_interface::SensorInterface> {};

// ------------------------------------------------------------------ description
struct J
{
  string name;
  vector<string> cmd, state;
  string extra;      // inside of the joint tag
  string urdf_limit; // attributes of the URDF limit tag ("" = wide limits)
};
struct H
{
  string name, kind = "system";
  vector<J> joints;
  string attr, hardware_extra;
};
inline string urdf(const vector<H> & hw)
{
  string o = "<?xml version=\"1.0\"?>\n<robot name=\"demo\">\n<link name=\"world\"/>\n";
  for (auto & h : hw)
    if (h.kind != "sensor")
      for (auto & j : h.joints)
        o += "<link name=\"" + j.name + "_l\"/>\n<joint name=\"" + j.name + "\" type=\"revolute\"><parent link=\"world\"/><child link=\"" + j.name +
             "_l\"/><axis xyz=\"0 0 1\"/><limit " + (j.urdf_limit.empty() ? string("lower=\"-1e9\" upper=\"1e9\" velocity=\"1e9\" effort=\"1e9\"") : j.urdf_limit) + "/></joint>\n";
  for (auto & h : hw) {
    o += "<ros2_control name=\"" + h.name + "\" type=\"" + h.kind + "\" " + h.attr + ">\n<hardware><plugin>demo/" + h.kind + "</plugin>" + h.hardware_extra + "</hardware>\n";
    for (auto & j : h.joints) {
      string tag = h.kind == "sensor" ? "sensor" : "joint";
      o += "<" + tag + " name=\"" + j.name + "\">" + j.extra;
      for (auto & c : j.cmd) o += "<command_interface name=\"" + c + "\"/>";
      for (auto & c : j.state) o += "<state_interface name=\"" + c + "\"/>";
      o += "</" + tag + ">\n";
    }
    o += "</ros2_control>\n";
  }
  return o + "</robot>\n";
}

// ------------------------------------------------------------------ bench
struct CM : controller_manager::ControllerManager
{
  using controller_manager::ControllerManager::ControllerManager;
};
inline std::shared_ptr<rclcpp::Executor> EXEC;
inline std::shared_ptr<CM> cm;
inline bool rt_run = false, rt_stop = false;
inline uint64_t cycles = 0;
inline int rate = 100;
inline std::function<void()> before_cycle, after_cycle;  // called in the control loop
template <class T> void param(const string & n, const T & v) { simros::set_param("/controller_manager", n, rclcpp::ParameterValue(v)); }
inline void one_cycle()
{
  rclcpp::Duration p(std::chrono::nanoseconds(1000000000ll / rate));
  if (before_cycle) before_cycle();
  cm->read(cm->get_trigger_clock()->now(), p);
  cm->update(cm->get_trigger_clock()->now(), p);
  cm->write(cm->get_trigger_clock()->now(), p);
  ++cycles;
  if (after_cycle) after_cycle();
}
inline void start_cm(const string & description, bool loop = true)
{
  param("update_rate", static_cast<int64_t>(rate));
  EXEC = std::make_shared<rclcpp::executors::MultiThreadedExecutor>();
  std_msgs::msg::String m;
  m.data = description;
  simros::inject("/robot_description", m, true);
  cm = std::make_shared<CM>(EXEC, "controller_manager", "", controller_manager::get_cm_node_options());
  EXEC->add_node(cm);
  simrt::spawn("executor", []() { EXEC->spin(); });
  simrt::sleep_ns(200 * MS);
  if (loop) {
    rt_run = true;
    simrt::spawn("rt", []() {
      while (!rt_stop) {
        if (rt_run) one_cycle();
        simrt::sleep_ns(1000000000ll / rate);
      }
    });
  }
}
inline void wait_cycles(int n)
{
  for (uint64_t c = cycles + n; cycles < c;) simrt::sleep_ns(MS);
}
inline void load(const string & n, bool chainable = false, bool configure = true)
{
  param(n + ".type", string(chainable ? "demo/chainable" : "demo/controller"));
  cm->load_controller(n, chainable ? "demo/chainable" : "demo/controller");
  if (configure) cm->configure_controller(n);
}
inline bool sw(const vector<string> & start, const vector<string> & stop, int strictness = 2, bool asap = true, int64_t timeout_ms = 0)
{
  return cm->switch_controller(start, stop, strictness, asap, rclcpp::Duration(std::chrono::nanoseconds(timeout_ms * MS))) == UR::OK;
}
inline string state(const string & n)
{
  for (auto & c : cm->get_loaded_controllers())
    if (c.info.name == n) return c.c->get_lifecycle_state().label();
  return "none";
}
inline bool active(const string & n) { return state(n) == "active"; }
template <class Srv> std::shared_ptr<typename Srv::Response> call(const string & name, std::shared_ptr<typename Srv::Request> req)
{
  auto out = std::make_shared<std::shared_ptr<typename Srv::Response>>();
  simros::call_service("/controller_manager/" + name, req, [out](std::shared_ptr<void> r) { *out = std::static_pointer_cast<typename Srv::Response>(r); });
  for (int i = 0; i < 20000 && !*out; ++i) simrt::sleep_ns(MS);
  return *out;
}
#define EXPECT(c) \
  do { \
    if (!(c)) { \
      printf("DEMO FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); \
      fflush(stdout); \
      _exit(1); \
    } \
  } while (0)
int scenario();  // the demonstration: 0 = as promised
inline void demo_plugins()
{
  auto & r = pluginlib::Registry::get();
  r[{std::type_index(typeid(controller_interface::ControllerInterface)), "demo/controller"}] = []() -> void * { return static_cast<controller_interface::ControllerInterface *>(new DemoController); };
  r[{std::type_index(typeid(controller_interface::ChainableControllerInterface)), "demo/chainable"}] = []() -> void * { return static_cast<controller_interface::ChainableControllerInterface *>(new DemoChainable); };
  r[{std::type_index(typeid(hardware_interface::SystemInterface)), "demo/system"}] = []() -> void * { return static_cast<hardware_interface::SystemInterface *>(new DemoSystem); };
  r[{std::type_index(typeid(hardware_interface::ActuatorInterface)), "demo/actuator"}] = []() -> void * { return static_cast<hardware_interface::ActuatorInterface *>(new DemoActuator); };
  r[{std::type_index(typeid(hardware_interface::SensorInterface)), "demo/sensor"}] = []() -> void * { return static_cast<hardware_interface::SensorInterface *>(new DemoSensor); };
}
