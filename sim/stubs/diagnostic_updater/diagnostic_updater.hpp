#pragma once
#include <functional>
#include <string>
#include <utility>
#include <vector>
#include "diagnostic_msgs/msg/diagnostic_array.hpp"
#include "diagnostic_msgs/msg/diagnostic_status.hpp"
#include "diagnostic_msgs/msg/key_value.hpp"
#include "simros/core.hpp"
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::msg::DiagnosticStatus
{
public:
  void summary(unsigned char lvl, const std::string & s) { level = lvl; message = s; }
  void mergeSummary(unsigned char lvl, const std::string & s)
  {
    if ((lvl > 0) && (level > 0)) { if (!message.empty()) message += "; "; message += s; }
    else if (lvl > level) message = s;
    if (lvl > level) level = lvl;
  }
  template <class T> void add(const std::string & k, const T & v)
  {
    diagnostic_msgs::msg::KeyValue kv;
    kv.key = k;
    if constexpr (std::is_convertible_v<T, std::string>) kv.value = v;
    else { std::ostringstream o; o << v; kv.value = o.str(); }
    values.push_back(kv);
  }
};
// called before and after every task; period of the updates if positive
struct Hooks
{
  static inline std::function<void(bool begin, const DiagnosticStatusWrapper &)> task;
  static inline double period = 0;
};
class Updater
{
public:
  template <class NodeT> explicit Updater(NodeT * n, double period = 1.0)
  {
    pub_ = n->template create_publisher<diagnostic_msgs::msg::DiagnosticArray>("/diagnostics", rclcpp::QoS(1));
    if (Hooks::period > 0) period = Hooks::period;
    timer_ = n->make_timer(static_cast<int64_t>(period * 1e9), [this]() { update(); }, nullptr);
  }
  void setHardwareID(const std::string & h) { hwid_ = h; }
  template <class C> void add(const std::string & n, C * c, void (C::*f)(DiagnosticStatusWrapper &)) { std::lock_guard<std::mutex> l(m_); tasks_.push_back({n, [c, f](DiagnosticStatusWrapper & s) { (c->*f)(s); }}); }
  void add(const std::string & n, std::function<void(DiagnosticStatusWrapper &)> f) { std::lock_guard<std::mutex> l(m_); tasks_.push_back({n, f}); }
  void force_update() { update(); }
  void update()
  {
    std::lock_guard<std::mutex> l(m_);
    diagnostic_msgs::msg::DiagnosticArray a;
    for (auto & t : tasks_) {
      DiagnosticStatusWrapper s;
      s.name = t.first;
      s.level = 2;
      s.message = "No message was set";
      s.hardware_id = hwid_;
      if (Hooks::task) Hooks::task(true, s);
      t.second(s);
      if (Hooks::task) Hooks::task(false, s);
      a.status.push_back(s);
    }
    pub_->publish(a);
  }
private:
  std::mutex m_;
  std::string hwid_;
  std::vector<std::pair<std::string, std::function<void(DiagnosticStatusWrapper &)>>> tasks_;
  std::shared_ptr<rclcpp::Publisher<diagnostic_msgs::msg::DiagnosticArray>> pub_;
  rclcpp::TimerBase::SharedPtr timer_;
};
}
