// Harness side control of the simulated ROS graph.
#pragma once
#include "simros/core.hpp"
#include "pluginlib/class_loader.hpp"
namespace simros
{
struct LogHook { std::function<void(int level, const char * logger, const char * msg)> fn; };
void set_log_hook(std::function<void(int, const char *, const char *)> f);
void set_param(const std::string & fqn, const std::string & name, const rclcpp::ParameterValue & v);
void set_params_changed(const std::string & fqn);
// asynchronous service call: done is called in the executor thread when the answer is delivered
bool call_service(const std::string & name, std::shared_ptr<const void> req, std::function<void(std::shared_ptr<void>)> done, int64_t delay_ns = 0, std::function<void()> pre = nullptr);
bool service_exists(const std::string & name);
// publish a message into a topic (latched: also kept for late subscribers)
template <class M> void inject(const std::string & topic, const M & m, bool latched)
{
  auto c = std::make_shared<M>(m);
  topic_publish(topic, typeid(M).name(), c.get(), latched, c);
}
void set_topic_hook(std::function<void(const std::string &, const char *, const void *)> f);
std::vector<rclcpp::NodeFacade *> nodes();
void set_sim_clock(int64_t ns);  // /clock value for nodes using simulated time
int64_t get_sim_clock();
void set_rt(bool kernel, bool sched);
void set_executor_threads(size_t n);
void set_introspect_all(bool b);
void set_create_hook(std::function<void(const std::string &)> f);
void set_deliver_hook(std::function<void(const std::string & topic, const void * msg, bool begin)> f);
void set_exec_hook(std::function<void(const char * what, const std::string & name)> f);
size_t pending_items();
std::vector<std::string> alive_registrations();
}
