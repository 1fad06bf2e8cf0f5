// Simulated subset of rclcpp / rclcpp_lifecycle used by ros2_control, on top of the simrt runtime.
#pragma once
#include <algorithm>
#include <cassert>
#include <numeric>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <functional>
#include <future>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#include "builtin_interfaces/msg/duration.hpp"
#include "builtin_interfaces/msg/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"

#define RCLCPP_VERSION_MAJOR 29
#define RCLCPP_VERSION_MINOR 0
#define RCLCPP_VERSION_PATCH 0
#define RCLCPP_VERSION_GTE(major, minor, patch) \
  ((RCLCPP_VERSION_MAJOR > (major)) || (RCLCPP_VERSION_MAJOR == (major) && RCLCPP_VERSION_MINOR >= (minor)))

#define RCL_ROS_ARGS_FLAG "--ros-args"
#define RCL_PARAM_FLAG "--param"
#define RCL_SHORT_PARAM_FLAG "-p"
#define RCL_PARAM_FILE_FLAG "--params-file"
#define RCL_REMAP_FLAG "--remap"

typedef enum rcl_clock_type_e { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME } rcl_clock_type_t;

typedef int64_t rcl_duration_value_t;
typedef int64_t rcl_time_point_value_t;
enum { RMW_QOS_POLICY_HISTORY_KEEP_LAST = 1, RMW_QOS_POLICY_HISTORY_KEEP_ALL = 2, RMW_QOS_POLICY_RELIABILITY_RELIABLE = 1, RMW_QOS_POLICY_DURABILITY_VOLATILE = 2 };

namespace simros
{
void log_write(int level, const char * logger, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
bool log_throttle(const void * site, double ms);
int64_t clock_ns(rcl_clock_type_t type, bool sim_time);
}

namespace rclcpp
{
class Context;
class Duration;
enum { LOG_DEBUG = 10, LOG_INFO = 20, LOG_WARN = 30, LOG_ERROR = 40, LOG_FATAL = 50 };

class Logger
{
public:
  Logger() = default;
  explicit Logger(std::string n) : name_(std::make_shared<const std::string>(std::move(n))) {}
  const char * get_name() const { return name_ ? name_->c_str() : nullptr; }
  Logger get_child(const std::string & s) const { return Logger((name_ ? *name_ + "." : "") + s); }
  void set_level(int) {}
private:
  std::shared_ptr<const std::string> name_;
};
inline Logger get_logger(const std::string & n) { return Logger(n); }

class Duration
{
public:
  Duration(int32_t s, uint32_t ns) : ns_(static_cast<int64_t>(s) * 1000000000ll + ns) {}
  explicit Duration(std::chrono::nanoseconds n) : ns_(n.count()) {}
  template <class R, class P>
  Duration(const std::chrono::duration<R, P> & d) : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & m) : ns_(m.sec * 1000000000ll + m.nanosec) {}
  Duration() = default;
  static Duration from_seconds(double s)
  {
    Duration d;
    d.ns_ = static_cast<int64_t>(s * 1e9);
    return d;
  }
  static Duration from_nanoseconds(int64_t n) { Duration d; d.ns_ = n; return d; }
  static Duration max() { return from_nanoseconds(std::numeric_limits<int64_t>::max()); }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  int64_t nanoseconds() const { return ns_; }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration & operator+=(const Duration & o) { ns_ += o.ns_; return *this; }
  Duration & operator-=(const Duration & o) { ns_ -= o.ns_; return *this; }
  Duration operator*(double s) const
  {
    if (s != s || s - s != 0) throw std::runtime_error("abnormal scale in rclcpp::Duration");
    return from_nanoseconds(static_cast<int64_t>(static_cast<long double>(ns_) * static_cast<long double>(s)));
  }
  template <class D> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
private:
  int64_t ns_ = 0;
};

class Time
{
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(static_cast<int64_t>(s) * 1000000000ll + ns), type_(t)
  {
    if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time");
  }
  explicit Time(int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), type_(t) {}
  Time(const Time &) = default;
  Time & operator=(const Time &) = default;
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME) : ns_(m.sec * 1000000000ll + m.nanosec), type_(t) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time m;
    m.sec = static_cast<int32_t>(ns_ / 1000000000ll);
    m.nanosec = static_cast<uint32_t>(ns_ % 1000000000ll);
    return m;
  }
  bool operator==(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return !(*this == o); }
  bool operator<(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ < o.ns_; }
  bool operator<=(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ <= o.ns_; }
  bool operator>(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ > o.ns_; }
  bool operator>=(const Time & o) const { chk(o, "can't compare times with different time sources"); return ns_ >= o.ns_; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds(), type_); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds(), type_); }
  Duration operator-(const Time & o) const
  {
    chk(o, "can't subtract times with different time sources");
    return Duration::from_nanoseconds(ns_ - o.ns_);
  }
  Time & operator+=(const Duration & d) { ns_ += d.nanoseconds(); return *this; }
  Time & operator-=(const Duration & d) { ns_ -= d.nanoseconds(); return *this; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  rcl_clock_type_t get_clock_type() const { return type_; }
  static Time max(rcl_clock_type_t t = RCL_SYSTEM_TIME) { return Time(std::numeric_limits<int32_t>::max(), 999999999, t); }
private:
  void chk(const Time & o, const char * m) const { if (type_ != o.type_) throw std::runtime_error(m); }
  int64_t ns_;
  rcl_clock_type_t type_;
};
inline Time operator+(const Duration & d, const Time & t) { return t + d; }

// ------------------------------------------------------------------ context
namespace contexts { std::shared_ptr<Context> get_global_default_context(); }
struct PreShutdownCallbackHandle { std::weak_ptr<std::function<void()>> cb; };
class Context
{
public:
  using SharedPtr = std::shared_ptr<Context>;
  bool is_valid() const { return valid_; }
  PreShutdownCallbackHandle add_pre_shutdown_callback(std::function<void()> cb);
  bool remove_pre_shutdown_callback(const PreShutdownCallbackHandle & h);
  bool shutdown(const std::string & reason);
  std::atomic<bool> valid_{false};
  std::string shutdown_reason_;
  std::vector<std::shared_ptr<std::function<void()>>> pre_;
  std::mutex pre_mtx_;
  bool shutting_down_ = false;
};
void init(int argc, char const * const * argv);
bool ok(std::shared_ptr<Context> c = nullptr);
bool shutdown(std::shared_ptr<Context> c = nullptr, const std::string & reason = "user called rclcpp::shutdown()");

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : type_(t) {}
  Time now() const { return Time(simros::clock_ns(type_, ros_time_is_active()), type_); }
  rcl_clock_type_t get_clock_type() const noexcept { return type_; }
  bool ros_time_is_active() const { return type_ == RCL_ROS_TIME && sim_time_; }
  bool started();
  bool wait_until_started(std::shared_ptr<Context> c = contexts::get_global_default_context());
  bool sleep_until(Time until, std::shared_ptr<Context> c = contexts::get_global_default_context());
  bool sleep_for(Duration d, std::shared_ptr<Context> c = contexts::get_global_default_context());
  bool sim_time_ = false;
private:
  rcl_clock_type_t type_;
};

// ------------------------------------------------------------------ parameters
namespace exceptions
{
struct InvalidParameterTypeException : std::runtime_error { InvalidParameterTypeException(const std::string & n, const std::string & m) : std::runtime_error("parameter '" + n + "' has invalid type: " + m) {} };
struct InvalidParameterValueException : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParametersException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterAlreadyDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterNotDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterUninitializedException : std::runtime_error { using std::runtime_error::runtime_error; };
struct NoParameterOverrideProvided : std::runtime_error { using std::runtime_error::runtime_error; };
}
struct ParameterTypeException : std::runtime_error { using std::runtime_error::runtime_error; };
enum ParameterType : uint8_t { PARAMETER_NOT_SET = 0, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING, PARAMETER_BYTE_ARRAY, PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY, PARAMETER_STRING_ARRAY };
class ParameterValue
{
public:
  using V = std::variant<std::monostate, bool, int64_t, double, std::string, std::vector<uint8_t>, std::vector<bool>, std::vector<int64_t>, std::vector<double>, std::vector<std::string>>;
  ParameterValue() = default;
  explicit ParameterValue(bool b) : v_(b) {}
  explicit ParameterValue(int i) : v_(static_cast<int64_t>(i)) {}
  explicit ParameterValue(unsigned i) : v_(static_cast<int64_t>(i)) {}
  explicit ParameterValue(int64_t i) : v_(i) {}
  explicit ParameterValue(float d) : v_(static_cast<double>(d)) {}
  explicit ParameterValue(double d) : v_(d) {}
  explicit ParameterValue(const std::string & s) : v_(s) {}
  explicit ParameterValue(const char * s) : v_(std::string(s)) {}
  explicit ParameterValue(const std::vector<bool> & s) : v_(s) {}
  explicit ParameterValue(const std::vector<int64_t> & s) : v_(s) {}
  explicit ParameterValue(const std::vector<int> & s) : v_(std::vector<int64_t>(s.begin(), s.end())) {}
  explicit ParameterValue(const std::vector<double> & s) : v_(s) {}
  explicit ParameterValue(const std::vector<std::string> & s) : v_(s) {}
  ParameterType get_type() const { return static_cast<ParameterType>(v_.index()); }
  bool operator==(const ParameterValue & o) const { return v_ == o.v_; }
  template <typename T> auto get() const
  {
    using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, ParameterValue>) return *this;
    else if constexpr (std::is_same_v<D, bool>) return as<bool>();
    else if constexpr (std::is_integral_v<D>) return static_cast<D>(as<int64_t>());
    else if constexpr (std::is_floating_point_v<D>) return static_cast<D>(as<double>());
    else if constexpr (std::is_convertible_v<D, std::string>) return as<std::string>();
    else if constexpr (std::is_same_v<D, std::vector<int>>) { auto x = as<std::vector<int64_t>>(); return std::vector<int>(x.begin(), x.end()); }
    else return as<D>();
  }
  template <typename T> const T & as() const
  {
    if (auto p = std::get_if<T>(&v_)) return *p;
    throw ParameterTypeException("expected another parameter type");
  }
  V v_;
};
class Parameter
{
public:
  Parameter() = default;
  explicit Parameter(const std::string & n) : n_(n) {}
  Parameter(const std::string & n, const ParameterValue & v) : n_(n), v_(v) {}
  template <typename T> Parameter(const std::string & n, const T & v) : n_(n), v_(ParameterValue(v)) {}
  const std::string & get_name() const { return n_; }
  ParameterType get_type() const { return v_.get_type(); }
  std::string get_type_name() const { static const char * t[] = {"not set", "bool", "integer", "double", "string", "byte_array", "bool_array", "integer_array", "double_array", "string_array"}; return t[v_.get_type()]; }
  const ParameterValue & get_parameter_value() const { return v_; }
  template <typename T> auto get_value() const
  {
    try { return v_.template get<T>(); } catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(n_, e.what()); }
  }
  bool as_bool() const { return get_value<bool>(); }
  int64_t as_int() const { return get_value<int64_t>(); }
  double as_double() const { return get_value<double>(); }
  std::string as_string() const { return get_value<std::string>(); }
  std::vector<std::string> as_string_array() const { return get_value<std::vector<std::string>>(); }
  std::vector<double> as_double_array() const { return get_value<std::vector<double>>(); }
  std::vector<int64_t> as_integer_array() const { return get_value<std::vector<int64_t>>(); }
  std::string value_to_string() const { return "?"; }
private:
  std::string n_;
  ParameterValue v_;
};
}  // namespace rclcpp

namespace rcl_interfaces::msg
{
struct SetParametersResult { bool successful = false; std::string reason; };
struct ParameterDescriptor { std::string name; uint8_t type = 0; std::string description; std::string additional_constraints; bool read_only = false; bool dynamic_typing = false; };
struct ListParametersResult { std::vector<std::string> names; std::vector<std::string> prefixes; };
}

namespace rclcpp
{
class NodeOptions
{
public:
  const std::vector<std::string> & arguments() const { return args_; }
  NodeOptions & arguments(const std::vector<std::string> & a) { args_ = a; return *this; }
  NodeOptions & allow_undeclared_parameters(bool b) { undeclared_ = b; return *this; }
  bool allow_undeclared_parameters() const { return undeclared_; }
  NodeOptions & automatically_declare_parameters_from_overrides(bool b) { auto_ = b; return *this; }
  bool automatically_declare_parameters_from_overrides() const { return auto_; }
  NodeOptions & enable_logger_service(bool) { return *this; }
  NodeOptions & use_global_arguments(bool) { return *this; }
  NodeOptions & use_intra_process_comms(bool) { return *this; }
  NodeOptions & start_parameter_services(bool) { return *this; }
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) { over_ = p; return *this; }
  const std::vector<Parameter> & parameter_overrides() const { return over_; }
  NodeOptions & append_parameter_override(const Parameter & p) { over_.push_back(p); return *this; }
private:
  std::vector<std::string> args_;
  std::vector<Parameter> over_;
  bool undeclared_ = false, auto_ = false;
};
struct QoSInitialization { QoSInitialization(int, size_t d_) : d(d_) {} size_t d; };
class QoS
{
public:
  QoS(size_t d) : depth_(d) {}
  explicit QoS(const QoSInitialization &) {}
  QoS & transient_local() { tl_ = true; return *this; }
  QoS & reliable() { return *this; }
  QoS & durability_volatile() { return *this; }
  QoS & keep_all() { return *this; }
  QoS & best_effort() { return *this; }
  QoS & keep_last(size_t d) { depth_ = d; return *this; }
  bool tl() const { return tl_; }
protected:
  size_t depth_ = 10;
  bool tl_ = false;
};
struct SystemDefaultsQoS : QoS { SystemDefaultsQoS() : QoS(10) {} };
struct ServicesQoS : QoS { ServicesQoS() : QoS(10) {} };

enum class CallbackGroupType { MutuallyExclusive, Reentrant };
class CallbackGroup
{
public:
  using SharedPtr = std::shared_ptr<CallbackGroup>;
  explicit CallbackGroup(CallbackGroupType t) : type(t) {}
  CallbackGroupType type;
  bool busy = false;
};
}  // namespace rclcpp

namespace simros
{
struct NodeCore;
// something that produces callbacks: service, subscription, timer
struct Entity
{
  virtual ~Entity() = default;
  std::weak_ptr<NodeCore> node;
  std::shared_ptr<rclcpp::CallbackGroup> group;
  std::string name;
  struct Item { int64_t not_before; std::function<void()> fn; };
  std::vector<Item> queue;       // pending executions, FIFO
  int64_t timer_period = 0;      // > 0: a timer
  int64_t timer_next = 0;
  std::function<void()> timer_cb;
  bool canceled = false;
};
void register_entity(const std::shared_ptr<Entity> & e);
void push_item(const std::shared_ptr<Entity> & e, std::function<void()> fn, int64_t delay_ns = 0);

struct NodeCore
{
  std::string name, ns;
  rclcpp::Logger logger;
  std::shared_ptr<rclcpp::Clock> clock;
  std::map<std::string, rclcpp::Parameter> params;
  std::map<std::string, rclcpp::ParameterValue> overrides;
  bool allow_undeclared = false;
  std::recursive_mutex mtx;
  std::shared_ptr<rclcpp::CallbackGroup> default_group;
  std::atomic_bool associated{false};
  void * executor = nullptr;   // associated executor
  void * self = nullptr;       // rclcpp::Node* (if any)
  bool is_lifecycle = false;
  std::vector<std::shared_ptr<std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter> &)>>> on_set;
  std::vector<std::shared_ptr<std::function<void(const std::vector<rclcpp::Parameter> &)>>> post_set;
  std::string fqn() const { return (ns.empty() || ns == "/" ? std::string("/") : (ns[0] == '/' ? ns : "/" + ns) + "/") + name; }
  ~NodeCore();
};
std::shared_ptr<NodeCore> make_node(const std::string & name, const std::string & ns, const rclcpp::NodeOptions & o);
void node_param_overrides(const std::string & fqn, std::map<std::string, rclcpp::ParameterValue> & out);
std::string resolve_topic(const NodeCore & n, const std::string & t);
void topic_publish(const std::string & topic, const char * type, const void * msg, bool latched, std::shared_ptr<const void> copy);
struct SubBase : Entity { std::string topic; const char * type = ""; std::function<void(std::shared_ptr<const void>)> deliver; };
void topic_subscribe(const std::shared_ptr<SubBase> & s);
struct ServiceBase : Entity
{
  std::string service_name;
  std::function<std::shared_ptr<void>(std::shared_ptr<const void>)> invoke;  // executes the callback
};
void service_register(const std::shared_ptr<ServiceBase> & s);
}  // namespace simros

namespace rclcpp
{
namespace node_interfaces
{
struct NodeBaseInterface
{
  using SharedPtr = std::shared_ptr<NodeBaseInterface>;
  std::shared_ptr<simros::NodeCore> core;
  const char * get_name() const { return core->name.c_str(); }
  const char * get_namespace() const { return core->ns.c_str(); }
  std::shared_ptr<Context> get_context() const { return contexts::get_global_default_context(); }
  std::atomic_bool & get_associated_with_executor_atomic() { return core->associated; }
};
struct NodeClockInterface
{
  using SharedPtr = std::shared_ptr<NodeClockInterface>;
  std::shared_ptr<simros::NodeCore> core;
  std::shared_ptr<Clock> get_clock() { return core->clock; }
};
struct NodeLoggingInterface
{
  using SharedPtr = std::shared_ptr<NodeLoggingInterface>;
  std::shared_ptr<simros::NodeCore> core;
  Logger get_logger() const { return core->logger; }
  const char * get_logger_name() const { return core->logger.get_name(); }
};
struct OnSetParametersCallbackHandle
{
  using SharedPtr = std::shared_ptr<OnSetParametersCallbackHandle>;
  std::shared_ptr<void> keep;
};
struct PostSetParametersCallbackHandle { using SharedPtr = std::shared_ptr<PostSetParametersCallbackHandle>; std::shared_ptr<void> keep; };
struct NodeParametersInterface
{
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  std::shared_ptr<simros::NodeCore> core;
  bool has_parameter(const std::string & n) const;
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & v, const rcl_interfaces::msg::ParameterDescriptor & d = rcl_interfaces::msg::ParameterDescriptor(), bool ignore_override = false);
  Parameter get_parameter(const std::string & n) const;
  bool get_parameter(const std::string & n, Parameter & p) const;
  std::vector<Parameter> get_parameters(const std::vector<std::string> & n) const;
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & p);
  rcl_interfaces::msg::SetParametersResult set_parameters_atomically(const std::vector<Parameter> & p);
  OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> cb);
  const std::map<std::string, ParameterValue> & get_parameter_overrides() const { return core->overrides; }
};
}  // namespace node_interfaces
using OnSetParametersCallbackHandle = node_interfaces::OnSetParametersCallbackHandle;

class TimerBase : public simros::Entity
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  void cancel() { canceled = true; }
  void reset() { canceled = false; }
};
template <typename M> class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>;
  Publisher(std::string t, bool l) : topic_(std::move(t)), latched_(l) {}
  void publish(const M & m) { auto c = std::make_shared<M>(m); simros::topic_publish(topic_, typeid(M).name(), c.get(), latched_, c); }
  void publish(std::unique_ptr<M> m) { publish(*m); }
  const char * get_topic_name() const { return topic_.c_str(); }
  size_t get_subscription_count() const { return 1; }
private:
  std::string topic_;
  bool latched_;
};
template <typename M> class Subscription : public simros::SubBase
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
  const char * get_topic_name() const { return topic.c_str(); }
  size_t get_publisher_count() const { return 1; }
};
template <typename S> class Service : public simros::ServiceBase
{
public:
  using SharedPtr = std::shared_ptr<Service<S>>;
};

namespace detail
{
template <typename NodeT> struct Facade
{
};
}  // namespace detail

// common part of Node and LifecycleNode
class NodeFacade
{
public:
  NodeFacade(const std::string & name, const std::string & ns, const NodeOptions & o);
  virtual ~NodeFacade();
  const char * get_name() const { return core_->name.c_str(); }
  const char * get_namespace() const { return ns_disp_.c_str(); }
  const char * get_fully_qualified_name() const { return fqn_.c_str(); }
  Logger get_logger() const { return core_->logger; }
  Clock::SharedPtr get_clock() { return core_->clock; }
  Clock::ConstSharedPtr get_clock() const { return core_->clock; }
  Time now() const { return core_->clock->now(); }
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() { return base_; }
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() const { return base_; }
  node_interfaces::NodeClockInterface::SharedPtr get_node_clock_interface() { return clock_itf_; }
  node_interfaces::NodeLoggingInterface::SharedPtr get_node_logging_interface() { return log_itf_; }
  node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface() { return par_itf_; }
  bool has_parameter(const std::string & n) const { return par_itf_->has_parameter(n); }
  template <typename T> auto declare_parameter(const std::string & n, const T & d, const rcl_interfaces::msg::ParameterDescriptor & desc = rcl_interfaces::msg::ParameterDescriptor(), bool io = false)
  {
    try { return par_itf_->declare_parameter(n, ParameterValue(d), desc, io).template get<T>(); }
    catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(n, e.what()); }
  }
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & d) { return par_itf_->declare_parameter(n, d); }
  const ParameterValue & declare_parameter(const std::string & n, ParameterType t, const rcl_interfaces::msg::ParameterDescriptor & d = {}, bool io = false)
  {
    (void)t; (void)io;
    return par_itf_->declare_parameter(n, ParameterValue(), d);
  }
  template <typename T> T declare_parameter(const std::string & n)
  {
    auto v = par_itf_->declare_parameter(n, ParameterValue());
    if (v.get_type() == PARAMETER_NOT_SET) throw exceptions::ParameterUninitializedException(n);
    return v.template get<T>();
  }
  Parameter get_parameter(const std::string & n) const { return par_itf_->get_parameter(n); }
  bool get_parameter(const std::string & n, Parameter & p) const { return par_itf_->get_parameter(n, p); }
  template <typename T> bool get_parameter(const std::string & n, T & v) const
  {
    Parameter p;
    if (!par_itf_->get_parameter(n, p) || p.get_type() == PARAMETER_NOT_SET) return false;
    v = p.get_value<T>();
    return true;
  }
  template <typename T> bool get_parameter_or(const std::string & n, T & v, const T & d) const
  {
    if (get_parameter(n, v)) return true;
    v = d;
    return false;
  }
  template <typename T> T get_parameter_or(const std::string & n, const T & d) const { T v; if (!get_parameter(n, v)) return d; return v; }
  rcl_interfaces::msg::SetParametersResult set_parameter(const Parameter & p) { return par_itf_->set_parameters_atomically({p}); }
  OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> cb) { return par_itf_->add_on_set_parameters_callback(cb); }
  node_interfaces::PostSetParametersCallbackHandle::SharedPtr add_post_set_parameters_callback(std::function<void(const std::vector<Parameter> &)> cb);
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool = true) { return std::make_shared<CallbackGroup>(t); }
  template <typename M> std::shared_ptr<Publisher<M>> create_publisher(const std::string & t, const QoS & q)
  {
    return std::make_shared<Publisher<M>>(simros::resolve_topic(*core_, t), q.tl());
  }
  template <typename M, typename F> std::shared_ptr<Subscription<M>> create_subscription(const std::string & t, const QoS &, F && cb)
  {
    auto s = std::make_shared<Subscription<M>>();
    s->topic = simros::resolve_topic(*core_, t);
    s->name = "sub:" + s->topic;
    s->type = typeid(M).name();
    s->node = core_;
    s->group = core_->default_group;
    std::function<void(const M &)> f = std::forward<F>(cb);
    s->deliver = [f](std::shared_ptr<const void> m) { f(*static_cast<const M *>(m.get())); };
    simros::topic_subscribe(s);
    return s;
  }
  template <typename S, typename F> std::shared_ptr<Service<S>> create_service(const std::string & t, F && cb, const QoS & = ServicesQoS(), CallbackGroup::SharedPtr g = nullptr)
  {
    auto s = std::make_shared<Service<S>>();
    s->service_name = simros::resolve_topic(*core_, t);
    s->name = "srv:" + s->service_name;
    s->node = core_;
    s->group = g ? g : core_->default_group;
    std::function<void(const std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)> f = std::forward<F>(cb);
    s->invoke = [f](std::shared_ptr<const void> rq) -> std::shared_ptr<void> {
      auto req = std::make_shared<typename S::Request>(*static_cast<const typename S::Request *>(rq.get()));
      auto rs = std::make_shared<typename S::Response>();
      f(req, rs);
      return rs;
    };
    simros::service_register(s);
    return s;
  }
  template <typename D, typename F> TimerBase::SharedPtr create_wall_timer(D period, F && cb, CallbackGroup::SharedPtr g = nullptr)
  {
    return make_timer(std::chrono::duration_cast<std::chrono::nanoseconds>(period).count(), std::forward<F>(cb), g);
  }
  TimerBase::SharedPtr make_timer(int64_t ns, std::function<void()> cb, CallbackGroup::SharedPtr g);
  std::shared_ptr<simros::NodeCore> sim_core() const { return core_; }
protected:
  std::shared_ptr<simros::NodeCore> core_;
  node_interfaces::NodeBaseInterface::SharedPtr base_;
  node_interfaces::NodeClockInterface::SharedPtr clock_itf_;
  node_interfaces::NodeLoggingInterface::SharedPtr log_itf_;
  node_interfaces::NodeParametersInterface::SharedPtr par_itf_;
  std::string ns_disp_, fqn_;
};

class Node : public NodeFacade, public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  using WeakPtr = std::weak_ptr<Node>;
  using OnSetParametersCallbackHandle = rclcpp::OnSetParametersCallbackHandle;
  explicit Node(const std::string & name, const NodeOptions & o = NodeOptions());
  Node(const std::string & name, const std::string & ns, const NodeOptions & o = NodeOptions());
  ~Node() override;
  template <typename... A> static SharedPtr make_shared(A &&... a) { return std::make_shared<Node>(std::forward<A>(a)...); }
};

struct ExecutorOptions {};
class Executor
{
public:
  using SharedPtr = std::shared_ptr<Executor>;
  using WeakPtr = std::weak_ptr<Executor>;
  Executor();
  virtual ~Executor();
  virtual void add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool notify = true);
  void add_node(const std::shared_ptr<Node> & n, bool notify = true) { add_node(n->get_node_base_interface(), notify); }
  virtual void remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool notify = true);
  void remove_node(const std::shared_ptr<Node> & n, bool notify = true) { remove_node(n->get_node_base_interface(), notify); }
  virtual void spin() = 0;
  void cancel();
  bool is_spinning() const { return spinning_; }
protected:
  void worker();
  bool take(std::function<void()> & fn, std::shared_ptr<CallbackGroup> & g, std::string & name, int64_t & next_deadline);
  std::vector<std::shared_ptr<simros::NodeCore>> nodes_;
  std::atomic<bool> spinning_{false};
};
namespace executors
{
class MultiThreadedExecutor : public Executor
{
public:
  explicit MultiThreadedExecutor(const ExecutorOptions & = ExecutorOptions(), size_t n = 0) : n_(n ? n : 4) {}
  void spin() override;
private:
  size_t n_;
};
class SingleThreadedExecutor : public Executor
{
public:
  void spin() override;
};
}  // namespace executors
void spin_some(const std::shared_ptr<Node> &);
}  // namespace rclcpp

namespace rclcpp_lifecycle
{
class State
{
public:
  State() : id_(0), label_("unknown") {}
  State(uint8_t id, const std::string & l) : id_(id), label_(l) { if (l.empty()) throw std::runtime_error("Lifecycle State cannot have an empty label."); }
  uint8_t id() const { return id_; }
  std::string label() const { return label_; }
private:
  uint8_t id_;
  std::string label_;
};
namespace node_interfaces
{
class LifecycleNodeInterface
{
public:
  enum class CallbackReturn : uint8_t { SUCCESS = 97, FAILURE = 98, ERROR = 99 };
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::FAILURE; }
  virtual ~LifecycleNodeInterface() = default;
};
}  // namespace node_interfaces
class LifecycleNode : public rclcpp::NodeFacade, public node_interfaces::LifecycleNodeInterface, public std::enable_shared_from_this<LifecycleNode>
{
public:
  using SharedPtr = std::shared_ptr<LifecycleNode>;
  using CallbackReturn = node_interfaces::LifecycleNodeInterface::CallbackReturn;
  using Cb = std::function<CallbackReturn(const State &)>;
  explicit LifecycleNode(const std::string & name, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true) : LifecycleNode(name, "", o) {}
  LifecycleNode(const std::string & name, const std::string & ns, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true);
  ~LifecycleNode() override;
  bool register_on_configure(Cb f) { cb_[0] = f; return true; }
  bool register_on_cleanup(Cb f) { cb_[1] = f; return true; }
  bool register_on_activate(Cb f) { cb_[2] = f; return true; }
  bool register_on_deactivate(Cb f) { cb_[3] = f; return true; }
  bool register_on_shutdown(Cb f) { cb_[4] = f; return true; }
  bool register_on_error(Cb f) { cb_[5] = f; return true; }
  const State & get_current_state() const;
  const State & configure();
  const State & cleanup();
  const State & activate();
  const State & deactivate();
  const State & shutdown();
private:
  const State & change(int which);
  CallbackReturn run(const Cb & f, const State & prev);
  void set_state(uint8_t id);
  Cb cb_[6];
  mutable std::recursive_mutex smtx_;
  std::atomic<uint8_t> state_id_{1};
};
}  // namespace rclcpp_lifecycle

// ---------------------------------------------------------------- logging macros
#define SIMROS_LOG(LV, logger, ...) do { ::simros::log_write(LV, (logger).get_name(), __VA_ARGS__); } while (0)
#define SIMROS_NOLOG(logger, ...) do { if (false) { ::simros::log_write(10, (logger).get_name(), __VA_ARGS__); } } while (0)
#define RCLCPP_DEBUG(logger, ...) SIMROS_NOLOG(logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) SIMROS_LOG(20, logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) SIMROS_LOG(30, logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) SIMROS_LOG(40, logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) SIMROS_LOG(50, logger, __VA_ARGS__)
#define SIMROS_EXPR(M, logger, e, ...) do { if (e) { M(logger, __VA_ARGS__); } } while (0)
#define RCLCPP_DEBUG_EXPRESSION(logger, e, ...) SIMROS_NOLOG(logger, __VA_ARGS__)
#define RCLCPP_INFO_EXPRESSION(logger, e, ...) SIMROS_EXPR(RCLCPP_INFO, logger, e, __VA_ARGS__)
#define RCLCPP_WARN_EXPRESSION(logger, e, ...) SIMROS_EXPR(RCLCPP_WARN, logger, e, __VA_ARGS__)
#define RCLCPP_ERROR_EXPRESSION(logger, e, ...) SIMROS_EXPR(RCLCPP_ERROR, logger, e, __VA_ARGS__)
#define RCLCPP_FATAL_EXPRESSION(logger, e, ...) SIMROS_EXPR(RCLCPP_FATAL, logger, e, __VA_ARGS__)
#define SIMROS_ONCE(M, logger, ...) do { static bool simros_once = false; if (!simros_once) { simros_once = true; M(logger, __VA_ARGS__); } } while (0)
#define RCLCPP_DEBUG_ONCE(logger, ...) SIMROS_NOLOG(logger, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(logger, ...) SIMROS_ONCE(RCLCPP_INFO, logger, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(logger, ...) SIMROS_ONCE(RCLCPP_WARN, logger, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(logger, ...) SIMROS_ONCE(RCLCPP_ERROR, logger, __VA_ARGS__)
#define SIMROS_THROTTLE(M, logger, clock, ms, ...) do { static const char simros_site = 0; (void)(clock).now(); if (::simros::log_throttle(&simros_site, ms)) { M(logger, __VA_ARGS__); } } while (0)
#define RCLCPP_DEBUG_THROTTLE(logger, clock, ms, ...) SIMROS_NOLOG(logger, __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(logger, clock, ms, ...) SIMROS_THROTTLE(RCLCPP_INFO, logger, clock, ms, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clock, ms, ...) SIMROS_THROTTLE(RCLCPP_WARN, logger, clock, ms, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(logger, clock, ms, ...) SIMROS_THROTTLE(RCLCPP_ERROR, logger, clock, ms, __VA_ARGS__)
#define SIMROS_STREAM(LV, logger, arg) do { std::ostringstream simros_ss; simros_ss << arg; ::simros::log_write(LV, (logger).get_name(), "%s", simros_ss.str().c_str()); } while (0)
#define RCLCPP_DEBUG_STREAM(logger, arg) do {} while (0)
#define RCLCPP_INFO_STREAM(logger, arg) SIMROS_STREAM(20, logger, arg)
#define RCLCPP_WARN_STREAM(logger, arg) SIMROS_STREAM(30, logger, arg)
#define RCLCPP_ERROR_STREAM(logger, arg) SIMROS_STREAM(40, logger, arg)
#define RCLCPP_WARN_STREAM_THROTTLE(logger, clock, ms, arg) SIMROS_THROTTLE(RCLCPP_WARN_STREAM, logger, clock, ms, arg)
#define RCLCPP_ERROR_STREAM_THROTTLE(logger, clock, ms, arg) SIMROS_THROTTLE(RCLCPP_ERROR_STREAM, logger, clock, ms, arg)
#define RCLCPP_INFO_STREAM_THROTTLE(logger, clock, ms, arg) SIMROS_THROTTLE(RCLCPP_INFO_STREAM, logger, clock, ms, arg)
#define RCUTILS_LOG_ERROR_NAMED(n, ...) ::simros::log_write(40, n, __VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(n, ...) ::simros::log_write(20, n, __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(n, ...) ::simros::log_write(30, n, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_NAMED(n, ...) do { if (false) ::simros::log_write(10, n, __VA_ARGS__); } while (0)
#define RCLCPP_SHARED_PTR_DEFINITIONS(...)
