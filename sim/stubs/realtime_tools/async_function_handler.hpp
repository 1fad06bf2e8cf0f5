// Re-implementation of realtime_tools::AsyncFunctionHandler (documented behaviour of the released package).
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include "simros/core.hpp"
namespace simros { void name_next_thread(const char * n); }
namespace realtime_tools
{
class AsyncSchedulingPolicy
{
public:
  enum Value : int8_t { UNKNOWN = -1, SYNCHRONIZED, DETACHED };
  AsyncSchedulingPolicy() = default;
  constexpr AsyncSchedulingPolicy(Value v) : value_(v) {}
  explicit AsyncSchedulingPolicy(const std::string & s)
  {
    if (s == "synchronized") value_ = SYNCHRONIZED;
    else if (s == "detached") value_ = DETACHED;
    else value_ = UNKNOWN;
  }
  operator Value() const { return value_; }
  explicit operator bool() const = delete;
  constexpr bool operator==(AsyncSchedulingPolicy o) const { return value_ == o.value_; }
  constexpr bool operator!=(AsyncSchedulingPolicy o) const { return value_ != o.value_; }
  constexpr bool operator==(Value o) const { return value_ == o; }
  constexpr bool operator!=(Value o) const { return value_ != o; }
  std::string to_string() const { return value_ == SYNCHRONIZED ? "synchronized" : value_ == DETACHED ? "detached" : "unknown"; }
private:
  Value value_ = UNKNOWN;
};
struct AsyncFunctionHandlerParams
{
  bool validate() const
  {
    if (thread_priority < 0 || thread_priority > 99) return false;
    if (scheduling_policy == AsyncSchedulingPolicy::UNKNOWN) return false;
    if (scheduling_policy == AsyncSchedulingPolicy::DETACHED) {
      if (!clock || exec_rate == 0u) return false;
    }
    return true;
  }
  template <typename NodeT> void initialize(NodeT & node, const std::string & prefix)
  {
    if (node->has_parameter(prefix + "thread_priority")) thread_priority = static_cast<int>(node->get_parameter(prefix + "thread_priority").as_int());
    if (node->has_parameter(prefix + "cpu_affinity")) {
      auto v = node->get_parameter(prefix + "cpu_affinity").as_integer_array();
      for (auto c : v) if (c >= 0) cpu_affinity_cores.push_back(static_cast<int>(c));
    }
    if (node->has_parameter(prefix + "scheduling_policy")) scheduling_policy = AsyncSchedulingPolicy(node->get_parameter(prefix + "scheduling_policy").as_string());
    if (scheduling_policy == AsyncSchedulingPolicy::DETACHED && node->has_parameter(prefix + "execution_rate")) {
      auto r = node->get_parameter(prefix + "execution_rate").as_int();
      if (r <= 0) throw std::runtime_error("AsyncFunctionHandler: execution_rate must be positive");
      exec_rate = static_cast<unsigned int>(r);
    }
    if (node->has_parameter(prefix + "wait_until_initial_trigger")) wait_until_initial_trigger = node->get_parameter(prefix + "wait_until_initial_trigger").as_bool();
    if (node->has_parameter(prefix + "print_warnings")) print_warnings = node->get_parameter(prefix + "print_warnings").as_bool();
  }
  int thread_priority = 50;
  std::vector<int> cpu_affinity_cores = {};
  AsyncSchedulingPolicy scheduling_policy = AsyncSchedulingPolicy::SYNCHRONIZED;
  unsigned int exec_rate = 0u;
  rclcpp::Clock::SharedPtr clock = nullptr;
  rclcpp::Logger logger = rclcpp::get_logger("AsyncFunctionHandler");
  std::function<bool()> trigger_predicate = []() { return true; };
  bool wait_until_initial_trigger = true;
  bool print_warnings = true;
};

template <typename T>
class AsyncFunctionHandler
{
public:
  AsyncFunctionHandler() = default;
  ~AsyncFunctionHandler() { stop_thread(); }
  void init(std::function<T(const rclcpp::Time &, const rclcpp::Duration &)> cb, int prio = 50)
  {
    AsyncFunctionHandlerParams p;
    p.thread_priority = prio;
    init(cb, p);
  }
  void init(std::function<T(const rclcpp::Time &, const rclcpp::Duration &)> cb, const AsyncFunctionHandlerParams & p)
  {
    if (!cb) throw std::runtime_error("AsyncFunctionHandler: parsed function to call asynchronously is not valid!");
    if (thread_.joinable()) throw std::runtime_error("AsyncFunctionHandler: Cannot reinitialize while the thread is running. Please stop the async callback first!");
    if (!p.validate()) throw std::runtime_error("AsyncFunctionHandler: The parameters used to initialize are not valid!");
    async_function_ = cb;
    params_ = p;
    if (params_.scheduling_policy == AsyncSchedulingPolicy::DETACHED) pause_thread_ = params_.wait_until_initial_trigger;
  }
  std::pair<bool, T> trigger_async_callback(const rclcpp::Time & time, const rclcpp::Duration & period)
  {
    if (!is_initialized()) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (async_exception_ptr_) std::rethrow_exception(async_exception_ptr_);
    if (!is_running()) throw std::runtime_error("AsyncFunctionHandler: need to start the async callback thread first before triggering!");
    std::unique_lock<std::mutex> lock(async_mtx_, std::try_to_lock);
    bool trigger_status = false;
    if (lock.owns_lock() && !trigger_in_progress_) {
      trigger_in_progress_ = true;
      current_callback_time_ = time;
      current_callback_period_ = period;
      pause_thread_ = false;
      lock.unlock();
      async_callback_condition_.notify_one();
      trigger_status = true;
    }
    const T return_value = async_callback_return_;
    return std::make_pair(trigger_status, return_value);
  }
  const rclcpp::Time & get_current_callback_time() const { return current_callback_time_; }
  const rclcpp::Duration & get_current_callback_period() const { return current_callback_period_; }
  T get_last_return_value() const { return async_callback_return_; }
  void reset_variables()
  {
    std::unique_lock<std::mutex> lock(async_mtx_);
    stop_async_callback_ = false;
    trigger_in_progress_ = false;
    last_execution_time_ = std::chrono::nanoseconds(0);
    async_callback_return_ = T();
    async_exception_ptr_ = nullptr;
  }
  void wait_for_trigger_cycle_to_finish()
  {
    if (is_running()) {
      std::unique_lock<std::mutex> lock(async_mtx_);
      cycle_end_condition_.wait(lock, [this] { return !trigger_in_progress_; });
    }
  }
  bool is_initialized() const { return async_function_ != nullptr; }
  void join_async_callback_thread() { if (is_running()) thread_.join(); }
  bool is_running() const { return thread_.joinable(); }
  bool is_stopped() const { return stop_async_callback_; }
  bool is_trigger_cycle_in_progress() const { return trigger_in_progress_; }
  std::thread & get_thread() { return thread_; }
  const AsyncFunctionHandlerParams & get_params() const { return params_; }
  void pause_execution()
  {
    pause_thread_ = true;
    if (is_running()) {
      std::unique_lock<std::mutex> lock(async_mtx_);
      cycle_end_condition_.wait(lock, [this] { return !trigger_in_progress_ || async_exception_ptr_ != nullptr; });
    }
  }
  void stop_thread()
  {
    if (is_running()) {
      {
        std::unique_lock<std::mutex> lock(async_mtx_);
        stop_async_callback_ = true;
      }
      async_callback_condition_.notify_one();
      thread_.join();
    }
  }
  std::chrono::nanoseconds get_last_execution_time() const { return last_execution_time_.load(); }
  void start_thread()
  {
    if (!is_initialized()) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (!thread_.joinable()) {
      reset_variables();
      simros::name_next_thread("async");
      thread_ = std::thread([this]() {
        if (params_.scheduling_policy == AsyncSchedulingPolicy::DETACHED) run_detached(); else run_sync();
      });
    }
  }
private:
  void one()
  {
    const auto s = std::chrono::steady_clock::now();
    try { async_callback_return_ = async_function_(current_callback_time_, current_callback_period_); }
    catch (...) { async_exception_ptr_ = std::current_exception(); }
    const auto e = std::chrono::steady_clock::now();
    last_execution_time_ = std::chrono::duration_cast<std::chrono::nanoseconds>(e - s);
  }
  void run_sync()
  {
    while (!stop_async_callback_) {
      {
        std::unique_lock<std::mutex> lock(async_mtx_);
        async_callback_condition_.wait(lock, [this] { return trigger_in_progress_ || stop_async_callback_; });
        if (!stop_async_callback_) one();
        trigger_in_progress_ = false;
      }
      cycle_end_condition_.notify_all();
    }
  }
  void run_detached()
  {
    const auto period = std::chrono::nanoseconds(1000000000ll / params_.exec_rate);
    auto next = std::chrono::steady_clock::now();
    bool first = true;
    rclcpp::Time prev;
    while (!stop_async_callback_) {
      {
        std::unique_lock<std::mutex> lock(async_mtx_);
        async_callback_condition_.wait(lock, [this] { return !pause_thread_ || stop_async_callback_; });
        if (!stop_async_callback_) {
          if (trigger_in_progress_ || first) next = std::chrono::steady_clock::now();
          const auto now = params_.clock->now();
          current_callback_period_ = first ? rclcpp::Duration(period) : now - prev;
          current_callback_time_ = now;
          prev = now;
          first = false;
          one();
          if (async_exception_ptr_) pause_thread_ = true;
        }
        trigger_in_progress_ = false;
      }
      cycle_end_condition_.notify_all();
      next += period;
      const auto n = std::chrono::steady_clock::now();
      if (next < n) next = n;
      std::this_thread::sleep_until(next);
    }
  }
  rclcpp::Time current_callback_time_ = rclcpp::Time(0, 0, RCL_CLOCK_UNINITIALIZED);
  rclcpp::Duration current_callback_period_{0, 0};
  std::function<T(const rclcpp::Time &, const rclcpp::Duration &)> async_function_;
  AsyncFunctionHandlerParams params_;
  std::thread thread_;
  std::atomic_bool stop_async_callback_{false};
  std::atomic_bool trigger_in_progress_{false};
  std::atomic_bool pause_thread_{false};
  std::atomic<T> async_callback_return_{};
  std::condition_variable async_callback_condition_;
  std::condition_variable cycle_end_condition_;
  std::mutex async_mtx_;
  std::atomic<std::chrono::nanoseconds> last_execution_time_{std::chrono::nanoseconds(0)};
  std::exception_ptr async_exception_ptr_ = nullptr;
};
}  // namespace realtime_tools
