#pragma once
#include <chrono>
#include <mutex>
#include <thread>
namespace realtime_tools
{
template <class T> class RealtimeBuffer
{
public:
  RealtimeBuffer() : non_rt_(new T()), rt_(new T()) {}
  explicit RealtimeBuffer(const T & d) : non_rt_(new T(d)), rt_(new T(d)) {}
  ~RealtimeBuffer() { delete non_rt_; delete rt_; }
  RealtimeBuffer(const RealtimeBuffer & o) : non_rt_(new T()), rt_(new T()) { writeFromNonRT(*o.readFromNonRT()); }
  T * readFromRT()
  {
    std::unique_lock<std::mutex> l(m_, std::try_to_lock);
    if (l.owns_lock()) {
      if (new_) { T * t = non_rt_; non_rt_ = rt_; rt_ = t; new_ = false; }
    }
    return rt_;
  }
  T * readFromNonRT() const { std::lock_guard<std::mutex> l(m_); return new_ ? non_rt_ : rt_; }
  void writeFromNonRT(const T & d)
  {
    std::unique_lock<std::mutex> l(m_, std::defer_lock);
    while (!l.try_lock()) std::this_thread::sleep_for(std::chrono::microseconds(500));
    *non_rt_ = d;
    new_ = true;
  }
  void initRT(const T & d) { *non_rt_ = d; *rt_ = d; }
  void reset() { delete non_rt_; delete rt_; non_rt_ = new T(); rt_ = new T(); }
private:
  T * non_rt_;
  T * rt_;
  bool new_ = false;
  mutable std::mutex m_;
};
}
