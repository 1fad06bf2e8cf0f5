#pragma once
#include <functional>
#include <mutex>
#include <optional>
namespace realtime_tools
{
template <class T> class RealtimeThreadSafeBox
{
public:
  RealtimeThreadSafeBox() = default;
  explicit RealtimeThreadSafeBox(const T & v) : v_(v) {}
  void set(const T & v) { std::lock_guard<std::mutex> l(m_); v_ = v; }
  T get() const { std::lock_guard<std::mutex> l(m_); return v_; }
  void get(T & o) const { std::lock_guard<std::mutex> l(m_); o = v_; }
  void get(const std::function<void(const T &)> & f) const { std::lock_guard<std::mutex> l(m_); f(v_); }
  void set(const std::function<void(T &)> & f) { std::lock_guard<std::mutex> l(m_); f(v_); }
  bool try_set(const T & v) { std::unique_lock<std::mutex> l(m_, std::try_to_lock); if (!l.owns_lock()) return false; v_ = v; return true; }
  std::optional<T> try_get() const { std::unique_lock<std::mutex> l(m_, std::try_to_lock); if (!l.owns_lock()) return std::nullopt; return v_; }
private:
  mutable std::mutex m_;
  T v_{};
};
template <class T> using RealtimeBox = RealtimeThreadSafeBox<T>;
}
