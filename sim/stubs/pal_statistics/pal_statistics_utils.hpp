// Simulated subset of pal_statistics: keeps raw pointers exactly like the real registry, and reads them on publication.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include "simros/core.hpp"
namespace pal_statistics
{
using IdType = unsigned int;
class StatisticsRegistry;
class Registration
{
public:
  Registration(const std::string & n, IdType id, std::weak_ptr<StatisticsRegistry> r) : name_(n), id_(id), reg_(r) {}
  Registration(Registration &&) = default;
  Registration & operator=(Registration &&) = default;
  Registration(const Registration &) = delete;
  ~Registration();
  std::string name_;
  IdType id_;
  std::weak_ptr<StatisticsRegistry> reg_;
};
class RegistrationsRAII
{
public:
  RegistrationsRAII() = default;
  RegistrationsRAII(RegistrationsRAII && o) noexcept : regs_(std::move(o.regs_)) {}
  RegistrationsRAII & operator=(RegistrationsRAII && o) noexcept { regs_ = std::move(o.regs_); return *this; }
  RegistrationsRAII(const RegistrationsRAII &) = delete;
  void add(Registration && r) { std::lock_guard<std::mutex> l(m_); regs_.push_back(std::move(r)); }
  bool remove(const std::string & n);
  bool enableAll();
  bool disableAll();
  std::mutex m_;
  std::vector<Registration> regs_;
};
class StatisticsRegistry : public std::enable_shared_from_this<StatisticsRegistry>
{
public:
  struct Var { std::string name; std::function<double()> fn; bool enabled; };
  template <typename T> IdType registerVariable(const std::string & n, const T * v, RegistrationsRAII * b = nullptr, bool en = true)
  {
    return registerFunction(n, [v]() { return static_cast<double>(*v); }, b, en);
  }
  IdType registerFunction(const std::string & n, const std::function<double()> & f, RegistrationsRAII * b = nullptr, bool en = true);
  void unregisterVariable(const std::string & n, RegistrationsRAII * b = nullptr);
  void unregisterId(IdType id);
  void setEnabled(IdType id, bool e);
  void sample();
  std::mutex m_;
  std::map<IdType, Var> vars_;
  IdType next_ = 0;
};
template <typename T>
inline IdType customRegister(StatisticsRegistry & r, const std::string & n, const T * v, RegistrationsRAII * b = nullptr, bool en = true)
{
  return r.registerVariable(n, v, b, en);
}
inline IdType customRegister(StatisticsRegistry & r, const std::string & n, const std::function<double()> & f, RegistrationsRAII * b = nullptr, bool en = true)
{
  return r.registerFunction(n, f, b, en);
}
std::shared_ptr<StatisticsRegistry> getRegistry(const std::string & topic);
void clearAll();
void sampleRegistry(const std::string & key);
template <class T> inline void reg(const std::string & key, const std::string & n, const T & v, RegistrationsRAII * b = nullptr, bool en = true)
{
  auto r = getRegistry(key);
  if constexpr (std::is_pointer_v<T>) customRegister(*r, n, v, b, en);
  else customRegister(*r, n, std::function<double()>(v), b, en);
}
inline void unreg(const std::string & key, const std::string & n, RegistrationsRAII * b = nullptr) { getRegistry(key)->unregisterVariable(n, b); }
}
