#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <typeinfo>
#include <vector>
namespace pluginlib
{
struct PluginlibException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LibraryLoadException : PluginlibException { using PluginlibException::PluginlibException; };
struct CreateClassException : PluginlibException { using PluginlibException::PluginlibException; };
struct Registry
{
  // base type -> class name -> factory
  static std::map<std::pair<std::type_index, std::string>, std::function<void *()>> & get();
};
// the simulator may veto or fail a creation
void before_create(const std::string & cls);
template <class T> class ClassLoader
{
public:
  ClassLoader(const std::string &, const std::string & base, std::string = "") : base_(base) {}
  template <class U = T> using UniquePtr = std::unique_ptr<U>;
  bool isClassAvailable(const std::string & c) const { return Registry::get().count({std::type_index(typeid(T)), c}) > 0; }
  std::vector<std::string> getDeclaredClasses() const
  {
    std::vector<std::string> r;
    for (auto & e : Registry::get()) if (e.first.first == std::type_index(typeid(T))) r.push_back(e.first.second);
    return r;
  }
  std::string getBaseClassType() const { return base_; }
  void loadLibraryForClass(const std::string &) {}
  std::shared_ptr<T> createSharedInstance(const std::string & c) { return std::shared_ptr<T>(make(c)); }
  std::unique_ptr<T> createUniqueInstance(const std::string & c) { return std::unique_ptr<T>(make(c)); }
  T * createUnmanagedInstance(const std::string & c) { return make(c); }
private:
  T * make(const std::string & c)
  {
    auto it = Registry::get().find({std::type_index(typeid(T)), c});
    if (it == Registry::get().end()) throw LibraryLoadException("According to the loaded plugin descriptions the class " + c + " with base class type " + base_ + " does not exist.");
    before_create(c);
    return static_cast<T *>(it->second());
  }
  std::string base_;
};
}
