// Stand-in for pluginlib: plugins live in an in-process registry.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "pluginlib/exceptions.hpp"
namespace pluginlib
{
namespace stub
{
// "class|base class" as written in PLUGINLIB_EXPORT_CLASS -> factory (void* is a Base*)
std::map<std::string, std::function<void*()>>& exported();
// base class -> ordered list of (lookup name, factory returning a Base*)
struct Entry { std::string name; std::function<void*()> make; };
std::map<std::string, std::vector<Entry>>& declared();
extern int loaders_created, loaders_destroyed;
}
template <typename T> using UniquePtr = std::unique_ptr<T, std::function<void(T*)>>;

template <class T>
class ClassLoader
{
public:
  ClassLoader(std::string package, std::string base_class, std::string = std::string("plugin"), std::vector<std::string> = std::vector<std::string>())
    : package_(package), base_(base_class) { ++stub::loaders_created; }
  ~ClassLoader() { ++stub::loaders_destroyed; }
  ClassLoader(const ClassLoader&) = delete;
  ClassLoader& operator=(const ClassLoader&) = delete;

  std::shared_ptr<T> createInstance(const std::string& n) { return std::shared_ptr<T>(make(n)); }
  std::shared_ptr<T> createSharedInstance(const std::string& n) { return std::shared_ptr<T>(make(n)); }
  UniquePtr<T> createUniqueInstance(const std::string& n) { return UniquePtr<T>(make(n), [](T* p) { delete p; }); }
  T* createUnmanagedInstance(const std::string& n) { return make(n); }
  std::vector<std::string> getDeclaredClasses()
  {
    std::vector<std::string> r;
    for (const auto& e : stub::declared()[base_]) r.push_back(e.name);
    return r;
  }
  std::vector<std::string> getRegisteredLibraries() { return {}; }
  bool isClassAvailable(const std::string& n) { for (const auto& e : stub::declared()[base_]) if (e.name == n) return true; return false; }
  bool isClassLoaded(const std::string& n) { return isClassAvailable(n); }
  std::string getBaseClassType() const { return base_; }
  std::string getClassType(const std::string& n) { return n; }
  std::string getName(const std::string& n) { auto p = n.find_last_of("/:"); return p == std::string::npos ? n : n.substr(p + 1); }
  void loadLibraryForClass(const std::string& n) { if (!isClassAvailable(n)) throw LibraryLoadException("no class " + n); }
  int unloadLibraryForClass(const std::string&) { return 0; }
  void refreshDeclaredClasses() {}
private:
  T* make(const std::string& n)
  {
    for (const auto& e : stub::declared()[base_])
      if (e.name == n) return static_cast<T*>(e.make());
    throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " with base class type " + base_ + " does not exist.");
  }
  std::string package_, base_;
};
}
