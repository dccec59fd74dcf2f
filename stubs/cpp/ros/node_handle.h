// Stand-in for ros::NodeHandle with an in-process parameter server and service registry.
#pragma once
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <typeinfo>
#include <vector>
#include "ros/exceptions.h"
#include "ros/console.h"
#include "ros/init.h"
#include "ros/time.h"

namespace ros
{
typedef std::map<std::string, std::string> M_string;

namespace stub
{
struct Param
{
  enum Kind { BOOL, INT, DOUBLE, STRING, ARRAY, STRUCT } kind = STRUCT;
  bool b = false; int i = 0; double d = 0; std::string s; std::vector<Param> a;
  static Param Bool(bool v) { Param p; p.kind = BOOL; p.b = v; return p; }
  static Param Int(int v) { Param p; p.kind = INT; p.i = v; return p; }
  static Param Double(double v) { Param p; p.kind = DOUBLE; p.d = v; return p; }
  static Param Str(const std::string& v) { Param p; p.kind = STRING; p.s = v; return p; }
  static Param StrVec(const std::vector<std::string>& v) { Param p; p.kind = ARRAY; for (const auto& x : v) p.a.push_back(Str(x)); return p; }
};
std::map<std::string, Param>& params();                                    // absolute name -> value
std::map<std::string, std::function<bool(void*, void*)>>& services();      // absolute name -> handler
std::string resolve(const std::string& ns, const std::string& name);       // throws InvalidNameException
}

class ServiceServer
{
public:
  ServiceServer() = default;
  explicit ServiceServer(const std::string& n) : name_(n) {}
  void shutdown() { stub::services().erase(name_); }
  std::string getService() const { return name_; }
  operator void*() const { return name_.empty() ? nullptr : reinterpret_cast<void*>(1); }
private:
  std::string name_;
};

class NodeHandle
{
public:
  NodeHandle(const std::string& ns = std::string(), const M_string& = M_string()) { ns_ = stub::resolve("/", ns); }
  NodeHandle(const NodeHandle& o) = default;
  NodeHandle(const NodeHandle& parent, const std::string& ns) { ns_ = stub::resolve(parent.ns_, ns); }
  NodeHandle(const NodeHandle& parent, const std::string& ns, const M_string&) : NodeHandle(parent, ns) {}
  NodeHandle& operator=(const NodeHandle&) = default;
  ~NodeHandle() = default;

  const std::string& getNamespace() const { return ns_; }
  std::string getUnresolvedNamespace() const { return ns_; }
  std::string resolveName(const std::string& name, bool = true) const { return stub::resolve(ns_, name); }
  bool ok() const { return ros::ok(); }
  void shutdown() {}

  bool hasParam(const std::string& key) const;
  bool getParam(const std::string& key, bool& v) const;
  bool getParam(const std::string& key, int& v) const;
  bool getParam(const std::string& key, double& v) const;
  bool getParam(const std::string& key, float& v) const;
  bool getParam(const std::string& key, std::string& v) const;
  bool getParam(const std::string& key, std::vector<std::string>& v) const;
  bool getParam(const std::string& key, std::vector<double>& v) const;
  bool getParam(const std::string& key, std::vector<int>& v) const;
  template <class T> bool getParamCached(const std::string& key, T& v) const { return getParam(key, v); }
  template <class T> bool param(const std::string& key, T& v, const T& def) const { if (getParam(key, v)) return true; v = def; return false; }
  template <class T> T param(const std::string& key, const T& def) const { T v; if (getParam(key, v)) return v; return def; }
  bool searchParam(const std::string& key, std::string& result) const;
  void setParam(const std::string& key, bool v) const { stub::params()[stub::resolve(ns_, key)] = stub::Param::Bool(v); }
  void setParam(const std::string& key, int v) const { stub::params()[stub::resolve(ns_, key)] = stub::Param::Int(v); }
  void setParam(const std::string& key, double v) const { stub::params()[stub::resolve(ns_, key)] = stub::Param::Double(v); }
  void setParam(const std::string& key, const std::string& v) const { stub::params()[stub::resolve(ns_, key)] = stub::Param::Str(v); }
  void setParam(const std::string& key, const char* v) const { setParam(key, std::string(v)); }
  void setParam(const std::string& key, const std::vector<std::string>& v) const { stub::params()[stub::resolve(ns_, key)] = stub::Param::StrVec(v); }
  bool deleteParam(const std::string& key) const;

  template <class T, class MReq, class MRes>
  ServiceServer advertiseService(const std::string& service, bool (T::*fn)(MReq&, MRes&), T* obj)
  {
    const std::string n = stub::resolve(ns_, service);
    stub::services()[n] = [fn, obj](void* q, void* r) { return (obj->*fn)(*static_cast<MReq*>(q), *static_cast<MRes*>(r)); };
    return ServiceServer(n);
  }
  template <class T, class MReq, class MRes>
  ServiceServer advertiseService(const std::string& service, bool (T::*fn)(MReq&, MRes&), const std::shared_ptr<T>& obj)
  { return advertiseService(service, fn, obj.get()); }
  template <class MReq, class MRes>
  ServiceServer advertiseService(const std::string& service, const std::function<bool(MReq&, MRes&)>& f)
  {
    const std::string n = stub::resolve(ns_, service);
    stub::services()[n] = [f](void* q, void* r) { return f(*static_cast<MReq*>(q), *static_cast<MRes*>(r)); };
    return ServiceServer(n);
  }
  template <class MReq, class MRes>
  ServiceServer advertiseService(const std::string& service, bool (*fn)(MReq&, MRes&))
  { return advertiseService(service, std::function<bool(MReq&, MRes&)>(fn)); }
  template <class MReq, class MRes, class F>
  ServiceServer advertiseService(const std::string& service, F f)
  { return advertiseService(service, std::function<bool(MReq&, MRes&)>(f)); }
private:
  std::string ns_ = "/";
};

namespace stub
{
template <class Srv> bool call(const std::string& name, typename Srv::Request& q, typename Srv::Response& r)
{
  auto it = services().find(name);
  if (it == services().end()) throw std::runtime_error("no such service: " + name);
  return it->second(&q, &r);
}
}

namespace param
{
inline bool has(const std::string& k) { return NodeHandle().hasParam(k); }
template <class T> bool get(const std::string& k, T& v) { return NodeHandle().getParam(k, v); }
}
}
