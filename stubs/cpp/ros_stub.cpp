#include "ros/ros.h"
#include <cstdarg>
#include <cctype>
namespace ros
{
namespace stub
{
int64_t now_ns = 1000LL * 1000000000LL;
void (*on_sleep)(int64_t) = nullptr;
bool (*ok_fn)() = nullptr;
std::map<std::string, Param>& params() { static std::map<std::string, Param> p; return p; }
std::map<std::string, std::function<bool(void*, void*)>>& services() { static std::map<std::string, std::function<bool(void*, void*)>> s; return s; }
static std::string clean(const std::string& in)
{
  std::string out;
  for (char c : in) { if (c == '/' && !out.empty() && out.back() == '/') continue; out += c; }
  if (out.size() > 1 && out.back() == '/') out.pop_back();
  return out;
}
std::string resolve(const std::string& ns, const std::string& name)
{
  if (name.empty()) return ns.empty() ? "/" : clean(ns);
  const char c0 = name[0];
  if (!isalpha(static_cast<unsigned char>(c0)) && c0 != '/' && c0 != '~')
    throw InvalidNameException("Character [" + std::string(1, c0) + "] is not valid as the first character in Graph Resource Name [" + name + "].  Valid characters are a-z, A-Z, / and in some cases ~.");
  for (size_t i = 1; i < name.size(); ++i)
    if (!isalnum(static_cast<unsigned char>(name[i])) && name[i] != '/' && name[i] != '_')
      throw InvalidNameException("Character [" + std::string(1, name[i]) + "] at element is not valid in Graph Resource Name [" + name + "]");
  if (c0 == '~') throw InvalidNameException("Using ~ names with NodeHandle methods is not allowed.");
  if (c0 == '/') return clean(name);
  return clean(ns + "/" + name);
}
static const Param* find(const std::string& ns, const std::string& key)
{
  auto it = params().find(resolve(ns, key));
  return it == params().end() ? nullptr : &it->second;
}
}
bool ok() { return stub::ok_fn ? stub::ok_fn() : true; }
using stub::Param;
bool NodeHandle::hasParam(const std::string& key) const
{
  const std::string n = stub::resolve(ns_, key);
  auto it = stub::params().lower_bound(n);
  for (; it != stub::params().end(); ++it)
  {
    if (it->first == n) return true;
    if (it->first.compare(0, n.size() + 1, n + "/") == 0) return true;
    if (it->first.compare(0, n.size(), n) != 0) break;
  }
  return false;
}
bool NodeHandle::getParam(const std::string& key, bool& v) const
{ const Param* p = stub::find(ns_, key); if (!p || p->kind != Param::BOOL) return false; v = p->b; return true; }
bool NodeHandle::getParam(const std::string& key, int& v) const
{
  const Param* p = stub::find(ns_, key); if (!p) return false;
  if (p->kind == Param::INT) { v = p->i; return true; }
  if (p->kind == Param::DOUBLE) { double r = std::floor(std::fabs(p->d) + 0.5); v = static_cast<int>(p->d < 0 ? -r : r); return true; }
  return false;
}
bool NodeHandle::getParam(const std::string& key, double& v) const
{
  const Param* p = stub::find(ns_, key); if (!p) return false;
  if (p->kind == Param::INT) { v = p->i; return true; }
  if (p->kind == Param::DOUBLE) { v = p->d; return true; }
  return false;
}
bool NodeHandle::getParam(const std::string& key, float& v) const { double d; if (!getParam(key, d)) return false; v = static_cast<float>(d); return true; }
bool NodeHandle::getParam(const std::string& key, std::string& v) const
{ const Param* p = stub::find(ns_, key); if (!p || p->kind != Param::STRING) return false; v = p->s; return true; }
bool NodeHandle::getParam(const std::string& key, std::vector<std::string>& v) const
{
  const Param* p = stub::find(ns_, key); if (!p || p->kind != Param::ARRAY) return false;
  for (const auto& e : p->a) if (e.kind != Param::STRING) return false;
  v.clear(); for (const auto& e : p->a) v.push_back(e.s);
  return true;
}
bool NodeHandle::getParam(const std::string& key, std::vector<double>& v) const
{
  const Param* p = stub::find(ns_, key); if (!p || p->kind != Param::ARRAY) return false;
  for (const auto& e : p->a) if (e.kind != Param::DOUBLE && e.kind != Param::INT) return false;
  v.clear(); for (const auto& e : p->a) v.push_back(e.kind == Param::INT ? e.i : e.d);
  return true;
}
bool NodeHandle::getParam(const std::string& key, std::vector<int>& v) const
{
  std::vector<double> d; if (!getParam(key, d)) return false;
  v.assign(d.begin(), d.end()); return true;
}
bool NodeHandle::searchParam(const std::string& key, std::string& result) const
{ if (!hasParam(key)) return false; result = stub::resolve(ns_, key); return true; }
bool NodeHandle::deleteParam(const std::string& key) const { return stub::params().erase(stub::resolve(ns_, key)) > 0; }
namespace console { namespace stub {
unsigned long lines = 0;
void print(const char* fmt, ...)
{
  char buf[1024];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  ++lines;
  static const bool echo = getenv("STUB_LOG") != nullptr;
  if (echo) fprintf(stderr, "[log] %s\n", buf);
}
void emit(const std::string& s)
{
  ++lines;
  static const bool echo = getenv("STUB_LOG") != nullptr;
  if (echo) fprintf(stderr, "[log] %s\n", s.c_str());
}
} }
}
