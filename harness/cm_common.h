// Shared by the controller_manager harnesses: mock robot, mock controllers, the reference model of the controller manager.
#pragma once
#include <algorithm>
#include <cxxabi.h>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <controller_interface/multi_interface_controller.h>
#include <controller_manager/controller_manager.h>
#include <controller_manager_msgs/ListControllers.h>
#include <controller_manager_msgs/ListControllerTypes.h>
#include <controller_manager_msgs/ReloadControllerLibraries.h>
#include <hardware_interface/hardware_interface.h>
#include <hardware_interface/internal/demangle_symbol.h>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <hardware_interface/robot_hw.h>
#include <pluginlib/class_loader.hpp>
#include <ros/ros.h>

#ifdef CM_CONC
#include "sched.h"
#define CMX_TOUCH(p, n, w) sched::access(reinterpret_cast<uintptr_t>(p), n, w, false, 0)
#define CMX_POINT() sched::point()
#define CMX_IGNORE sched::Ignore cmx_ignore
#define CMX_STEP (sched::s().on ? sched::s().steps : 0)
#define CMX_FIBER (sched::s().on ? sched::s().cur : -1)
#else
#include "rt_guard.h"
#define CMX_TOUCH(p, n, w) (void)0
#define CMX_POINT() (void)0
#define CMX_IGNORE rt::Out cmx_ignore
#define CMX_STEP 0
#define CMX_FIBER -1
#endif

namespace cmx
{
typedef std::vector<std::string> Strs;
typedef std::map<std::string, std::set<std::string>> Claims;   // interface type -> resources

struct Res { std::string n; std::string getName() const { return n; } };
class IfA : public hardware_interface::HardwareResourceManager<Res, hardware_interface::ClaimResources> {};
class IfB : public hardware_interface::HardwareResourceManager<Res, hardware_interface::ClaimResources> {};
template <class T> std::string type_name() { int st; char* p = abi::__cxa_demangle(typeid(T).name(), nullptr, nullptr, &st); std::string s(p); free(p); return s; }

// what a controller name stands for in this execution
struct Cfg
{
  std::string type = "t/ok";
  std::set<std::string> a, b;        // resources it claims through IfA, IfB
  enum Init { OK, FAIL, THROW_STD, THROW_INT } init = OK;
};

enum Kind { E_INIT, E_START, E_UPDATE, E_STOP, E_WAIT, E_ABORT, E_DESTROY, E_CHECK, E_PREPARE, E_DOSWITCH, E_RELOAD, E_CREATE };
static const char* const kind_name[] = {"init", "start", "update", "stop", "wait", "abort", "destroy", "check", "prepare", "doSwitch", "reload", "create"};
typedef std::pair<std::string, Claims> Info;     // controller name, claims
struct Ev
{
  Kind kind; std::string who; int uid = 0; int64_t time = 0, period = 0;
  std::vector<Info> l1, l2; bool ok = true; bool in_cycle = false; bool state_ok = true; bool looks_stopped = false;
  std::string type; int step = 0, fiber = -1;
};

inline Claims claims_of(const std::vector<hardware_interface::InterfaceResources>& v)
{
  Claims c;
  for (auto& r : v) for (auto& x : r.resources) c[r.hardware_interface].insert(x);
  return c;
}
inline std::string show(const Claims& c) { std::string s = "{"; for (auto& i : c) { s += i.first + ":"; for (auto& r : i.second) s += r + " "; } return s + "}"; }
inline std::string show(const Strs& v) { std::string s = "["; for (auto& x : v) s += (s.size() > 1 ? " " : "") + x; return s + "]"; }
inline std::string show(const std::vector<Info>& v) { std::string s = "["; for (auto& x : v) s += (s.size() > 1 ? " " : "") + x.first + show(x.second); return s + "]"; }

class Ctl;
struct Env
{
  std::map<std::string, Cfg> cfg;
  std::vector<Ev> log;
  std::set<int> alive;                 // uids
  std::map<int, std::string> uid_name;
  std::map<int, Ctl*> ctl;             // alive controllers
  int next_uid = 1;
  bool in_cycle = false;
  bool log_on = true;
  std::function<hardware_interface::RobotHW::SwitchState()> answer_all;
  std::function<hardware_interface::RobotHW::SwitchState(const std::string&)> answer_one;
  std::function<bool()> answer_prepare;
};
inline Env*& env() { static Env* e = nullptr; return e; }

inline void push(Ev e) { if (!env() || !env()->log_on) return; e.in_cycle = env()->in_cycle; e.step = CMX_STEP; e.fiber = CMX_FIBER; env()->log.push_back(e); }

class Ctl : public controller_interface::MultiInterfaceController<IfA, IfB>
{
public:
  Ctl() : uid(env()->next_uid++) { CMX_IGNORE; env()->alive.insert(uid); env()->ctl[uid] = this; Ev e; e.kind = E_CREATE; e.uid = uid; push(e); }
  ~Ctl() override { CMX_TOUCH(&uid, 4, true); CMX_POINT(); CMX_IGNORE; if (env()) { env()->alive.erase(uid); env()->ctl.erase(uid); Ev e; e.kind = E_DESTROY; e.uid = uid; e.who = name; push(e); } }
  bool init(hardware_interface::RobotHW* hw, ros::NodeHandle&, ros::NodeHandle& nh) override
  {
    CMX_POINT(); CMX_IGNORE;
    name = nh.getNamespace().substr(1);
    env()->uid_name[uid] = name;
    Ev e; e.kind = E_INIT; e.uid = uid; e.who = name; push(e);
    const Cfg& c = env()->cfg[name];
    for (auto& r : c.a) hw->get<IfA>()->getHandle(r);
    for (auto& r : c.b) hw->get<IfB>()->getHandle(r);
    if (c.init == Cfg::FAIL) return false;
    if (c.init == Cfg::THROW_STD) throw std::logic_error("init");
    if (c.init == Cfg::THROW_INT) throw 42;
    return true;
  }
  void starting(const ros::Time& t) override { cb(E_START, t); }
  void stopping(const ros::Time& t) override { cb(E_STOP, t); }
  void waiting(const ros::Time& t) override { cb(E_WAIT, t); }
  void aborting(const ros::Time& t) override { cb(E_ABORT, t); }
  void update(const ros::Time& t, const ros::Duration& p) override { cb(E_UPDATE, t, p.toNSec()); }
  void cb(Kind k, const ros::Time& t, int64_t period = 0)
  {
    CMX_TOUCH(&uid, 4, true); CMX_POINT();
    {
      CMX_IGNORE;
      Ev e; e.kind = k; e.uid = uid; e.who = name; e.time = static_cast<int64_t>(t.toNSec()); e.period = period;
      e.state_ok = k == E_STOP || k == E_UPDATE ? isRunning() : true; e.looks_stopped = isStopped();
      push(e);
    }
    CMX_POINT();
  }
  std::string name;
  const int uid;
};

class Hw : public hardware_interface::RobotHW
{
public:
  Hw()
  {
    for (const char* r : {"r1", "r2", "r3"}) { a.registerHandle(Res{r}); b.registerHandle(Res{r}); }
    registerInterface(&a); registerInterface(&b);
  }
  typedef std::list<hardware_interface::ControllerInfo> L;
  static std::vector<Info> conv(const L& l) { std::vector<Info> v; for (auto& i : l) v.push_back({i.name, claims_of(i.claimed_resources)}); std::sort(v.begin(), v.end()); return v; }
  bool checkForConflict(const L& l) const override
  {
    CMX_POINT(); CMX_IGNORE;
    const bool r = RobotHW::checkForConflict(l);
    Ev e; e.kind = E_CHECK; e.l1 = conv(l); e.ok = !r; push(e);
    return r;
  }
  bool prepareSwitch(const L& a_, const L& b_) override
  {
    CMX_POINT(); CMX_IGNORE;
    Ev e; e.kind = E_PREPARE; e.l1 = conv(a_); e.l2 = conv(b_); e.ok = env()->answer_prepare ? env()->answer_prepare() : true; push(e);
    return e.ok;
  }
  void doSwitch(const L& a_, const L& b_) override
  {
    CMX_TOUCH(&a_, sizeof a_, false); CMX_TOUCH(&b_, sizeof b_, false); CMX_POINT();
    { CMX_IGNORE; Ev e; e.kind = E_DOSWITCH; e.l1 = conv(a_); e.l2 = conv(b_); push(e); }
    CMX_POINT();
  }
  SwitchState switchResult() const override { CMX_POINT(); CMX_IGNORE; return env()->answer_all ? env()->answer_all() : SwitchState::DONE; }
  SwitchState switchResult(const hardware_interface::ControllerInfo& i) const override { CMX_POINT(); CMX_IGNORE; return env()->answer_one ? env()->answer_one(i.name) : SwitchState::DONE; }
  IfA a; IfB b;
};

class OwnLoader : public controller_manager::ControllerLoaderInterface
{
public:
  OwnLoader() : ControllerLoaderInterface("own/Base") {}
  controller_interface::ControllerBaseSharedPtr createInstance(const std::string& n) override
  {
    CMX_IGNORE;
    if (n == "t/own" || n == "t/both" || n == "t/null") { auto c = std::make_shared<Ctl>(); env()->log.back().type = "own"; return c; }
    throw std::runtime_error("own loader does not know " + n);
  }
  std::vector<std::string> getDeclaredClasses() override { return {"t/own", "t/both", "t/null"}; }
  void reload() override { CMX_POINT(); CMX_IGNORE; Ev e; e.kind = E_RELOAD; e.who = "own"; push(e); }
};

// ---------------------------------------------------------------------------------------------------------------------------
// Reference model
enum St { INIT, RUN, STOP, WAIT, ABORT };
static const char* const st_name[] = {"initialized", "running", "stopped", "waiting", "aborted"};

struct MCtl { std::string name, type; Claims claims; St st = INIT; int uid = 0; };
struct Req { Strs start, stop; int strict = 2; bool asap = false; double timeout = 0; };
inline std::string show(const Req& r)
{
  char b[64]; snprintf(b, sizeof b, " strictness=%d asap=%d timeout=%g", r.strict, r.asap, r.timeout);
  return "start=" + show(r.start) + " stop=" + show(r.stop) + b;
}

struct Verdict { bool refused = false, conflict = false; std::string why; Strs start, stop; std::vector<Info> after, l_start, l_stop; };

struct Model
{
  std::vector<MCtl> loaded;
  MCtl* find(const std::string& n) { for (auto& c : loaded) if (c.name == n) return &c; return nullptr; }
  static bool in(const Strs& v, const std::string& n) { return std::find(v.begin(), v.end(), n) != v.end(); }
  // What a switch request means in this state, from the documentation alone.
  Verdict judge(const Req& r)
  {
    Verdict v;
    const bool strict = r.strict == 2;
    std::set<std::string> start, stop;
    auto refuse = [&](const std::string& why) { v.refused = true; v.why = why; };
    for (auto& n : r.stop)
    {
      MCtl* c = find(n);
      if (!c) { if (strict) refuse("unknown " + n); continue; }
      if (c->st != RUN) { if (strict) refuse(n + " to stop is not running"); continue; }
      stop.insert(n);
    }
    for (auto& n : r.start)
    {
      MCtl* c = find(n);
      if (!c) { if (strict) refuse("unknown " + n); continue; }
      if (c->st == RUN)
      {
        if (in(r.stop, n)) refuse(n + " is running and named to start and to stop");
        else if (strict) refuse(n + " is already running");
        continue;
      }
      start.insert(n);
    }
    if (v.refused) return v;
    std::map<std::string, int> claimed;
    for (auto& c : loaded)
    {
      const bool s = start.count(c.name), t = stop.count(c.name);
      if (s) { v.start.push_back(c.name); v.l_start.push_back({c.name, c.claims}); }
      if (t) { v.stop.push_back(c.name); v.l_stop.push_back({c.name, c.claims}); }
      if (s || (c.st == RUN && !t)) { v.after.push_back({c.name, c.claims}); for (auto& i : c.claims) for (auto& x : i.second) if (++claimed[x] > 1) v.conflict = true; }
    }
    std::sort(v.after.begin(), v.after.end()); std::sort(v.l_start.begin(), v.l_start.end()); std::sort(v.l_stop.begin(), v.l_stop.end());
    return v;
  }
  std::string key() const { std::string s; for (auto& c : loaded) s += c.name + "=" + st_name[c.st] + ";"; return s; }
};
}
