// Property H06: a combined robot acts as the sum of its parts (the real CombinedRobotHW with up to three parts).
#include <combined_robot_hw/combined_robot_hw.h>
#include <hardware_interface/internal/demangle_symbol.h>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <pluginlib/class_loader.hpp>
#include <ros/ros.h>
#include "../mc/mc.h"
#include "rt_guard.h"

using namespace hardware_interface;
typedef std::vector<std::string> Strs;
typedef std::list<ControllerInfo> L;
static std::string str(long v) { return std::to_string(v); }
struct Res { std::string n; std::string getName() const { return n; } };
struct IA : public HardwareResourceManager<Res, ClaimResources> {};
struct IB : public HardwareResourceManager<Res, ClaimResources> {};
template <class T> static std::string tname() { return internal::demangledTypeName<T>(); }
static const char* const RN[] = {"r0", "r1", "r2", "r", "r10", "R1", "left/r1", "a resource with a name that is too long for a small buffer"};
static const int NR = 8;

struct PartCfg { int a = 0, b = 0; bool late = false; int init = 0; /* ok, false, std exception, other exception */ };   // a, b: bit masks of resources; no bits: interface absent
static std::map<std::string, PartCfg>* cfg;
struct Ev { char kind; std::string who; std::string arg; int64_t t = 0, p = 0; };
static std::vector<Ev>* log_;
static std::function<bool(const std::string&)> prepare_answer;
static std::map<std::string, RobotHW::SwitchState> result_all, result_one;
static int alive;

// C13
static void heap(const char* f, const std::string& st) { if (!rt::what().empty()) mc::fail("C13", std::string("combined-") + f + "-" + rt::sig(), st + ": " + f + " of the combined robot itself " + rt::what()); }
// canonical text of a list of controllers; keep: what of each controller's claims belongs to a part
static std::string text(const L& l)
{
  std::string s;
  for (auto& c : l)
  {
    s += c.name + "/" + c.type + "(";
    std::map<std::string, std::set<std::string>> m; for (auto& i : c.claimed_resources) m[i.hardware_interface].insert(i.resources.begin(), i.resources.end());
    for (auto& i : m) { s += i.first + ":"; for (auto& r : i.second) s += r + ","; }
    s += ")";
  }
  return s;
}
class Part : public RobotHW
{
public:
  Part() { ++alive; }
  ~Part() override { --alive; }
  bool init(ros::NodeHandle& root, ros::NodeHandle& nh) override
  {
    name = nh.getNamespace(); if (name.rfind("/robot/", 0) == 0) name = name.substr(7);
    log_->push_back({'i', name, root.getNamespace()});
    const PartCfg& c = (*cfg)[name];
    if (c.late) { if (c.a) registerInterface(&a); if (c.b) registerInterface(&b); }
    for (int k = 0; k < NR; ++k) { if (c.a & (1 << k)) a.registerHandle(Res{RN[k]}); if (c.b & (1 << k)) b.registerHandle(Res{RN[k]}); }
    if (!c.late) { if (c.a) registerInterface(&a); if (c.b) registerInterface(&b); }
    if (c.init == 1) return false;
    if (c.init == 2) throw std::runtime_error("init");
    if (c.init == 3) throw 42;
    return true;
  }
  bool prepareSwitch(const L& x, const L& y) override { log_->push_back({'p', name, text(x) + "|" + text(y)}); return prepare_answer ? prepare_answer(name) : true; }
  void doSwitch(const L& x, const L& y) override { rt::Out out; log_->push_back({'d', name, text(x) + "|" + text(y)}); }
  SwitchState switchResult() const override { rt::Out out; return result_all[name]; }
  SwitchState switchResult(const ControllerInfo& c) const override { rt::Out out; asked += text({c}); return result_one[name]; }
  void read(const ros::Time& t, const ros::Duration& p) override { rt::Out out; log_->push_back({'r', name, "", static_cast<int64_t>(t.toNSec()), p.toNSec()}); }
  void write(const ros::Time& t, const ros::Duration& p) override { rt::Out out; log_->push_back({'w', name, "", static_cast<int64_t>(t.toNSec()), p.toNSec()}); }
  std::string name; IA a; IB b; mutable std::string asked;
};

struct World
{
  std::map<std::string, PartCfg> c; std::vector<Ev> log; Strs parts;
  World()
  {
    cfg = &c; log_ = &log; prepare_answer = nullptr; result_all.clear(); result_one.clear(); alive = 0;
    ros::stub::params().clear();
    auto& d = pluginlib::stub::declared()["hardware_interface::RobotHW"]; d.clear();
    d.push_back({"p/other", []() -> void* { throw pluginlib::LibraryLoadException("other"); }});
    d.push_back({"p/part", []() -> void* { return static_cast<RobotHW*>(new Part); }});
    d.push_back({"p/broken", []() -> void* { throw pluginlib::CreateClassException("broken"); }});
  }
  void param(const std::string& n, const std::string& v) { ros::stub::params()["/robot/" + n + "/type"] = ros::stub::Param::Str(v); }
  bool init(combined_robot_hw::CombinedRobotHW& r)
  {
    ros::stub::params()["/robot/robot_hardware"] = ros::stub::Param::StrVec(parts);
    ros::NodeHandle root("/root"), nh("/robot"); return r.init(root, nh);
  }
};
static std::string show(const std::vector<Ev>& v) { std::string s; for (auto& e : v) s += std::string(1, e.kind) + " " + e.who + " " + e.arg + "; "; return s; }

// ---- loading ---------------------------------------------------------------------------------------------------------------
static void loading()
{
  World w;
  combined_robot_hw::CombinedRobotHW r;
  const int n = mc::choose(4);
  std::string st; bool ok = true; Strs want; bool raised_any = false;
  for (int i = 0; i < n; ++i)
  {
    const std::string name = "part" + str(i);
    const int k = mc::choose(9); st += str(k);
    w.parts.push_back(name); w.c[name].a = 1 << i;
    static const char* const K[] = {"fine", "init false", "init throws", "init throws 42", "no type", "unknown type", "broken type", "empty type", "invalid name"};
    mc::note("%s: %s", name.c_str(), K[k]);
    switch (k)
    {
      case 4: break;
      case 5: w.param(name, "p/unknown"); break;
      case 6: w.param(name, "p/broken"); break;
      case 7: w.param(name, ""); break;
      case 8: w.parts.back() = "no good"; break;
      default: w.param(name, "p/part"); w.c[name].init = k;
    }
    if (ok && k <= 3) want.push_back(name);
    if (k) ok = false;
  }
  const bool no_param = mc::flip();
  mc::state(mc::hash(st));
  bool got = false, thrown = false;
  try
  {
    if (no_param) { ros::NodeHandle root("/root"), nh("/robot"); got = r.init(root, nh); ok = false; want.clear(); }
    else got = w.init(r);
  }
  catch (...) { thrown = true; }
  (void)raised_any;
  if (thrown) { mc::fail("H06", "init-throws", "initialising throws for parts " + st); return; }
  if (got != ok) { mc::fail("H06", "init-result", "initialising parts " + st + " gives " + str(got)); return; }
  Strs inits; for (auto& e : w.log) { if (e.kind == 'i') inits.push_back(e.who); if (e.arg != "/root") mc::fail("H06", "init-namespace", "a part got another root namespace"); }
  if (inits != want) { mc::fail("H06", "init-order", "parts initialised: " + show(w.log)); return; }
  if (ok)
  {
    std::set<std::string> res; if (IA* a = r.get<IA>()) for (auto& x : a->getNames()) res.insert(x);
    std::set<std::string> exp; for (int i = 0; i < n; ++i) exp.insert(RN[i]);
    if (res != exp) mc::fail("H06", "interfaces", "not all resources of the parts are reachable through the combination");
  }
  mc::outcome(st + str(got));
}

// ---- cycles and switches ---------------------------------------------------------------------------------------------------
static ControllerInfo controller(const std::string& n, bool all)
{
  ControllerInfo c; c.name = n; c.type = "type_" + n;
  // claims: none at all, a state-only interface, A, B, A and B, an interface nobody has
  const int k = mc::choose(all ? 6 : 5);
  auto claim = [&](const std::string& i, int mask) { InterfaceResources r; r.hardware_interface = i; for (int b = 0; b < NR; ++b) if (mask & (1 << b)) r.resources.insert(RN[b]); c.claimed_resources.push_back(r); };
  switch (k)
  {
    case 0: break;
    case 1: claim(tname<IA>(), 0); break;
    case 2: claim(tname<IA>(), 1 + mc::choose(7)); break;
    case 3: claim(tname<IB>(), 1 + mc::choose(7)); break;
    case 4: claim(tname<IA>(), 1 + mc::choose(all ? 7 : 3)); claim(tname<IB>(), 1 + mc::choose(all ? 7 : 3)); break;
    default: claim("IX", 7);
  }
  return c;
}
static L owned(const L& l, const PartCfg& p)
{
  L out;
  for (auto& c : l)
  {
    ControllerInfo f; f.name = c.name; f.type = c.type;
    for (auto& i : c.claimed_resources)
    {
      const int mask = i.hardware_interface == tname<IA>() ? p.a : i.hardware_interface == tname<IB>() ? p.b : 0;
      InterfaceResources r; r.hardware_interface = i.hardware_interface;
      for (int b = 0; b < NR; ++b) if ((mask & (1 << b)) && i.resources.count(RN[b])) r.resources.insert(RN[b]);
      if (!r.resources.empty()) f.claimed_resources.push_back(r);
    }
    if (c.claimed_resources.empty() || !f.claimed_resources.empty()) out.push_back(f);   // one that claims nothing concerns everybody
  }
  return out;
}
typedef std::vector<std::pair<int, int>> Layout;
static const std::vector<Layout>& layouts()
{
  static const std::vector<Layout> l = {
    {{1, 0}, {2, 0}, {4, 0}}, {{1, 1}, {2, 2}, {4, 4}}, {{7, 0}, {0, 7}}, {{3, 4}, {4, 3}}, {{1, 0}, {0, 0}, {2, 6}}, {{7, 7}}, {{3, 3}, {3, 3}, {1, 2}}, {{0, 1}, {6, 1}, {1, 6}}, {},
  };
  return l;
}
static void switching(int nstart, int nstop, bool all)
{
  World w; const Layout& lay = mc::pick(layouts());
  const int late = lay.empty() ? 0 : mc::choose(2);
  std::string st = "layout";
  for (size_t i = 0; i < lay.size(); ++i) { const std::string n = "part" + str(i); w.parts.push_back(n); w.param(n, "p/part"); w.c[n].a = lay[i].first; w.c[n].b = lay[i].second; w.c[n].late = late; st += str(lay[i].first) + "." + str(lay[i].second) + " "; }
  combined_robot_hw::CombinedRobotHW r;
  if (!w.init(r)) { mc::fail("H06", "init-result", "initialising good parts failed"); return; }
  L start, stop;
  for (int i = 0; i < nstart; ++i) start.push_back(controller("s" + str(i), all));
  for (int i = 0; i < nstop; ++i) stop.push_back(controller("t" + str(i), all));
  st += text(start) + "|" + text(stop); mc::note("%s", st.c_str()); mc::state(mc::hash(st));
  const int refuse = mc::choose(static_cast<int>(lay.size()) + 1);      // which part refuses; the last answer means none
  prepare_answer = [&](const std::string& n) { return refuse >= static_cast<int>(lay.size()) || n != w.parts[refuse]; };
  auto lists = [&](const std::string& n) { return text(owned(start, w.c[n])) + "|" + text(owned(stop, w.c[n])); };
  w.log.clear();
  const bool ok = r.prepareSwitch(start, stop);
  const bool want = refuse >= static_cast<int>(lay.size());
  if (ok != want) { mc::fail("H06", "prepare-result", st + ": prepared " + str(ok) + " although part " + str(refuse) + " refuses"); return; }
  std::map<std::string, int> count;
  for (auto& e : w.log)
  {
    if (e.kind != 'p') { mc::fail("H06", "prepare-foreign", st + ": preparing calls " + show(w.log)); return; }
    ++count[e.who];
    if (e.arg != lists(e.who)) { mc::fail("H06", "prepare-lists", st + ": " + e.who + " is asked about " + e.arg + " instead of " + lists(e.who)); return; }
  }
  for (size_t i = 0; i < w.parts.size(); ++i)
    if (count[w.parts[i]] > 1 || (ok && count[w.parts[i]] != 1)) { mc::fail("H06", "prepare-count", st + ": " + w.parts[i] + " is asked " + str(count[w.parts[i]]) + " times"); return; }
  w.log.clear();
  { rt::Scope real_time; r.doSwitch(start, stop); }
  heap("doSwitch", st);
  count.clear();
  for (auto& e : w.log)
  {
    if (e.kind != 'd') { mc::fail("H06", "switch-foreign", st + ": switching calls " + show(w.log)); return; }
    ++count[e.who];
    if (e.arg != lists(e.who)) { mc::fail("H06", "switch-lists", st + ": " + e.who + " is told about " + e.arg + " instead of " + lists(e.who)); return; }
  }
  for (auto& n : w.parts) if (count[n] != 1) { mc::fail("H06", "switch-count", st + ": " + n + " is told " + str(count[n]) + " times"); return; }
  mc::outcome(st + str(refuse));
}
static const char* const RS[] = {"done", "ongoing", "error"};
static void results()
{
  World w; const Layout& lay = mc::pick(layouts());
  std::string st;
  for (size_t i = 0; i < lay.size(); ++i) { const std::string n = "part" + str(i); w.parts.push_back(n); w.param(n, "p/part"); w.c[n].a = lay[i].first; w.c[n].b = lay[i].second; }
  combined_robot_hw::CombinedRobotHW r; w.init(r);
  const ControllerInfo c = controller("s", false);
  int all = 0, one = 0;
  auto worse = [](int a, int b) { return a > b ? a : b; };
  for (auto& n : w.parts)
  {
    const int x = mc::choose(3), y = mc::choose(3);
    result_all[n] = static_cast<RobotHW::SwitchState>(x); result_one[n] = static_cast<RobotHW::SwitchState>(y);
    all = worse(all, x); if (!owned({c}, w.c[n]).empty()) one = worse(one, y);
    st += n + ":" + RS[x] + "," + RS[y] + " ";
  }
  mc::note("%s controller %s", st.c_str(), text({c}).c_str()); mc::state(mc::hash(st + text({c})));
  const L one_c{c}, none;
  { rt::Scope real_time; r.doSwitch(one_c, none); }
  heap("doSwitch", st);
  { rt::Scope real_time; r.switchResult(); }
  heap("switchResult", st);
  { rt::Scope real_time; r.switchResult(c); }
  heap("switchResult-of-controller", st);
  if (static_cast<int>(r.switchResult()) != all) mc::fail("H06", "switch-result", st + ": the combination says " + RS[static_cast<int>(r.switchResult())]);
  else if (static_cast<int>(r.switchResult(c)) != one) mc::fail("H06", "controller-switch-result", st + ": the combination says " + RS[static_cast<int>(r.switchResult(c))] + " of " + text({c}));
  mc::outcome(st + text({c}));
}
static void cycling()
{
  World w; const int n = mc::choose(4), depth = 4; const bool dup = n == 3 && mc::flip();
  for (int i = 0; i < n; ++i) { const std::string nm = "part" + str(dup && i == 2 ? 0 : (i * 2) % 3); w.parts.push_back(nm); w.param(nm, "p/part"); w.c[nm].a = 1; }
  combined_robot_hw::CombinedRobotHW r; if (!w.init(r)) { mc::fail("H06", "init-result", "initialising good parts failed"); return; }
  std::string st = str(n);
  for (int d = 0; d < depth && !mc::failed(); ++d)
  {
    const int op = mc::choose(2), v = mc::choose(3); const ros::Time t(10 + d, v); const ros::Duration p(v == 2 ? 0.0 : 0.5 + d + v);
    w.log.clear(); mc::note("%s at %d", op ? "write" : "read", 10 + d);
    { rt::Scope real_time; if (op) r.write(t, p); else r.read(t, p); }
    heap(op ? "write" : "read", st);
    bool good = w.log.size() == w.parts.size();
    for (size_t i = 0; good && i < w.log.size(); ++i) good = w.log[i].kind == (op ? 'w' : 'r') && w.log[i].who == w.parts[i] && w.log[i].t == static_cast<int64_t>(t.toNSec()) && w.log[i].p == p.toNSec();
    if (!good) mc::fail("H06", "cycle", std::string(op ? "write" : "read") + " reaches the parts as " + show(w.log));
    st += str(op) + str(v); mc::state(mc::hash(st));
  }
  mc::outcome(st);
}

// Five parts, six controllers, several switches one after another, cycles between them.
static void crowd()
{
  static const int PA[] = {0x01, 0x06, 0x00, 0x98, 0x60}, PB[] = {0x80, 0x01, 0x7e, 0x00, 0x00}, CA[] = {0x01, 0x0e, 0x00, 0x00, 0x60, 0xff}, CB[] = {0x00, 0x00, 0x10, 0x81, 0x02, 0x00};
  const int P = 5, C = 6;
  World w; std::string st;
  for (int i = 0; i < P; ++i) { const std::string n = "part" + str((i * 3) % P); w.parts.push_back(n); w.param(n, "p/part"); w.c[n].a = PA[i]; w.c[n].b = PB[i]; w.c[n].late = i % 2; }
  combined_robot_hw::CombinedRobotHW r; if (!w.init(r)) { mc::fail("H06", "init-result", "initialising good parts failed"); return; }
  std::vector<ControllerInfo> cs;
  for (int i = 0; i < C; ++i)
  {
    ControllerInfo c; c.name = "controller_" + str(i); c.type = "t";
    auto claim = [&](const std::string& n, int mask) { if (!mask) return; InterfaceResources x; x.hardware_interface = n; for (int b = 0; b < NR; ++b) if (mask & (1 << b)) x.resources.insert(RN[b]); c.claimed_resources.push_back(x); };
    claim(tname<IB>(), CB[i]); claim(tname<IA>(), CA[i]); cs.push_back(c);
  }
  for (int round = 0; round < 2 && !mc::failed(); ++round)
  {
    // which controllers start, which stop, who refuses or is not done
    const bool T = mc::thorough(); const int starts = round ? (T ? mc::choose(4) : mc::choose(2) + 1) * 21 : mc::choose(1 << C), stops = (T ? mc::choose(4) : round ? 1 : 1 + mc::choose(2)) * 25 & ~starts & 63, odd = mc::choose(round ? 2 : P + 1) * (round ? P : 1);
    L a, b; for (int i = 0; i < C; ++i) { if (starts & (1 << i)) a.push_back(cs[i]); if (stops & (1 << i)) b.push_front(cs[i]); }
    st += " " + str(starts) + "/" + str(stops) + "/" + str(odd); mc::note("start %d stop %d odd part %d", starts, stops, odd);
    auto lists = [&](const std::string& n) { return text(owned(a, w.c[n])) + "|" + text(owned(b, w.c[n])); };
    for (int phase = 0; phase < 2 && !mc::failed(); ++phase)
    {
      w.log.clear(); bool ok = true;
      prepare_answer = [&](const std::string& n) { return odd >= P || n != w.parts[odd]; };
      if (phase == 0) ok = r.prepareSwitch(a, b); else { rt::Scope real_time; r.doSwitch(a, b); }
      if (phase == 0 && ok != (odd >= P)) mc::fail("H06", "prepare-result", st + ": prepared " + str(ok) + " although part " + str(odd) + " refuses");
      std::map<std::string, int> count;
      for (auto& e : w.log)
      {
        ++count[e.who];
        if (e.kind != "pd"[phase]) mc::fail("H06", "switch-foreign", st + ": a switch calls " + show(w.log));
        else if (e.arg != lists(e.who)) mc::fail("H06", phase ? "switch-lists" : "prepare-lists", st + ": " + e.who + " gets " + e.arg + " instead of " + lists(e.who));
      }
      for (auto& n : w.parts) if (count[n] > 1 || ((phase || ok) && count[n] != 1)) mc::fail("H06", "switch-count", st + ": " + n + " gets " + str(count[n]) + " calls in one switch");
    }
    int worst = 0, k = 0; std::map<std::string, int> one;
    for (auto& n : w.parts) { const int x = odd < P ? (k == odd ? 2 : k == (odd + 2) % P ? 1 : 0) : round && k == starts % P ? 1 : 0; result_all[n] = result_one[n] = static_cast<RobotHW::SwitchState>(x); worst = std::max(worst, x); one[n] = x; ++k; }
    if (static_cast<int>(r.switchResult()) != worst) mc::fail("H06", "switch-result", st + ": the combination says " + RS[static_cast<int>(r.switchResult())]);
    for (auto& c : cs)
    {
      int x = 0; for (auto& n : w.parts) if (!owned({c}, w.c[n]).empty()) x = std::max(x, one[n]);
      if (static_cast<int>(r.switchResult(c)) != x) mc::fail("H06", "controller-switch-result", st + ": the combination says " + RS[static_cast<int>(r.switchResult(c))] + " of " + text({c}));
    }
    for (int wr = 0; wr < 2; ++wr)
    {
      w.log.clear(); { rt::Scope real_time; if (wr) r.write(ros::Time(5, round), ros::Duration(0.25)); else r.read(ros::Time(5, round), ros::Duration(0.25)); }
      bool good = w.log.size() == w.parts.size(); for (size_t i = 0; good && i < w.log.size(); ++i) good = w.log[i].kind == (wr ? 'w' : 'r') && w.log[i].who == w.parts[i];
      if (!good) mc::fail("H06", "cycle", std::string(wr ? "write" : "read") + " reaches the parts as " + show(w.log));
    }
    mc::state(mc::hash(st));
  }
  mc::outcome(st);
}

int main(int argc, char** argv)
{
  mc::init(argc, argv);
  const bool T = mc::thorough();
  rt::install();
  if (mc::selected("H06")) mc::explore("loading the parts", [] { loading(); });
  mc::explore("reading and writing", [] { cycling(); });
  mc::explore("switch results", [] { results(); });
  if (!mc::selected("H06")) return mc::finish();
  mc::explore("many parts", [] { crowd(); });
  mc::explore("switching no controllers", [] { switching(0, 0, true); });
  mc::explore("starting one controller", [] { switching(1, 0, true); });
  mc::explore("stopping one controller", [] { switching(0, 1, true); });
  mc::explore("starting one, stopping one", [&] { switching(1, 1, T); });
  if (T) mc::explore("starting two", [&] { switching(2, 0, false); });
  if (T) mc::explore("starting two, stopping one", [&] { switching(2, 1, false); }, 40000000);
  return mc::finish();
}
