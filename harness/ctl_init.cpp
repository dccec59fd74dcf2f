// Property C12: initialisation of controllers: interfaces required, offered and claimed.
#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <hardware_interface/internal/demangle_symbol.h>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <hardware_interface/robot_hw.h>
#include <ros/ros.h>
#include "../mc/mc.h"

using namespace hardware_interface;
typedef std::map<std::string, std::set<std::string>> Claims;
typedef controller_interface::ControllerBase Base;
static std::string str(long v) { return std::to_string(v); }

struct Res { std::string n; std::string getName() const { return n; } };
struct IA : public HardwareResourceManager<Res, ClaimResources> {};
struct IB : public HardwareResourceManager<Res, ClaimResources> {};
struct IS : public HardwareResourceManager<Res> {};                  // read-only
struct ID : public HardwareResourceManager<Res, ClaimResources> {};
template <class T> static std::string tname() { return internal::demangledTypeName<T>(); }

// What a controller does during its initialisation: which resources it fetches in each of the two init calls, and how they end.
enum End { OK, FAIL, THROW };
struct Plan { int fetch[2] = {0, 0}; End end[2] = {OK, OK}; };   // fetch: bit 0 r1, bit 1 r2 from every interface it can see; bit 2: an unknown one, caught
struct Seen { int calls[2] = {0, 0}; std::set<std::string> names; bool foreign = false; std::map<std::string, void*> ptr; };
static Plan* plan; static Seen* seen; static void* root_ns; static RobotHW* robot;

template <class T> static void fetch(T* i, int mask)
{
  if (!i) return;
  static const char* const N[] = {"r1", "r2", "nothing"};
  for (int k = 0; k < 3; ++k) if (mask & (1 << k)) { try { i->getHandle(N[k]); } catch (const HardwareInterfaceException&) {} }
}
static bool end(int k) { if (plan->end[k] == THROW) throw std::runtime_error("init"); return plan->end[k] == OK; }
static void look(RobotHW* hw)
{
  seen->names.clear();
  for (auto& n : hw->getNames()) seen->names.insert(n);
  seen->ptr[tname<IA>()] = hw->get<IA>(); seen->ptr[tname<IB>()] = hw->get<IB>(); seen->ptr[tname<IS>()] = hw->get<IS>(); seen->ptr[tname<ID>()] = hw->get<ID>();
}
template <class T> class Single : public controller_interface::Controller<T>
{
public:
  bool init(T* hw, ros::NodeHandle& c) override { ++seen->calls[0]; if (c.getNamespace() != "/ctl") seen->foreign = true; seen->names = {tname<T>()}; seen->ptr[tname<T>()] = hw; fetch(hw, plan->fetch[0]); return end(0); }
  bool init(T* hw, ros::NodeHandle& r, ros::NodeHandle& c) override { ++seen->calls[1]; if (r.getNamespace() != "/root" || c.getNamespace() != "/ctl") seen->foreign = true; fetch(hw, plan->fetch[1]); return end(1); }
  void update(const ros::Time&, const ros::Duration&) override {}
};
template <class... T> class Multi : public controller_interface::MultiInterfaceController<T...>
{
public:
  explicit Multi(bool optional) : controller_interface::MultiInterfaceController<T...>(optional) {}
  bool init(RobotHW* hw, ros::NodeHandle& c) override { ++seen->calls[0]; if (c.getNamespace() != "/ctl") seen->foreign = true; look(hw); get(hw, plan->fetch[0]); return end(0); }
  bool init(RobotHW* hw, ros::NodeHandle& r, ros::NodeHandle& c) override { ++seen->calls[1]; if (r.getNamespace() != "/root" || c.getNamespace() != "/ctl") seen->foreign = true; get(hw, plan->fetch[1]); return end(1); }
  void get(RobotHW* hw, int mask)
  {
    // different resources from different interfaces: the first one gets the mask, the others its complement
    fetch(hw->get<IA>(), mask); fetch(hw->get<IB>(), (~mask & 3) | (mask & 4)); fetch(hw->get<IS>(), mask); fetch(hw->get<ID>(), 3);
  }
  void update(const ros::Time&, const ros::Duration&) override {}
};
struct KindInfo { const char* name; std::set<std::string> ifs; bool multi, optional; std::unique_ptr<Base> (*make)(); };
static const std::vector<KindInfo>& kinds()
{
  static const std::string A = tname<IA>(), B = tname<IB>(), S = tname<IS>(), D = tname<ID>();
  static const std::vector<KindInfo> k = {
    {"Controller<A>", {A}, false, false, [] { return std::unique_ptr<Base>(new Single<IA>); }},
    {"Controller<S>", {S}, false, false, [] { return std::unique_ptr<Base>(new Single<IS>); }},
    {"Multi<A,B>", {A, B}, true, false, [] { return std::unique_ptr<Base>(new Multi<IA, IB>(false)); }},
    {"Multi<A,B> optional", {A, B}, true, true, [] { return std::unique_ptr<Base>(new Multi<IA, IB>(true)); }},
    {"Multi<S,B,A>", {A, B, S}, true, false, [] { return std::unique_ptr<Base>(new Multi<IS, IB, IA>(false)); }},
    {"Multi<S,A,B> optional", {A, B, S}, true, true, [] { return std::unique_ptr<Base>(new Multi<IS, IA, IB>(true)); }},
    {"Multi<B> optional", {B}, true, true, [] { return std::unique_ptr<Base>(new Multi<IB>(true)); }},
  };
  return k;
}
static std::string show(const Claims& c) { std::string s = "{"; for (auto& i : c) { s += i.first + ":"; for (auto& r : i.second) s += r + " "; } return s + "}"; }

// Where the robot has an interface: nowhere, its own, in a sub-manager, or one resource each in two sub-managers.
struct Robot : public RobotHW
{
  RobotHW sub[2]; IA a[2]; IB b[2]; IS s[2]; ID d;
  std::set<std::string> present;
  template <class T> void add(T (&i)[2], int where)
  {
    if (!where) return;
    present.insert(tname<T>());
    i[0].registerHandle(Res{"r1"}); i[where == 3 ? 1 : 0].registerHandle(Res{"r2"});
    if (where == 1) registerInterface(&i[0]);
    if (where == 2) sub[0].registerInterface(&i[0]);
    if (where == 3) { sub[0].registerInterface(&i[0]); sub[1].registerInterface(&i[1]); }
  }
};

static void run(int ncontrollers, bool deep, int attempts_max, bool few = false)
{
  Robot r; robot = &r;
  static const std::vector<std::vector<int>> places = {{1, 1, 1}, {0, 1, 1}, {1, 0, 1}, {1, 1, 0}, {0, 0, 0}, {3, 3, 3}, {2, 1, 3}, {3, 1, 1}, {1, 3, 2}, {0, 2, 0}};
  const auto& w = places[mc::choose(few ? 7 : 10) + (few ? 3 : 0)];
  r.add(r.a, w[0]); r.add(r.b, w[1]); r.add(r.s, w[2]);
  r.d.registerHandle(Res{"r1"}); r.d.registerHandle(Res{"r2"}); r.registerInterface(&r.d);
  r.registerInterfaceManager(&r.sub[0]); r.registerInterfaceManager(&r.sub[1]);
  ros::NodeHandle root("/root"), nh("/ctl");
  std::string st = str(w[0]) + str(w[1]) + str(w[2]);
  mc::note("interfaces A, B, S are in places %d %d %d", w[0], w[1], w[2]);
  for (int c = 0; c < ncontrollers; ++c)
  {
    const KindInfo& k = mc::pick(kinds());
    std::unique_ptr<Base> ctl = k.make();
    bool initialised = false; Claims claims;
    const int attempts = deep ? 1 + mc::choose(attempts_max) : 2;
    for (int t = 0; t < attempts && !mc::failed(); ++t)
    {
      Plan p; Seen s; plan = &p; seen = &s;
      static const std::vector<std::pair<int, int>> F = {{0, 0}, {1, 0}, {1, 2}, {3, 0}, {0, 1}, {7, 4}};
      if (initialised || (t && !deep)) { p.fetch[0] = 3; }
      else
      {
        auto f = F[few ? 1 + mc::choose(3) : mc::choose(6)]; p.fetch[0] = f.first; p.fetch[1] = f.second;
        const int e = mc::choose(5);
        p.end[0] = e == 1 ? FAIL : e == 2 ? THROW : OK; p.end[1] = e == 3 ? FAIL : e == 4 ? THROW : OK;
      }
      std::set<std::string> got_if; bool missing = false;
      for (auto& i : k.ifs) if (r.present.count(i)) got_if.insert(i); else missing = true;
      const bool can = !initialised && !(missing && !k.optional);
      const bool want = can && p.end[0] == OK && p.end[1] == OK;
      // claims of this attempt
      Claims exp;
      for (auto& i : got_if)
      {
        int m = 0;
        for (int x = 0; x < 2; ++x) m |= !k.multi || i != tname<IB>() ? p.fetch[x] : ~p.fetch[x];
        exp[i]; if (i != tname<IS>()) { if (m & 1) exp[i].insert("r1"); if (m & 2) exp[i].insert("r2"); }
      }
      Base::ClaimedResources out; bool res = false, thrown = false;
      if (mc::failed()) return;
      try { res = ctl->initRequest(&r, root, nh, out); } catch (const std::exception&) { thrown = true; }
      const std::string what = std::string(k.name) + ", attempt " + str(t) + (initialised ? " (already initialised)" : "") + ": ";
      mc::note("%sfetches %d %d, ends %d %d -> %s", what.c_str(), p.fetch[0], p.fetch[1], p.end[0], p.end[1], thrown ? "exception" : res ? "ok" : "refused");
      if (res != want) { mc::fail("C12", want ? "not-initialised" : "initialised", what + (res ? "succeeded" : "failed") + " although it should not"); return; }
      if (!can && (s.calls[0] || s.calls[1])) { mc::fail("C12", "init-called", what + "its init was called"); return; }
      if (can)
      {
        if (s.calls[0] != 1 || s.calls[1] != (p.end[0] == OK)) { mc::fail("C12", "init-calls", what + "its init functions were called " + str(s.calls[0]) + " and " + str(s.calls[1]) + " times"); return; }
        if (s.foreign) { mc::fail("C12", "namespaces", what + "its init got other node handles"); return; }
        if (s.names != got_if) { std::string n; for (auto& x : s.names) n += x + " "; mc::fail("C12", "interfaces-offered", what + "it was offered " + n); return; }
        for (auto& q : s.ptr)
        {
          void* real = nullptr;
          if (got_if.count(q.first)) real = q.first == tname<IA>() ? static_cast<void*>(r.get<IA>()) : q.first == tname<IB>() ? static_cast<void*>(r.get<IB>()) : static_cast<void*>(r.get<IS>());
          if (q.second != real) { mc::fail("C12", "wrong-interface", what + "it got another " + q.first + " than the robot has"); return; }
        }
      }
      if (want)
      {
        initialised = true;
        if (!ctl->isInitialized()) mc::fail("C12", "state", what + "it is not in the initialised state");
        Claims got; bool twice = false;
        for (auto& i : out) { if (got.count(i.hardware_interface)) twice = true; got[i.hardware_interface] = i.resources; }
        if (got != exp || twice) { mc::fail("C12", "claims", what + "claims " + show(got) + " instead of " + show(exp)); return; }
        claims = exp; st += show(got);
      }
      else if (!initialised && (ctl->isInitialized() || ctl->isRunning() || ctl->isStopped())) mc::fail("C12", "state", what + "it has a state although it was not initialised");
      else if (initialised && !ctl->isInitialized()) mc::fail("C12", "state", what + "a refused second initialisation changed its state");
      st += k.name + str(res) + str(thrown); mc::state(mc::hash(st));
      if (!deep && !t && !initialised) break;
    }
    if (mc::failed()) return;
  }
  mc::outcome(st);
}

int main(int argc, char** argv)
{
  mc::init(argc, argv);
  const bool T = mc::thorough();
  mc::explore("one controller, several attempts", [&] { run(1, true, T ? 3 : 2); });
  mc::explore("two controllers", [] { run(2, false, 2); });
  if (T) mc::explore("three controllers", [] { run(3, false, 2, true); });
  return mc::finish();
}
