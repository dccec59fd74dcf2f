// Properties H01-H05: resource registries, claims, interface lookup, resource conflicts, handles.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/actuator_state_interface.h>
#include <hardware_interface/force_torque_sensor_interface.h>
#include <hardware_interface/hardware_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <hardware_interface/internal/interface_manager.h>
#include <hardware_interface/internal/resource_manager.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_mode_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/position_velocity_torque_gains_command_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/posvelacc_command_interface.h>
#include <hardware_interface/robot_hw.h>
#include "../mc/mc.h"

using namespace hardware_interface;
typedef std::vector<std::string> Strs;
static std::string show(const Strs& v) { std::string s = "["; for (auto& x : v) s += (s.size() > 1 ? " " : "") + ("'" + x + "'"); return s + "]"; }
static std::string show(const std::set<std::string>& v) { return show(Strs(v.begin(), v.end())); }
static std::string str(long v) { return std::to_string(v); }

struct Res { Res() : v(0) {} Res(const std::string& n_, int v_) : n(n_), v(v_) {} std::string n; int v; std::string getName() const { return n; } };

// ---- H01 -------------------------------------------------------------------------------------------------------------------
static const Strs NAMES = {"a", "ab", "b"};
static const Strs UNKNOWN = {"", "abc", "A", "a "};

template <class M> struct Registry
{
  M m; std::map<std::string, int> model;
  void check(const std::string& what)
  {
    Strs names = m.getNames(), want; for (auto& k : model) want.push_back(k.first);
    Strs sorted = names; std::sort(sorted.begin(), sorted.end());
    if (sorted != want) { mc::fail("H01", "names", what + ": names are " + show(names) + " but registered were " + show(want)); return; }
    Strs all = NAMES; all.insert(all.end(), UNKNOWN.begin(), UNKNOWN.end());
    for (auto& n : all)
    {
      auto it = model.find(n);
      try
      {
        Res r = m.getHandle(n);
        if (it == model.end()) { mc::fail("H01", "unknown-found", what + ": looking up '" + n + "' succeeded although it is not registered"); return; }
        if (r.n != n || r.v != it->second) { mc::fail("H01", "wrong-handle", what + ": looking up '" + n + "' gave '" + r.n + "' #" + str(r.v) + " instead of #" + str(it->second)); return; }
      }
      catch (const std::exception& e)
      {
        if (it != model.end()) { mc::fail("H01", "known-not-found", what + ": looking up '" + n + "' failed: " + e.what()); return; }
        if (std::string(e.what()).find("'" + n + "'") == std::string::npos && (n.empty() || std::string(e.what()).find(n) == std::string::npos)) { mc::fail("H01", "error-without-name", what + ": the error for '" + n + "' is: " + e.what()); return; }
      }
    }
    Strs again = m.getNames(); std::sort(again.begin(), again.end());
    if (again != want) mc::fail("H01", "lookup-changes-names", what + ": after looking names up they are " + show(again) + " but registered were " + show(want));
  }
};
template <class M> static void h01(int depth)
{
  Registry<M> src[2], comb; int next = 1; bool comb_used = false;
  std::string what = "nothing";
  for (int d = 0; d < depth && !mc::failed(); ++d)
  {
    const int op = mc::choose(13);
    if (op == 12) break;                         // shorter histories too; the lookups come at the end
    if (op < 6)
    {
      Registry<M>& s = src[op / 3]; const std::string n = NAMES[op % 3]; const int v = next++;
      what = "register " + n + " #" + str(v) + " in " + str(op / 3);
      mc::note("%s", what.c_str());
      s.m.registerHandle(Res(n, v)); s.model[n] = v;
    }
    else
    {
      // combine into the (possibly used) third registry: any list of sources
      static const std::vector<std::vector<int>> lists = {{}, {0}, {1}, {0, 1}, {1, 0}, {0, 0}};
      const std::vector<int>& l = lists[op - 6];
      typedef typename M::ResourceManagerType B; std::vector<B*> v; what = "combine";
      for (int i : l) { v.push_back(&src[i].m); what += " " + str(i); }
      mc::note("%s", what.c_str());
      M::concatManagers(v, &comb.m); comb_used = true;
      // which of several handles of one name wins is not specified
      std::map<std::string, std::set<int>> can;
      for (int i : l) for (auto& k : src[i].model) can[k.first].insert(k.second);
      for (auto& k : comb.model) can[k.first].insert(k.second);
      std::map<std::string, int> now;
      for (auto& k : can)
      {
        int got = 0;
        try { got = comb.m.ResourceManager<Res>::getHandle(k.first).v; } catch (const std::exception&) { mc::fail("H01", "combination-lacks", what + ": '" + k.first + "' is missing"); return; }
        if (!k.second.count(got)) { mc::fail("H01", "combination-foreign", what + ": '" + k.first + "' is #" + str(got)); return; }
        now[k.first] = got;
      }
      comb.model = now;
    }
    std::string st; for (auto* r : {&src[0], &src[1], &comb}) { for (auto& k : r->model) st += k.first + "=" + str(k.second) + ";"; st += "|"; }
    mc::state(mc::hash(st)); mc::outcome(st);
  }
  if (mc::failed()) return;
  src[0].check(what); src[1].check(what); if (comb_used) comb.check(what);
}

// ---- H02 -------------------------------------------------------------------------------------------------------------------
static double D[64];
static JointCommandModes MODE = JointCommandModes::NOMODE;
template <class H> struct Make;
template <> struct Make<JointStateHandle> { static JointStateHandle m(const std::string& n) { return JointStateHandle(n, D, D + 1, D + 2); } };
template <> struct Make<JointHandle> { static JointHandle m(const std::string& n) { return JointHandle(Make<JointStateHandle>::m(n), D + 3); } };
template <> struct Make<PosVelJointHandle> { static PosVelJointHandle m(const std::string& n) { return PosVelJointHandle(Make<JointStateHandle>::m(n), D + 3, D + 4); } };
template <> struct Make<PosVelAccJointHandle> { static PosVelAccJointHandle m(const std::string& n) { return PosVelAccJointHandle(Make<JointStateHandle>::m(n), D + 3, D + 4, D + 5); } };
template <> struct Make<PositionVelocityTorqueGainsJointHandle> { static PositionVelocityTorqueGainsJointHandle m(const std::string& n) { return PositionVelocityTorqueGainsJointHandle(Make<JointStateHandle>::m(n), D + 3, D + 4, D + 5, D + 6, D + 7); } };
template <> struct Make<ActuatorStateHandle> { static ActuatorStateHandle m(const std::string& n) { return ActuatorStateHandle(n, D, D + 1, D + 2); } };
template <> struct Make<ActuatorHandle> { static ActuatorHandle m(const std::string& n) { return ActuatorHandle(Make<ActuatorStateHandle>::m(n), D + 3); } };
template <> struct Make<ImuSensorHandle> { static ImuSensorHandle m(const std::string& n) { ImuSensorHandle::Data d; d.name = n; d.orientation = D; return ImuSensorHandle(d); } };
template <> struct Make<ForceTorqueSensorHandle> { static ForceTorqueSensorHandle m(const std::string& n) { return ForceTorqueSensorHandle(n, "f", D, D + 3); } };
template <> struct Make<JointModeHandle> { static JointModeHandle m(const std::string& n) { return JointModeHandle(n, &MODE); } };

template <class I> static void h02(bool exclusive, int depth)
{
  I i; std::set<std::string> reg, claims;
  auto add = [&](const std::string& n) { i.registerHandle(Make<typename I::ResourceHandleType>::m(n)); reg.insert(n); };
  add("a"); add("ab");
  for (int d = 0; d < depth && !mc::failed(); ++d)
  {
    const int op = mc::choose(9); std::string what;
    static const Strs F = {"a", "ab", "b", "zz", ""};
    if (op < 5)
    {
      what = "fetch '" + F[op] + "'"; mc::note("%s", what.c_str());
      bool ok = true;
      try { auto h = i.getHandle(F[op]); if (h.getName() != F[op]) mc::fail("H02", "wrong-handle", what + " gave " + h.getName()); }
      catch (const HardwareInterfaceException&) { ok = false; }
      if (ok != (reg.count(F[op]) > 0)) mc::fail("H02", "fetch-result", what + (ok ? " succeeded" : " failed"));
      if (ok && exclusive) claims.insert(F[op]);
    }
    else if (op == 5) { what = "clear"; mc::note("clear"); i.clearClaims(); claims.clear(); }
    else if (op == 6) { what = "claim 'b'"; mc::note("claim b"); i.claim("b"); claims.insert("b"); }
    else if (op == 7) { what = "claim 'a'"; mc::note("claim a"); i.claim("a"); claims.insert("a"); }
    else { what = "register 'b'"; mc::note("register b"); add("b"); }
    // a failed or successful look at something else claims nothing
    if (i.getClaims() != claims) mc::fail("H02", "claims", "after " + what + " the claims are " + show(i.getClaims()) + " instead of " + show(claims));
    std::string st = show(claims) + show(reg); mc::state(mc::hash(st)); if (d + 1 == depth) mc::outcome(st);
  }
}

// ---- H03 -------------------------------------------------------------------------------------------------------------------
struct IA : public HardwareResourceManager<Res, ClaimResources> {};
struct IB : public ResourceManager<Res> {};
struct IC { int id = 0; };                       // not a registry: cannot be combined
template <class T> static std::string tname() { return internal::demangledTypeName<T>(); }

// Managers: 0 is the robot; 1, 2, 3 can be registered as sub-managers of 0 (and 3 also of 1).
struct H03
{
  static const int N = 4;
  InterfaceManager man[N];
  std::vector<std::unique_ptr<IA>> ia; std::vector<std::unique_ptr<IB>> ib; std::vector<std::unique_ptr<IC>> ic;
  std::map<IA*, std::map<std::string, int>> ra; std::map<IB*, std::map<std::string, int>> rb;
  IA* own_a[N] = {}; IB* own_b[N] = {}; IC* own_c[N] = {};
  std::vector<int> sub[N];
  int next = 1;

  void all_a(int m, std::vector<IA*>& out) { if (own_a[m]) out.push_back(own_a[m]); for (int s : sub[m]) all_a(s, out); }
  void all_b(int m, std::vector<IB*>& out) { if (own_b[m]) out.push_back(own_b[m]); for (int s : sub[m]) all_b(s, out); }
  // non-registries: a manager with several yields none
  IC* one_c(int m) { std::vector<IC*> v; if (own_c[m]) v.push_back(own_c[m]); for (int s : sub[m]) { IC* c = one_c(s); if (c) v.push_back(c); } return v.size() == 1 ? v[0] : nullptr; }
  bool has_c(int m) { if (own_c[m]) return true; for (int s : sub[m]) if (has_c(s)) return true; return false; }

  template <class T> void check_type(int m, const std::vector<T*>& parts, std::map<T*, std::map<std::string, int>>& reg, bool claiming, const std::string& what)
  {
    const std::string tn = tname<T>();
    T* got = man[m].get<T>();
    if (parts.empty()) { if (got) mc::fail("H03", "absent-found", what + ": manager " + str(m) + " gives an interface " + tn + " nobody registered"); return; }
    if (!got) { mc::fail("H03", "present-missing", what + ": manager " + str(m) + " gives no " + tn); return; }
    if (parts.size() == 1 && got != parts[0]) { mc::fail("H03", "wrong-interface", what + ": manager " + str(m) + " does not give the " + tn + " registered last"); return; }
    std::map<std::string, std::set<int>> can; std::set<std::string> want;
    for (T* p : parts) for (auto& k : reg[p]) { can[k.first].insert(k.second); want.insert(k.first); }
    Strs gn = got->getNames(); std::set<std::string> gs(gn.begin(), gn.end());
    if (gs != want || gs.size() != gn.size()) { mc::fail("H03", "resources-of-interface", what + ": the " + tn + " of manager " + str(m) + " has " + show(gn) + " instead of " + show(want)); return; }
    for (auto& k : can)
    {
      int v = 0; try { v = got->getHandle(k.first).v; } catch (const std::exception& e) { mc::fail("H03", "resource-unreachable", what + ": " + k.first + " " + e.what()); return; }
      if (!k.second.count(v)) { mc::fail("H03", "resource-stale", what + ": '" + k.first + "' of the " + tn + " of manager " + str(m) + " is #" + str(v)); return; }
    }
    claimed(got, want, claiming, what);
    Strs rn = man[m].getInterfaceResources(tn); std::set<std::string> rs(rn.begin(), rn.end());
    if (rs != want) mc::fail("H03", "resources-listed", what + ": manager " + str(m) + " lists " + show(rn) + " for " + tn + " instead of " + show(want));
  }
  void claimed(IA* i, const std::set<std::string>& want, bool, const std::string& what)
  {
    if (i->getClaims() != want) mc::fail("H03", "not-claimable", what + ": fetching all resources claims " + show(i->getClaims()) + " instead of " + show(want));
    i->clearClaims();
  }
  void claimed(IB*, const std::set<std::string>&, bool, const std::string&) {}
  void query(int m, const std::string& what)
  {
    std::vector<IA*> a; all_a(m, a); check_type<IA>(m, a, ra, true, what); if (mc::failed()) return;
    std::vector<IB*> b; all_b(m, b); check_type<IB>(m, b, rb, false, what); if (mc::failed()) return;
    if (man[m].get<IC>() != one_c(m)) { mc::fail("H03", "plain-interface", what + ": wrong answer for an interface that is no registry"); return; }
    if (!man[m].getInterfaceResources(tname<IC>()).empty() || !man[m].getInterfaceResources("nothing").empty()) { mc::fail("H03", "plain-resources", what + ": resources listed for an interface without any"); return; }
    std::set<std::string> want; if (!a.empty()) want.insert(tname<IA>()); if (!b.empty()) want.insert(tname<IB>()); if (has_c(m)) want.insert(tname<IC>());
    Strs n = man[m].getNames(); std::set<std::string> ns(n.begin(), n.end());
    if (ns != want || ns.size() != n.size()) mc::fail("H03", "names", what + ": manager " + str(m) + " names " + show(n) + " instead of " + show(want));
  }
  std::string key()
  {
    std::string s;
    for (int m = 0; m < N; ++m)
    {
      s += "M"; if (own_a[m]) { s += "A"; for (auto& k : ra[own_a[m]]) s += k.first + str(k.second); } if (own_b[m]) { s += "B"; for (auto& k : rb[own_b[m]]) s += k.first + str(k.second); } if (own_c[m]) s += "C"; for (int x : sub[m]) s += str(x);
    }
    return s;
  }
};
// mode 0: interfaces with their handles registered beforehand; 1: handles may come later too
static void h03(int depth, bool late, bool nested)
{
  H03 h;
  for (int d = 0; d < depth && !mc::failed(); ++d)
  {
    struct Op { int kind, m, x; };
    std::vector<Op> ops;
    const int mans = nested ? 4 : 3;
    for (int m = 0; m < mans; ++m) { ops.push_back({0, m, 0}); ops.push_back({0, m, 1}); ops.push_back({1, m, 0}); }
    for (int m = 0; m < (nested ? 1 : 2); ++m) ops.push_back({2, m, 0});
    auto sub_of = [&](int p, int c) { return std::find(h.sub[p].begin(), h.sub[p].end(), c) != h.sub[p].end(); };
    for (int c = 1; c < 3; ++c) if (!sub_of(0, c)) ops.push_back({3, 0, c});
    if (nested && !sub_of(1, 3)) ops.push_back({3, 1, 3});
    if (late) for (int m = 0; m < mans; ++m) { if (h.own_a[m]) ops.push_back({4, m, 0}); if (h.own_b[m]) ops.push_back({5, m, 0}); }
    for (int m = 0; m < 2; ++m) ops.push_back({6, m, 0});
    const Op o = ops[mc::choose(static_cast<int>(ops.size()))];
    std::string what;
    static const Strs RN = {"r", "s", "rs", "t"};
    switch (o.kind)
    {
      case 0:
      {
        auto p = std::make_unique<IA>(); const std::string own = RN[o.m];
        if (!late || o.x) { std::map<std::string, int>& r = h.ra[p.get()]; for (auto& n : {own, std::string(o.x ? "common" : "x" + own)}) { const int v = h.next++; p->registerHandle(Res(n, v)); r[n] = v; } } else h.ra[p.get()];
        what = "register an A" + std::string(o.x ? " with a common resource" : "") + " with manager " + str(o.m); mc::note("%s", what.c_str());
        h.man[o.m].registerInterface(p.get()); h.own_a[o.m] = p.get(); h.ia.push_back(std::move(p)); break;
      }
      case 1:
      {
        auto p = std::make_unique<IB>(); const std::string own = RN[o.m]; const int v = h.next++; p->registerHandle(Res(own, v)); h.rb[p.get()][own] = v;
        what = "register a B with manager " + str(o.m); mc::note("%s", what.c_str());
        h.man[o.m].registerInterface(p.get()); h.own_b[o.m] = p.get(); h.ib.push_back(std::move(p)); break;
      }
      case 2:
      {
        auto p = std::make_unique<IC>(); what = "register a C with manager " + str(o.m); mc::note("%s", what.c_str());
        h.man[o.m].registerInterface(p.get()); h.own_c[o.m] = p.get(); h.ic.push_back(std::move(p)); break;
      }
      case 3: what = "manager " + str(o.x) + " becomes part of " + str(o.m); mc::note("%s", what.c_str()); h.man[o.m].registerInterfaceManager(&h.man[o.x]); h.sub[o.m].push_back(o.x); break;
      case 4: { const std::string n = "late" + str(h.next); const int v = h.next++; what = "register '" + n + "' with the A of manager " + str(o.m); mc::note("%s", what.c_str()); h.own_a[o.m]->registerHandle(Res(n, v)); h.ra[h.own_a[o.m]][n] = v; break; }
      case 5: { const std::string n = "late" + str(h.next); const int v = h.next++; what = "register '" + n + "' with the B of manager " + str(o.m); mc::note("%s", what.c_str()); h.own_b[o.m]->registerHandle(Res(n, v)); h.rb[h.own_b[o.m]][n] = v; break; }
      default: what = "query manager " + str(o.m); mc::note("%s", what.c_str()); h.query(o.m, what);
    }
    mc::state(mc::hash(h.key()));
  }
  if (mc::failed()) return;
  for (int m = 0; m < 2 && !mc::failed(); ++m) h.query(m, "finally");
  mc::outcome(h.key());
}

// ---- H04 -------------------------------------------------------------------------------------------------------------------
static void h04(int nctl, int max_entries, int nres, bool iface_choice)
{
  static const Strs R = {"r1", "r1_x", "r2", "r3"};
  std::list<ControllerInfo> l; std::map<std::string, int> count; std::string text;
  for (int c = 0; c < nctl; ++c)
  {
    ControllerInfo i; i.name = "c" + str(c); i.type = "t";
    const int n = mc::choose(max_entries + 1);
    text += i.name + "(";
    for (int e = 0; e < n; ++e)
    {
      InterfaceResources r; r.hardware_interface = iface_choice ? (mc::flip() ? "A" : "B") : (e ? "B" : "A");
      const int mask = mc::choose(1 << nres);
      text += r.hardware_interface + ":";
      for (int k = 0; k < nres; ++k) if (mask & (1 << k)) { r.resources.insert(R[k]); ++count[R[k]]; text += R[k] + " "; }
      i.claimed_resources.push_back(r);
    }
    text += ") ";
    l.push_back(i);
  }
  bool want = false; for (auto& k : count) want |= k.second > 1;
  RobotHW hw;
  const bool got = hw.checkForConflict(l);
  mc::note("%s -> %s", text.c_str(), got ? "conflict" : "no conflict");
  mc::state(mc::hash(text)); mc::outcome(std::string(want ? "1" : "0") + str(nctl));
  if (got != want) mc::fail("H04", want ? "conflict-missed" : "conflict-invented", text + (got ? "is" : "is not") + " reported as a conflict");
}

// ---- H05 -------------------------------------------------------------------------------------------------------------------
// A handle type under test: how many data it refers to, how to make one, its getters and setters.
struct Acc { std::string name; int field; };
template <class H> struct Spec
{
  int n;
  std::function<H(double* const*)> make;
  std::vector<std::pair<int, std::function<double(const H&)>>> get;          // field, getter
  std::vector<std::pair<std::vector<int>, std::function<void(H&, const double*)>>> set;   // fields, setter
  std::vector<std::function<void(const H&)>> absent;                        // accessors that must be refused
};
template <class H> static void h05(const char* name, const Spec<H>& sp, int depth)
{
  double data[10], extra[4]; std::vector<double*> p; for (int i = 0; i < 10; ++i) data[i] = 100 + i;
  const int nulls = mc::choose(1 << sp.n);
  for (int i = 0; i < sp.n; ++i) p.push_back(nulls & (1 << i) ? nullptr : &data[i]);
  mc::note("%s with null data %d", name, nulls);
  H h[2]; int made = 0;
  try { h[0] = sp.make(p.data()); made = 1; } catch (const HardwareInterfaceException&) {}
  mc::state(mc::hash(std::string(name) + str(nulls)));
  if (nulls) { if (made) mc::fail("H05", "null-accepted", std::string(name) + " accepts null data (mask " + str(nulls) + ")"); mc::outcome("refused"); return; }
  if (!made) { mc::fail("H05", "refused", std::string(name) + " refuses good data"); return; }
  h[1] = h[0];
  H copy(h[0]);
  double model[10]; for (int i = 0; i < 10; ++i) model[i] = data[i];
  if (h[0].getName() != "jnt") mc::fail("H05", "name", std::string(name) + " has another name");
  double next = 1;
  std::string trail;
  for (int d = 0; d < depth && !mc::failed(); ++d)
  {
    const int who = mc::choose(2), op = mc::choose(static_cast<int>(sp.set.size()) + sp.n);
    if (op < static_cast<int>(sp.set.size()))
    {
      for (double& e : extra) e = -(next++);
      std::vector<double> v; for (size_t k = 0; k < sp.set[op].first.size(); ++k) v.push_back(next++);
      sp.set[op].second(h[who], v.data());
      for (size_t k = 0; k < v.size(); ++k) model[sp.set[op].first[k]] = v[k];
      mc::note("setter %d of copy %d", op, who);
    }
    else { const int f = op - static_cast<int>(sp.set.size()); data[f] = model[f] = next++; mc::note("datum %d changes", f); }
    for (int i = 0; i < 10; ++i) if (data[i] != model[i]) mc::fail("H05", "datum", std::string(name) + ": datum " + str(i) + " is " + std::to_string(data[i]) + " instead of " + std::to_string(model[i]));
    for (auto& g : sp.get) for (const H* x : {&h[0], &h[1], &copy}) if (g.second(*x) != model[g.first]) mc::fail("H05", "reading", std::string(name) + ": reading datum " + str(g.first) + " gives another value");
    trail += str(who) + "," + str(op) + ";"; mc::state(mc::hash(std::string(name) + trail));
  }
  for (auto& a : sp.absent) { bool thrown = false; try { a(h[0]); } catch (const std::exception&) { thrown = true; } if (!thrown) mc::fail("H05", "absent-datum", std::string(name) + " gives a datum it does not have"); }
  mc::outcome(std::string(name) + trail);
}
// One command or change of a datum with every combination of special values, from two different former states.
static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
template <class H> static void h05_values(const char* name, const Spec<H>& sp)
{
  static const double inf = std::numeric_limits<double>::infinity(), V[] = {0., 1., -0., -1e300, inf, std::nan("")};
  double data[10], model[10]; std::vector<double*> p; const double before = mc::choose(2) ? 1. : 0.;
  for (int i = 0; i < 10; ++i) model[i] = data[i] = before;
  for (int i = 0; i < sp.n; ++i) p.push_back(&data[i]);
  H h; try { h = sp.make(p.data()); } catch (const std::exception&) { mc::fail("H05", "refused", std::string(name) + " refuses good data"); return; }
  const H copy(h);
  const int op = mc::choose(static_cast<int>(sp.set.size()) + sp.n), ns = sp.set.size();
  std::vector<double> v; std::string trail = str(before) + "," + str(op);
  const size_t n = op < ns ? sp.set[op].first.size() : 1;
  for (size_t k = 0; k < n; ++k) { const int c = mc::choose(n > 3 ? 4 : 6); v.push_back(V[c]); trail += "," + str(c); }
  if (op < ns) { sp.set[op].second(h, v.data()); for (size_t k = 0; k < n; ++k) model[sp.set[op].first[k]] = v[k]; }
  else data[op - ns] = model[op - ns] = v[0];
  mc::note("data %g, operation %d, first value %g", before, op, v[0]);
  mc::state(mc::hash(std::string(name) + trail)); mc::outcome(std::string(name) + trail);
  for (int i = 0; i < 10; ++i) if (!same(data[i], model[i])) mc::fail("H05", "datum", std::string(name) + ": datum " + str(i) + " is " + std::to_string(data[i]) + " instead of " + std::to_string(model[i]) + " (operation " + trail + ")");
  for (auto& g : sp.get) for (const H* x : {static_cast<const H*>(&h), &copy}) if (!same(g.second(*x), model[g.first])) mc::fail("H05", "reading", std::string(name) + ": reading datum " + str(g.first) + " gives " + std::to_string(g.second(*x)) + " instead of " + std::to_string(model[g.first]));
}
template <class H> static void h05_both(const std::string& family, const char* name, const Spec<H>& sp, int depth)
{
  mc::explore(family, [&] { h05<H>(name, sp, depth); });
  mc::explore(family + ": values", [&] { h05_values<H>(name, sp); });
}
#define G(H, f, expr) {f, [](const H& h) -> double { return expr; }}
template <class H> static std::vector<std::pair<int, std::function<double(const H&)>>> state_getters()
{
  return {G(H, 0, h.getPosition()), G(H, 1, h.getVelocity()), G(H, 2, h.getEffort()), G(H, 0, *h.getPositionPtr()), G(H, 1, *h.getVelocityPtr()), G(H, 2, *h.getEffortPtr())};
}
template <class H> static void add(std::vector<std::pair<int, std::function<double(const H&)>>>& v, std::vector<std::pair<int, std::function<double(const H&)>>> w) { v.insert(v.end(), w.begin(), w.end()); }

template <class H> static void h05_state(const std::string& nm, int depth)
{
  typedef std::function<void(const H&)> A;
  const A no_abs = [](const H& h) { if (!h.hasAbsolutePosition()) h.getAbsolutePosition(); }, no_absp = [](const H& h) { h.getAbsolutePositionPtr(); };
  const A no_trq = [](const H& h) { if (!h.hasTorqueSensor()) h.getTorqueSensor(); }, no_trqp = [](const H& h) { h.getTorqueSensorPtr(); };
  auto s3 = state_getters<H>();
  {
    Spec<H> s{3, [](double* const* p) { return H("jnt", p[0], p[1], p[2]); }, s3, {}, {no_abs, no_absp, no_trq, no_trqp}};
    h05_both<H>(nm + " with 3 data", nm.c_str(), s, depth);
  }
  {
    Spec<H> s{4, [](double* const* p) { return H("jnt", p[0], p[1], p[2], p[3]); }, s3, {}, {no_trq, no_trqp}};
    add<H>(s.get, {G(H, 3, h.getAbsolutePosition()), G(H, 3, *h.getAbsolutePositionPtr())});
    h05_both<H>(nm + " with an absolute position", nm.c_str(), s, depth);
  }
  {
    Spec<H> s{4, [](double* const* p) { return H("jnt", p[0], p[1], p[2], p[3], true); }, s3, {}, {no_abs, no_absp}};
    add<H>(s.get, {G(H, 3, h.getTorqueSensor()), G(H, 3, *h.getTorqueSensorPtr())});
    h05_both<H>(nm + " with a torque sensor", nm.c_str(), s, depth);
    Spec<H> t = s; t.make = [](double* const* p) { return H("jnt", p[0], p[1], p[2], p[3], false); };
    h05_both<H>(nm + " with a torque sensor (2)", nm.c_str(), t, depth);
  }
  {
    Spec<H> s{5, [](double* const* p) { return H("jnt", p[0], p[1], p[2], p[3], p[4]); }, s3, {}, {}};
    add<H>(s.get, {G(H, 3, h.getAbsolutePosition()), G(H, 3, *h.getAbsolutePositionPtr()), G(H, 4, h.getTorqueSensor()), G(H, 4, *h.getTorqueSensorPtr())});
    h05_both<H>(nm + " with 5 data", nm.c_str(), s, depth);
  }
}
static JointStateHandle js3(double* const* p) { return JointStateHandle("jnt", p[0], p[1], p[2]); }

static void h05_modes()
{
  JointCommandModes a = JointCommandModes::NOMODE, b = JointCommandModes::NOMODE;
  bool thrown = false; try { JointModeHandle n("jnt", nullptr); } catch (const HardwareInterfaceException&) { thrown = true; }
  if (!thrown) mc::fail("H05", "null-accepted", "JointModeHandle accepts null data");
  JointModeHandle h("jnt", &a); JointModeHandle c; c = h;
  if (h.getName() != "jnt") mc::fail("H05", "name", "JointModeHandle has another name");
  JointCommandModes model = a; std::string trail;
  for (int d = 0; d < 3; ++d)
  {
    const int v = mc::choose(8) - 1, who = mc::choose(3); const JointCommandModes m = static_cast<JointCommandModes>(v);
    if (who == 0) h.setMode(m); else if (who == 1) c.setMode(m); else a = m;
    model = m; mc::note("mode %d by %d", v, who);
    if (a != model || b != JointCommandModes::NOMODE || h.getMode() != model || c.getMode() != model || h.getModePtr() != &a || *c.getModePtr() != model) mc::fail("H05", "reading", "JointModeHandle: mode is not the one set");
    static const char* const NM[] = {"not_operational", "position", "velocity", "effort", "other", "emergency_stop", "switching", "error"};
    if (h.getModeName(m) != NM[v + 1]) mc::fail("H05", "mode-name", "mode " + str(v) + " is called " + h.getModeName(m));
    trail += str(v) + str(who); mc::state(mc::hash(trail));
  }
  mc::outcome(trail);
}
static void h05_sensors()
{
  // sensor handles are plain carriers: any of the data may be absent
  double d[6] = {1, 2, 3, 4, 5, 6}; const int mask = mc::choose(64), kind = mc::choose(3);
  auto p = [&](int i) { return mask & (1 << i) ? nullptr : &d[i]; };
  mc::note("sensor handle %d, null data %d", kind, mask);
  std::string nm, fr; std::vector<const double*> got, want;
  if (kind < 2)
  {
    ImuSensorHandle h;
    if (kind == 0) { ImuSensorHandle::Data x; x.name = "jnt"; x.frame_id = "frm"; x.orientation = p(0); x.orientation_covariance = p(1); x.angular_velocity = p(2); x.angular_velocity_covariance = p(3); x.linear_acceleration = p(4); x.linear_acceleration_covariance = p(5); h = ImuSensorHandle(x); }
    else h = ImuSensorHandle("jnt", "frm", p(0), p(1), p(2), p(3), p(4), p(5));
    ImuSensorHandle c(h); nm = c.getName(); fr = c.getFrameId();
    got = {c.getOrientation(), c.getOrientationCovariance(), c.getAngularVelocity(), c.getAngularVelocityCovariance(), c.getLinearAcceleration(), c.getLinearAccelerationCovariance()};
    want = {p(0), p(1), p(2), p(3), p(4), p(5)};
  }
  else { ForceTorqueSensorHandle h("jnt", "frm", p(0), p(1)); ForceTorqueSensorHandle c(h); nm = c.getName(); fr = c.getFrameId(); got = {c.getForce(), c.getTorque()}; want = {p(0), p(1)}; }
  if (nm != "jnt" || fr != "frm") mc::fail("H05", "name", "a sensor handle has another name or frame");
  if (got != want) mc::fail("H05", "sensor-data", "a sensor handle refers to other data (kind " + str(kind) + ", null data " + str(mask) + ")");
  mc::state(mc::mix(mask, kind)); mc::outcome(mc::mix(mask, kind));
}

// ---- larger sizes ----------------------------------------------------------------------------------------------------------
// Four registries with any prefix of twelve look-alike names, one of them registered again, all combined.
template <class M> static void h01_crowd()
{
  static const Strs N = {"joint_1", "joint_10", "joint_11", "joint_2", "joint_", "Joint_1", "left/joint_1", "right/joint_1", "j", "joint_1 ", "a name that is too long for the small buffer of a string", "a name that is too long for the small buffer of a string!"};
  const int n = static_cast<int>(N.size());
  M src[4], comb; std::map<std::string, int> model[4]; std::map<std::string, std::set<int>> can; int next = 1;
  typedef typename M::ResourceManagerType B; std::vector<B*> all;
  const int rot = mc::choose(mc::thorough() ? n : 3) * (mc::thorough() ? 1 : 5); std::string what = "rotation " + str(rot);
  auto put = [&](int i, const std::string& x) { src[i].registerHandle(Res(x, next)); model[i][x] = next++; };
  for (int i = 0; i < 4; ++i)
  {
    const int k = i > 1 ? mc::choose(2) * 8 : mc::thorough() ? mc::choose(n + 1) : mc::choose(4) * 4 + mc::choose(2);
    for (int j = 0; j < k && j < n; ++j) put(i, N[(i % 2 ? n - 1 - j + rot : j + rot + 2 * i) % n]);
    what += ", " + str(k) + " in " + str(i);
    all.push_back(&src[i]);
  }
  const int again = mc::choose(3); if (again) for (int j = 0; j < n; j += again) put(0, N[j]);
  what += ", again " + str(again); mc::note("%s", what.c_str());
  M::concatManagers(all, &comb);
  auto same_names = [&](M& m, const std::set<std::string>& want, const std::string& w) { Strs g = m.getNames(); std::set<std::string> gs(g.begin(), g.end()); if (gs != want || g.size() != gs.size()) mc::fail("H01", "names", what + ": the names of " + w + " are " + show(g) + " but registered were " + show(want)); };
  auto look = [&](M& m, const std::string& x, const std::set<int>& c, const std::string& w)
  {
    try { Res r = m.ResourceManager<Res>::getHandle(x); if (r.n != x || !c.count(r.v)) mc::fail("H01", "wrong-handle", what + ": looking up '" + x + "' in " + w + " gives '" + r.n + "' #" + str(r.v)); }
    catch (const std::exception& e) { if (!c.empty()) mc::fail("H01", "known-not-found", what + ": looking up '" + x + "' in " + w + " fails"); else if (std::string(e.what()).find(x) == std::string::npos) mc::fail("H01", "error-without-name", what + ": the error for '" + x + "' is: " + e.what()); }
  };
  std::set<std::string> every;
  for (int i = 0; i < 4; ++i)
  {
    std::set<std::string> w; for (auto& k : model[i]) { w.insert(k.first); every.insert(k.first); can[k.first].insert(k.second); }
    same_names(src[i], w, "registry " + str(i));
    for (auto& x : N) look(src[i], x, model[i].count(x) ? std::set<int>{model[i][x]} : std::set<int>(), "registry " + str(i));
  }
  same_names(comb, every, "the combination");
  for (auto& x : N) look(comb, x, can.count(x) ? can[x] : std::set<int>(), "the combination");
  mc::state(mc::hash(what)); mc::outcome(mc::hash(what));
}
// All subsets of eight names fetched one after another, then cleared, then another subset.
template <class I> static void h02_crowd(bool exclusive)
{
  I i; const int n = 8; Strs N; for (int k = 0; k < n; ++k) N.push_back((k % 2 ? "joint_1" : "j") + str(k));
  for (auto& x : N) i.registerHandle(Make<typename I::ResourceHandleType>::m(x));
  std::set<std::string> claims; std::string what;
  for (int round = 0; round < 2 && !mc::failed(); ++round)
  {
    const int mask = mc::choose(round ? 8 : 1 << n) * (round ? 37 : 1) & 255; const bool rev = mc::flip(), twice = round == 0 && mc::flip();
    if (round) { i.clearClaims(); claims.clear(); }
    what += " fetch " + str(mask) + (rev ? " backwards" : "") + (twice ? " twice" : "");
    for (int t = 0; t < (twice ? 2 : 1); ++t)
      for (int k = 0; k < n; ++k)
      {
        const int j = rev ? n - 1 - k : k; if (!(mask & (1 << j))) continue;
        if (i.getHandle(N[j]).getName() != N[j]) mc::fail("H02", "wrong-handle", "fetching " + N[j] + " gives another");
        if (exclusive) claims.insert(N[j]);
      }
    mc::note("%s", what.c_str());
    if (i.getClaims() != claims) mc::fail("H02", "claims", "after" + what + " the claims are " + show(i.getClaims()) + " instead of " + show(claims));
  }
  mc::state(mc::hash(what)); mc::outcome(what);
}
// A robot with up to five sub-managers, each with no, one or both interfaces; queries before and after the last ones come.
static void h03_crowd()
{
  const int subs = mc::thorough() ? 5 : 4;
  InterfaceManager man[subs + 1]; std::vector<std::unique_ptr<IA>> ia; std::vector<std::unique_ptr<IB>> ib; std::string what;
  std::set<std::string> wa, wb; bool ha = false, hb = false; int na = 0, nb = 0, next = 1; std::map<std::string, int> val;
  const int early = mc::choose(3);                           // sub-managers are registered 0: after, 1: before their interfaces, 2: a query after each
  const int chain = mc::choose(2);                           // all below the robot, or each below the one before
  auto give = [&](int m, int k)
  {
    if (k & 1) { ia.push_back(std::make_unique<IA>()); for (int j = 0; j <= m; ++j) { const std::string r = "a" + str(m) + "_" + str(j); val[r] = next; ia.back()->registerHandle(Res(r, next++)); wa.insert(r); } man[m].registerInterface(ia.back().get()); ha = true; ++na; }
    if (k & 2) { ib.push_back(std::make_unique<IB>()); for (int j = 0; j <= m; ++j) { const std::string r = "b" + str(m) + "_" + str(j); val[r] = next; ib.back()->registerHandle(Res(r, next++)); wb.insert(r); } man[m].registerInterface(ib.back().get()); hb = true; ++nb; }
  };
  auto query = [&](const std::string& when)
  {
    IA* a = man[0].get<IA>(); IB* b = man[0].get<IB>();
    if (!a != !ha || !b != !hb) { mc::fail("H03", ha && !a ? "present-missing" : "absent-found", what + when + ": an interface is found although nobody has it, or the reverse"); return; }
    std::set<std::string> want; if (ha) want.insert(tname<IA>()); if (hb) want.insert(tname<IB>());
    Strs n = man[0].getNames(); if (std::set<std::string>(n.begin(), n.end()) != want || n.size() != want.size()) { mc::fail("H03", "names", what + when + ": names " + show(n) + " instead of " + show(want)); return; }
    auto one = [&](auto* i, const std::set<std::string>& w, const std::string& tn)
    {
      Strs l = man[0].getInterfaceResources(tn); if (std::set<std::string>(l.begin(), l.end()) != w || l.size() != w.size()) { mc::fail("H03", "resources-listed", what + when + ": lists " + show(l) + " instead of " + show(w)); return; }
      if (!i) return;
      Strs g = i->getNames(); if (std::set<std::string>(g.begin(), g.end()) != w || g.size() != w.size()) { mc::fail("H03", "resources-of-interface", what + when + ": the interface has " + show(g) + " instead of " + show(w)); return; }
      for (auto& r : w) { int v = 0; try { v = i->getHandle(r).v; } catch (const std::exception&) {} if (v != val[r]) { mc::fail("H03", "resource-unreachable", what + when + ": " + r + " is not reachable"); return; } }
    };
    one(a, wa, tname<IA>()); if (!mc::failed()) one(b, wb, tname<IB>());
    if (a && !mc::failed()) { if (a->getClaims() != wa) mc::fail("H03", "not-claimable", what + when + ": claims are " + show(a->getClaims())); a->clearClaims(); }
  };
  for (int m = 0; m <= subs && !mc::failed(); ++m)
  {
    const int k = mc::choose(4); what += " " + str(k);
    if (m && early) man[chain ? m - 1 : 0].registerInterfaceManager(&man[m]);
    give(m, k);
    if (m && !early) man[chain ? m - 1 : 0].registerInterfaceManager(&man[m]);
    if (early == 2) query(" (after manager " + str(m) + ")");
  }
  mc::note("interfaces of the managers:%s", what.c_str());
  if (!mc::failed()) query("");
  mc::state(mc::hash(what)); mc::outcome(mc::hash(what + str(early) + str(chain)));
}
// Many controllers, interfaces and resources; any two of all the places name the same resource.
static void h04_crowd()
{
  const int C = 7, I = 3, R = 3, n = C * I * R;
  const int x = mc::choose(n), y = x + mc::choose(n - x), same = mc::choose(3);                // x == y: nothing is shared
  std::list<ControllerInfo> l; int k = 0;
  for (int c = 0; c < C; ++c)
  {
    ControllerInfo i; i.name = "controller_" + str(c); i.type = "t";
    for (int e = 0; e < I; ++e)
    {
      InterfaceResources r; r.hardware_interface = same == 0 ? "hw" : same == 1 ? "hw" + str(e) : "hw" + str(c) + str(e);
      for (int j = 0; j < R; ++j, ++k) r.resources.insert("joint_" + str(k == y ? x : k));
      i.claimed_resources.push_back(r);
    }
    l.push_back(i);
  }
  const bool want = x / R != y / R;                          // within one set a resource is there once
  RobotHW hw; const bool got = hw.checkForConflict(l);
  mc::note("places %d and %d share a resource: %s", x, y, got ? "conflict" : "no conflict");
  mc::state(mc::mix(x, y)); mc::outcome(mc::mix(want, x));
  if (got != want) mc::fail("H04", want ? "conflict-missed" : "conflict-invented", "of " + str(C) + " controllers with " + str(I) + " interfaces and " + str(R) + " resources each, places " + str(x) + " and " + str(y) + " name the same resource: " + (got ? "a" : "no") + " conflict is reported");
}

int main(int argc, char** argv)
{
  mc::init(argc, argv);
  const bool T = mc::thorough();
  if (mc::wants({"H01"}))
  {
    const int d = T ? 5 : 4;
    mc::explore("plain registry", [&] { h01<ResourceManager<Res>>(d); });
    mc::explore("hardware registry", [&] { h01<HardwareResourceManager<Res, ClaimResources>>(d); });
    mc::explore("hardware registry without claims", [&] { h01<HardwareResourceManager<Res>>(4); });
    mc::explore("large plain registries", [&] { h01_crowd<ResourceManager<Res>>(); });
    mc::explore("large hardware registries", [&] { h01_crowd<HardwareResourceManager<Res, ClaimResources>>(); });
  }
  if (mc::wants({"H02"}))
  {
    const int d = T ? 6 : 4;
#define X(I, e) mc::explore(#I, [&] { h02<I>(e, d); });
    X(JointStateInterface, false) X(JointCommandInterface, true) X(EffortJointInterface, true) X(VelocityJointInterface, true) X(PositionJointInterface, true)
    X(PosVelJointInterface, true) X(PosVelAccJointInterface, true) X(PositionVelocityTorqueGainsJointInterface, true)
    X(ActuatorStateInterface, false) X(ActuatorCommandInterface, false) X(EffortActuatorInterface, false) X(VelocityActuatorInterface, false) X(PositionActuatorInterface, false)
    X(ImuSensorInterface, false) X(ForceTorqueSensorInterface, false) X(JointModeInterface, false)
#undef X
    mc::explore("many resources, exclusive", [&] { h02_crowd<EffortJointInterface>(true); });
    mc::explore("many resources, read-only", [&] { h02_crowd<JointStateInterface>(false); });
  }
  if (mc::wants({"H03"}))
  {
    mc::explore("interfaces and sub-managers", [&] { h03(T ? 6 : 5, false, false); });
    mc::explore("resources registered late", [&] { h03(T ? 6 : 5, true, false); });
    mc::explore("many managers", [&] { h03_crowd(); });
    mc::explore("nested managers", [&] { h03(T ? 6 : 4, T, true); });
  }
  if (mc::wants({"H04"}))
  {
    for (int n = 0; n <= 3; ++n) mc::explore(str(n) + " controllers", [&] { h04(n, 2, 3, T); });
    mc::explore("many controllers", [&] { h04_crowd(); });
    mc::explore("4 controllers with one interface each", [&] { h04(4, 1, T ? 4 : 3, T); });
    mc::explore("2 controllers with three interfaces each", [&] { h04(2, 3, 3, false); });
  }
  if (mc::wants({"H05"}))
  {
    const int d = T ? 4 : 3;
    h05_state<JointStateHandle>("JointStateHandle", d);
    h05_state<ActuatorStateHandle>("ActuatorStateHandle", d);
    {
      typedef JointHandle H; Spec<H> s{4, [](double* const* p) { return H(js3(p), p[3]); }, state_getters<H>(), {{{3}, [](H& h, const double* v) { h.setCommand(v[0]); }}}, {}};
      add<H>(s.get, {G(H, 3, h.getCommand()), G(H, 3, *h.getCommandPtr())});
      h05_both<H>("JointHandle", "JointHandle", s, d);
    }
    {
      typedef ActuatorHandle H; Spec<H> s{4, [](double* const* p) { return H(ActuatorStateHandle("jnt", p[0], p[1], p[2]), p[3]); }, state_getters<H>(), {{{3}, [](H& h, const double* v) { h.setCommand(v[0]); }}, {{3}, [](H& h, const double* v) { *h.getCommandPtr() = v[0]; }}}, {}};
      add<H>(s.get, {G(H, 3, h.getCommand())});
      h05_both<H>("ActuatorHandle", "ActuatorHandle", s, d);
    }
    {
      typedef PosVelJointHandle H; Spec<H> s{5, [](double* const* p) { return H(js3(p), p[3], p[4]); }, state_getters<H>(),
        {{{3}, [](H& h, const double* v) { h.setCommandPosition(v[0]); }}, {{4}, [](H& h, const double* v) { h.setCommandVelocity(v[0]); }}, {{3, 4}, [](H& h, const double* v) { h.setCommand(v[0], v[1]); }}}, {}};
      add<H>(s.get, {G(H, 3, h.getCommandPosition()), G(H, 4, h.getCommandVelocity())});
      h05_both<H>("PosVelJointHandle", "PosVelJointHandle", s, d);
    }
    {
      typedef PosVelAccJointHandle H; Spec<H> s{6, [](double* const* p) { return H(js3(p), p[3], p[4], p[5]); }, state_getters<H>(),
        {{{3}, [](H& h, const double* v) { h.setCommandPosition(v[0]); }}, {{4}, [](H& h, const double* v) { h.setCommandVelocity(v[0]); }}, {{5}, [](H& h, const double* v) { h.setCommandAcceleration(v[0]); }}, {{3, 4, 5}, [](H& h, const double* v) { h.setCommand(v[0], v[1], v[2]); }}}, {}};
      add<H>(s.get, {G(H, 3, h.getCommandPosition()), G(H, 4, h.getCommandVelocity()), G(H, 5, h.getCommandAcceleration())});
      h05_both<H>("PosVelAccJointHandle", "PosVelAccJointHandle", s, d);
    }
    {
      typedef PositionVelocityTorqueGainsJointHandle H; Spec<H> s{8, [](double* const* p) { return H(js3(p), p[3], p[4], p[5], p[6], p[7]); }, state_getters<H>(),
        {{{3}, [](H& h, const double* v) { h.setCommandPosition(v[0]); }}, {{4}, [](H& h, const double* v) { h.setCommandVelocity(v[0]); }}, {{5}, [](H& h, const double* v) { h.setCommandEffort(v[0]); }}, {{6}, [](H& h, const double* v) { h.setCommandKp(v[0]); }}, {{7}, [](H& h, const double* v) { h.setCommandKd(v[0]); }}, {{3, 4, 5, 6, 7}, [](H& h, const double* v) { h.setCommand(v[0], v[1], v[2], v[3], v[4]); }}}, {}};
      add<H>(s.get, {G(H, 3, h.getCommandPosition()), G(H, 4, h.getCommandVelocity()), G(H, 5, h.getCommandEffort()), G(H, 6, h.getCommandKp()), G(H, 7, h.getCommandKd())});
      h05_both<H>("PositionVelocityTorqueGainsJointHandle", "PositionVelocityTorqueGainsJointHandle", s, d);
    }
    mc::explore("JointModeHandle", [&] { h05_modes(); });
    mc::explore("sensor handles", [&] { h05_sensors(); });
  }
  return mc::finish();
}
