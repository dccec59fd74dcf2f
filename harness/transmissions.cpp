// Properties T01-T03: transmission maps, their construction, and handles that propagate them.
#include <transmission_interface/transmission_interface.h>
#include "../mc/mc.h"
#include "rt_guard.h"
#include "trans_ref.h"


// ---- T01 -------------------------------------------------------------------------------------------------------------------
struct Space { V act, jnt; };                               // one datum kind: values on both sides
struct World
{
  int dim; V a[5], j[5]; ActuatorData ad; JointData jd;
  World(int d) : dim(d) { for (int k = 0; k < 5; ++k) { a[k].assign(d, 0); j[k].assign(d, 0); for (int i = 0; i < d; ++i) { a[k][i] = 1000 + 10 * k + i; j[k][i] = 2000 + 10 * k + i; } } }
  void bind(int kinds = 31) { for (int k = 0; k < 5; ++k) { field(ad, k).clear(); field(jd, k).clear(); if (kinds & (1 << k)) for (int i = 0; i < dim; ++i) { field(ad, k).push_back(&a[k][i]); field(jd, k).push_back(&j[k][i]); } } }
  World(const World& o) : dim(o.dim) { for (int k = 0; k < 5; ++k) { a[k] = o.a[k]; j[k] = o.j[k]; } }
};
static void apply(Transmission& t, bool to_joint, int kind, World& w)
{
  if (to_joint)
  {
    if (kind == POS) t.actuatorToJointPosition(w.ad, w.jd); else if (kind == VEL) t.actuatorToJointVelocity(w.ad, w.jd); else if (kind == EFF) t.actuatorToJointEffort(w.ad, w.jd);
    else if (kind == ABS) t.actuatorToJointAbsolutePosition(w.ad, w.jd); else t.actuatorToJointTorqueSensor(w.ad, w.jd);
  }
  else { if (kind == POS) t.jointToActuatorPosition(w.jd, w.ad); else if (kind == VEL) t.jointToActuatorVelocity(w.jd, w.ad); else t.jointToActuatorEffort(w.jd, w.ad); }
}
// every datum of the world after mapping one kind
static bool check_map(const char* P, const Cfg& c, bool to_joint, int kind, const World& before, const World& after, const std::string& what)
{
  const R r = ref(c, to_joint, kind, to_joint ? before.a[kind] : before.j[kind]);
  for (int k = 0; k < 5; ++k) for (int i = 0; i < c.dim(); ++i)
  {
    const bool ta = !to_joint && k == kind, tj = to_joint && k == kind;
    if (!ta && after.a[k][i] != before.a[k][i]) { mc::fail(P, "touches-other", what + ": changes the " + KN[k] + " of actuator " + istr(i)); return false; }
    if (!tj && after.j[k][i] != before.j[k][i]) { mc::fail(P, "touches-other", what + ": changes the " + KN[k] + " of joint " + istr(i)); return false; }
    if ((ta || tj) && !near(ta ? after.a[k][i] : after.j[k][i], r.v[i], r.scale[i]))
    { mc::fail(P, "wrong-value", what + ": maps " + str(to_joint ? before.a[k] : before.j[k]) + " to " + str(ta ? after.a[k] : after.j[k]) + " where " + (ta ? "actuator " : "joint ") + istr(i) + " is " + str(static_cast<double>(r.v[i]))); return false; }
  }
  return true;
}
static const double RED[] = {2, -3, 0.1, -1e6, 1e-3, 50};
static const double OFF[] = {0, 1.5, -0.25};
static const double VAL[] = {0, 1, -2.5, 1e4, 0.3};
static Cfg choose_cfg(Type t, int nred, int noff)
{
  Cfg c; c.t = t; const int d = c.dim();
  for (int i = 0; i < d; ++i) c.ar.push_back(RED[mc::choose(nred)]);
  if (t != SIMPLE) for (int i = 0; i < d; ++i) c.jr.push_back(RED[mc::choose(nred)]);
  for (int i = 0; i < d; ++i) c.off.push_back(OFF[mc::choose(noff)]);
  if (t == DIFF) c.ignore = mc::flip();
  return c;
}
static uint64_t bits(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
// One configuration, one kind, one pair of values: both directions, round trips, power and integral relations.
static void t01_single(Type t, int nred, int noff, int nval)
{
  const Cfg c = choose_cfg(t, nred, noff); auto tr = make(c); const int kind = mc::choose(5), d = c.dim();
  V in; for (int i = 0; i < d; ++i) in.push_back(VAL[mc::choose(nval)]);
  const std::string what = str(c) + ", " + KN[kind]; mc::note("%s of %s", what.c_str(), str(in).c_str());
  World w(d); w.bind(mc::flip() ? 31 : 1 << kind); w.a[kind] = in;
  World b(w); apply(*tr, true, kind, w); if (!check_map("T01", c, true, kind, b, w, what + " to joint")) return;
  uint64_t h = mc::hash(what); for (double x : w.j[kind]) h = mc::mix(h, bits(x)); mc::state(h); mc::outcome(h);
  if (kind >= ABS) return;
  auto back = [&](const V& from, const V& to, bool jnt) { for (int i = 0; i < d; ++i) { Q s = 0; const R r = ref(c, jnt, kind, from); (void)r; for (int k = 0; k < d; ++k) s = std::max(s, std::max(fabsl(Q(from[k])), fabsl(Q(c.off[k])))); if (fabsl(Q(from[i]) - to[i]) > 1e-6L * s) mc::fail("T01", "not-inverse", what + ": " + str(from) + " mapped there and back becomes " + str(to)); } };
  // Extreme ratios lose the digits of an offset: round trips are judged for ratios within three decades (single maps for all)
  auto mild = [&] { Q lo = 1e300L, hi = 0; for (const V* v : {&c.ar, &c.jr}) for (double x : *v) { lo = std::min(lo, fabsl(Q(x))); hi = std::max(hi, fabsl(Q(x))); } return hi < 1e2L && lo > 0.05L; };
  b = World(w); apply(*tr, false, kind, w); if (!check_map("T01", c, false, kind, b, w, what + " back to actuator")) return;
  if (mild()) back(in, w.a[kind], true);
  w.j[kind] = in; b = World(w); apply(*tr, false, kind, w); if (!check_map("T01", c, false, kind, b, w, what + " to actuator")) return;
  b = World(w); apply(*tr, true, kind, w); if (!check_map("T01", c, true, kind, b, w, what + " back to joint")) return;
  if (mild()) back(in, w.j[kind], false);
}
// Relations between kinds: power, integral of velocity, sensors and states of equal readings.
static void t01_relations(Type t, int nred, int noff)
{
  const Cfg c = choose_cfg(t, nred, noff); auto tr = make(c); const int d = c.dim();
  World w(d); w.bind(); V p, v, f; for (int i = 0; i < d; ++i) { p.push_back(VAL[mc::choose(3)]); v.push_back(VAL[1 + mc::choose(2)]); f.push_back(VAL[1 + mc::choose(2)]); }
  w.a[POS] = p; w.a[VEL] = v; w.a[EFF] = f; w.a[ABS] = p; w.a[TRQ] = f;
  const std::string what = str(c); mc::note("%s positions %s velocities %s efforts %s", what.c_str(), str(p).c_str(), str(v).c_str(), str(f).c_str());
  for (int k = 0; k < 5; ++k) apply(*tr, true, k, w);
  const V j0 = w.j[POS], jv = w.j[VEL], jf = w.j[EFF];
  uint64_t h = mc::hash(what); for (const V* x : {&j0, &jv, &jf}) for (double y : *x) h = mc::mix(h, bits(y)); mc::state(h); mc::outcome(h);
  for (int i = 0; i < d; ++i)
  {
    if (w.j[TRQ][i] != jf[i] && !near(w.j[TRQ][i], jf[i], ref(c, true, EFF, f).scale[i])) mc::fail("T01", "torque-sensor", what + ": equal torque readings map to " + str(w.j[TRQ]) + ", efforts to " + str(jf));
    const double want = c.ignore ? p[1 - i] : j0[i];
    if (!near(w.j[ABS][i], want, c.ignore ? 0 : ref(c, true, POS, p).scale[i])) mc::fail("T01", "absolute-position", what + ": equal absolute readings map to " + str(w.j[ABS]) + ", positions to " + str(j0));
  }
  if (t != FOURBAR)
  {
    Q pa = 0, pj = 0, s = 0; const R rf = ref(c, true, EFF, f), rv = ref(c, true, VEL, v);
    for (int i = 0; i < d; ++i) { pa += Q(v[i]) * f[i]; pj += Q(jv[i]) * jf[i]; s += rf.scale[i] * rv.scale[i]; }
    if (fabsl(pa - pj) > 1e-9L * (s + fabsl(pa))) mc::fail("T01", "power", what + ": actuator power " + str(double(pa)) + " becomes joint power " + str(double(pj)));
  }
  // moving for half a time unit at these velocities moves the joints by half of theirs
  for (int i = 0; i < d; ++i) w.a[POS][i] = p[i] + 0.5 * v[i];
  apply(*tr, true, POS, w); const R rp = ref(c, true, POS, w.a[POS]);
  for (int i = 0; i < d; ++i) if (fabsl(Q(w.j[POS][i]) - j0[i] - 0.5L * jv[i]) > 1e-9L * (rp.scale[i] + fabsl(Q(jv[i])))) mc::fail("T01", "integral", what + ": joint " + istr(i) + " moves from " + str(j0[i]) + " to " + str(w.j[POS][i]) + " at velocity " + str(jv[i]));
  if (static_cast<int>(tr->numActuators()) != d || static_cast<int>(tr->numJoints()) != d || !tr->hasActuatorToJointAbsolutePosition() || !tr->hasActuatorToJointTorqueSensor()) mc::fail("T01", "dimensions", what);
}
// Sequences of maps over two data sets, so that nothing is remembered from one call to the next.
static void t01_sequence(int depth)
{
  Cfg c; c.t = static_cast<Type>(mc::choose(3));
  if (c.t == SIMPLE) { c.ar = {-4}; c.off = {0.5}; } else { c.ar = {2, -8}; c.jr = {-0.5, 4}; c.off = {0.5, -1}; }
  if (c.t == DIFF) c.ignore = mc::flip();
  auto tr = make(c); const int d = c.dim(); World w[2] = {World(d), World(d)}; w[0].bind(); w[1].bind(); for (int k = 0; k < 5; ++k) for (int i = 0; i < d; ++i) { w[1].a[k][i] = -3 - k + 7 * i; w[1].j[k][i] = 5 + k - 3 * i; }
  std::string s = str(c); uint64_t h = mc::hash(s);
  for (int n = 0; n < depth; ++n)
  {
    const int op = mc::choose(8), x = mc::choose(2); const bool to_joint = op < 5; const int kind = to_joint ? op : op - 5;
    World b(w[x]); apply(*tr, to_joint, kind, w[x]); s += std::string(", ") + KN[kind] + (to_joint ? " to joint " : " to actuator ") + istr(x); mc::note("%s", s.c_str());
    if (!check_map("T01", c, to_joint, kind, b, w[x], s)) return;
    h = mc::mix(h, op * 2 + x); for (double y : to_joint ? w[x].j[kind] : w[x].a[kind]) h = mc::mix(h, bits(y)); mc::state(h);
  }
  mc::outcome(h);
}

// ---- T02 -------------------------------------------------------------------------------------------------------------------
static const double GRID[] = {2, 0, -0.0, -1, 1e-300, 1e300, 5e-324, 0.5};
static V choose_vec(int maxlen, int ngrid) { V v; const int n = mc::choose(maxlen + 1); for (int i = 0; i < n; ++i) v.push_back(GRID[mc::choose(ngrid)]); return v; }
static void t02_verdict(const std::string& what, bool ok, bool threw, const std::string& err)
{
  mc::state(mc::hash(what)); mc::outcome(mc::hash(what)); mc::note("%s -> %s", what.c_str(), threw ? err.c_str() : "accepted");
  if (ok && threw) mc::fail("T02", "refused", what + " is refused: " + err);
  if (!ok && !threw) mc::fail("T02", "accepted", what + " is accepted");
}
static void t02_simple()
{
  const double r = GRID[mc::choose(8)], o = GRID[mc::choose(8)]; const bool def = mc::flip(); const std::string what = "simple, reduction " + str(r) + (def ? std::string() : " offset " + str(o));
  bool threw = false; std::string e;
  try { SimpleTransmission t = def ? SimpleTransmission(r) : SimpleTransmission(r, o); if (t.getActuatorReduction() != r || t.getJointOffset() != (def ? 0 : o) || t.numActuators() != 1 || t.numJoints() != 1) mc::fail("T02", "accessors", what); }
  catch (const TransmissionInterfaceException& x) { threw = true; e = x.what(); }
  t02_verdict(what, r != 0, threw, e);
}
static bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (bits(a[i]) != bits(b[i])) return false; return true; }
static void t02_pair(Type t, int maxlen, int ngrid)
{
  const V a = choose_vec(maxlen, ngrid), j = choose_vec(maxlen, ngrid); const int form = mc::choose(t == DIFF ? 4 : 2); const bool def = form == 0;
  V o = def ? V(2, 0.0) : choose_vec(maxlen, maxlen > 2 ? 1 : std::min(ngrid, 3));
  bool ok = a.size() == 2 && j.size() == 2 && o.size() == 2; if (ok) for (int i = 0; i < 2; ++i) ok = ok && a[i] != 0 && j[i] != 0;
  const std::string what = std::string(TN[t]) + " form " + istr(form) + ", actuator reductions " + str(a) + " joint reductions " + str(j) + " offsets " + str(o);
  bool threw = false; std::string e;
  try
  {
    if (t == DIFF)
    {
      DifferentialTransmission x = form == 0 ? DifferentialTransmission(a, j) : form == 1 ? DifferentialTransmission(a, j, o) : DifferentialTransmission(a, j, form == 2, o);
      if (!same(x.getActuatorReduction(), a) || !same(x.getJointReduction(), j) || !same(x.getJointOffset(), o) || x.numActuators() != 2 || x.numJoints() != 2) mc::fail("T02", "accessors", what);
    }
    else
    {
      FourBarLinkageTransmission x = def ? FourBarLinkageTransmission(a, j) : FourBarLinkageTransmission(a, j, o);
      if (!same(x.getActuatorReduction(), a) || !same(x.getJointReduction(), j) || !same(x.getJointOffset(), o) || x.numActuators() != 2 || x.numJoints() != 2) mc::fail("T02", "accessors", what);
    }
  }
  catch (const TransmissionInterfaceException& x) { threw = true; e = x.what(); }
  t02_verdict(what, ok, threw, e);
}

// ---- T03 -------------------------------------------------------------------------------------------------------------------
// Stand-in transmission that records what it is asked to map.
struct Call { bool to_joint; int kind; const double *a, *j; bool operator<(const Call& o) const { return std::tie(to_joint, kind, a, j) < std::tie(o.to_joint, o.kind, o.a, o.j); } };
static std::vector<Call>* calls;
struct Rec : public Transmission
{
  bool abs, trq; Rec(bool a, bool t) : abs(a), trq(t) {}
  void rec(bool tj, int k, const ActuatorData& a, const JointData& j) { rt::Out out; auto f = [k](const auto& d) { auto c = d; auto& v = field(c, k); return v.empty() ? nullptr : v[0]; }; calls->push_back({tj, k, f(a), f(j)}); }
  void actuatorToJointEffort(const ActuatorData& a, JointData& j) override { rec(true, EFF, a, j); }
  void actuatorToJointVelocity(const ActuatorData& a, JointData& j) override { rec(true, VEL, a, j); }
  void actuatorToJointPosition(const ActuatorData& a, JointData& j) override { rec(true, POS, a, j); }
  void actuatorToJointAbsolutePosition(const ActuatorData& a, JointData& j) override { if (!abs) mc::fail("T03", "unsupported-map", "a map the transmission does not have is asked for"); rec(true, ABS, a, j); }
  void actuatorToJointTorqueSensor(const ActuatorData& a, JointData& j) override { if (!trq) mc::fail("T03", "unsupported-map", "a map the transmission does not have is asked for"); rec(true, TRQ, a, j); }
  void jointToActuatorEffort(const JointData& j, ActuatorData& a) override { rec(false, EFF, a, j); }
  void jointToActuatorVelocity(const JointData& j, ActuatorData& a) override { rec(false, VEL, a, j); }
  void jointToActuatorPosition(const JointData& j, ActuatorData& a) override { rec(false, POS, a, j); }
  std::size_t numActuators() const override { return 1; }
  std::size_t numJoints() const override { return 1; }
  bool hasActuatorToJointAbsolutePosition() const override { return abs; }
  bool hasActuatorToJointTorqueSensor() const override { return trq; }
};
template <class H> struct Tr;
template <> struct Tr<ActuatorToJointStateHandle> { typedef ActuatorToJointStateInterface I; static const bool J = true; static const int K = 7; };
template <> struct Tr<ActuatorToJointPositionHandle> { typedef ActuatorToJointPositionInterface I; static const bool J = true; static const int K = 1; };
template <> struct Tr<ActuatorToJointVelocityHandle> { typedef ActuatorToJointVelocityInterface I; static const bool J = true; static const int K = 2; };
template <> struct Tr<ActuatorToJointEffortHandle> { typedef ActuatorToJointEffortInterface I; static const bool J = true; static const int K = 4; };
template <> struct Tr<JointToActuatorStateHandle> { typedef JointToActuatorStateInterface I; static const bool J = false; static const int K = 7; };
template <> struct Tr<JointToActuatorPositionHandle> { typedef JointToActuatorPositionInterface I; static const bool J = false; static const int K = 1; };
template <> struct Tr<JointToActuatorVelocityHandle> { typedef JointToActuatorVelocityInterface I; static const bool J = false; static const int K = 2; };
template <> struct Tr<JointToActuatorEffortHandle> { typedef JointToActuatorEffortInterface I; static const bool J = false; static const int K = 4; };
static const char* const HN[] = {"actuator-to-joint state", "actuator-to-joint position", "actuator-to-joint velocity", "actuator-to-joint effort", "joint-to-actuator state", "joint-to-actuator position", "joint-to-actuator velocity", "joint-to-actuator effort"};

// presence of the ten data, and up to two of them spoilt
template <class H> static void t03_one(int hn, Type t, int masks, int faults)
{
  Cfg c; c.t = t; if (t == SIMPLE) { c.ar = {-4}; c.off = {0.5}; } else { c.ar = {2, -8}; c.jr = {-0.5, 4}; c.off = {0.5, -1}; }
  auto tr = make(c); const int d = c.dim(); World w(d);
  static const int SOME[] = {31, 7, 15, 23, 1, 2, 4, 3, 24, 0};
  const int ma = masks >= 32 ? mc::choose(32) : SOME[mc::choose(masks)], mj = masks >= 32 ? mc::choose(32) : SOME[mc::choose(masks)];
  for (int k = 0; k < 5; ++k) for (int i = 0; i < d; ++i) { if (ma & (1 << k)) field(w.ad, k).push_back(&w.a[k][i]); if (mj & (1 << k)) field(w.jd, k).push_back(&w.j[k][i]); }
  double extra = 77; bool bad = false; std::string what = std::string(HN[hn]) + " handle of a " + TN[t] + " transmission, actuator data " + istr(ma) + " joint data " + istr(mj);
  for (int n = 0, from = 0; n < faults; ++n)
  {
    const int at = from + mc::choose(11 - from); if (at == 10) break; from = at;
    std::vector<double*>& v = at < 5 ? field(w.ad, at) : field(w.jd, at - 5); const int f = mc::choose(4);
    if (f == 0) v.push_back(&extra); else if (f == 1) { if (v.size() < 2) v.push_back(&extra); else v.pop_back(); } else if (v.empty()) { v.assign(f - 1, nullptr); } else v[f == 2 ? 0 : v.size() - 1] = nullptr;
    what += std::string(", ") + (at < 5 ? "actuator " : "joint ") + KN[at % 5] + " spoilt (" + istr(f) + ")";
  }
  bool any = false;
  for (int k = 0; k < 5; ++k) for (auto* v : {&field(w.ad, k), &field(w.jd, k)}) { if (k < 3 && !v->empty()) any = true; if (!v->empty() && static_cast<int>(v->size()) != d) bad = true; for (double* p : *v) if (!p) bad = true; }
  const bool null = masks >= 10 && faults == 1 && mc::choose(16) == 15; if (null) what += ", no transmission";
  const bool want = any && !bad && !null;
  std::unique_ptr<H> h; bool threw = false; std::string e;
  try { h.reset(new H("trans", null ? nullptr : tr.get(), w.ad, w.jd)); } catch (const TransmissionInterfaceException& x) { threw = true; e = x.what(); }
  mc::note("%s -> %s", what.c_str(), threw ? e.c_str() : "created"); mc::state(mc::hash(what)); mc::outcome(mc::mix(mc::hash(what), threw));
  if (want && threw) { mc::fail("T03", "refused", what + " is refused: " + e); return; }
  if (!want && !threw) { mc::fail("T03", "accepted", what + " is accepted"); return; }
  if (threw || what.find("spoilt") != std::string::npos) return;
  if (h->getName() != "trans") mc::fail("T03", "name", what + ": called " + h->getName());
  const int need = Tr<H>::K; auto full = [&](int k) { return !field(w.ad, k).empty() && !field(w.jd, k).empty(); };
  for (int k = 0; k < 3; ++k) if ((need & (1 << k)) && !full(k)) return;                    // documented precondition of propagating
  World b(w); { rt::Scope real_time; h->propagate(); }
  if (!rt::what().empty()) mc::fail("C13", std::string("propagate-") + rt::sig(), what + ": propagating itself " + rt::what());
  for (int k = 0; k < 5; ++k)
  {
    const bool mapped = (need & (1 << k)) || (k >= 3 && Tr<H>::J && need == 7 && full(k));
    const R r = ref(c, Tr<H>::J, k, Tr<H>::J ? b.a[k] : b.j[k]);
    for (int i = 0; i < d; ++i)
    {
      const double wa = mapped && !Tr<H>::J ? r.v[i] : b.a[k][i], wj = mapped && Tr<H>::J ? r.v[i] : b.j[k][i];
      if (!near(w.a[k][i], wa, mapped ? r.scale[i] : 0) || !near(w.j[k][i], wj, mapped ? r.scale[i] : 0)) { mc::fail("T03", mapped ? "propagated-value" : "touches-other", what + ": the " + KN[k] + " of actuator " + istr(i) + " is " + str(w.a[k][i]) + " instead of " + str(wa) + ", that of the joint " + str(w.j[k][i]) + " instead of " + str(wj)); return; }
    }
  }
}
// A registry of handles: register, replace, propagate, look up.
template <class H> static void t03_registry(int hn, int depth)
{
  std::vector<Call> got; calls = &got; typename Tr<H>::I iface; static const char* const N[] = {"b", "a", "c"};
  Rec rec(mc::flip(), mc::flip()); World w[4] = {World(1), World(1), World(1), World(1)}; for (auto& x : w) x.bind();
  std::map<std::string, int> model; std::string s = HN[hn]; uint64_t h = mc::hash(s) + rec.abs + 2 * rec.trq; int next = 0;
  for (int n = 0; n < depth && !mc::failed(); ++n)
  {
    const int op = mc::choose(5); h = mc::mix(h, op);
    if (op < 3) { const int k = next++ % 4; iface.registerHandle(H(N[op], &rec, w[k].ad, w[k].jd)); model[N[op]] = k; s += std::string(", register ") + N[op]; }
    else if (op == 3)
    {
      got.clear(); { rt::Scope real_time; iface.propagate(); }
      if (!rt::what().empty()) mc::fail("C13", std::string("propagate-") + rt::sig(), s + ": propagating itself " + rt::what());
      s += ", propagate"; std::multiset<Call> want, have(got.begin(), got.end());
      for (auto& m : model) for (int k = 0; k < 5; ++k) if ((Tr<H>::K & (1 << k)) || (Tr<H>::J && Tr<H>::K == 7 && ((k == ABS && rec.abs) || (k == TRQ && rec.trq)))) want.insert({Tr<H>::J, k, &w[m.second].a[k][0], &w[m.second].j[k][0]});
      if (have.size() != want.size() || !std::equal(have.begin(), have.end(), want.begin(), [](const Call& a, const Call& b) { return !(a < b) && !(b < a); })) mc::fail("T03", "propagates-others", s + ": " + istr(have.size()) + " maps instead of " + istr(want.size()) + ", or other ones");
    }
    else
    {
      s += ", look up"; std::vector<std::string> names = iface.getNames(); std::vector<std::string> want; for (auto& m : model) want.push_back(m.first); std::sort(names.begin(), names.end());
      if (names != want) mc::fail("T03", "names", s);
      for (auto* x : {"a", "b", "c", "d"})
      {
        bool threw = false; std::string e; got.clear();
        try { H hd = iface.getHandle(x); if (hd.getName() != x) mc::fail("T03", "lookup", s + ": wrong handle"); hd.propagate(); }
        catch (const TransmissionInterfaceException& ex) { threw = true; e = ex.what(); } catch (const std::exception& ex) { mc::fail("T03", "lookup-error", s + ": an error of another kind: " + ex.what()); return; }
        if (threw == (model.count(x) > 0)) mc::fail("T03", "lookup", s + ": looking up " + x + " " + (threw ? "fails" : "succeeds"));
        if (threw && e.find(x) == std::string::npos) mc::fail("T03", "lookup-error", s + ": " + e);
        if (!threw && model.count(x)) { const int k = Tr<H>::K == 7 ? 0 : Tr<H>::K >> 1; bool hit = false; for (auto& c : got) if (c.kind == k && c.a == &w[model[x]].a[k][0] && c.j == &w[model[x]].j[k][0]) hit = true; if (!hit) mc::fail("T03", "lookup", s + ": looking up " + x + " gives a handle that was replaced"); }
      }
    }
    mc::note("%s", s.c_str()); mc::state(h);
  }
  mc::outcome(h);
}
template <class F> static void each_handle(F f)
{
  switch (mc::choose(8))
  {
    case 0: f(0, (ActuatorToJointStateHandle*)0); break; case 1: f(1, (ActuatorToJointPositionHandle*)0); break; case 2: f(2, (ActuatorToJointVelocityHandle*)0); break; case 3: f(3, (ActuatorToJointEffortHandle*)0); break;
    case 4: f(4, (JointToActuatorStateHandle*)0); break; case 5: f(5, (JointToActuatorPositionHandle*)0); break; case 6: f(6, (JointToActuatorVelocityHandle*)0); break; default: f(7, (JointToActuatorEffortHandle*)0);
  }
}

int main(int argc, char** argv)
{
  mc::init(argc, argv);
  const bool T = mc::thorough();
  rt::install();
  if (mc::wants({"T01"}))
  {
    mc::explore("simple: all reductions, offsets and values", [] { t01_single(SIMPLE, 6, 3, 5); });
    for (Type t : {DIFF, FOURBAR}) mc::explore(std::string(TN[t]) + ": all reductions, offsets and values", [t, T] { t01_single(t, T ? 6 : 4, T ? 3 : 2, T ? 4 : 3); });
    mc::explore("simple: relations", [] { t01_relations(SIMPLE, 6, 3); });
    for (Type t : {DIFF, FOURBAR}) mc::explore(std::string(TN[t]) + ": relations", [t, T] { t01_relations(t, T ? 5 : 3, 2); });
    mc::explore("sequences of maps", [T] { t01_sequence(T ? 4 : 3); });
  }
  if (mc::wants({"T02"}))
  {
    mc::explore("simple", [] { t02_simple(); });
    for (Type t : {DIFF, FOURBAR})
    {
      mc::explore(std::string(TN[t]) + ": all lengths", [t] { t02_pair(t, 3, 2); });
      mc::explore(std::string(TN[t]) + ": all values", [t, T] { t02_pair(t, 2, T ? 8 : 5); });
    }
  }
  if (mc::selected("C13"))
  {
    for (Type t : {SIMPLE, DIFF, FOURBAR}) mc::explore(std::string(TN[t]) + ": real time, all presence patterns", [t] { each_handle([t](int n, auto* h) { t03_one<std::decay_t<decltype(*h)>>(n, t, 32, 0); }); });
    mc::explore("real time, registries", [T] { each_handle([T](int n, auto* h) { t03_registry<std::decay_t<decltype(*h)>>(n, T ? 6 : 4); }); });
  }
  if (mc::wants({"T03"}))
  {
    for (Type t : {SIMPLE, DIFF, FOURBAR})
    {
      mc::explore(std::string(TN[t]) + ": all presence patterns", [t] { each_handle([t](int n, auto* h) { t03_one<std::decay_t<decltype(*h)>>(n, t, 32, 0); }); });
      mc::explore(std::string(TN[t]) + ": one datum spoilt", [t, T] { each_handle([t, T](int n, auto* h) { t03_one<std::decay_t<decltype(*h)>>(n, t, T ? 32 : 5, 1); }); });
      mc::explore(std::string(TN[t]) + ": two data spoilt", [t, T] { each_handle([t, T](int n, auto* h) { t03_one<std::decay_t<decltype(*h)>>(n, t, T ? 5 : 2, 2); }); });
    }
    mc::explore("no transmission", [] { each_handle([](int n, auto* h) { t03_one<std::decay_t<decltype(*h)>>(n, SIMPLE, 10, 1); }); });
    mc::explore("registries", [T] { each_handle([T](int n, auto* h) { t03_registry<std::decay_t<decltype(*h)>>(n, T ? 6 : 5); }); });
  }
  return mc::finish();
}
