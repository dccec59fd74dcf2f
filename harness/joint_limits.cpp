// Properties J01-J05: limits enforcement and loading, on exact value grids.
#include <joint_limits_interface/joint_limits_interface.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
#include <joint_limits_interface/joint_limits_urdf.h>
#include <ros/ros.h>
#include "../mc/mc.h"
#include "rt_guard.h"

using namespace joint_limits_interface;
namespace hi = hardware_interface;
static std::string str(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::string istr(long v) { return std::to_string(v); }
static const double INF = std::numeric_limits<double>::infinity(), MAXD = std::numeric_limits<double>::max();
static double clamp(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

enum Type { POS_SAT, POS_SOFT, EFF_SAT, EFF_SOFT, VEL_SAT, VEL_SOFT };
static const char* const TN[] = {"position saturation", "position soft limits", "effort saturation", "effort soft limits", "velocity saturation", "velocity soft limits"};
static const char* const PROP[] = {"J01", "J01", "J03", "J03", "J02", "J02"};

struct Joint
{
  double pos = 0, vel = 0, eff = 0, cmd = 0; JointLimits l; SoftJointLimits s;
  double prev = NAN;                      // previous command that left the handle
  hi::JointHandle handle(const std::string& n) { return hi::JointHandle(hi::JointStateHandle(n, &pos, &vel, &eff), &cmd); }
};

// The admissible commands according to the documentation; kind 0: exactly [lo, hi]; 1: only towards the limits (joint outside of them)
struct Adm { double lo, hi; int kind = 0; };
static Adm admissible(Type t, const Joint& j, double dt)
{
  const JointLimits& l = j.l; const SoftJointLimits& s = j.s; Adm a;
  auto soft = [&](double p, double v, double& lo, double& hi) { lo = l.has_position_limits ? clamp(-s.k_position * (p - s.min_position), -v, v) : -v; hi = l.has_position_limits ? clamp(-s.k_position * (p - s.max_position), -v, v) : v; };
  switch (t)
  {
    case POS_SAT: case POS_SOFT:
    {
      const double p = std::isnan(j.prev) ? j.pos : j.prev;
      const double lo = l.has_position_limits ? l.min_position : -MAXD, hi = l.has_position_limits ? l.max_position : MAXD;
      if (p < lo || p > hi) { a.kind = 1; a.lo = std::min(lo, p); a.hi = std::max(hi, p); return a; }
      double v0 = -l.max_velocity, v1 = l.max_velocity;
      if (t == POS_SOFT) soft(p, l.max_velocity, v0, v1);
      a.lo = l.has_velocity_limits ? std::max(lo, p + v0 * dt) : lo; a.hi = l.has_velocity_limits ? std::min(hi, p + v1 * dt) : hi;
      return a;
    }
    case EFF_SAT:
      a.lo = -l.max_effort; a.hi = l.max_effort;
      if (l.has_position_limits && j.pos < l.min_position) a.lo = 0; else if (l.has_position_limits && j.pos > l.max_position) a.hi = 0;
      if (j.vel < -l.max_velocity) a.lo = 0; else if (j.vel > l.max_velocity) a.hi = 0;
      return a;
    case EFF_SOFT:
    {
      double v0, v1; soft(j.pos, l.max_velocity, v0, v1);
      a.lo = clamp(-s.k_velocity * (j.vel - v0), -l.max_effort, l.max_effort); a.hi = clamp(-s.k_velocity * (j.vel - v1), -l.max_effort, l.max_effort);
      return a;
    }
    case VEL_SAT:
    {
      const double p = std::isnan(j.prev) ? 0 : j.prev;
      a.lo = -l.max_velocity; a.hi = l.max_velocity;
      if (l.has_acceleration_limits) { a.lo = std::max(a.lo, p - l.max_acceleration * dt); a.hi = std::min(a.hi, p + l.max_acceleration * dt); }
      return a;
    }
    default:
    {
      double v0, v1; soft(j.pos, l.has_velocity_limits ? l.max_velocity : MAXD, v0, v1);
      a.lo = v0; a.hi = v1;
      // the acceleration limit holds as far as the velocity bounds permit
      if (l.has_acceleration_limits) { const double d = l.max_acceleration * dt; a.lo = clamp(j.vel - d, v0, v1); a.hi = clamp(j.vel + d, v0, v1); }
      return a;
    }
  }
}
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
static void judge(Type t, const Joint& before, const Joint& after, double dt, const std::string& what)
{
  const char* P = PROP[t];
  const Adm a = admissible(t, before, dt);
  const std::string w = std::string(TN[t]) + ", " + what + ", command " + str(before.cmd) + " position " + str(before.pos) + " velocity " + str(before.vel) + " previous " + str(before.prev) + " period " + str(dt) + " becomes " + str(after.cmd);
  if (after.pos != before.pos || after.vel != before.vel || after.eff != before.eff) { mc::fail(P, "state-changed", w + ": enforcing limits changed the joint's state"); return; }
  if (a.kind == 1) { if (!(after.cmd >= a.lo && after.cmd <= a.hi)) mc::fail(P, "away-from-limits", w + ": outside its limits a joint is sent further away"); return; }
  const double want = clamp(before.cmd, a.lo, a.hi);
  if (near(after.cmd, want)) return;
  const std::string b = " (admissible: " + str(a.lo) + " to " + str(a.hi) + ")";
  if (before.cmd >= a.lo && before.cmd <= a.hi) mc::fail(P, "changed-needlessly", w + ": it satisfied all limits" + b);
  else if (!(after.cmd >= a.lo && after.cmd <= a.hi)) mc::fail(P, "outside-limits", w + b);
  else mc::fail(P, "not-closest", w + b);
}

static bool tiny;                          // the smallest grids, for the longest histories
// ---- configurations --------------------------------------------------------------------------------------------------------
static std::string configure(Type t, Joint& j, bool full, bool fixed = false)
{
  JointLimits& l = j.l; SoftJointLimits& s = j.s;
  auto C = [fixed](int n) { return fixed ? 0 : mc::choose(n); };
  const bool soft = t == POS_SOFT || t == EFF_SOFT || t == VEL_SOFT;
  l.has_position_limits = t == VEL_SAT ? false : C(2) == 0;
  static const double PL[][2] = {{-1, 1}, {-0.25, 2}, {0.5, 0.5}, {-3, -1}};
  const int pl = l.has_position_limits ? C(full ? 4 : 2) : 0;
  l.min_position = PL[pl][0]; l.max_position = PL[pl][1];
  l.has_velocity_limits = t == POS_SAT || t == VEL_SOFT ? C(2) == 0 : true;
  static const double VL[] = {0.5, 4, 0};
  l.max_velocity = l.has_velocity_limits ? VL[C(full ? 3 : 2)] : 77;
  l.has_acceleration_limits = t == VEL_SAT || t == VEL_SOFT ? C(2) == 0 : false;
  static const double AL[] = {0.25, 8, 0};
  l.max_acceleration = l.has_acceleration_limits ? AL[C(full ? 3 : 2)] : 77;
  l.has_effort_limits = true;
  static const double EL[] = {2, 0};
  l.max_effort = t == EFF_SAT || t == EFF_SOFT ? EL[C(full ? 2 : 1)] : 0.125;
  if (soft)
  {
    // inside, touching, partly outside and wider than the position limits
    const double lo = l.min_position, hi = l.max_position, q = (hi - lo) / 4; const int k = C(full ? 5 : 3);
    if (k == 0) { s.min_position = lo + q; s.max_position = hi - q; }
    else if (k == 1) { s.min_position = lo - 1; s.max_position = hi - q; }
    else if (k == 2) { s.min_position = lo + q; s.max_position = hi + 0.5; }
    else if (k == 3) { s.min_position = lo; s.max_position = hi; }
    else { s.min_position = s.max_position = lo + q; }
    static const double K[] = {1, 0.25, 0};
    s.k_position = K[C(full ? 3 : 2)];
    static const double KV[] = {4, 0.5, 0};
    s.k_velocity = t == EFF_SOFT ? KV[C(full ? 3 : 2)] : 9;
  }
  return "limits pos " + istr(l.has_position_limits) + "[" + str(l.min_position) + "," + str(l.max_position) + "] vel " + istr(l.has_velocity_limits) + " " + str(l.max_velocity) + " acc " + istr(l.has_acceleration_limits) + " " + str(l.max_acceleration) + " eff " + str(l.max_effort) +
         (soft ? " soft [" + str(s.min_position) + "," + str(s.max_position) + "] k " + str(s.k_position) + " " + str(s.k_velocity) : std::string());
}
static std::vector<double> positions(const Joint& j, Type t, bool full)
{
  const double lo = j.l.min_position, hi = j.l.max_position;
  if (tiny) return {(lo + hi) / 2, hi, lo - 0.125};
  std::vector<double> v = {lo, hi, (lo + hi) / 2, lo - 0.125, hi + 0.125};
  if (full) for (double x : {lo + 0.0625, hi - 0.0625, lo - 3, hi + 3}) v.push_back(x);
  if (full && (t == POS_SOFT || t == EFF_SOFT || t == VEL_SOFT)) for (double x : {j.s.min_position, j.s.max_position, j.s.min_position - 0.25, j.s.max_position + 0.25}) v.push_back(x);
  return v;
}
static std::vector<double> velocities(const Joint& j, bool full)
{
  const double m = j.l.max_velocity; if (tiny) return {0, m + 0.5, -m};
  std::vector<double> v = {0, m, -m, m + 0.5, -m - 0.5};
  if (full) for (double x : {m - 0.0625, 0.0625 - m, 3 * m + 1, -3 * m - 1}) v.push_back(x);
  return v;
}
static std::vector<double> commands(Type t, const Joint& j, bool full)
{
  std::vector<double> v = {-INF, INF, 0};
  if (tiny) return {-INF, INF, t == POS_SAT || t == POS_SOFT ? (j.l.min_position + j.l.max_position) / 2 : 0};
  if (t == POS_SAT || t == POS_SOFT) { for (double x : {j.l.min_position, j.l.max_position, j.l.max_position + 0.125, j.l.min_position - 0.125}) v.push_back(x); if (full) for (double x : {-0.25, 0.25, 0.75, -0.75, 8.0, -8.0, -0.0625, 1.5}) v.push_back(x); }
  else if (t == EFF_SAT || t == EFF_SOFT) { const double m = j.l.max_effort; for (double x : {m, -m, m + 0.25, -m - 0.25, m / 2, -m / 2}) v.push_back(x); if (full) for (double x : {0.125, -0.125, 1.5, -1.5, 1e6, -1e6}) v.push_back(x); }
  else { const double m = j.l.max_velocity; for (double x : {m, -m, m + 0.125, -m - 0.125}) v.push_back(x); if (full) for (double x : {0.125, -0.125, m / 2, -m / 2, 100.0, -100.0}) v.push_back(x); }
  return v;
}
static std::vector<double> periods(Type t, const Joint& j, bool full)
{
  std::vector<double> v = {0.25, 1};
  if (full) v.push_back(0.001953125);
  if (full && (t == POS_SAT || t == EFF_SAT || t == EFF_SOFT || t == VEL_SOFT)) v.push_back(0);      // the others document a positive period
  return v;
}
template <class H> struct Mk;
template <> struct Mk<PositionJointSaturationHandle> { typedef PositionJointSaturationInterface I; static PositionJointSaturationHandle m(Joint& j, const std::string& n) { return {j.handle(n), j.l}; } static const Type T = POS_SAT; };
template <> struct Mk<PositionJointSoftLimitsHandle> { typedef PositionJointSoftLimitsInterface I; static PositionJointSoftLimitsHandle m(Joint& j, const std::string& n) { return {j.handle(n), j.l, j.s}; } static const Type T = POS_SOFT; };
template <> struct Mk<EffortJointSaturationHandle> { typedef EffortJointSaturationInterface I; static EffortJointSaturationHandle m(Joint& j, const std::string& n) { return {j.handle(n), j.l}; } static const Type T = EFF_SAT; };
template <> struct Mk<EffortJointSoftLimitsHandle> { typedef EffortJointSoftLimitsInterface I; static EffortJointSoftLimitsHandle m(Joint& j, const std::string& n) { return {j.handle(n), j.l, j.s}; } static const Type T = EFF_SOFT; };
template <> struct Mk<VelocityJointSaturationHandle> { typedef VelocityJointSaturationInterface I; static VelocityJointSaturationHandle m(Joint& j, const std::string& n) { return {j.handle(n), j.l}; } static const Type T = VEL_SAT; };
template <> struct Mk<VelocityJointSoftLimitsHandle> { typedef VelocityJointSoftLimitsInterface I; static VelocityJointSoftLimitsHandle m(Joint& j, const std::string& n) { return {j.handle(n), j.l, j.s}; } static const Type T = VEL_SOFT; };
template <class I> static auto do_reset(I& i, int) -> decltype(i.reset()) { return i.reset(); }
template <class I> static void do_reset(I&, long) {}


struct Script { std::vector<double> P, V, C, D; bool use_pos, use_vel, stateful; };
static Script script(Type t, const Joint& j, bool full)
{
  Script s; s.stateful = t == POS_SAT || t == POS_SOFT;
  s.P = positions(j, t, full); s.V = velocities(j, full); s.C = commands(t, j, full); s.D = periods(t, j, full);
  s.use_pos = s.stateful || (j.l.has_position_limits && t != VEL_SAT); s.use_vel = t == EFF_SAT || t == EFF_SOFT || (t == VEL_SOFT && j.l.has_acceleration_limits);
  return s;
}
// Up to `joints` joints in one limits interface, a history of several cycles.
template <class H> static void history(int joints, int depth, bool full_cfg, bool full_steps)
{
  const Type t = Mk<H>::T; Joint j[3]; std::string cfg; Script sc[3];
  typename Mk<H>::I iface;
  for (int i = 0; i < joints; ++i)
  {
    cfg += configure(t, j[i], full_cfg && !i, i && tiny && (t == EFF_SOFT || t == VEL_SOFT)) + "; "; sc[i] = script(t, j[i], full_steps && !i);
    const std::string n = "joint" + istr(i);
    if (joints > 1 && i == 1) { Joint other; other.l = j[1].l; other.s = j[1].s; other.l.max_velocity = other.l.max_effort = 0.001; iface.registerHandle(Mk<H>::m(other, n)); }   // replaced by the next one
    iface.registerHandle(Mk<H>::m(j[i], n));
  }
  mc::note("%s: %s", TN[t], cfg.c_str());
  uint64_t key = mc::hash(cfg);
  for (int d = 0; d < depth && !mc::failed(); ++d)
  {
    const double dt = mc::pick(sc[0].D);
    if (sc[0].stateful && d && mc::flip()) { mc::note("reset"); do_reset(iface, 0); for (int i = 0; i < joints; ++i) j[i].prev = NAN; key = mc::mix(key, 7); }
    Joint before[3];
    for (int i = 0; i < joints; ++i)
    {
      // a measured position that cannot matter gets one arbitrary value
      const bool pos_matters = sc[i].stateful ? std::isnan(j[i].prev) : sc[i].use_pos;
      j[i].pos = pos_matters ? mc::pick(sc[i].P) : 50 + d; j[i].vel = sc[i].use_vel ? mc::pick(sc[i].V) : 60 + d; j[i].eff = 70 + d;
      j[i].cmd = mc::pick(sc[i].C); before[i] = j[i];
    }
    const ros::Duration period(dt);
    { rt::Scope real_time; iface.enforceLimits(period); }
    if (!rt::what().empty()) mc::fail("C13", std::string("limits-") + rt::sig(), std::string("enforcing the limits of ") + TN[t] + " itself " + rt::what());
    for (int i = 0; i < joints && !mc::failed(); ++i)
    {
      mc::note("joint%d: command %g position %g velocity %g period %g -> %g", i, before[i].cmd, before[i].pos, before[i].vel, dt, j[i].cmd);
      judge(t, before[i], j[i], dt, cfg);
      j[i].prev = j[i].cmd;
      union { double v; uint64_t u; } x; x.v = j[i].cmd; key = mc::mix(key, x.u); mc::state(key);
    }
  }
  mc::outcome(key);
}
template <class H> static void refusals()
{
  const Type t = Mk<H>::T; Joint j; const int m = mc::choose(16);
  j.l.has_position_limits = m & 1; j.l.has_velocity_limits = m & 2; j.l.has_effort_limits = m & 4; j.l.has_acceleration_limits = m & 8;
  j.l.max_velocity = j.l.max_effort = j.l.max_acceleration = j.l.max_position = 1;
  const bool needs_vel = t == POS_SOFT || t == EFF_SAT || t == EFF_SOFT || t == VEL_SAT, needs_eff = t == EFF_SAT || t == EFF_SOFT;
  const bool want = (!needs_vel || (m & 2)) && (!needs_eff || (m & 4));
  bool ok = true; std::string name;
  try { H h = Mk<H>::m(j, "joint"); name = h.getName(); } catch (const JointLimitsInterfaceException& e) { ok = false; if (std::string(e.what()).find("joint") == std::string::npos) mc::fail(PROP[t], "error-without-name", e.what()); }
  mc::note("%s with specifications %d -> %d", TN[t], m, ok); mc::state(m + 16 * t); mc::outcome(m + 16 * t);
  if (ok != want) mc::fail(PROP[t], ok ? "missing-limits-accepted" : "limits-refused", std::string(TN[t]) + " with limit specifications " + istr(m) + (ok ? " is accepted" : " is refused"));
  if (ok && name != "joint") mc::fail(PROP[t], "name", "the handle is named " + name);
  typename Mk<H>::I i; bool thrown = false; try { i.getHandle("nothing"); } catch (const JointLimitsInterfaceException&) { thrown = true; }
  if (!thrown) mc::fail(PROP[t], "unknown-found", "an unknown joint is found");
}
template <class H> static void family()
{
  const Type t = Mk<H>::T; const bool T = mc::thorough(); const std::string n = TN[t];
  mc::explore(n + ": refused specifications", [] { refusals<H>(); });
  const bool stateful = t == POS_SAT || t == POS_SOFT || t == VEL_SAT, big = t == EFF_SOFT || t == VEL_SOFT;
  if (T || !big) mc::explore(n + ": one cycle, all configurations and values", [] { history<H>(1, 1, true, true); });
  else { mc::explore(n + ": one cycle, all configurations", [] { history<H>(1, 1, true, false); }); mc::explore(n + ": one cycle, all values", [] { history<H>(1, 1, false, true); }); }
  const bool all = T || t == POS_SAT || t == VEL_SAT;
  tiny = !T && !stateful;
  mc::explore(n + (all ? ": two cycles, all values" : ": two cycles"), [all, T] { history<H>(1, 2, T, all); }, T ? 60000000 : 0);
  tiny = !T;
  if (stateful) mc::explore(n + (T ? ": four cycles" : ": three cycles"), [T] { history<H>(1, T ? 4 : 3, false, false); }, T ? 60000000 : 0);
  mc::explore(n + ": two joints", [stateful, T] { history<H>(2, stateful && T ? 2 : 1, false, false); }, T ? 60000000 : 0);
  tiny = false;
}

// C13: the same histories, judged only by what they do to memory and locks
template <class H> static void real_time()
{
  const Type t = Mk<H>::T; const bool T = mc::thorough(); const std::string n = TN[t];
  if (T || !(t == EFF_SOFT || t == VEL_SOFT)) mc::explore(n + ": real time, one cycle", [] { history<H>(1, 1, true, mc::thorough()); });
  else mc::explore(n + ": real time, one cycle", [] { history<H>(1, 1, false, true); });
  tiny = !T; mc::explore(n + ": real time, two joints", [] { history<H>(2, 1, false, false); }, T ? 60000000 : 0); tiny = false;
}

// ---- J04 -------------------------------------------------------------------------------------------------------------------
typedef ros::stub::Param Par;
static std::string show(const JointLimits& l)
{
  std::string s; auto d = [&](bool h, double v) { s += istr(h) + ":" + str(v) + " "; };
  d(l.has_position_limits, l.min_position); d(0, l.max_position); d(l.has_velocity_limits, l.max_velocity); d(l.has_acceleration_limits, l.max_acceleration); d(l.has_jerk_limits, l.max_jerk); d(l.has_effort_limits, l.max_effort);
  return s + "wrap " + istr(l.angle_wraparound);
}
static std::string show(const SoftJointLimits& s) { return str(s.min_position) + " " + str(s.max_position) + " " + str(s.k_position) + " " + str(s.k_velocity); }
static JointLimits initial(int k)
{
  JointLimits l; if (!k) return l;
  l.min_position = -11; l.max_position = 12; l.max_velocity = 13; l.max_acceleration = 14; l.max_jerk = 15; l.max_effort = 16;
  l.has_position_limits = l.has_velocity_limits = l.has_acceleration_limits = l.has_jerk_limits = l.has_effort_limits = l.angle_wraparound = k == 1;
  return l;
}
static std::string NSP = "/robot/joint_limits/j1/";
// 0 absent, 1 true, 2 false, 3 ill-typed
static int put_bool(const std::string& k, int c) { if (c == 1 || c == 2) ros::stub::params()[NSP + k] = Par::Bool(c == 1); if (c == 3) ros::stub::params()[NSP + k] = Par::Int(1); return c; }
// 0 absent, 1 real, 2 integer, 3 ill-typed; gives the value
static bool put_num(const std::string& k, int c, double v, double& out)
{
  if (c == 1) { ros::stub::params()[NSP + k] = Par::Double(v + 0.5); out = v + 0.5; }
  if (c == 2) { ros::stub::params()[NSP + k] = Par::Int(static_cast<int>(v)); out = static_cast<int>(v); }
  if (c == 3) ros::stub::params()[NSP + k] = Par::Str("1.5");
  return c == 1 || c == 2;
}
static void j04_limits(bool pos, int others)
{
  ros::stub::params().clear();
  ros::stub::params()["/robot/joint_limits/j10/has_velocity_limits"] = Par::Bool(true); ros::stub::params()["/robot/joint_limits/j10/max_velocity"] = Par::Double(99);
  ros::stub::params()["/joint_limits/j1/has_effort_limits"] = Par::Bool(true); ros::stub::params()["/joint_limits/j1/max_effort"] = Par::Double(98);
  const int ini = mc::choose(3); JointLimits l = initial(ini), want = l; double v;
  std::string st = "initial " + istr(ini) + " ";
  if (pos)
  {
    const int h = put_bool("has_position_limits", mc::choose(4)); double lo = 0, hi = 0;
    const int a = mc::choose(4), b = mc::choose(4); const bool okl = put_num("min_position", a, -3, lo), okh = put_num("max_position", b, 3, hi);
    const int w = put_bool("angle_wraparound", mc::choose(4)); st += "pos " + istr(h) + istr(a) + istr(b) + " wrap " + istr(w) + " ";
    if (h == 2) { want.has_position_limits = false; if (w == 1 || w == 2) want.angle_wraparound = w == 1; }
    if (h == 1 && okl && okh) { want.has_position_limits = true; want.min_position = lo; want.max_position = hi; }
  }
  struct Q { const char *h, *m; bool JointLimits::*has; double JointLimits::*max; } q[] = {
    {"has_velocity_limits", "max_velocity", &JointLimits::has_velocity_limits, &JointLimits::max_velocity}, {"has_acceleration_limits", "max_acceleration", &JointLimits::has_acceleration_limits, &JointLimits::max_acceleration},
    {"has_jerk_limits", "max_jerk", &JointLimits::has_jerk_limits, &JointLimits::max_jerk}, {"has_effort_limits", "max_effort", &JointLimits::has_effort_limits, &JointLimits::max_effort}};
  for (int i = 0; i < 4; ++i)
  {
    if (!(others & (1 << i))) continue;
    const int h = put_bool(q[i].h, mc::choose(4)), m = mc::choose(4); const bool ok = put_num(q[i].m, m, 20 + i, v); st += std::string(q[i].m) + " " + istr(h) + istr(m) + " ";
    if (h == 2) want.*(q[i].has) = false;
    if (h == 1 && ok) { want.*(q[i].has) = true; want.*(q[i].max) = v; }
  }
  bool exists = false; for (auto& k : ros::stub::params()) if (k.first.compare(0, NSP.size(), NSP) == 0) exists = true;
  mc::note("%s", st.c_str()); mc::state(mc::hash(st));
  bool got = false; try { got = getJointLimits("j1", ros::NodeHandle("/robot"), l); } catch (...) { mc::fail("J04", "throws", st); }
  if (got != exists) mc::fail("J04", "result", st + ": reported " + istr(got));
  if (show(l) != show(want)) mc::fail("J04", "limits", st + ": limits become " + show(l) + " instead of " + show(want));
  mc::outcome(st);
}
static void j04_soft()
{
  ros::stub::params().clear();
  ros::stub::params()["/robot/joint_limits/j10/has_soft_limits"] = Par::Bool(true);
  const int ini = mc::choose(2); SoftJointLimits s; if (ini) { s.min_position = -1; s.max_position = 2; s.k_position = 3; s.k_velocity = 4; }
  SoftJointLimits want = s, n; std::string st = "initial " + istr(ini) + " ";
  const int h = put_bool("has_soft_limits", mc::choose(4)); bool all = true; st += istr(h);
  struct Q { const char* k; double SoftJointLimits::*f; } q[] = {{"k_position", &SoftJointLimits::k_position}, {"k_velocity", &SoftJointLimits::k_velocity}, {"soft_lower_limit", &SoftJointLimits::min_position}, {"soft_upper_limit", &SoftJointLimits::max_position}};
  for (int i = 0; i < 4; ++i) { const int c = mc::choose(4); st += istr(c); all &= put_num(q[i].k, c, 30 + i, n.*(q[i].f)); }
  const bool ok = h == 1 && all; if (ok) want = n;
  mc::note("%s", st.c_str()); mc::state(mc::hash(st));
  bool got = false; try { got = getSoftJointLimits("j1", ros::NodeHandle("/robot"), s); } catch (...) { mc::fail("J04", "throws", st); }
  if (got != ok) mc::fail("J04", "soft-result", "soft limits with parameters " + st + " reported " + istr(got));
  if (show(s) != show(want)) mc::fail("J04", "soft-limits", "soft limits with parameters " + st + " become " + show(s) + " instead of " + show(want));
  mc::outcome(st);
}
static void j04_names()
{
  static const char* const N[] = {"j1", "j", "j10", "other", "1bad", "bad name", "", "j1/has_velocity_limits", "~j1"};
  ros::stub::params().clear();
  const int k = mc::choose(9), have = mc::choose(3), ini = mc::choose(3);
  if (have) { put_bool("has_velocity_limits", 1); double v; put_num("max_velocity", 1, 3, v); put_bool("has_soft_limits", 1); for (const char* x : {"k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"}) put_num(x, 1, 5, v); }
  if (have == 2) ros::stub::params()["/robot/joint_limits/j1/extra"] = Par::Str("x");
  JointLimits l = initial(ini); SoftJointLimits s; const std::string l0 = show(l), s0 = show(s); bool a = false, b = false;
  mc::note("joint '%s', parameters %d", N[k], have); mc::state(mc::mix(k, have * 3 + ini)); mc::outcome(mc::mix(k, have * 3 + ini));
  try { a = getJointLimits(N[k], ros::NodeHandle("/robot"), l); b = getSoftJointLimits(N[k], ros::NodeHandle("/robot"), s); } catch (...) { mc::fail("J04", "throws", std::string("joint '") + N[k] + "'"); return; }
  if (k == 6 || k == 7) return;                  // names that are not joints but parts of the tree
  const bool want = k == 0 && have;
  if (a != want || b != want) mc::fail("J04", "result", std::string("joint '") + N[k] + "' is reported as " + istr(a) + istr(b));
  if (!want && (show(l) != l0 || show(s) != s0)) mc::fail("J04", "limits", std::string("joint '") + N[k] + "' without a specification changes limits");
}

// ---- J05 -------------------------------------------------------------------------------------------------------------------
static void j05()
{
  const int ini = mc::choose(3), type = mc::choose(7), has_l = mc::choose(2), has_s = mc::choose(2), null = mc::choose(8) == 7;
  static const double G[][4] = {{-1, 1, 2, 3}, {0, 0, 0, 0}, {5, -5, 1e300, 1e-300}, {-0.0, 7, -2, -3}};
  const int g = mc::choose(4), gs = mc::choose(4);
  auto j = std::make_shared<urdf::Joint>(); j->type = static_cast<decltype(j->type)>(type); j->name = "j";
  if (has_l) { j->limits = std::make_shared<urdf::JointLimits>(); j->limits->lower = G[g][0]; j->limits->upper = G[g][1]; j->limits->velocity = G[g][2]; j->limits->effort = G[g][3]; }
  if (has_s) { j->safety = std::make_shared<urdf::JointSafety>(); j->safety->soft_lower_limit = G[gs][0]; j->safety->soft_upper_limit = G[gs][1]; j->safety->k_position = G[gs][2]; j->safety->k_velocity = G[gs][3]; }
  JointLimits l = initial(ini), want = l; SoftJointLimits s, swant; if (ini) { s.min_position = 9; s.max_position = 8; s.k_position = 7; s.k_velocity = 6; swant = s; }
  const bool ok = has_l && !null, sok = has_s && !null;
  const std::string st = "type " + istr(type) + " limits " + istr(has_l) + " (" + istr(g) + ") safety " + istr(has_s) + " (" + istr(gs) + ") null " + istr(null) + " initial " + istr(ini);
  if (ok)
  {
    const bool bounded = type == urdf::Joint::REVOLUTE || type == urdf::Joint::PRISMATIC;
    want.has_position_limits = bounded; if (bounded) { want.min_position = G[g][0]; want.max_position = G[g][1]; }
    if (type == urdf::Joint::CONTINUOUS) want.angle_wraparound = true;
    want.has_velocity_limits = want.has_effort_limits = true; want.max_velocity = G[g][2]; want.max_effort = G[g][3];
    want.has_acceleration_limits = false;        // a description cannot give any
  }
  if (sok) { swant.min_position = G[gs][0]; swant.max_position = G[gs][1]; swant.k_position = G[gs][2]; swant.k_velocity = G[gs][3]; }
  mc::note("%s", st.c_str()); mc::state(mc::hash(st)); mc::outcome(st);
  urdf::JointConstSharedPtr p; if (!null) p = j;
  const bool a = getJointLimits(p, l), b = getSoftJointLimits(p, s);
  if (a != ok || b != sok) mc::fail("J05", "result", st + ": reported " + istr(a) + istr(b));
  if (show(l) != show(want)) mc::fail("J05", "limits", st + ": limits become " + show(l) + " instead of " + show(want));
  if (show(s) != show(swant)) mc::fail("J05", "soft-limits", st + ": soft limits become " + show(s) + " instead of " + show(swant));
}

int main(int argc, char** argv)
{
  mc::init(argc, argv);
  const bool T = mc::thorough();
  rt::install();
  if (mc::selected("C13"))
  {
    real_time<PositionJointSaturationHandle>(); real_time<PositionJointSoftLimitsHandle>(); real_time<VelocityJointSaturationHandle>();
    real_time<VelocityJointSoftLimitsHandle>(); real_time<EffortJointSaturationHandle>(); real_time<EffortJointSoftLimitsHandle>();
  }
  if (mc::wants({"J01"})) { family<PositionJointSaturationHandle>(); family<PositionJointSoftLimitsHandle>(); }
  if (mc::wants({"J02"})) { family<VelocityJointSaturationHandle>(); family<VelocityJointSoftLimitsHandle>(); }
  if (mc::wants({"J03"})) { family<EffortJointSaturationHandle>(); family<EffortJointSoftLimitsHandle>(); }
  if (mc::wants({"J04"}))
  {
    mc::explore("joint names", [] { j04_names(); });
    mc::explore("position limits with velocity limits", [] { j04_limits(true, 1); });
    mc::explore("velocity, acceleration and jerk limits", [] { j04_limits(false, 7); });
    mc::explore("jerk and effort limits", [] { j04_limits(false, 12); });
    mc::explore("position limits with effort limits", [] { j04_limits(true, 8); });
    mc::explore("soft limits", [] { j04_soft(); });
    if (T) { mc::explore("all but position limits", [] { j04_limits(false, 15); }); mc::explore("position, velocity and acceleration limits", [] { j04_limits(true, 3); }); mc::explore("position, jerk and effort limits", [] { j04_limits(true, 12); }); }
  }
  if (mc::wants({"J05"})) mc::explore("joint descriptions", [] { j05(); });
  return mc::finish();
}
