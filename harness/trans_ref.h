// Reference for the transmissions: the documented formulas, in extended precision.
#pragma once
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
using namespace transmission_interface;
typedef std::vector<double> V;
static std::string str(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::string istr(long v) { return std::to_string(v); }
static std::string str(const V& v) { std::string s = "["; for (double x : v) s += str(x) + " "; return s + "]"; }

enum Kind { POS, VEL, EFF, ABS, TRQ };                       // kinds of data
static const char* const KN[] = {"position", "velocity", "effort", "absolute position", "torque sensor"};
template <class D> static std::vector<double*>& field(D& d, int k) { return k == POS ? d.position : k == VEL ? d.velocity : k == EFF ? d.effort : k == ABS ? d.absolute_position : d.torque_sensor; }

// ---- reference: the documented formulas -----------------------------------------------------------------------------------
enum Type { SIMPLE, DIFF, FOURBAR };
static const char* const TN[] = {"simple", "differential", "four-bar linkage"};
struct Cfg { Type t; V ar, jr, off; bool ignore = false; int dim() const { return t == SIMPLE ? 1 : 2; } };
static std::string str(const Cfg& c) { return std::string(TN[c.t]) + " transmission, actuator reductions " + str(c.ar) + (c.t == SIMPLE ? "" : " joint reductions " + str(c.jr)) + " offsets " + str(c.off) + (c.ignore ? " ignoring the transmission for absolute encoders" : ""); }
static std::unique_ptr<Transmission> make(const Cfg& c)
{
  if (c.t == SIMPLE) return std::unique_ptr<Transmission>(new SimpleTransmission(c.ar[0], c.off[0]));
  if (c.t == DIFF) return std::unique_ptr<Transmission>(new DifferentialTransmission(c.ar, c.jr, c.ignore, c.off));
  return std::unique_ptr<Transmission>(new FourBarLinkageTransmission(c.ar, c.jr, c.off));
}
struct R { long double v[2], scale[2]; };                   // value, and the magnitude of what it was computed from
typedef long double Q;
static R ref(const Cfg& c, bool to_joint, int kind, const V& in)
{
  R r; const Q x0 = in[0], x1 = c.dim() == 2 ? in[1] : 0; Q m[2][2] = {{0, 0}, {0, 0}}, off[2] = {0, 0};
  const Q a0 = c.ar[0], a1 = c.dim() == 2 ? c.ar[1] : 1, j0 = c.t == SIMPLE ? 1 : c.jr[0], j1 = c.t == SIMPLE ? 1 : c.jr[1], o0 = c.off[0], o1 = c.dim() == 2 ? c.off[1] : 0;
  const bool effort = kind == EFF || kind == TRQ, offset = kind == POS || kind == ABS;
  auto set = [&](Q p, Q q, Q s, Q t) { m[0][0] = p; m[0][1] = q; m[1][0] = s; m[1][1] = t; };
  if (c.t == SIMPLE) { const Q k = effort == to_joint ? a0 : 1 / a0; set(k, 0, 0, 0); }
  if (c.t == DIFF)
  {
    if (to_joint && effort) set(j0 * a0, j0 * a1, j1 * a0, -j1 * a1);
    else if (to_joint) set(1 / (2 * j0 * a0), 1 / (2 * j0 * a1), 1 / (2 * j1 * a0), -1 / (2 * j1 * a1));
    else if (effort) set(1 / (2 * a0 * j0), 1 / (2 * a0 * j1), 1 / (2 * a1 * j0), -1 / (2 * a1 * j1));
    else set(a0 * j0, a0 * j1, a1 * j0, -a1 * j1);
    if (kind == ABS && c.ignore) { r.v[0] = x1; r.v[1] = x0; r.scale[0] = r.scale[1] = 0; return r; }
  }
  if (c.t == FOURBAR)
  {
    if (to_joint && effort) set(j0 * a0, 0, -j1 * a0 * j0, j1 * a1);
    else if (to_joint) set(1 / (j0 * a0), 0, -1 / (j1 * j0 * a0), 1 / (j1 * a1));
    else if (effort) set(1 / (a0 * j0), 0, 1 / a1, 1 / (a1 * j1));
    else set(a0 * j0, 0, a1, a1 * j1);
  }
  const Q y0 = x0 - (offset && !to_joint ? o0 : 0), y1 = x1 - (offset && !to_joint ? o1 : 0);
  for (int i = 0; i < 2; ++i)
  {
    const Q o = offset && to_joint ? (i ? o1 : o0) : 0;
    r.v[i] = m[i][0] * y0 + m[i][1] * y1 + o;
    r.scale[i] = fabsl(m[i][0]) * (fabsl(x0) + fabsl(o0)) + fabsl(m[i][1]) * (fabsl(x1) + fabsl(o1)) + fabsl(o);
  }
  return r;
}
static bool near(double got, Q want, Q scale) { return got == static_cast<double>(want) || fabsl(got - want) <= 1e-12L * scale; }
