// Properties T04-T06: transmissions described in XML - parsing, building, and connecting them to a robot.
#include <tinyxml.h>
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/actuator_state_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/robot_hw.h>
#include <pluginlib/class_loader.hpp>
#include <transmission_interface/transmission_interface.h>
#include <transmission_interface/transmission_interface_loader.h>
#include <transmission_interface/transmission_loader.h>
#include <transmission_interface/transmission_parser.h>
#include "../mc/mc.h"
#include "trans_ref.h"

using namespace hardware_interface;
typedef std::vector<std::string> Strs;
static std::string istr(const std::string& s) { return s; }
static std::string join(const Strs& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
static std::string esc(const std::string& s) { std::string o; for (char c : s) o += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '"' ? "&quot;" : std::string(1, c); return o; }

// ---- T04: parsing --------------------------------------------------------------------------------------------------------------
// An expected element
struct EJ { std::string name, role, red, off; Strs ifaces; };
struct ET { std::string name, type; std::vector<EJ> joints, acts; };
static std::string show(const EJ& j) { return j.name + "(" + j.role + ";" + j.red + ";" + j.off + ";" + join(j.ifaces) + ")"; }
static std::string show(const ET& t) { std::string s = t.name + ":" + t.type + "{"; for (auto& j : t.joints) s += show(j); s += "|"; for (auto& a : t.acts) s += show(a); return s + "}"; }
static std::string child(const std::string& xml, const char* name, bool& ok)
{
  TiXmlElement e(""); std::stringstream ss; ss << xml; ss >> e;
  if (!e.Attribute("name")) ok = false;
  const TiXmlElement* c = e.FirstChildElement(name); return c && c->GetText() ? c->GetText() : "";
}
static std::string got(const TransmissionInfo& t)
{
  bool ok = true; ET e; e.name = t.name_; e.type = t.type_;
  for (auto& j : t.joints_) e.joints.push_back({j.name_, j.role_, child(j.xml_element_, "mechanicalReduction", ok), child(j.xml_element_, "offset", ok), j.hardware_interfaces_});
  for (auto& a : t.actuators_) e.acts.push_back({a.name_, child(a.xml_element_, "role", ok), child(a.xml_element_, "mechanicalReduction", ok), child(a.xml_element_, "offset", ok), a.hardware_interfaces_});
  return show(e) + (ok ? "" : " with elements lost");
}
static void t04_check(const std::string& xml, const std::vector<ET>& want, bool pre)
{
  std::vector<TransmissionInfo> v; if (pre) { v.resize(1); v[0].name_ = "before"; v[0].type_ = "x"; }
  std::string w = pre ? "before:x{|}" : ""; for (auto& t : want) w += show(t);
  mc::note("%s", xml.c_str());
  const bool ok = TransmissionParser::parse(xml, v);
  std::string g; for (auto& t : v) g += got(t);
  mc::state(mc::hash(xml)); mc::outcome(mc::hash(w + "#" + xml.substr(0, 0)));
  if (!ok) mc::fail("T04", "refused", "a well-formed description is refused: " + xml);
  if (g != w) mc::fail("T04", "parsed-wrong", "parsing " + xml + "\n gives    " + g + "\n expected " + w);
}
// one joint (or actuator) of the grammar: its text, whether it is kept, and whether it spoils the whole transmission
static std::string part(bool joint, int idx, int variant, EJ& e, bool& keep, bool& spoil)
{
  keep = true; spoil = false; e = EJ(); e.name = (joint ? "j" : "a") + std::to_string(idx);
  std::string body; const std::string tag = joint ? "joint" : "actuator"; std::string attr = " name=\"" + e.name + "\"";
  auto hw = [&](const std::string& s) { body += s.empty() ? "<hardwareInterface></hardwareInterface>" : "<hardwareInterface>" + s + "</hardwareInterface>"; if (!s.empty()) e.ifaces.push_back(s); };
  auto val = [&](const char* n, const std::string& s, std::string& out) { body += "<" + std::string(n) + ">" + s + "</" + n + ">"; if (out.empty()) out = s; };
  switch (variant)
  {
    case 0: hw("A"); break;
    case 1: attr = ""; spoil = true; hw("A"); break;
    case 2: attr = " name=\"\""; keep = false; hw("A"); break;
    case 3: e.name += "&<\"x"; attr = " name=\"" + esc(e.name) + "\""; val("mechanicalReduction", "50", e.red); val("offset", "-0.5", e.off); hw("A"); break;
    case 4: break;                                            // no interface
    case 5: hw(""); break;
    case 6: hw("A"); body += "<!-- c -->"; hw("B"); hw("A"); break;
    case 7: hw(""); val("role", "r" + std::to_string(idx), e.role); hw("B"); val("role", "other", e.role); break;
    case 8: body += "<role/>"; hw("B"); break;
    case 9: attr = " id=\"3\" name='" + e.name + "' hw=\"x\""; body += "<limit><hardwareInterface>N</hardwareInterface></limit>"; hw("B"); val("offset", "1", e.off); break;
    case 10: attr = " Name=\"" + e.name + "\""; spoil = true; hw("A"); break;
    case 11: body += "text"; hw("A"); body += "<hardwareinterface>C</hardwareinterface>"; break;
  }
  if (joint && e.ifaces.empty() && !spoil) keep = false;
  return "<" + tag + attr + (body.empty() ? "/>" : ">" + body + "</" + tag + ">");
}
// one transmission from its choices
static std::string transmission(int idx, int nv, int tv, const std::vector<int>& js, const std::vector<int>& as, int order, std::vector<ET>& want)
{
  ET t; t.name = "t" + std::to_string(idx); t.type = "T" + std::to_string(idx); bool skip = false;
  std::string attr = " name=\"" + t.name + "\"", type = "<type>" + t.type + "</type>";
  if (nv == 1) { attr = ""; skip = true; } else if (nv == 2) { attr = " name=\"\""; skip = true; } else if (nv == 3) { t.name += "<&"; attr = " name=\"" + esc(t.name) + "\""; }
  if (tv == 1) { type = ""; skip = true; } else if (tv == 2) { type = "<type></type>"; skip = true; } else if (tv == 3) type += "<type>second</type>";
  Strs jt, at; bool js_spoilt = false, as_spoilt = false;
  for (size_t i = 0; i < js.size(); ++i) { EJ e; bool k, s; jt.push_back(part(true, static_cast<int>(i), js[i], e, k, s)); if (s) js_spoilt = true; if (k) t.joints.push_back(e); }
  for (size_t i = 0; i < as.size(); ++i) { EJ e; bool k, s; at.push_back(part(false, static_cast<int>(i), as[i], e, k, s)); if (s) as_spoilt = true; if (k) t.acts.push_back(e); }
  std::string x = "<transmission" + attr + ">";
  if (order == 0) { x += type; for (auto& s : jt) x += s; for (auto& s : at) x += s; }
  else if (order == 1) { for (auto& s : at) x += s; for (auto& s : jt) x += s; x += type; }
  else { x += "<!-- <joint name=\"no\"/> -->"; for (size_t i = 0; i < std::max(jt.size(), at.size()); ++i) { if (i < jt.size()) x += jt[i]; x += "<other/>"; if (i < at.size()) x += at[i]; } x += "\n  " + type; }
  if (!skip && !js_spoilt && !as_spoilt && !t.joints.empty() && !t.acts.empty()) want.push_back(t);
  return x + "</transmission>";
}
static std::vector<int> choose_list(int maxlen, int variants) { std::vector<int> v; const int n = mc::choose(maxlen + 1); for (int i = 0; i < n; ++i) v.push_back(mc::choose(variants)); return v; }
static void t04_single(bool heads, int maxlen, int orders)
{
  std::vector<ET> want; const int nv = heads ? mc::choose(4) : 0, tv = heads ? mc::choose(4) : 0, order = mc::choose(orders);
  const std::vector<int> js = choose_list(heads ? 1 : maxlen, 12), as = choose_list(heads ? 1 : maxlen, 12);
  t04_check("<robot>" + transmission(0, nv, tv, js, as, order, want) + "</robot>", want, false);
}
static void t04_many(int maxlen)
{
  std::vector<ET> want; std::string x; const int frame = mc::choose(4), n = mc::choose(maxlen + 1);
  for (int i = 0; i < n; ++i) switch (mc::choose(12))
  {
    case 0: x += transmission(i, 0, 0, {0}, {0}, 0, want); break;
    case 1: x += transmission(i, 0, 0, {7, 3}, {7, 6}, 2, want); break;
    case 2: x += transmission(i, 1, 0, {0}, {0}, 0, want); break;
    case 3: x += transmission(i, 0, 2, {0}, {0}, 1, want); break;
    case 4: x += transmission(i, 0, 0, {4, 2}, {0}, 0, want); break;
    case 5: x += transmission(i, 0, 0, {0}, {1}, 0, want); break;
    case 6: x += transmission(i, 0, 0, {0, 10}, {0}, 2, want); break;
    case 7: x += "<link name=\"l\"/>some text"; break;
    case 8: { std::vector<ET> no; x += "<group>" + transmission(i, 0, 0, {0}, {0}, 0, no) + "</group>"; break; }
    case 9: x += "<joint name=\"top\"><hardwareInterface>A</hardwareInterface></joint><actuator name=\"top\"/>"; break;
    case 10: { std::vector<ET> no; x += "<!-- " + transmission(i, 0, 0, {6}, {4}, 1, no).substr(0, 60) + " -->"; break; }
    case 11: x += transmission(0, 3, 3, {6, 4}, {2, 3}, 1, want); break;
  }
  static const char* const F[][2] = {{"<robot>", "</robot>"}, {"<?xml version=\"1.0\"?>\n<!-- c -->\n<robot name=\"r\" xmlns:xacro=\"http://x\">\n", "\n</robot>\n<!-- end -->"}, {"<other>", "</other>"}, {"  <robot>", "</robot><robot/>"}};
  t04_check(F[frame][0] + x + F[frame][1], want, mc::flip());
}
// Any text: no crash; refused exactly if it is no XML document with a root element.
static void t04_text(const std::string& x)
{
  mc::note("text: %s", x.c_str());
  std::vector<TransmissionInfo> v(1); v[0].name_ = "before"; TiXmlDocument doc; doc.Parse(x.c_str()); const bool valid = !doc.Error() && doc.RootElement();
  const bool ok = TransmissionParser::parse(x, v);
  std::string g; for (auto& t : v) g += got(t);
  mc::state(mc::hash(x)); mc::outcome(mc::hash(g) + ok);
  if (ok != valid) mc::fail("T04", ok ? "accepted" : "refused", std::string(ok ? "accepted" : "refused") + ": " + x);
  if (!ok && v.size() != 1) mc::fail("T04", "refused-but-parsed", x);
}
static const std::string BASE = "<?xml version=\"1.0\"?><robot><!-- c --><transmission name=\"t\"><type>T</type><joint name=\"j\"><role>r</role><hardwareInterface>A</hardwareInterface></joint><actuator name=\"a\"><mechanicalReduction>5</mechanicalReduction></actuator></transmission></robot>";

// ---- T05: loaders --------------------------------------------------------------------------------------------------------------
static void declare();
static TransmissionLoaderSharedPtr loader(const std::string& name) { pluginlib::ClassLoader<TransmissionLoader> l("transmission_interface", "transmission_interface::TransmissionLoader"); return TransmissionLoaderSharedPtr(l.createUnmanagedInstance(name)); }
static const char* const TYPE[] = {"transmission_interface/SimpleTransmission", "transmission_interface/DifferentialTransmission", "transmission_interface/FourBarLinkageTransmission", "none/Unknown"};
struct Txt { std::string text; bool present, valid; double v; };
static const Txt REDS[] = {{"<mechanicalReduction>2</mechanicalReduction>", true, true, 2}, {"", false, false, 0}, {"<mechanicalReduction> -4.5 </mechanicalReduction>", true, true, -4.5}, {"<mechanicalReduction>0</mechanicalReduction>", true, true, 0},
  {"<mechanicalReduction>-0.0</mechanicalReduction>", true, true, 0}, {"<mechanicalReduction>x</mechanicalReduction>", true, false, 0}, {"<mechanicalReduction/>", true, false, 0}, {"<mechanicalReduction>1e999</mechanicalReduction>", true, false, 0}, {"<mechanicalReduction>25e-2</mechanicalReduction>", true, true, 0.25}};
static const Txt OFFS[] = {{"", false, false, 0}, {"<offset>0.5</offset>", true, true, 0.5}, {"<offset>x1</offset>", true, false, 0}, {"<offset></offset>", true, false, 0}, {"<offset>-3</offset>", true, true, -3}};
static const char* const AROLE[] = {"actuator1", "actuator2", nullptr, "", "actuator3", "joint1"};
static const char* const JROLE[] = {"joint1", "joint2", nullptr, "", "joint", "actuator2"};
static std::string role(const char* r) { return !r ? "" : !*r ? "<role/>" : "<role>" + std::string(r) + "</role>"; }
static bool roles(const char* a, const char* b, const char* const* t) { auto is = [](const char* x, const char* y) { return x && !strcmp(x, y); }; return (is(a, t[0]) && is(b, t[1])) || (is(a, t[1]) && is(b, t[0])); }
// What a built transmission does, through its maps.
static bool behaves(Transmission& t, const Cfg& c, std::string& why)
{
  const int d = c.dim(); if (static_cast<int>(t.numJoints()) != d || static_cast<int>(t.numActuators()) != d) { why = "wrong dimensions"; return false; }
  V a[5], j[5]; ActuatorData ad; JointData jd;
  for (int k = 0; k < 5; ++k) { for (int i = 0; i < d; ++i) { a[k].push_back(3 + 7 * k - 5 * i); j[k].push_back(0); } for (int i = 0; i < d; ++i) { field(ad, k).push_back(&a[k][i]); field(jd, k).push_back(&j[k][i]); } }
  t.actuatorToJointPosition(ad, jd); t.actuatorToJointVelocity(ad, jd); t.actuatorToJointEffort(ad, jd); t.actuatorToJointAbsolutePosition(ad, jd); t.actuatorToJointTorqueSensor(ad, jd);
  for (int k = 0; k < 5; ++k) { const R r = ref(c, true, k, a[k]); for (int i = 0; i < d; ++i) if (!near(j[k][i], r.v[i], r.scale[i])) { why = std::string(KN[k]) + " of joint " + istr(i + 1) + " is " + str(j[k][i]) + " instead of " + str(double(r.v[i])); return false; } }
  return true;
}
static void t05_check(int type, const Strs& js, const Strs& as, bool want, const Cfg& c)
{
  declare(); TransmissionInfo info; info.name_ = "t"; info.type_ = TYPE[type];
  for (size_t i = 0; i < js.size(); ++i) { JointInfo j; j.name_ = "j" + istr(i); j.xml_element_ = js[i]; j.hardware_interfaces_ = {"A"}; info.joints_.push_back(j); }
  for (size_t i = 0; i < as.size(); ++i) { ActuatorInfo a; a.name_ = "a" + istr(i); a.xml_element_ = as[i]; info.actuators_.push_back(a); }
  std::string what = std::string(TYPE[type]) + " of " + join(js) + join(as); mc::note("%s", what.c_str());
  TransmissionSharedPtr t; auto l = loader(TYPE[type]);
  try { t = l->load(info); } catch (const std::exception& e) { mc::fail("T05", "throws", what + ": throws " + e.what()); return; }
  mc::state(mc::hash(what)); mc::outcome(mc::mix(mc::hash(what), !!t));
  if (!!t != want) { mc::fail("T05", t ? "accepted" : "refused", what + (t ? " is accepted" : " is refused")); return; }
  std::string why; if (t && !behaves(*t, c, why)) mc::fail("T05", "wrong-values", what + ": " + why);
}
static std::string el(const char* tag, int i, const std::string& body) { return std::string("<") + tag + " name=\"" + tag[0] + istr(i) + "\">" + body + "<hardwareInterface>A</hardwareInterface></" + tag + ">"; }
static void t05_counts()
{
  const int type = mc::choose(3), nj = mc::choose(4), na = mc::choose(4); Strs js, as; Cfg c; c.t = static_cast<Type>(type); const int d = c.dim();
  for (int i = 0; i < nj; ++i) js.push_back(el("joint", i, type ? role(JROLE[std::min(i, 1)]) : ""));
  for (int i = 0; i < na; ++i) as.push_back(el("actuator", i, REDS[0].text + (type ? role(AROLE[std::min(i, 1)]) : "")));
  c.ar.assign(d, 2); c.jr.assign(d, 1); c.off.assign(d, 0);
  t05_check(type, js, as, nj == d && na == d, c);
}
static void t05_simple()
{
  Cfg c; c.t = SIMPLE; const Txt& r = REDS[mc::choose(9)]; const Txt& o = OFFS[mc::choose(5)]; const bool first = mc::flip(), noise = mc::flip();
  std::string a = noise ? "<other>7</other><offset>9</offset>" + r.text : r.text, j = first ? o.text + "<mechanicalReduction>9</mechanicalReduction>" : "<limit/>" + o.text;
  c.ar = {r.v}; c.off = {o.v};
  t05_check(0, {el("joint", 0, j)}, {el("actuator", 0, a)}, r.valid && r.v != 0 && (!o.present || o.valid), c);
}
static void t05_actuators(int type)
{
  Cfg c; c.t = static_cast<Type>(type); c.jr = {0.5, -2}; c.off = {0.25, 0}; const int jo = mc::flip(); Strs js(2), as(2); const char* rl[2]; const Txt* rd[2];
  js[jo] = el("joint", 0, "<role>joint1</role><mechanicalReduction>0.5</mechanicalReduction><offset>0.25</offset>"); js[1 - jo] = el("joint", 1, "<mechanicalReduction>-2</mechanicalReduction><role>joint2</role>");
  for (int i = 0; i < 2; ++i) { rl[i] = AROLE[mc::choose(6)]; rd[i] = &REDS[mc::choose(9)]; as[i] = el("actuator", i, rd[i]->text + role(rl[i])); }
  const bool ok = roles(rl[0], rl[1], AROLE) && rd[0]->valid && rd[1]->valid && rd[0]->v != 0 && rd[1]->v != 0;
  const int first = ok && !strcmp(rl[0], "actuator1") ? 0 : 1; c.ar = {rd[first]->v, rd[1 - first]->v};
  t05_check(type, js, as, ok, c);
}
static void t05_joints(int type, bool full)
{
  const int wide = full ? 2 : mc::choose(2);              // the joint with all reductions and offsets
  Cfg c; c.t = static_cast<Type>(type); c.ar = {-8, 3}; const int ao = mc::flip(); Strs js(2), as(2); const char* rl[2]; const Txt *rd[2], *of[2]; int ign = 0;
  as[ao] = el("actuator", 0, "<role>actuator1</role><mechanicalReduction>-8</mechanicalReduction>"); as[1 - ao] = el("actuator", 1, "<role>actuator2</role><mechanicalReduction>3</mechanicalReduction><offset>77</offset>");
  for (int i = 0; i < 2; ++i)
  {
    rl[i] = JROLE[mc::choose(6)]; const bool w = full || i == wide; rd[i] = &REDS[mc::choose(w ? 9 : 3)]; of[i] = &OFFS[mc::choose(w ? 5 : 2)]; const bool g = mc::flip(); ign += g;
    js[i] = el("joint", i, of[i]->text + (g ? "<ignoreTransmissionAbsoluteEncoder/>" : "") + role(rl[i]) + rd[i]->text);
  }
  bool ok = roles(rl[0], rl[1], JROLE); double red[2]; for (int i = 0; i < 2; ++i) { if ((rd[i]->present && !rd[i]->valid) || (of[i]->present && !of[i]->valid)) ok = false; red[i] = rd[i]->present ? rd[i]->v : 1; if (red[i] == 0) ok = false; }
  const int first = ok && !strcmp(rl[0], "joint1") ? 0 : 1; c.jr = {red[first], red[1 - first]}; c.off = {of[first]->v, of[1 - first]->v}; c.ignore = type == DIFF && ign == 2;
  t05_check(type, js, as, ok, c);
}

// ---- T06: connecting -----------------------------------------------------------------------------------------------------------
static void declare()
{
  // what package.xml and the plugin description it names declare, with what the sources export
  static bool done = false; if (done) return;
  done = true; const char* e = getenv("VERIF_REPO"); const std::string dir = std::string(e ? e : "/repo") + "/transmission_interface";
  auto bare = [](const std::string& s) { const size_t p = s.find_last_of(": "); return p == std::string::npos ? s : s.substr(p + 1); };
  auto attr = [](TiXmlElement* x, const char* n) { const char* v = x->Attribute(n); return std::string(v ? v : ""); };
  std::map<std::string, std::function<void*()>> made;
  for (auto& x : pluginlib::stub::exported()) { const size_t p = x.first.find('|'); made[bare(x.first.substr(0, p)) + "|" + bare(x.first.substr(p + 1))] = x.second; }
  TiXmlDocument package; TiXmlElement* ex = package.LoadFile(dir + "/package.xml") && package.RootElement() ? package.RootElement()->FirstChildElement("export") : nullptr;
  for (TiXmlElement* x = ex ? ex->FirstChildElement("transmission_interface") : nullptr; x; x = x->NextSiblingElement("transmission_interface"))
  {
    std::string f = attr(x, "plugin"); const std::string pre = "${prefix}"; if (f.compare(0, pre.size(), pre) == 0) f = dir + f.substr(pre.size());
    TiXmlDocument doc; if (!doc.LoadFile(f) || !doc.RootElement()) continue;
    for (TiXmlElement* c = doc.RootElement()->FirstChildElement("class"); c; c = c->NextSiblingElement("class"))
    {
      const std::string name = attr(c, "name"), cls = attr(c, "type"), base = attr(c, "base_class_type"); auto it = made.find(bare(cls) + "|" + bare(base));
      std::function<void*()> make = [cls]() -> void* { throw pluginlib::CreateClassException("no factory for " + cls); }; if (it != made.end()) make = it->second;
      pluginlib::stub::declared()[base].push_back({name.empty() ? cls : name, make});
    }
  }
}
// interfaces a joint can ask for
static const char* const IF[] = {"hardware_interface/JointStateInterface", "hardware_interface/PositionJointInterface", "hardware_interface/VelocityJointInterface", "hardware_interface/EffortJointInterface",
  "hardware_interface/BiDirectionalPositionJointInterface", "hardware_interface/BiDirectionalVelocityJointInterface", "hardware_interface/BiDirectionalEffortJointInterface", "none/UnknownInterface"};
static const int UNKNOWN_IF = 7;
static int cmd_kind(int i) { return i == 0 ? -1 : (i - 1) % 3; }       // POS, VEL, EFF
static bool bidir(int i) { return i >= 4 && i < 7; }
struct TS { std::string name; int type = 0; bool ignore = false, swapj = false, swapa = false, broken = false; std::vector<int> joints, acts; std::vector<std::vector<int>> ifaces; Cfg cfg; };
static int NJ = 3;                               // joints and actuators of a robot
static TS make_ts(const std::string& name, int type, int j, int a, int variant)
{
  TS t; t.name = name; t.type = type; t.joints = {j}; t.acts = {a}; if (type == 1 || type == 2) { t.joints.push_back((j + 1) % NJ); t.acts.push_back((a + 1) % NJ); }
  t.cfg.t = type == 3 ? SIMPLE : static_cast<Type>(type); const int d = t.cfg.dim();
  t.cfg.ar = variant ? V{-8, 3} : V{2, -4}; t.cfg.jr = variant ? V{4, 1.5} : V{0.5, -2}; t.cfg.off = variant ? V{-1, 2} : V{0.25, 0}; t.cfg.ar.resize(d); t.cfg.off.resize(d);
  return t;
}
static std::string xml(const TS& t)
{
  Strs js, as; const int d = t.cfg.dim();
  for (int i = 0; i < d; ++i)
  {
    std::string b; if (d == 2) b = "<role>joint" + istr(i + 1) + "</role><mechanicalReduction>" + str(t.cfg.jr[i]) + "</mechanicalReduction>"; b += "<offset>" + str(t.cfg.off[i]) + "</offset>"; if (t.cfg.ignore) b += "<ignoreTransmissionAbsoluteEncoder/>";
    for (int f : t.ifaces[std::min<size_t>(i, t.ifaces.size() - 1)]) b += std::string("<hardwareInterface>") + IF[f] + "</hardwareInterface>";
    js.push_back("<joint name=\"j" + istr(t.joints[i]) + "\">" + b + "</joint>");
    as.push_back("<actuator name=\"a" + istr(t.acts[i]) + "\">" + (d == 2 ? "<role>actuator" + istr(i + 1) + "</role>" : std::string()) + "<mechanicalReduction>" + (t.broken ? "0" : str(t.cfg.ar[i])) + "</mechanicalReduction></actuator>");
  }
  if (t.swapj) std::reverse(js.begin(), js.end());
  if (t.swapa) std::reverse(as.begin(), as.end());
  std::string x = "<transmission name=\"" + t.name + "\"><type>" + TYPE[t.type] + "</type>"; for (auto& s : js) x += s; for (auto& s : as) x += s;
  return x + "</transmission>";
}
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
struct RobotCfg { int state = 255; int cmd[3] = {255, 255, 255}; int sensors = 0; int pre = 0; };      // masks of actuators (-1: no such interface); who has absolute encoders and torque sensors; what the robot provides itself
struct Bot
{
  double st[8][5], cmd[8][3], own[2][8]; ActuatorStateInterface as; PositionActuatorInterface pa; VelocityActuatorInterface va; EffortActuatorInterface ea;
  JointStateInterface js; PositionJointInterface pj; VelocityJointInterface vj; EffortJointInterface ej; RobotHW hw; RobotTransmissions rt;
  bool abs[8], trq[8];
  Bot(const RobotCfg& c)
  {
    for (int i = 0; i < 8; ++i) { for (int k = 0; k < 5; ++k) st[i][k] = 100 * i + 7 * k + 1; for (int k = 0; k < 3; ++k) cmd[i][k] = -50 * i - 3 * k; }
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 8; ++k) own[i][k] = 1e4 + 10 * i + k;
    for (int i = 0; i < NJ; ++i)
    {
      abs[i] = c.sensors == 1 || (c.sensors == 3 && i == 0) || c.sensors == 4; trq[i] = c.sensors == 2 || (c.sensors == 3 && i == 1) || c.sensors == 4; const std::string n = "a" + istr(i); double* s = st[i];
      ActuatorStateHandle h = abs[i] && trq[i] ? ActuatorStateHandle(n, s, s + 1, s + 2, s + 3, s + 4) : abs[i] ? ActuatorStateHandle(n, s, s + 1, s + 2, s + 3) : trq[i] ? ActuatorStateHandle(n, s, s + 1, s + 2, s + 4, true) : ActuatorStateHandle(n, s, s + 1, s + 2);
      if (c.state >= 0 && (c.state & (1 << i))) as.registerHandle(h);
      if (c.cmd[0] >= 0 && (c.cmd[0] & (1 << i))) pa.registerHandle(ActuatorHandle(h, &cmd[i][0]));
      if (c.cmd[1] >= 0 && (c.cmd[1] & (1 << i))) va.registerHandle(ActuatorHandle(h, &cmd[i][1]));
      if (c.cmd[2] >= 0 && (c.cmd[2] & (1 << i))) ea.registerHandle(ActuatorHandle(h, &cmd[i][2]));
    }
    if (c.state >= 0) hw.registerInterface(&as);
    if (c.cmd[0] >= 0) hw.registerInterface(&pa);
    if (c.cmd[1] >= 0) hw.registerInterface(&va);
    if (c.cmd[2] >= 0) hw.registerInterface(&ea);
    // what the robot provides itself: 1 an empty state interface, 2 another joint, 3 and with a position command, 4 joint j0, 5 and with a velocity command, 6 j0 and j1
    auto joint = [&](int i, const char* n, int k) { JointStateHandle h(n, &own[i][0], &own[i][1], &own[i][2]); js.registerHandle(h); if (k == 0) pj.registerHandle(JointHandle(h, &own[i][5])); if (k == 1) vj.registerHandle(JointHandle(h, &own[i][6])); };
    if (c.pre) hw.registerInterface(&js);
    if (c.pre == 2) joint(0, "jx", -1);
    if (c.pre == 3) { joint(0, "jx", 0); hw.registerInterface(&pj); }
    if (c.pre == 4) joint(0, "j0", -1);
    if (c.pre == 5) { joint(0, "j0", 1); hw.registerInterface(&vj); }
    if (c.pre == 6) { joint(0, "j0", -1); joint(1, "j1", -1); }
  }
};
struct Model
{
  RobotCfg rc; std::set<std::string> own_state, own_cmd[3], state, cmd[3], maybe;            // joints: the robot's own, from transmissions, and perhaps left over from failed loads
  std::map<std::string, int> s, c[3], bs, bc[3];                                             // handles by name: index of the transmission
  bool kept;                                                                                  // the state handles of a replaced transmission stay (known finding)
  Model(const RobotCfg& r, bool k) : rc(r), kept(k) { if (r.pre == 2 || r.pre == 3) own_state.insert("jx"); if (r.pre == 3) own_cmd[0].insert("jx"); if (r.pre >= 4) own_state.insert("j0"); if (r.pre == 5) own_cmd[1].insert("j0"); if (r.pre == 6) own_state.insert("j1"); }
  bool actuators(const TS& t, int mask) const { if (mask < 0) return false; for (int a : t.acts) if (!(mask & (1 << a))) return false; return true; }
  bool load(const TS& t, int idx)
  {
    if (t.type == 3 || t.broken) return false;
    auto sorted = [](std::vector<int> v) { std::sort(v.begin(), v.end()); return v; };
    for (auto& l : t.ifaces) if (sorted(l) != sorted(t.ifaces[0])) return false;
    bool any = false;
    for (int f : t.ifaces[0])
    {
      if (f == UNKNOWN_IF) continue;
      const int k = cmd_kind(f);
      if (!actuators(t, rc.state) || (k >= 0 && !actuators(t, rc.cmd[k]))) continue;
      bool taken = false; for (int j : t.joints) { const std::string n = "j" + istr(j); if (own_state.count(n)) taken = true; }
      if (taken) { for (int j : t.joints) if (!own_state.count("j" + istr(j))) maybe.insert("j" + istr(j)); continue; }
      for (int j : t.joints) { const std::string n = "j" + istr(j); state.insert(n); if (k >= 0) cmd[k].insert(n); }
      if (k < 0 || !kept || !s.count(t.name)) s[t.name] = idx;
      if (k >= 0) c[k][t.name] = idx;
      if (bidir(f)) { if (!kept || !bs.count(t.name)) bs[t.name] = idx; bc[k][t.name] = idx; }
      any = true;
    }
    return any;
  }
};
template <class I> static Strs names(const I* i) { Strs v; if (i) v = i->getNames(); std::sort(v.begin(), v.end()); return v; }
static Strs keys(const std::map<std::string, int>& m) { Strs v; for (auto& x : m) v.push_back(x.first); return v; }
typedef std::pair<std::string, std::string> Fail;
static Fail t06_world(const std::vector<TS>& ts, const RobotCfg& rc, int mode, bool kept)
{
  declare(); Bot b(rc); Model m(rc, kept); Fail f; auto bad = [&f](const std::string& sig, const std::string& msg) { if (f.first.empty()) f = Fail(sig, msg); }; std::string what = "robot (state " + istr(rc.state) + " commands " + istr(rc.cmd[0]) + " " + istr(rc.cmd[1]) + " " + istr(rc.cmd[2]) + " sensors " + istr(rc.sensors) + " own " + istr(rc.pre) + ") mode " + istr(mode);
  std::string all; for (auto& t : ts) all += xml(t);
  what += ", " + all; mc::note("%s", what.c_str());
  std::vector<bool> res, want; std::unique_ptr<TransmissionInterfaceLoader> l;
  try
  {
    l.reset(new TransmissionInterfaceLoader(&b.hw, &b.rt));
    if (mode == 0) res.push_back(l->load("<robot>" + all + "</robot>"));
    else
    {
      std::vector<TransmissionInfo> infos; TransmissionParser::parse("<robot>" + all + "</robot>", infos);
      if (infos.size() != ts.size()) { mc::note("parsed %zu", infos.size()); return f; }
      if (mode == 1) res.push_back(l->load(infos));
      else for (size_t i = 0; i < infos.size(); ++i) res.push_back(mode == 2 ? l->load(infos[i]) : l->load("<robot>" + xml(ts[i]) + "</robot>"));
    }
  }
  catch (const std::exception& e) { bad("throws", what + ": loading throws " + e.what()); return f; }
  bool ok = true; for (size_t i = 0; i < ts.size(); ++i) { if (mode < 2 && !ok) break; ok = m.load(ts[i], static_cast<int>(i)); if (mode >= 2) want.push_back(ok); }
  if (mode < 2) want.push_back(ok);
  std::string rs; for (size_t i = 0; i < res.size(); ++i) rs += res[i] ? "ok " : "failed "; mc::note("%s", rs.c_str());
  uint64_t h = mc::hash(what + rs); mc::state(h);
  for (size_t i = 0; i < want.size(); ++i) if (res[i] != want[i]) { bad(res[i] ? "load-succeeded" : "load-failed", what + ": load " + istr(i) + (res[i] ? " succeeds" : " fails")); return f; }
  // names
  auto check_names = [&](const char* n, const Strs& g, const std::set<std::string>& own, const std::set<std::string>& ours, bool exact) {
    std::set<std::string> w(own); w.insert(ours.begin(), ours.end()); std::set<std::string> have(g.begin(), g.end()); bool wrong = have.size() != g.size();
    for (auto& x : w) if (!have.count(x)) wrong = true;
    for (auto& x : have) if (!w.count(x) && (exact || !m.maybe.count(x))) wrong = true;
    if (wrong) { bad("joints", what + ": the " + n + " interface has " + join(g)); } return !wrong; };
  auto* js = b.hw.get<JointStateInterface>(); auto* pj = b.hw.get<PositionJointInterface>(); auto* vj = b.hw.get<VelocityJointInterface>(); auto* ej = b.hw.get<EffortJointInterface>();
  if (!check_names("state", names(js), m.own_state, m.state, false) || !check_names("position", names(pj), m.own_cmd[0], m.cmd[0], false) || !check_names("velocity", names(vj), m.own_cmd[1], m.cmd[1], false) || !check_names("effort", names(ej), m.own_cmd[2], m.cmd[2], false)) return f;
  auto* s = b.rt.get<ActuatorToJointStateInterface>(); auto* cp = b.rt.get<JointToActuatorPositionInterface>(); auto* cv = b.rt.get<JointToActuatorVelocityInterface>(); auto* ce = b.rt.get<JointToActuatorEffortInterface>();
  auto* bs = b.rt.get<JointToActuatorStateInterface>(); auto* bp = b.rt.get<ActuatorToJointPositionInterface>(); auto* bv = b.rt.get<ActuatorToJointVelocityInterface>(); auto* be = b.rt.get<ActuatorToJointEffortInterface>();
  if (names(s) != keys(m.s) || names(cp) != keys(m.c[0]) || names(cv) != keys(m.c[1]) || names(ce) != keys(m.c[2]) || names(bs) != keys(m.bs) || names(bp) != keys(m.bc[0]) || names(bv) != keys(m.bc[1]) || names(be) != keys(m.bc[2]))
  { bad("handles", what + ": transmission handles " + join(names(s)) + "/ " + join(names(cp)) + "/ " + join(names(cv)) + "/ " + join(names(ce)) + "/ " + join(names(bs)) + "/ " + join(names(bp)) + "/ " + join(names(bv)) + "/ " + join(names(be))); return f; }
  // values
  const double NaN = std::numeric_limits<double>::quiet_NaN(); std::map<std::string, std::array<double, 8>> J; for (auto& n : m.state) J[n].fill(NaN);
  for (auto& n : m.maybe) J[n].fill(NaN);
  std::map<std::string, std::array<long double, 8>> tol; auto jn = [&](const TS& t, int i) { return "j" + istr(t.joints[i]); };
  double st[8][5], cmd[8][3];
  auto check = [&](const char* when) {
    for (int i = 0; i < 8; ++i) { for (int k = 0; k < 5; ++k) if (fabs(b.st[i][k] - st[i][k]) > 1e-6) { bad("actuator-state", what + ": " + when + ", " + KN[k] + " of actuator " + istr(i) + " is " + str(b.st[i][k]) + " instead of " + str(st[i][k])); return false; }
      for (int k = 0; k < 3; ++k) if (fabs(b.cmd[i][k] - cmd[i][k]) > 1e-6) { bad("actuator-command", what + ": " + when + ", " + KN[k] + " command of actuator " + istr(i) + " is " + str(b.cmd[i][k]) + " instead of " + str(cmd[i][k])); return false; } }
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 8; ++k) if (b.own[i][k] != 1e4 + 10 * i + k) { bad("own-data", what + ": " + when + ", data of the robot's own joint is changed"); return false; }
    for (auto& n : m.own_state) if (js->getHandle(n).getPositionPtr() != &b.own[n == "j1"][0]) { bad("own-handle", what + ": the handle of the robot's own joint " + n + " is replaced"); return false; }
    for (auto& n : m.state)
    {
      JointStateHandle x = js->getHandle(n); const double g[5] = {x.getPosition(), x.getVelocity(), x.getEffort(), x.hasAbsolutePosition() ? x.getAbsolutePosition() : NaN, x.hasTorqueSensor() ? x.getTorqueSensor() : NaN};
      for (int k = 0; k < 5; ++k) if (!eq(g[k], J[n][k]) && !(fabs(g[k] - J[n][k]) <= 1e-6)) { bad("joint-state", what + ": " + when + ", " + KN[k] + " of joint " + n + " is " + str(g[k]) + " instead of " + str(J[n][k])); return false; }
    }
    for (int k = 0; k < 3; ++k) for (auto& n : m.cmd[k])
    {
      JointHandle x = k == 0 ? pj->getHandle(n) : k == 1 ? vj->getHandle(n) : ej->getHandle(n);
      if (!eq(x.getCommand(), J[n][5 + k]) && !(fabs(x.getCommand() - J[n][5 + k]) <= 1e-6)) { bad("joint-command", what + ": " + when + ", " + KN[k] + " command of joint " + n + " is " + str(x.getCommand()) + " instead of " + str(J[n][5 + k])); return false; }
      const double g[3] = {x.getPosition(), x.getVelocity(), x.getEffort()};
      for (int q = 0; q < 3; ++q) if (!eq(g[q], J[n][q]) && !(fabs(g[q] - J[n][q]) <= 1e-6)) { bad("joint-state", what + ": " + when + ", " + KN[q] + " of joint " + n + " seen through the " + KN[k] + " interface is " + str(g[q]) + " instead of " + str(J[n][q])); return false; }
    }
    return true; };
  memcpy(st, b.st, sizeof st); memcpy(cmd, b.cmd, sizeof cmd);
  if (!check("after loading")) return f;
  // 1. actuator states to joints
  for (int i = 0; i < 8; ++i) for (int k = 0; k < 5; ++k) st[i][k] = b.st[i][k] = 3 * i - 2 * k + 0.5 * i * k;
  for (auto& x : m.s)
  {
    const TS& t = ts[x.second]; const int d = t.cfg.dim(); bool has[5] = {true, true, true, true, true}; for (int a : t.acts) { has[ABS] = has[ABS] && b.abs[a]; has[TRQ] = has[TRQ] && b.trq[a]; }
    for (int k = 0; k < 5; ++k) if (has[k]) { V in; for (int a : t.acts) in.push_back(st[a][k]); const R r = ref(t.cfg, true, k, in); for (int i = 0; i < d; ++i) J[jn(t, i)][k] = r.v[i]; }
  }
  if (s) s->propagate();
  if (!check("after propagating the actuator states")) return f;
  // 2. joint commands to actuators
  for (int k = 0; k < 3; ++k) { int q = 0; for (auto& n : m.cmd[k]) { const double v = 5 + 2 * k - 3 * q++; J[n][5 + k] = v; (k == 0 ? pj->getHandle(n) : k == 1 ? vj->getHandle(n) : ej->getHandle(n)).setCommand(v); } }
  for (int k = 0; k < 3; ++k) for (auto& x : m.c[k]) { const TS& t = ts[x.second]; V in; for (int i = 0; i < t.cfg.dim(); ++i) in.push_back(J[jn(t, i)][5 + k]); const R r = ref(t.cfg, false, k, in); for (int i = 0; i < t.cfg.dim(); ++i) cmd[t.acts[i]][k] = r.v[i]; }
  if (cp) cp->propagate();
  if (cv) cv->propagate();
  if (ce) ce->propagate();
  if (!check("after propagating the joint commands")) return f;
  // 3. actuator commands back to joints
  for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) cmd[i][k] = b.cmd[i][k] = 11 - 4 * i + 3 * k;
  for (int k = 0; k < 3; ++k) for (auto& x : m.bc[k]) { const TS& t = ts[x.second]; V in; for (int a : t.acts) in.push_back(cmd[a][k]); const R r = ref(t.cfg, true, k, in); for (int i = 0; i < t.cfg.dim(); ++i) J[jn(t, i)][5 + k] = r.v[i]; }
  if (bp) bp->propagate();
  if (bv) bv->propagate();
  if (be) be->propagate();
  if (!check("after propagating the actuator commands back")) return f;
  // 4. joint states back to actuators
  for (auto& x : m.bs) { const TS& t = ts[x.second]; for (int k = 0; k < 3; ++k) { V in; for (int i = 0; i < t.cfg.dim(); ++i) in.push_back(J[jn(t, i)][k]); const R r = ref(t.cfg, false, k, in); for (int i = 0; i < t.cfg.dim(); ++i) st[t.acts[i]][k] = r.v[i]; } }
  if (bs) bs->propagate();
  if (!check("after propagating the joint states back")) return f;
  mc::outcome(h);
  return f;
}
static void t06_run(const std::vector<TS>& ts, const RobotCfg& rc, int mode)
{
  const Fail f = t06_world(ts, rc, mode, false); if (f.first.empty()) return;
  // A transmission that replaces another one of the same name through a command interface only leaves the former state handle in place
  std::set<std::string> names; for (auto& t : ts) names.insert(t.name);
  if (names.size() < ts.size() && t06_world(ts, rc, mode, true).first.empty()) mc::fail("T06", "duplicate-name-keeps-state-handle", f.second);
  else mc::fail("T06", f.first, f.second);
}
static const std::vector<std::vector<int>> LISTS = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {0, 1}, {1, 2}, {2, 3}, {3, 1}, {4, 5}, {1, 4}, {6, 0}, {7, 2}, {1, 7}, {1, 2, 3}, {4, 5, 6}, {2, 2}};
static RobotCfg choose_robot(int n) { static const std::vector<std::function<void(RobotCfg&)>> R = {[](RobotCfg&) {}, [](RobotCfg& r) { r.state = 6; }, [](RobotCfg& r) { r.cmd[0] = 5; }, [](RobotCfg& r) { r.cmd[1] = -1; }, [](RobotCfg& r) { r.state = -1; }, [](RobotCfg& r) { r.cmd[2] = 6; }, [](RobotCfg& r) { r.cmd[0] = -1; r.cmd[2] = 3; }, [](RobotCfg& r) { r.state = 5; }}; RobotCfg r; R[mc::choose(n)](r); return r; }
static void t06_single(int nlists, int nsens, int nrobots = 8, int npre = 7)
{
  TS t = make_ts("t0", mc::choose(4), mc::choose(2), mc::choose(2), 0); RobotCfg r = choose_robot(nrobots); r.pre = mc::choose(npre); r.sensors = mc::choose(nsens);
  t.ifaces = {LISTS[mc::choose(nlists)]}; if (t.cfg.dim() == 2) { const int o = mc::choose(4); t.swapj = o & 1; t.swapa = o & 2; if (t.cfg.t == DIFF) t.cfg.ignore = r.sensors && mc::flip(); } else t.broken = mc::flip();
  t06_run({t}, r, mc::choose(2) * 2);
}
static void t06_lists()                                     // different interfaces of the joints of one transmission
{
  TS t = make_ts("t0", 1 + mc::choose(2), 0, 0, 0); t.ifaces = {choose_list(2, 4), choose_list(2, 4)}; for (auto& l : t.ifaces) l.insert(l.begin(), mc::choose(3) + 1);
  t06_run({t}, RobotCfg(), 0);
}
static void t06_pair(int nlists, int nrobots, bool third, bool full)
{
  RobotCfg r = choose_robot(nrobots); r.sensors = full ? 4 * mc::choose(2) : 4; const int own = mc::choose(full && !third ? 3 : 2); r.pre = own == 1 ? 2 : own == 2 ? 4 : 0;
  std::vector<TS> ts; const int n = third ? 3 : 2;
  static const std::vector<std::vector<int>> L = {{1}, {4}, {0}, {2, 3}, {0, 2}, {1, 7}, {5, 6}, {7}};
  for (int i = 0; i < n; ++i)
  {
    const int type = mc::choose(third ? 2 : 4), where = mc::choose(third ? 2 : 3); TS t = make_ts(i && mc::flip() ? ts[i - 1].name : "t" + istr(2 - i), type, i ? where : 0, i ? (third ? where : mc::choose(2)) : 0, i % 2);
    t.ifaces = {L[mc::choose(nlists)]}; if (t.cfg.dim() == 2 && full && !third) t.swapj = mc::flip();
    ts.push_back(t);
  }
  t06_run(ts, r, full && !third ? mc::choose(4) : 2 * mc::choose(2));
}
static void t06_each(bool coupled)                          // two transmissions through any one interface each
{
  std::vector<TS> ts; static const std::vector<std::vector<int>> PL = {{0, 0}, {1, 0}, {1, 1}, {2, 2}};
  const auto& pl = PL[mc::choose(4)]; const bool same = mc::flip(); const int kind = coupled ? mc::choose(3) : 0;
  for (int i = 0; i < 2; ++i)
  {
    TS t = make_ts(i && !same ? "t1" : "t0", kind, i ? pl[0] : 0, i ? pl[1] : 0, i);
    t.ifaces = {{mc::choose(7)}}; ts.push_back(t);
  }
  RobotCfg r; r.sensors = 4 * mc::choose(2);
  t06_run(ts, r, mc::choose(2) * 2);
}
static void t06_other()
{
  declare(); const int c = mc::choose(6); Bot b{RobotCfg()}; bool threw = false; std::string what; bool res = false;
  try
  {
    if (c < 3) { what = "a loader without a robot or transmissions"; TransmissionInterfaceLoader l(c & 1 ? nullptr : &b.hw, c & 2 || !c ? nullptr : &b.rt); }
    else { what = "loading nothing"; TransmissionInterfaceLoader l(&b.hw, &b.rt); res = c == 3 ? l.load("<robot/>") : c == 4 ? l.load("<robot><transmission/></robot>") : l.load("nonsense"); }
  }
  catch (const std::invalid_argument&) { threw = true; }
  mc::note("%s %d", what.c_str(), c); mc::state(c); mc::outcome(c);
  if (threw != (c < 3)) mc::fail("T06", "invalid-argument", what + (threw ? ": refused" : ": accepted"));
  if (res) mc::fail("T06", "load-succeeded", "loading a description without transmissions succeeds");
}

// many elements: transmissions with many joints and actuators, some spoilt
static void t04_crowd()
{
  std::vector<ET> want; std::string x; const int n = 12, a = mc::choose(4), b = mc::choose(5), c = mc::choose(n + 1), d = mc::choose(13);
  for (int i = 0; i < n; ++i)
  {
    std::vector<int> js, as; for (int k = 0; k < 1 + (i * a + b) % 6; ++k) js.push_back(k == 3 ? 3 : 0); for (int k = 0; k < 1 + (i + a * b) % 5; ++k) as.push_back(0);
    if (i == c) { if (js.size() > as.size()) js.back() = d % 11; else as.back() = d % 7; }
    x += transmission(i, i == c && d == 11 ? 1 : 0, i == c && d == 12 ? 1 : 0, js, as, (i + b) % 3, want);
    if (i % 3 == a) x += "<link name=\"l\"/>text<!-- c -->";
  }
  t04_check("<robot>" + x + "</robot>", want, mc::flip());
}
// up to eight transmissions one after another, on eight joints and actuators
static void t06_crowd(bool thorough)
{
  NJ = 8; RobotCfg r; r.sensors = 4 * mc::choose(2); r.pre = 2 * mc::choose(2);
  const int n = 1 + mc::choose(8), types = mc::choose(4), lists = mc::choose(4), shift = mc::choose(3), bad = thorough ? mc::choose(n + 1) : n - mc::choose(2);
  static const std::vector<std::vector<int>> L = {{1}, {0}, {2, 3}, {4}, {1, 2}, {5, 6}};
  std::vector<TS> ts; int j = 0;
  for (int i = 0; i < n; ++i)
  {
    int type = types == 3 ? i % 3 : types; if (j >= 8 || (type && j == 7)) { if (j >= 8) break; type = 0; }
    TS t = make_ts((i % 2 ? "left_" : "transmission_") + istr(10 - i), type, j, (j + shift) % 8, i % 2); j += t.cfg.dim();
    t.ifaces = {L[lists == 3 ? i % 6 : lists == 0 ? 0 : (lists + i / 2) % 6]}; if (i == bad) { t.type = 3; t.cfg.t = SIMPLE; t.joints.resize(1); t.acts.resize(1); t.cfg.ar.resize(1); t.cfg.off.resize(1); } t.swapj = t.cfg.dim() == 2 && i % 3 == 1; t.swapa = t.cfg.dim() == 2 && i % 3 == 2;
    ts.push_back(t);
  }
  t06_run(ts, r, mc::choose(4));
  NJ = 3;
}

int main(int argc, char** argv)
{
  mc::init(argc, argv);
  const bool T = mc::thorough();
  if (mc::wants({"T04"}))
  {
    mc::explore("one transmission, its head", [T] { t04_single(true, 1, 3); });
    mc::explore("one transmission, its joints and actuators", [T] { t04_single(false, T ? 3 : 2, T ? 1 : 3); });
    mc::explore("several elements", [T] { t04_many(T ? 4 : 3); });
    mc::explore("many elements", [] { t04_crowd(); });
    mc::explore("truncated descriptions", [] { t04_text(BASE.substr(0, mc::choose(static_cast<int>(BASE.size()) + 1))); });
    mc::explore("descriptions with a character changed", [T] { std::string x = BASE; static const std::string C = "<>/\"'=&!-? ax"; for (int n = 0; n < (T ? 2 : 1); ++n) { const size_t p = mc::choose(static_cast<int>(x.size())); const int c = mc::choose(static_cast<int>(C.size()) + 1); if (c == static_cast<int>(C.size())) x.erase(p, 1); else x[p] = C[c]; } t04_text(x); });
    mc::explore("short texts", [T] { static const std::string C = "<>/a\"=!-?[ &"; std::string x; const int n = mc::choose(T ? 7 : 6); for (int i = 0; i < n; ++i) x += C[mc::choose(static_cast<int>(C.size()))]; t04_text(x); });
  }
  if (mc::wants({"T05"}))
  {
    mc::explore("numbers of joints and actuators", [] { t05_counts(); });
    mc::explore("simple", [] { t05_simple(); });
    for (int t : {1, 2})
    {
      mc::explore(std::string(TN[t]) + ": actuators", [t] { t05_actuators(t); });
      mc::explore(std::string(TN[t]) + ": joints", [t, T] { t05_joints(t, T); });
    }
  }
  if (mc::wants({"T06"}))
  {
    mc::explore("no robot, no transmissions", [] { t06_other(); });
    mc::explore("one transmission", [T] { t06_single(T ? 20 : 12, T ? 5 : 1); });
    mc::explore("absolute encoders and torque sensors", [] { t06_single(2, 5, 1, 2); });
    mc::explore("joints with different interfaces", [] { t06_lists(); });
    mc::explore("two transmissions", [T] { t06_pair(T ? 5 : 4, T ? 2 : 1, false, T); });
    mc::explore("two transmissions through one interface each", [T] { t06_each(T); });
    mc::explore("many transmissions", [T] { t06_crowd(T); });
    if (T) mc::explore("three transmissions", [] { t06_pair(3, 1, true, true); });
  }
  return mc::finish();
}
