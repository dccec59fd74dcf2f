// All interleavings, up to a preemption bound, of the real ControllerManager: a cycling control loop and service/API calls of other threads (C08, C09, C10; parts of C01, C06).
// controller_manager.cpp is compiled with ThreadSanitizer instrumentation whose run-time is sched.h: atomics, locks and callbacks are scheduling points, all accesses feed a happens-before race detector.
#define CM_CONC
#include "cm_common.h"

using namespace cmx;
typedef hardware_interface::RobotHW::SwitchState SS;

int user_looks_at(controller_interface::ControllerBase* c);

namespace
{
struct Op { enum K { LOAD, UNLOAD, SWITCH, LIST, RELOAD, LOOKUP, TYPES } k; std::string n; Req r; bool service = false, force = false; };
Op load(const std::string& n, bool srv = false) { Op o{Op::LOAD}; o.n = n; o.service = srv; return o; }
Op unload(const std::string& n, bool srv = false) { Op o{Op::UNLOAD}; o.n = n; o.service = srv; return o; }
Op lookup(const std::string& n, bool look = false) { Op o{Op::LOOKUP}; o.n = n; o.force = look; return o; }
Op list() { Op o{Op::LIST}; o.service = true; return o; }
Op types() { Op o{Op::TYPES}; o.service = true; return o; }
Op reload(bool force) { Op o{Op::RELOAD}; o.service = true; o.force = force; return o; }
Op sw(Strs start, Strs stop, bool srv = false, int strict = 2, bool asap = false, double timeout = 0) { Op o{Op::SWITCH}; o.r = Req{start, stop, strict, asap, timeout}; o.service = srv; return o; }
std::string show(const Op& o)
{
  static const char* const k[] = {"load", "unload", "switch", "list", "reload", "lookup", "types"};
  std::string s = k[o.k]; if (!o.n.empty()) s += " " + o.n; if (o.k == Op::SWITCH) s += " " + cmx::show(o.r); if (o.k == Op::RELOAD && o.force) s += " forced"; if (o.service) s += " (service)";
  return s;
}

enum Answers { DONE_, ONGOING_, ANY_, NEVER_ };
struct Scn
{
  std::string name; const char* props;        // properties this scenario speaks about
  Strs loaded, running; bool warm;            // warm: the control loop has already run
  std::vector<std::vector<Op>> threads;
  Answers answers = DONE_; bool reset = false, clock = false, shutdown = false, lin = true; int budget = 2, deep = 3;
};

struct Rec { Op op; int inv = 0, resp = 0; bool ok = false; int fiber = -1; int64_t wall = 0; std::vector<std::pair<std::string, std::string>> listing; };

struct World
{
  Env e; Hw hw; std::unique_ptr<controller_manager::ControllerManager> cm; const Scn& sc;
  std::vector<Rec> recs; int running_ops = 0; int cycles = 0, answers_left = 2, resets_left = 0;
  bool in_reset_phase = false; bool down = false; int64_t jumped = 0;
  std::map<int, std::vector<std::pair<int, St>>> hist;       // uid -> (step from which, state)

  explicit World(const Scn& s) : sc(s)
  {
    env() = &e;
    ros::stub::params().clear(); ros::stub::services().clear(); ros::stub::now_ns = 1000000000000LL; ros::stub::ok_fn = nullptr;
    auto& decl = pluginlib::stub::declared()["controller_interface::ControllerBase"];
    decl.clear();
    decl.push_back({"t/ok", [] () -> void* { CMX_IGNORE; return static_cast<controller_interface::ControllerBase*>(new Ctl); }});
    cm.reset(new controller_manager::ControllerManager(&hw, ros::NodeHandle()));
    int i = 0;
    for (const char* n : {"a", "b", "c"}) { e.cfg[n].a = {std::string("r") + char('1' + i++)}; ros::stub::params()[std::string("/") + n + "/type"] = ros::stub::Param::Str("t/ok"); }
    e.cfg["c"].a = {"r1"};                    // conflicts with a
    e.answer_all = [this] { return answer(); };
    e.answer_one = [this](const std::string&) { return answer(); };
    sched::s().off_sleep = [this](int64_t) { cycle(false); };
    e.log_on = false;
    for (auto& n : sc.loaded) if (!cm->loadController(n)) abort();
    if (!sc.running.empty()) { if (!cm->switchController(sc.running, {}, 2)) abort(); }
    if (sc.warm) cycle(false);
    e.log_on = true; sched::s().off_sleep = nullptr; ros::stub::on_sleep = [](int64_t) { sched::sleep_now(); };
  }
  ~World() { sched::s().off_sleep = nullptr; ros::stub::on_sleep = nullptr; ros::stub::ok_fn = nullptr; e.log_on = false; cm.reset(); env() = nullptr; }

  SS answer()
  {
    if (!sched::s().on) return SS::DONE;
    if (sc.answers == NEVER_) return SS::ONGOING;
    if (sc.answers == DONE_ || answers_left <= 0) return SS::DONE;
    const int c = mc::choose(sc.answers == ONGOING_ ? 2 : 3);
    --answers_left;
    mc::note("    hardware answers %s", c == 0 ? "DONE" : c == 1 ? "ONGOING" : "ERROR");
    return c == 0 ? SS::DONE : c == 1 ? SS::ONGOING : SS::ERROR;
  }
  static St raw(Ctl* c)
  {
    typedef controller_interface::ControllerBase::ControllerState S;
    const S s = static_cast<S>(c->state_);
    return s == S::INITIALIZED ? INIT : s == S::RUNNING ? RUN : s == S::STOPPED ? STOP : s == S::WAITING ? WAIT : ABORT;
  }
  void record_state()
  {
    uint64_t key = cycles * 64 + recs.size() * 8 + e.log.size() % 8;
    for (int i = 0; i < sched::s().n; ++i) key = key * 31 + sched::s().f[i].st;
    for (auto& c : e.ctl) key = mc::mix(key, c.first * 8 + raw(c.second));
    for (auto& r : recs) key = key * 3 + (r.resp != 0) + r.ok;
    mc::state(key);
  }
  void sample()
  {
    if (in_reset_phase) return;
    for (auto& c : e.ctl)
    {
      auto& h = hist[c.first]; const St st = raw(c.second);
      if (h.empty() || h.back().second != st) h.push_back({sched::s().steps, st});
    }
  }
  void cycle(bool reset)
  {
    ros::stub::now_ns += 500000000LL; ++cycles;
    const size_t from = e.log.size();
    std::map<int, int> upd; for (auto& c : e.ctl) if (raw(c.second) == RUN) upd[c.first] = 0;
    sample();
    in_reset_phase = reset; e.in_cycle = true;
    if (mc::tracing()) mc::note("  [%d] control loop: cycle %d%s", sched::s().steps, cycles, reset ? " with reset" : "");
    { sched::Code code; cm->update(ros::Time().fromNSec(ros::stub::now_ns), ros::Duration(0.5), reset); }
    in_reset_phase = false; e.in_cycle = false;
    sample(); record_state();
    if (!e.log_on) return;
    for (size_t i = from; i < e.log.size(); ++i) if (e.log[i].kind == E_UPDATE) { auto it = upd.find(e.log[i].uid); if (it == upd.end()) { bad({"C01", "C08"}, "update-not-running", "the control loop updates " + e.log[i].who + " which is not running"); return; } ++it->second; }
    for (auto& u : upd) if (u.second != 1) bad({"C01", "C06", "C09"}, "update-count", e.uid_name[u.first] + " was running but was updated " + std::to_string(u.second) + " times in a cycle");
  }
  void bad(std::initializer_list<const char*> props, const std::string& sig, const std::string& msg)
  {
    for (auto p : props) if (mc::selected(p)) { mc::fail(p, sig, msg); break; }
    sched::s().stop = true;
  }
  Rec& begin(const Op& o) { Rec r; r.op = o; r.inv = sched::s().steps; r.fiber = sched::s().cur; r.wall = sched::s().wall; recs.push_back(r); if (mc::tracing()) mc::note("  [%d] %s: %s", r.inv, sched::me().name.c_str(), show(o).c_str()); return recs.back(); }
  void exec(const Op& o)
  {
    const size_t k = recs.size(); begin(o);
    bool ok = false; std::vector<std::pair<std::string, std::string>> listing;
    namespace msgs = controller_manager_msgs;
    switch (o.k)
    {
      case Op::LOAD:
        if (o.service) { msgs::LoadController::Request q; msgs::LoadController::Response s; q.name = o.n; { sched::Code c; call<msgs::LoadController>("load_controller", q, s); } ok = s.ok; }
        else { sched::Code c; ok = cm->loadController(o.n); }
        break;
      case Op::UNLOAD:
        if (o.service) { msgs::UnloadController::Request q; msgs::UnloadController::Response s; q.name = o.n; { sched::Code c; call<msgs::UnloadController>("unload_controller", q, s); } ok = s.ok; }
        else { sched::Code c; ok = cm->unloadController(o.n); }
        break;
      case Op::SWITCH:
        if (o.service)
        {
          msgs::SwitchController::Request q; msgs::SwitchController::Response s;
          q.start_controllers = o.r.start; q.stop_controllers = o.r.stop; q.strictness = o.r.strict; q.start_asap = o.r.asap; q.timeout = o.r.timeout;
          { sched::Code c; call<msgs::SwitchController>("switch_controller", q, s); } ok = s.ok;
        }
        else { sched::Code c; ok = cm->switchController(o.r.start, o.r.stop, o.r.strict, o.r.asap, o.r.timeout); }
        break;
      case Op::LIST:
      {
        msgs::ListControllers::Request q; msgs::ListControllers::Response s;
        { sched::Code c; call<msgs::ListControllers>("list_controllers", q, s); }
        for (auto& c : s.controller)
        {
          listing.push_back({c.name, c.state});
          Claims cl; for (auto& r : c.claimed_resources) for (auto& x : r.resources) cl[r.hardware_interface].insert(x);
          Claims want; for (auto& r : e.cfg[c.name].a) want[type_name<IfA>()].insert(r); for (auto& r : e.cfg[c.name].b) want[type_name<IfB>()].insert(r);
          for (auto it = cl.begin(); it != cl.end();) if (it->second.empty()) it = cl.erase(it); else ++it;
          if (c.type != "t/ok" || cl != want) bad({"C09"}, "listing-torn", "the listing reports " + c.name + " with type " + c.type + " and claims " + cmx::show(cl));
        }
        ok = true;
        break;
      }
      case Op::RELOAD: { msgs::ReloadControllerLibraries::Request q; msgs::ReloadControllerLibraries::Response s; q.force_kill = o.force; { sched::Code c; call<msgs::ReloadControllerLibraries>("reload_controller_libraries", q, s); } ok = s.ok; break; }
      case Op::TYPES:
      {
        msgs::ListControllerTypes::Request q; msgs::ListControllerTypes::Response s; { sched::Code c; call<msgs::ListControllerTypes>("list_controller_types", q, s); }
        for (auto& t : s.types) listing.push_back({t, s.base_classes.size() == s.types.size() ? s.base_classes[listing.size()] : "?"});
        ok = true; break;
      }
      case Op::LOOKUP: { sched::Code c; controller_interface::ControllerBase* p = cm->getControllerByName(o.n); ok = p != nullptr; if (p && o.force) user_looks_at(p); break; }
    }
    sample(); record_state();
    Rec& r = recs[k]; r.ok = ok; r.listing = listing; r.resp = ++sched::s().steps; r.wall = sched::s().wall - r.wall;
    if (mc::tracing()) { std::string l; for (auto& x : listing) l += " " + x.first + "=" + x.second; mc::note("  [%d] %s: %s -> %d%s", r.resp, sched::me().name.c_str(), show(o).c_str(), ok, l.c_str()); }
  }
  template <class S> void call(const char* n, typename S::Request& q, typename S::Response& s)
  {
    if (!ros::stub::call<S>(std::string("/controller_manager/") + n, q, s)) bad({"C08", "C09"}, "service-failed", std::string("service ") + n + " failed");
  }

  // ---- the scenario
  void go()
  {
    sched::reset();
    sched::S& x = sched::s();
    x.violation = [this](const std::string& sig, const std::string& msg)
    {
      if (sig == "never-returns") bad({"C08", "C09", "C10"}, sig, msg);
      else if (sig == "use-after-free") bad({"C08", "C06"}, sig, msg);
      else bad({"C08"}, sig, msg);
    };
    x.on_step = [this] { sample(); };
    x.idle = [this] { if (!sc.clock || jumped >= 2) return false; ++jumped; sched::s().wall += 100LL * 1000000000LL; ros::stub::now_ns += 100LL * 1000000000LL; for (int i = 0; i < sched::s().n; ++i) ++sched::s().f[i].others; return true; };
    ros::stub::ok_fn = nullptr;
    running_ops = static_cast<int>(sc.threads.size());
    resets_left = sc.reset ? 2 : 0;
    sched::add("control loop", [this]
    {
      for (int i = 0, extra = 0; i < 60; ++i)
      {
        if (!running_ops && ++extra > 2) break;
        bool rst = false; if (resets_left > 0) { --resets_left; rst = mc::flip(); }
        cycle(rst);
        if (running_ops) sched::sleep_now();
      }
    }, true);
    for (size_t i = 0; i < sc.threads.size(); ++i)
      sched::add("thread " + std::to_string(i + 1), [this, i] { for (auto& o : sc.threads[i]) { exec(o); if (sc.threads[i].size() > 1) sched::yield_point(); } --running_ops; sched::changed(); });
    if (sc.clock) sched::add("clock", [this] { mc::note("  [%d] 100 s pass", sched::s().steps); sched::s().wall += 100LL * 1000000000LL; ros::stub::now_ns += 100LL * 1000000000LL; sched::changed(); });
    if (sc.shutdown) sched::add("shutdown", [this] { mc::note("  [%d] ROS shuts down", sched::s().steps); down = true; static World* w; w = this; ros::stub::ok_fn = [] { return !w->down; }; sched::changed(); });
    sample();
    if (!sched::run(mc::thorough() ? sc.deep : sched::racy()->n ? 1 : sc.budget)) return;
    if (!x.race_sig.empty() && mc::selected("C08")) { bad({"C08"}, x.race_sig, x.race_msg); return; }
    check();
  }

  bool has(const char* p) const { return std::string(sc.props).find(p) != std::string::npos; }
  void check()
  {
    std::string out;
    for (auto& r : recs) { out += r.ok ? "1" : "0"; for (auto& l : r.listing) out += l.first + l.second; out += ","; }
    for (auto& c : e.ctl) out += c.second->name + st_name[raw(c.second)];
    mc::outcome(out);
    for (auto& x : e.log)
    {
      const bool loop = x.fiber == 0;
      if ((x.kind == E_START || x.kind == E_STOP || x.kind == E_UPDATE || x.kind == E_WAIT || x.kind == E_ABORT || x.kind == E_DOSWITCH) && !loop) return bad({"C08", "C01"}, "callback-outside-loop", std::string(kind_name[x.kind]) + " of " + x.who + " outside the control loop");
      if (x.kind == E_DESTROY && loop) return bad({"C08", "C06"}, "destroy-in-loop", x.who + " is destroyed by the control loop");
    }
    for (auto& x : e.log) if (x.kind == E_DESTROY && x.fiber >= 0)
    {
      bool in_op = false; for (auto& r : recs) if (r.fiber == x.fiber && r.inv <= x.step && x.step <= r.resp) in_op = true;
      if (!in_op) return bad({"C06", "C08"}, "destroyed-late", x.who + " is destroyed outside any call");
    }
    check_listings();
    if (sched::s().stop) return;
    check_switches();
    if (sched::s().stop) return;
    if (sc.lin) check_linear();
  }
  void check_listings()
  {
    for (auto& r : recs) for (auto& l : r.listing)
    {
      bool found = false, any = false;
      for (auto& h : hist)
      {
        if (e.uid_name[h.first] != l.first) continue;
        for (size_t i = 0; i < h.second.size(); ++i)
        {
          const int b = h.second[i].first, end = i + 1 < h.second.size() ? h.second[i + 1].first : 1 << 30;
          if (b > r.resp || end < r.inv) continue;
          any = true; found |= l.second == st_name[h.second[i].second];
        }
      }
      if (any && !found) return bad({"C09"}, "listing-false-state", "a listing reports " + l.first + " as " + l.second + ", a state it did not have during the call");
    }
  }
  static std::vector<std::string> names(const std::vector<Info>& v) { Strs s; for (auto& i : v) s.push_back(i.first); return s; }
  // names started and stopped while a call was executing, apart from resets
  void check_switches()
  {
    std::vector<const Ev*> doing; for (auto& x : e.log) if (x.kind == E_DOSWITCH) doing.push_back(&x);
    std::set<const Ev*> used;
    for (auto& r : recs)
    {
      if (r.op.k != Op::SWITCH) continue;
      if (r.ok)
      {
        if (down) continue;
        // the hardware was told, within this call, about (a subset of) this request, and every one of them was carried out before the call returned
        const Ev* d = nullptr;
        for (auto x : doing)
        {
          if (used.count(x) || x->step < r.inv || x->step > r.resp) continue;
          bool fits = true;
          for (auto& n : names(x->l1)) fits &= Model::in(r.op.r.start, n);
          for (auto& n : names(x->l2)) fits &= Model::in(r.op.r.stop, n);
          if (r.op.r.strict == 2) fits &= names(x->l1).size() == r.op.r.start.size() && names(x->l2).size() == r.op.r.stop.size();
          if (fits) { d = x; break; }
        }
        if (!d) return bad({"C09", "C04"}, "success-without-switch", show(r.op) + " reported success but the hardware was not told to carry it out during the call");
        used.insert(d);
        for (auto& n : names(d->l1)) if (!happened(n, r, {E_START, E_ABORT}, d->step)) return bad({"C09", "C02"}, "success-too-early", show(r.op) + " reported success before " + n + " was started or aborted");
        for (auto& n : names(d->l2)) if (!happened(n, r, {E_STOP}, d->step)) return bad({"C09", "C02"}, "success-too-early", show(r.op) + " reported success before " + n + " was stopped");
      }
      else if (r.op.r.timeout > 0 || down)
      {
        // gave up (or was refused): nothing may happen afterwards on its account
        bool prepared = false; for (auto& x : e.log) prepared |= x.kind == E_PREPARE && x.fiber == r.fiber && x.step >= r.inv && x.step <= r.resp;
        if (prepared && !down && r.wall < static_cast<int64_t>((r.op.r.timeout + 1.0) * 1e9)) return bad({"C10"}, "gave-up-early", show(r.op) + " gave up too early");
        int until = 1 << 30; for (auto& o : recs) if (&o != &r && (o.op.k == Op::SWITCH || o.op.k == Op::RELOAD) && o.resp > r.resp && o.inv < until) until = o.inv;
        for (auto& x : e.log)
          if (x.step > r.resp && x.step < until && (x.kind == E_START || x.kind == E_STOP || x.kind == E_WAIT || x.kind == E_ABORT || x.kind == E_DOSWITCH))
            return bad({"C10", "C09"}, "late-effect", show(r.op) + " gave up, and after that: " + kind_name[x.kind] + " " + x.who);
      }
      else
      {
        bool prepared = false; for (auto& x : e.log) prepared |= x.kind == E_PREPARE && x.ok && x.fiber == r.fiber && x.step >= r.inv && x.step <= r.resp;
        if (prepared) return bad({"C10", "C09"}, "gave-up-without-timeout", show(r.op) + " failed although the robot prepared it and no timeout was set");
      }
    }
    if (!down)
    {
      for (auto x : doing) if (!used.count(x))
      {
        bool excused = false;                                   // a request that timed out, or the stop of a forced reload
        for (auto& r : recs) if ((r.op.k == Op::RELOAD || (r.op.k == Op::SWITCH && !r.ok && r.op.r.timeout > 0)) && x->step >= r.inv && x->step <= r.resp) excused = true;
        if (!excused) return bad({"C09", "C10", "C04"}, "doSwitch-unasked", "the hardware is told to switch (start " + cmx::show(x->l1) + " stop " + cmx::show(x->l2) + ") for no accepted request");
      }
    }
  }
  bool happened(const std::string& n, const Rec& r, std::initializer_list<Kind> ks, int from)
  {
    for (auto& x : e.log) if (x.who == n && x.step >= from && x.step <= r.resp) for (auto k : ks) if (x.kind == k) return true;
    return false;
  }

  // ---- linearizability: some order of the calls, respecting real time, explains every result
  bool step(Model& m, const Rec& r)
  {
    switch (r.op.k)
    {
      case Op::LOAD:
      {
        const bool want = !m.find(r.op.n); if (r.ok != want) return false;
        if (want) { MCtl c; c.name = r.op.n; for (auto& x : e.cfg[c.name].a) c.claims[type_name<IfA>()].insert(x); m.loaded.push_back(c); }
        return true;
      }
      case Op::UNLOAD:
      {
        MCtl* c = m.find(r.op.n); const bool want = c && c->st != RUN; if (r.ok != want) return false;
        if (want) m.loaded.erase(m.loaded.begin() + (c - &m.loaded[0]));
        return true;
      }
      case Op::SWITCH:
      {
        Verdict v = m.judge(r.op.r);
        if (r.op.r.timeout > 0 && !r.ok) return true;
        if (r.ok != (!v.refused && !v.conflict)) return false;
        if (!r.ok) return true;
        for (auto& n : v.start) m.find(n)->st = happened(n, r, {E_START}, r.inv) ? RUN : ABORT;
        for (auto& n : v.stop) m.find(n)->st = STOP;
        return true;
      }
      case Op::LIST:
      {
        if (r.listing.size() != m.loaded.size()) return false;
        for (size_t i = 0; i < m.loaded.size(); ++i) if (r.listing[i].first != m.loaded[i].name) return false;
        return true;
      }
      case Op::RELOAD:
        if (r.op.force) { if (!r.ok) return false; m.loaded.clear(); return true; }
        return r.ok == m.loaded.empty();
      case Op::TYPES: return r.listing.size() == 1 && r.listing[0].first == "t/ok" && r.listing[0].second == "controller_interface::ControllerBase";
      case Op::LOOKUP: return r.ok == (m.find(r.op.n) != nullptr);
    }
    return false;
  }
  bool search(const Model& m, unsigned done)
  {
    if (done == (1u << recs.size()) - 1) return final_ok(m);
    for (size_t i = 0; i < recs.size(); ++i)
    {
      if (done >> i & 1) continue;
      bool first = true; for (size_t j = 0; j < recs.size(); ++j) if (!(done >> j & 1) && j != i && recs[j].resp < recs[i].inv) first = false;
      if (!first) continue;
      Model n = m; if (step(n, recs[i]) && search(n, done | 1u << i)) return true;
    }
    return false;
  }
  std::map<std::string, St> fin;
  bool final_ok(const Model& m)
  {
    if (m.loaded.size() != fin.size()) return false;
    for (auto& c : m.loaded) { auto it = fin.find(c.name); if (it == fin.end() || it->second != c.st) return false; }
    return true;
  }
  void check_linear()
  {
    Model m; for (auto& n : sc.loaded) { MCtl c; c.name = n; for (auto& x : e.cfg[n].a) c.claims[type_name<IfA>()].insert(x); c.st = Model::in(sc.running, n) ? RUN : INIT; m.loaded.push_back(c); }
    controller_manager_msgs::ListControllers::Request q; controller_manager_msgs::ListControllers::Response s;
    ros::stub::call<controller_manager_msgs::ListControllers>("/controller_manager/list_controllers", q, s);
    std::string end;
    for (auto& c : s.controller) { for (int k = 0; k < 5; ++k) if (c.state == st_name[k]) fin[c.name] = static_cast<St>(k); end += " " + c.name + "=" + c.state; }
    if (search(m, 0)) return;
    std::string all; for (auto& r : recs) all += "; " + show(r.op) + " -> " + (r.ok ? "ok" : "failed");
    bad({"C09"}, "not-linearizable", "no order of the calls explains their results" + all + "; finally:" + end);
  }
};

std::vector<Scn> scenarios()
{
  std::vector<Scn> v;
  auto add = [&](const char* name, const char* props, Strs loaded, Strs running, bool warm, std::vector<std::vector<Op>> t) -> Scn& { Scn s; s.name = name; s.props = props; s.loaded = loaded; s.running = running; s.warm = warm; s.threads = t; v.push_back(s); return v.back(); };
  add("first cycle, load", "C08 C09 C01 C06", {"a"}, {}, false, {{load("b")}});
  add("first cycle, load load", "C08 C09", {}, {}, false, {{load("a"), load("b")}});
  add("first cycle, unload", "C08 C09", {"a", "b"}, {}, false, {{unload("a")}});
  add("load", "C08 C09 C01 C06", {"a"}, {"a"}, true, {{load("b"), unload("b")}});
  { Scn& s = add("load load", "C08 C09 C06", {"a"}, {"a"}, true, {{load("b")}, {load("c", true)}}); s.budget = 1; s.deep = 2; }
  add("load same", "C08 C09 C06", {}, {}, true, {{load("a")}, {load("a", true)}});
  add("unload same", "C08 C09 C06", {"a", "b"}, {"b"}, true, {{unload("a")}, {unload("a", true)}});
  { Scn& s = add("load, unload", "C08 C09 C06", {"a", "b"}, {"b"}, true, {{unload("a")}, {load("c", true)}}); s.budget = 1; s.deep = 2; }
  { Scn& s = add("unload, load again", "C08 C09", {"a"}, {}, true, {{unload("a"), load("a")}, {lookup("a"), list()}}); s.deep = 2; }
  add("switch, list", "C08 C09", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"})}, {list()}});
  add("switch, lookup", "C08 C09", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"})}, {lookup("b", true)}});
  { Scn& s = add("switch, switch", "C08 C09 C01", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"})}, {sw({"a"}, {"b"}, true, 1)}}); s.budget = 1; s.deep = 2; }
  add("switch, same switch", "C08 C09", {"a"}, {}, true, {{sw({"a"}, {})}, {sw({"a"}, {}, true)}});
  add("switch, conflict", "C08 C09", {"a", "c"}, {}, true, {{sw({"a"}, {})}, {sw({"c"}, {}, true)}});
  add("switch, unload", "C08 C09 C06", {"a", "b"}, {"b"}, true, {{sw({"a"}, {}, true)}, {unload("a")}});
  { Scn& s = add("stop, unload", "C08 C09 C06", {"a", "b"}, {"a", "b"}, true, {{sw({}, {"a"}, true)}, {unload("a"), list()}}); s.budget = 1; s.deep = 2; }
  { Scn& s = add("switch, load", "C08 C09 C01", {"a"}, {"a"}, true, {{sw({}, {"a"}, true)}, {load("b")}}); s.budget = 1; s.deep = 2; }
  { Scn& s = add("two switches in turn", "C08 C09 C01", {"a", "b"}, {}, true, {{sw({"a"}, {}), sw({"b"}, {"a"})}, {list()}}); s.budget = 1; s.deep = 2; }
  { Scn& s = add("busy hardware", "C08 C09 C01", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"})}, {list()}}); s.answers = ONGOING_; s.budget = 1; s.deep = 2; }
  { Scn& s = add("busy hardware, asap", "C08 C09", {"a", "b"}, {}, true, {{sw({"a", "b"}, {}, true, 2, true)}, {list()}}); s.answers = ONGOING_; s.budget = 1; s.deep = 2; }
  { Scn& s = add("failing hardware", "C08 C09", {"a", "b"}, {}, true, {{sw({"a", "b"}, {}, true, 2, true)}, {unload("a")}}); s.answers = ANY_; s.budget = 1; s.deep = 2; }
  { Scn& s = add("reset, list", "C08 C09 C01", {"a", "b"}, {"a"}, true, {{list(), list()}}); s.reset = true; }
  { Scn& s = add("reset, unload", "C08 C09 C06", {"a", "b"}, {"a"}, true, {{unload("a")}, {unload("b", true)}}); s.reset = true; s.budget = 1; s.deep = 2; }
  { Scn& s = add("reset, switch", "C08 C09", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"})}}); s.reset = true; }
  { Scn& s = add("reset, strict start of a running controller", "C09", {"a"}, {"a"}, true, {{sw({"a"}, {})}, {sw({}, {"a"}, true)}}); s.reset = true; }
  { Scn& s = add("reload, load", "C08 C09", {"a"}, {"a"}, true, {{reload(true)}, {load("b")}}); s.budget = 1; s.deep = 2; }
  add("reload, load nothing", "C08 C09", {}, {}, true, {{reload(false)}, {load("b")}});
  { Scn& s = add("reload, switch", "C08 C09", {"a", "b"}, {"a"}, true, {{reload(true)}, {sw({"b"}, {})}}); s.budget = 1; s.deep = 2; }
  { Scn& s = add("reload, unload", "C08 C09", {"a", "b"}, {"a"}, true, {{reload(true)}, {unload("b")}}); s.budget = 1; s.deep = 2; }
  { Scn& s = add("reload, types", "C08 C09", {"a"}, {}, true, {{reload(true)}, {types()}}); s.budget = 1; s.deep = 2; }
  { Scn& s = add("reload, list", "C08 C09", {"a", "b"}, {"a"}, true, {{reload(true)}, {list()}}); s.budget = 1; s.deep = 2; }
  { Scn& s = add("reload, lookup", "C08 C09", {"a"}, {}, true, {{reload(true)}, {lookup("a")}}); s.budget = 1; s.deep = 2; }
  add("load, types", "C08 C09", {}, {}, true, {{load("a")}, {types()}});
  { Scn& s = add("three threads", "C08 C09", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"}, true)}, {unload("a")}, {load("c")}}); s.budget = 1; s.deep = 1; }
  { Scn& s = add("shutdown, load", "C08", {"a"}, {"a"}, true, {{load("b"), unload("b")}}); s.shutdown = true; s.lin = false; }
  { Scn& s = add("shutdown, unload", "C08", {"a", "b"}, {"b"}, true, {{unload("a")}, {load("c", true)}}); s.shutdown = true; s.lin = false; s.budget = 1; s.deep = 2; }
  { Scn& s = add("shutdown, switch", "C08 C10", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"})}}); s.shutdown = true; s.lin = false; }
  { Scn& s = add("shutdown, switch, unload", "C08 C10", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"}), unload("a")}}); s.shutdown = true; s.lin = false; s.answers = NEVER_; }
  { Scn& s = add("timeout", "C08 C10", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"}, false, 2, false, 2.0)}}); s.clock = true; s.lin = false; }
  { Scn& s = add("timeout, busy hardware", "C08 C10", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"}, false, 2, false, 2.0)}}); s.clock = true; s.lin = false; s.answers = ONGOING_; }
  { Scn& s = add("timeout, busy hardware, asap", "C08 C10", {"a", "b"}, {}, true, {{sw({"a", "b"}, {}, false, 2, true, 2.0)}}); s.clock = true; s.lin = false; s.answers = ONGOING_; s.budget = 1; s.deep = 2; }
  { Scn& s = add("timeout, next switch", "C08 C10", {"a", "b"}, {}, true, {{sw({"a"}, {}, false, 2, false, 2.0), sw({"b"}, {}, false, 2)}}); s.clock = true; s.lin = false; }
  { Scn& s = add("timeout, unload", "C08 C10", {"a", "b"}, {}, true, {{sw({"a"}, {}, false, 2, false, 2.0), unload("a")}}); s.clock = true; s.lin = false; }
  { Scn& s = add("timeout, unload by another", "C08 C10", {"a", "b"}, {}, true, {{sw({"a"}, {}, false, 2, false, 2.0)}, {unload("a")}}); s.clock = true; s.lin = false; s.budget = 1; s.deep = 2; }
  { Scn& s = add("no timeout", "C08 C10", {"a", "b"}, {"a"}, true, {{sw({"b"}, {"a"})}}); s.clock = true; s.lin = false; }
  return v;
}
}

int main(int argc, char** argv)
{
  mc::init(argc, argv);
  for (auto& sc : scenarios())
  {
    if (mc::g().prop != "all" && std::string(sc.props).find(mc::g().prop) == std::string::npos) continue;
    if (const char* only = getenv("MC_ONLY")) if (sc.name.find(only) == std::string::npos) continue;
    auto body = [&sc]
    {
      World* w = new World(sc);
      w->go();
      if (!sched::s().stop) { delete w; }
      sched::reset();
    };
    // racy accesses found in one pass are scheduling points in the next
    std::string name = sc.name;
    if (mc::g().replaying)
    {
      const std::string& r = mc::g().replay_family; const size_t at = r.find("@racy=");
      if (r.substr(0, at) != sc.name) continue;
      sched::racy_set(at == std::string::npos ? "" : r.substr(at + 6)); mc::explore(r, body); continue;
    }
    sched::racy_set("");
    for (int pass = 0; pass < 3; ++pass)
    {
      mc::explore(name, body, pass ? 400000 : 0);
      if (!mc::g().violations.empty() || !mc::g().error.empty() || !sched::racy_grow()) break;
      name = sc.name + "@racy=" + sched::racy_name();
    }
  }
  return mc::finish();
}
