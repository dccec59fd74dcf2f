// Exhaustive sequential exploration of the real ControllerManager against a reference model (C01-C07, C10, C11).
// One thread: every wait of a service call runs the next control cycle, whose environment (time step, reset, hardware answers) is chosen by the explorer.
#include "../mc/mc.h"
#include "timehook.h"
#include "cm_common.h"

using namespace cmx;
typedef hardware_interface::RobotHW::SwitchState SS;

namespace
{
struct Abandon {};
typedef std::initializer_list<const char*> Tags;

struct Step { bool cycle = true; int64_t dt = 500000000LL; bool reset = false; int64_t wall = 100000; };

struct Pending
{
  bool active = false, told = false;
  Verdict v; Req r; int64_t init = 0;
  std::set<std::string> undecided;
};

struct World
{
  Env e; Hw hw; std::unique_ptr<controller_manager::ControllerManager> cm; Model m; Pending p;
  bool open_request = false; Req open_req; Verdict open_v; bool reload_request = false;
  std::function<Step()> next_step;
  int waits = 0, idle_waits = 0; bool cycles_in_op = false;
  int64_t wall0 = 0, seq = 0;
  std::map<std::string, SS> memo; SS memo_all = SS::DONE; bool memo_all_set = false;
  std::function<SS()> gen_all; std::function<SS(const std::string&)> gen_one; std::function<bool()> gen_prepare;
  bool prepare_answer = true;
  Strs all_names;
  bool via_service = false;

  static std::string iface(char c) { return c == 'a' ? type_name<IfA>() : type_name<IfB>(); }
  Claims claims(const std::string& n) { Claims c; for (auto& r : e.cfg[n].a) c[iface('a')].insert(r); for (auto& r : e.cfg[n].b) c[iface('b')].insert(r); return c; }

  void bad(Tags props, const std::string& sig, const std::string& msg)
  {
    for (auto p : props) if (mc::selected(p)) { mc::fail(p, sig, msg); break; }
    throw Abandon();
  }

  // for observations the model can go on after: another property's violation does not end the execution
  void soft(Tags props, const std::string& sig, const std::string& msg)
  {
    for (auto p : props) if (mc::selected(p)) bad(props, sig, msg);
  }

  explicit World(const Strs& names) : all_names(names)
  {
    env() = &e;
    ros::stub::params().clear(); ros::stub::services().clear(); ros::stub::now_ns = 1000000000000LL;
    auto& decl = pluginlib::stub::declared()["controller_interface::ControllerBase"];
    decl.clear();
    auto mk = [] () -> void* { Ctl* c = new Ctl; if (!env()->log.empty()) env()->log.back().type = "plugin"; return static_cast<controller_interface::ControllerBase*>(c); };
    decl.push_back({"t/ok", mk}); decl.push_back({"t/both", mk}); decl.push_back({"t/null", [] () -> void* { return nullptr; }});
    decl.push_back({"t/throw", [] () -> void* { throw std::runtime_error("ctor"); }});
    decl.push_back({"t/logic", [] () -> void* { throw std::logic_error("ctor"); }});
    decl.push_back({"t/okx", mk});
    cm.reset(new controller_manager::ControllerManager(&hw, ros::NodeHandle()));
    cm->registerControllerLoader(std::make_shared<OwnLoader>());
    for (auto& n : names) set_type(n, "t/ok");
    e.answer_all = [this] { return all(); };
    e.answer_one = [this](const std::string& n) { return one(n); };
    e.answer_prepare = [this] { prepare_answer = gen_prepare ? gen_prepare() : true; return prepare_answer; };
    timehook::wall_ns() = 1700000000LL * 1000000000LL;
    timehook::on_sleep() = [this](int64_t ns) { if (e.in_cycle) { rt::Out out; soft({"C13"}, "cycle-sleep", "the control cycle sleeps"); return; } wait(ns); };
    ros::stub::on_sleep = [](int64_t ns) { timehook::slept(ns); };
    timehook::active() = true;
  }
  ~World() { timehook::active() = false; timehook::on_sleep() = nullptr; ros::stub::on_sleep = nullptr; cm.reset(); env() = nullptr; }
  void set_type(const std::string& n, const std::string& t) { e.cfg[n].type = t; if (t.empty()) ros::stub::params().erase("/" + n + "/type"); else ros::stub::params()["/" + n + "/type"] = ros::stub::Param::Str(t); }

  SS all() { if (!memo_all_set) { memo_all = gen_all ? gen_all() : SS::DONE; memo_all_set = true; mc::note("  hardware answers %s", ss(memo_all)); } return memo_all; }
  SS one(const std::string& n)
  {
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    SS s = gen_one ? gen_one(n) : SS::DONE; mc::note("  hardware answers %s for %s", ss(s), n.c_str());
    return memo[n] = s;
  }
  static const char* ss(SS s) { return s == SS::DONE ? "DONE" : s == SS::ERROR ? "ERROR" : "ONGOING"; }

  // ---- one wait of a service call
  void wait(int64_t)
  {
    if (mc::failed()) throw Abandon();
    if (open_request && !p.active && !cycles_in_op) activate();
    cycles_in_op = true;
    if (++waits > 60) bad({"C05", "C02", "C08", "C09", "C04"}, "does-not-return", "the call does not return although the control loop keeps cycling");
    if (!p.active && ++idle_waits > 30) bad({"C02", "C08", "C05", "C09", "C06"}, "does-not-return", "the call does not return although nothing is pending any more");
    Step s = p.active && next_step ? next_step() : Step();
    timehook::wall_ns() += s.wall;
    if (s.cycle) cycle(s.dt, s.reset);
    else mc::note("  no cycle; wall clock +%.3f s", s.wall * 1e-9);
  }

  // the service thread now waits for the control loop: this is the accepted switch
  void activate()
  {
    if (open_v.refused) bad({"C02"}, "refused-request-carried-out", "request [" + cmx::show(open_req) + "] must be refused (" + open_v.why + ") but is carried out");
    if (open_v.conflict) bad({"C03"}, "conflict-accepted", "request [" + cmx::show(open_req) + "] leads to a resource conflict but is carried out");
    check_service_phase();
    if (!prepare_answer) bad({"C04"}, "refused-preparation-carried-out", "the hardware refused to prepare but the switch is carried out");
    p = Pending(); p.active = true; p.v = open_v; p.r = open_req; p.init = ros::stub::now_ns; wall0 = timehook::wall_ns();
    p.undecided.insert(open_v.start.begin(), open_v.start.end());
    e.log.clear();
  }

  void check_service_phase()
  {
    int check = -1, prep = -1, nprep = 0;
    for (size_t i = 0; i < e.log.size(); ++i)
    {
      const Ev& x = e.log[i];
      switch (x.kind)
      {
        case E_CHECK: check = static_cast<int>(i); break;
        case E_PREPARE: prep = static_cast<int>(i); ++nprep; break;
        case E_DOSWITCH: soft({"C04", "C02"}, "doSwitch-outside-loop", "the hardware was told to switch outside the control loop");
        case E_START: case E_STOP: case E_UPDATE: case E_WAIT: case E_ABORT: bad({"C01", "C02", "C08"}, "callback-outside-loop", std::string(kind_name[x.kind]) + " of " + x.who + " was called outside the control loop");
        default: break;
      }
    }
    if (check < 0) bad({"C04", "C03"}, "no-conflict-check", "the robot was not asked for conflicts");
    if (e.log[check].l1 != open_v.after)
      soft({"C03", "C04"}, "wrong-check-set", "the robot was asked to check " + cmx::show(e.log[check].l1) + " but after the switch " + cmx::show(open_v.after) + " run");
    if (!open_v.conflict)
    {
      if (prep < 0) bad({"C04"}, "no-prepare", "the robot was not asked to prepare the switch");
      if (nprep != 1) soft({"C04"}, "prepare-repeated", "the robot was asked to prepare the switch more than once");
      if (prep < check) soft({"C04"}, "prepare-before-check", "the robot was asked to prepare before the conflict check");
      if (e.log[prep].l1 != open_v.l_start || e.log[prep].l2 != open_v.l_stop)
        soft({"C04"}, "wrong-prepare-lists", "prepareSwitch got start " + cmx::show(e.log[prep].l1) + " stop " + cmx::show(e.log[prep].l2) + ", expected " + cmx::show(open_v.l_start) + " and " + cmx::show(open_v.l_stop));
    }
  }

  // ---- one control cycle
  void cycle(int64_t dt, bool reset)
  {
    ros::stub::now_ns += dt;
    memo.clear(); memo_all_set = false;
    e.log.clear();
    const int64_t now = ros::stub::now_ns, period = 1000 + (++seq);
    mc::note("  cycle dt=%.2f%s", dt * 1e-9, reset ? " reset" : "");
    e.in_cycle = true;
    const ros::Time t = ros::Time().fromNSec(now); const ros::Duration dur = ros::Duration().fromNSec(period);
    { rt::Scope real_time; cm->update(t, dur, reset); }
    e.in_cycle = false;
    if (!rt::what().empty()) soft({"C13"}, std::string("cycle-") + rt::sig(), "the control cycle [" + dump() + "] itself " + rt::what());
    check_cycle(now, period, reset);
    for (auto& c : m.loaded) { auto i = e.ctl.find(c.uid); if (i != e.ctl.end()) check_state(c, i->second); }
    mc::state(mc::hash(m.key() + (p.active ? (p.told ? "|told" : "|pending") : "") + cmx::show(Strs(p.undecided.begin(), p.undecided.end()))));
  }
  std::string dump() { std::string s; for (auto& x : e.log) s += std::string(s.empty() ? "" : ", ") + kind_name[x.kind] + (x.who.empty() ? "" : "(" + x.who + ")"); return s; }

  void check_cycle(int64_t now, int64_t period, bool reset)
  {
    std::set<std::string> run0; std::map<std::string, int> rst, upd;
    for (auto& c : m.loaded) if (c.st == RUN) run0.insert(c.name);
    int phase = 0;                                      // 0 reset, 1 updates, 2 switch
    bool told_now = false, can_stop = p.active && !p.told;
    std::set<std::string> to_stop; if (can_stop) to_stop.insert(p.v.stop.begin(), p.v.stop.end());
    std::set<std::string> und = p.active ? p.undecided : std::set<std::string>(), waited, ended;
    const bool late = p.active && p.r.timeout > 0 && static_cast<double>(now - p.init) * 1e-9 > p.r.timeout;
    const std::string in = " [cycle: " + dump() + "] [state before: " + m.key() + "]";
    for (const Ev& x : e.log)
    {
      MCtl* c = x.who.empty() || x.kind == E_DOSWITCH ? nullptr : m.find(x.who);
      const std::string what = std::string(kind_name[x.kind]) + " of " + x.who;
      if (mc::tracing()) mc::note("    %s%s", what.c_str(), x.kind == E_DOSWITCH ? (" start " + cmx::show(x.l1) + " stop " + cmx::show(x.l2)).c_str() : "");
      if (x.kind == E_START || x.kind == E_STOP || x.kind == E_WAIT || x.kind == E_ABORT || x.kind == E_UPDATE)
      {
        if (!c || c->uid != x.uid) bad({"C01", "C06"}, "callback-of-unloaded", what + " which is not loaded" + in);
        if (x.time != now) soft({"C01"}, "wrong-time", what + " got another time than that of its cycle" + in);
        if (!x.state_ok) soft({"C01"}, "state-early", what + ": the controller does not report to be running until the transition is complete" + in);
      }
      switch (x.kind)
      {
        case E_STOP:
          if (phase == 0 && reset && run0.count(x.who) && !p_told_in(told_now))
          {
            if (rst[x.who]++ != 0) bad({"C11", "C01"}, "reset-stop-repeated", what + " repeated during a reset" + in);
            break;
          }
          if (!told_now && to_stop.count(x.who)) soft({"C04"}, "stop-before-doSwitch", what + " before the hardware was told to switch" + in);
          if (!to_stop.count(x.who))
          {
            if (reset && run0.count(x.who)) bad({"C11", "C01"}, "reset-order", what + " during a reset, after updates began" + in);
            if (!p.active) bad({"C10", "C01", "C02", "C11"}, "stop-unasked", what + " with no switch pending" + in);
            bad({"C02", "C05", "C01", "C10"}, "stop-unasked", what + " which the pending switch [" + cmx::show(p.r) + "] does not stop (any more)" + in);
          }
          to_stop.erase(x.who); c->st = STOP;
          break;
        case E_START:
          if (phase == 0 && reset && run0.count(x.who))
          {
            if (rst[x.who]++ != 1) bad({"C11", "C01"}, "reset-start", what + " during a reset without having been stopped" + in);
            if (x.looks_stopped) soft({"C09"}, "reset-looks-stopped", x.who + " appears stopped to other threads while it is only being reset" + in);
            break;
          }
          if (!und.count(x.who) || ended.count(x.who))
          {
            if (reset && run0.count(x.who)) bad({"C11", "C01"}, "reset-start", what + " once more in a cycle with reset" + in);
            if (!p.active) bad({"C10", "C01", "C02", "C11"}, "start-unasked", what + " with no switch pending" + in);
            if (ended.count(x.who) || Model::in(p.v.start, x.who)) bad({"C01", "C02", "C05"}, "start-repeated", what + " which was already started or aborted" + in);
            bad({"C02", "C01", "C10"}, "start-unasked", what + " which the pending switch [" + cmx::show(p.r) + "] does not start" + in);
          }
          if (!p.told && !told_now) soft({"C04"}, "start-before-doSwitch", what + " before the hardware was told to switch" + in);
          if (!to_stop.empty()) soft({"C03", "C04"}, "start-before-stop", what + " before " + *to_stop.begin() + " was stopped" + in);
          if ((p.r.asap ? one(x.who) : all()) != SS::DONE) soft({"C05", "C04"}, "start-early", what + " although its hardware is not done" + in);
          for (auto& o : m.loaded)
            if (o.st == RUN && o.name != x.who) for (auto& i : o.claims) for (auto& r : i.second) for (auto& j : c->claims) if (j.second.count(r))
              soft({"C03"}, "two-owners", x.who + " and " + o.name + " both run and claim " + r + in);
          ended.insert(x.who); c->st = RUN;
          break;
        case E_WAIT: case E_ABORT:
        {
          const bool ab = x.kind == E_ABORT;
          if (!und.count(x.who) || ended.count(x.who))
          {
            if (!p.active) bad({"C10", "C05", "C01"}, "late-effect", what + " with no switch pending" + in);
            bad({"C05", "C01", "C10"}, "already-decided", what + " which is not or no longer pending" + in);
          }
          if (!p.told && !told_now) soft({"C04", "C05"}, "effect-before-doSwitch", what + " before the hardware was told to switch" + in);
          const SS a = p.r.asap ? one(x.who) : all();
          if (ab && !(a == SS::ERROR || (a == SS::ONGOING && late))) soft({"C05"}, "abort-early", what + (a == SS::DONE ? " although the hardware is done" : " although neither an error nor a timeout occurred") + in);
          if (!ab && (a != SS::ONGOING || late)) soft({"C05"}, "wait-late", what + " although the hardware is not busy or the time is up" + in);
          if (ab) { ended.insert(x.who); c->st = ABORT; }
          else { if (!waited.insert(x.who).second) soft({"C05"}, "wait-repeated", what + " twice in a cycle" + in); c->st = WAIT; }
          break;
        }
        case E_UPDATE:
          if (phase == 2) soft({"C01"}, "update-after-switch", what + " after the switch of this cycle began" + in);
          if (phase == 0) { if (reset) for (auto& n : run0) if (rst[n] != 2) soft({"C11"}, "update-before-reset", what + " before " + n + " was restarted" + in); phase = 1; }
          if (!run0.count(x.who)) soft({"C01", "C05"}, "update-not-running", what + " which is " + st_name[c->st] + in);
          if (upd[x.who]++) soft({"C01"}, "update-twice", what + " twice in a cycle" + in);
          if (x.period != period) soft({"C01"}, "wrong-period", what + " got another period than that of its cycle" + in);
          break;
        case E_DOSWITCH:
          if (!p.active) bad({"C10", "C04"}, "doSwitch-unasked", "the hardware is told to switch with no switch pending" + in);
          if (p.told || told_now) soft({"C04"}, "doSwitch-repeated", "the hardware is told to switch more than once" + in);
          if (x.l1 != p.v.l_start || x.l2 != p.v.l_stop) soft({"C04"}, "wrong-doSwitch-lists", "doSwitch got start " + cmx::show(x.l1) + " stop " + cmx::show(x.l2) + ", prepared were " + cmx::show(p.v.l_start) + " and " + cmx::show(p.v.l_stop) + in);
          told_now = true;
          check_updates(run0, upd, rst, reset, in); phase = 2;
          break;
        case E_CHECK: case E_PREPARE: soft({"C04"}, "query-from-loop", what + " from the control loop" + in); break;
        case E_DESTROY: bad({"C08", "C06"}, "destroy-in-loop", "a controller is destroyed by the control loop" + in); break;
        default: bad({"C01"}, "strange-event", what + in);
      }
    }
    if (phase != 2) check_updates(run0, upd, rst, reset, in);
    if (!p.active) return;
    if (!p.told && !told_now) bad({"C04", "C02"}, "doSwitch-missing", "the hardware was not told to switch in the cycle after the request" + in);
    p.told = true;
    if (!to_stop.empty()) bad({"C02", "C04"}, "stop-missing", *to_stop.begin() + " was not stopped" + in);
    std::set<std::string> left;
    for (auto& n : und)
    {
      const SS a = p.r.asap ? one(n) : all();
      const bool wait = a == SS::ONGOING && !late;
      if (wait) { if (!waited.count(n)) bad({"C05"}, "wait-missing", n + " was not made to wait" + in); left.insert(n); }
      else if (!ended.count(n)) bad(a == SS::DONE ? Tags({"C05", "C02"}) : Tags({"C05"}), a == SS::DONE ? "start-missing" : "abort-missing", n + (a == SS::DONE ? " was not started although its hardware is done" : " was not aborted") + in);
    }
    p.undecided = left;
    bool over = left.empty();
    if (!p.r.asap && p.v.start.empty()) over = !(all() == SS::ONGOING && !late);
    if (over) { p.active = false; mc::note("  switch over: %s", m.key().c_str()); }
  }
  static bool p_told_in(bool told_now) { return told_now; }

  void check_updates(const std::set<std::string>& run0, std::map<std::string, int>& upd, std::map<std::string, int>& rst, bool reset, const std::string& in)
  {
    if (reset) for (auto& n : run0) if (rst[n] != 2) soft({"C11"}, "reset-missing", n + " was not restarted" + in);
    for (auto& n : run0) if (upd[n] != 1) soft({"C01"}, "update-missing", n + " runs but was not updated" + in);
  }

  // ---- operations
  void begin_op() { waits = idle_waits = 0; cycles_in_op = false; e.log.clear(); prepare_answer = true; }

  bool do_switch(const Req& r)
  {
    begin_op();
    mc::note("switch %s", cmx::show(r).c_str());
    open_req = r; open_v = m.judge(r); open_request = true; p = Pending();
    bool res;
    if (via_service)
    {
      controller_manager_msgs::SwitchController::Request q; controller_manager_msgs::SwitchController::Response s;
      q.start_controllers = r.start; q.stop_controllers = r.stop; q.strictness = r.strict; q.start_asap = r.asap; q.timeout = r.timeout;
      if (!ros::stub::call<controller_manager_msgs::SwitchController>("/controller_manager/switch_controller", q, s)) bad({"C02"}, "service-failed", "the switch service itself failed");
      res = s.ok;
    }
    else res = cm->switchController(r.start, r.stop, r.strict, r.asap, r.timeout);
    open_request = false;
    mc::note("  -> %d", res);
    mc::outcome(mc::hash(std::string(res ? "ok " : "refused ") + m.key()));
    const std::string req = "request [" + cmx::show(r) + "] in state " + m.key();
    if (cycles_in_op)
    {
      if (p.active)
      {
        if (res) bad({"C09", "C02", "C05"}, "success-too-early", req + " reported success before the switch was over");
        const double el = static_cast<double>(timehook::wall_ns() - wall0) * 1e-9;
        if (r.timeout == 0) soft({"C10"}, "gave-up-without-timeout", req + " gave up although no timeout was set");
        if (el < r.timeout + 1.0 - 1e-9) soft({"C10"}, "gave-up-early", req + " gave up after " + std::to_string(el) + " s");
        p = Pending();
      }
      else if (!res) bad({"C02", "C10"}, "carried-out-but-failed", req + " was carried out but reported as failed");
    }
    else
    {
      for (auto& x : e.log) if (x.kind == E_DOSWITCH) soft({"C02", "C04"}, "doSwitch-outside-loop", req + ": the hardware was told to switch outside the control loop");
      for (auto& x : e.log) if (x.kind == E_START || x.kind == E_STOP || x.kind == E_WAIT || x.kind == E_ABORT || x.kind == E_UPDATE) bad({"C02", "C01"}, "callback-outside-loop", req + ": callback outside the control loop");
      if (res) bad({"C02", "C09"}, open_v.refused ? "bad-request-accepted" : "success-without-effect", req + " reported success although " + (open_v.refused ? "it must be refused: " + open_v.why : "nothing was carried out"));
      if (open_v.refused) { for (auto& x : e.log) if (x.kind == E_PREPARE) soft({"C04", "C02"}, "prepare-of-refused", req + " was refused only after the hardware prepared it"); }
      else
      {
        bool conf = false; for (auto& x : e.log) if (x.kind == E_CHECK && !x.ok) conf = true;
        if (!open_v.conflict && conf) bad({"C03"}, "spurious-conflict", req + " was refused for a conflict that does not exist");
        bool checked = false; for (auto& x : e.log) checked |= x.kind == E_CHECK;
        if (!checked) bad({"C02", "C10"}, "good-request-refused", req + " was refused");
        check_service_phase();
        if (open_v.conflict) { for (auto& x : e.log) if (x.kind == E_PREPARE) soft({"C04"}, "prepare-of-conflict", req + ": the hardware was asked to prepare in spite of a conflict"); }
        else if (prepare_answer) bad({"C02", "C03", "C10"}, "good-request-refused", req + " was refused");
      }
    }
    check_world();
    return res;
  }

  enum LoadExpect { L_OK, L_FAIL };
  void do_load(const std::string& n)
  {
    begin_op();
    Cfg& c = e.cfg[n];
    const bool name_ok = !n.empty() && isalpha(static_cast<unsigned char>(n[0]));
    std::string by;
    if (c.type == "t/ok" || c.type == "t/both" || c.type == "t/okx") by = "plugin";
    else if (c.type == "t/own" || c.type == "t/null") by = "own";
    const bool expect = name_ok && !m.find(n) && !by.empty() && c.init == Cfg::OK;
    mc::note("load %s (type '%s')", n.c_str(), c.type.c_str());
    bool res = false, threw = false;
    try
    {
      if (via_service)
      {
        controller_manager_msgs::LoadController::Request q; controller_manager_msgs::LoadController::Response s; q.name = n;
        res = ros::stub::call<controller_manager_msgs::LoadController>("/controller_manager/load_controller", q, s) && s.ok;
      }
      else res = cm->loadController(n);
    }
    catch (const std::exception&) { threw = true; }
    mc::note("  -> %d%s", res, threw ? " (exception)" : "");
    mc::outcome("load " + c.type + (res ? " ok" : " failed"));
    if (res != expect) bad({"C06"}, expect ? "good-load-failed" : "bad-load-succeeded", "loading " + n + " of type '" + c.type + "' " + (res ? "succeeded" : "failed") + " in state " + m.key());
    int uid = 0, inits = 0;
    for (auto& x : e.log) if (!cycles_in_op || !x.in_cycle)
    {
      if (x.kind == E_INIT) { ++inits; uid = x.uid; if (x.who != n) soft({"C06"}, "wrong-init", "another controller was initialised"); }
      if (x.kind == E_CREATE && x.type != by) soft({"C06"}, "wrong-loader", "type " + c.type + " was created by the wrong loader");
    }
    if (expect)
    {
      if (uid == 0 && cycles_in_op) for (auto& u : e.uid_name) if (u.second == n && e.alive.count(u.first)) uid = u.first;
      if (!cycles_in_op && inits != 1) soft({"C06", "C01"}, "init-count", n + " was initialised " + std::to_string(inits) + " times");
      MCtl x; x.name = n; x.type = c.type; x.claims = claims(n); x.uid = uid; m.loaded.push_back(x);
    }
    check_world();
  }

  void do_unload(const std::string& n)
  {
    begin_op();
    MCtl* c = m.find(n);
    const bool expect = c && c->st != RUN;
    mc::note("unload %s", n.c_str());
    bool res;
    if (via_service)
    {
      controller_manager_msgs::UnloadController::Request q; controller_manager_msgs::UnloadController::Response s; q.name = n;
      res = ros::stub::call<controller_manager_msgs::UnloadController>("/controller_manager/unload_controller", q, s) && s.ok;
    }
    else res = cm->unloadController(n);
    mc::note("  -> %d", res);
    mc::outcome(std::string("unload ") + (c ? st_name[c->st] : "unknown") + (res ? " ok" : " failed"));
    if (res != expect) bad({"C06"}, expect ? "good-unload-failed" : "bad-unload-succeeded", "unloading " + n + (res ? " succeeded" : " failed") + " in state " + m.key());
    if (expect) m.loaded.erase(std::find_if(m.loaded.begin(), m.loaded.end(), [&](const MCtl& x) { return x.name == n; }));
    check_world();
  }

  void do_reload(bool force)
  {
    begin_op();
    mc::note("reload libraries force=%d", force);
    const bool any = !m.loaded.empty();
    Req r; for (auto& c : m.loaded) r.stop.push_back(c.name); r.strict = 1;
    std::set<std::string> running; for (auto& c : m.loaded) if (c.st == RUN) running.insert(c.name);
    if (any && force) { open_request = true; reload_request = true; open_req = r; open_v = m.judge(r); p = Pending(); }
    const int created = pluginlib::stub::loaders_created;
    std::vector<Ev> whole;
    controller_manager_msgs::ReloadControllerLibraries::Request q; controller_manager_msgs::ReloadControllerLibraries::Response s;
    q.force_kill = force;
    const bool called = ros::stub::call<controller_manager_msgs::ReloadControllerLibraries>("/controller_manager/reload_controller_libraries", q, s);
    open_request = reload_request = false;
    mc::note("  -> %d", s.ok);
    bool expect = !any || force;
    if (any && force && !prepare_answer) expect = false;
    if (!called || static_cast<bool>(s.ok) != expect) bad({"C06"}, "reload-result", std::string("reloading libraries ") + (s.ok ? "succeeded" : "failed") + " in state " + m.key());
    const bool switched = prepare_answer;
    if (p.active) bad({"C06", "C09"}, "reload-before-stop", "reload returned before the controllers were stopped");
    if (any && force && switched)
    {
      for (auto& n : running) if (m.find(n)->st != STOP) soft({"C06"}, "reload-without-stop", n + " was unloaded by a forced reload without being stopped");
      m.loaded.clear();
    }
    // loaders are recreated only when no controller is left, and all of them are
    int own = 0; for (auto& x : e.log) if (x.kind == E_RELOAD) ++own;
    if (own != (expect ? 1 : 0)) soft({"C06"}, "reload-loaders", "the custom loader was reloaded " + std::to_string(own) + " times");
    if (pluginlib::stub::loaders_created - created != (expect ? 1 : 0)) soft({"C06"}, "reload-loaders", "the plugin loader was not reloaded once");
    bool seen = false; for (auto& x : e.log) { if (x.kind == E_RELOAD) seen = true; if (x.kind == E_DESTROY && seen) bad({"C06"}, "reload-before-destroy", "a library was reloaded while controllers from it still existed"); }
    check_world();
  }

  void idle(bool reset = false) { begin_op(); cycle(500000000LL, reset); check_world(); }

  // ---- everything observable from outside
  void check_world()
  {
    for (auto& c : m.loaded)
    {
      auto* b = cm->getControllerByName(c.name);
      Ctl* x = dynamic_cast<Ctl*>(b);
      if (!x || x->uid != c.uid || !e.alive.count(x->uid)) soft({"C07", "C06"}, "lookup", "looking up " + c.name + " does not find it; state " + m.key());
      if (!b) throw Abandon();
      check_state(c, b);
    }
    for (auto& n : all_names) if (!m.find(n) && cm->getControllerByName(n)) soft({"C07", "C06"}, "lookup", n + " is found although it is not loaded");
    if (cm->getControllerByName("nobody") || cm->getControllerByName("")) soft({"C07"}, "lookup", "an unknown controller is found");
    std::set<int> want; for (auto& c : m.loaded) want.insert(c.uid);
    if (want != e.alive) bad({"C06"}, "leftover", "controller objects left: " + std::to_string(e.alive.size()) + ", loaded: " + std::to_string(want.size()));
    if (mc::wants({"C07", "C06", "C12"})) check_listing();
  }
  void check_state(const MCtl& c, const controller_interface::ControllerBase* b)
  {
    const bool f[5] = {b->isInitialized(), b->isRunning(), b->isStopped(), b->isWaiting(), b->isAborted()};
    for (int i = 0; i < 5; ++i)
      if (f[i] != (c.st == i))
        soft({"C01", "C02", "C11", "C05"}, "reported-state", c.name + (f[i] ? " reports to be " : " does not report to be ") + st_name[i] + " but its last transition made it " + st_name[c.st]);
  }
  void check_listing()
  {
    controller_manager_msgs::ListControllers::Request q; controller_manager_msgs::ListControllers::Response s;
    ros::stub::call<controller_manager_msgs::ListControllers>("/controller_manager/list_controllers", q, s);
    bool same = s.controller.size() == m.loaded.size();
    std::string got, exp;
    for (auto& x : s.controller)
    {
      Claims c; std::set<std::string> dup;
      for (auto& i : x.claimed_resources) for (auto& r : i.resources) { c[i.hardware_interface].insert(r); if (!dup.insert(i.hardware_interface + "\n" + r).second) got += "(twice)"; }
      got += x.name + "/" + x.type + "/" + x.state + cmx::show(c) + " ";
    }
    for (auto& x : m.loaded) exp += x.name + "/" + x.type + "/" + st_name[x.st] + cmx::show(x.claims) + " ";
    if (!same || got != exp) soft({"C07", "C06", "C12"}, "listing", "list_controllers says " + got + "but loaded are " + exp);
  }
  void check_types(const Strs& plugin)
  {
    controller_manager_msgs::ListControllerTypes::Request q; controller_manager_msgs::ListControllerTypes::Response s;
    ros::stub::call<controller_manager_msgs::ListControllerTypes>("/controller_manager/list_controller_types", q, s);
    std::multiset<std::pair<std::string, std::string>> got, exp;
    if (s.types.size() != s.base_classes.size()) soft({"C07"}, "types", "types and base classes differ in length");
    for (size_t i = 0; i < s.types.size(); ++i) got.insert({s.types[i], s.base_classes[i]});
    for (auto& t : plugin) exp.insert({t, "controller_interface::ControllerBase"});
    for (auto& t : {"t/own", "t/both", "t/null"}) exp.insert({t, "own/Base"});
    if (got != exp) soft({"C07"}, "types", "list_controller_types is wrong: " + cmx::show(s.types) + " " + cmx::show(s.base_classes));
  }

  // brings freshly loaded controllers into the wanted states
  void reach(const std::map<std::string, St>& want)
  {
    for (auto& w : want) do_load(w.first);
    idle();
    Req st, sp, ab, wa, ru;
    for (auto& w : want)
    {
      if (w.second == STOP) { st.start.push_back(w.first); sp.stop.push_back(w.first); }
      if (w.second == ABORT) ab.start.push_back(w.first);
      if (w.second == WAIT) wa.start.push_back(w.first);
      if (w.second == RUN) ru.start.push_back(w.first);
    }
    if (!st.start.empty()) { do_switch(st); do_switch(sp); }
    if (!ab.start.empty()) { gen_all = [] { return SS::ERROR; }; do_switch(ab); gen_all = nullptr; }
    if (!wa.start.empty())
    {
      wa.timeout = 100; gen_all = [] { return SS::ONGOING; };
      int k = 0; next_step = [&k] { Step s; if (k++) s.wall = 200000000000LL; return s; };
      do_switch(wa); gen_all = nullptr; next_step = nullptr;
    }
    if (!ru.start.empty()) do_switch(ru);
    for (auto& w : want) if (m.find(w.first)->st != w.second) bad({"C02", "C05", "C01"}, "setup", w.first + " could not be brought into state " + st_name[w.second]);
  }
};

void run(const Strs& names, const std::function<void(World&)>& f)
{
  World w(names);
  try { f(w); } catch (const Abandon&) {}
}

std::vector<Strs> sequences(const Strs& names, int len)
{
  std::vector<Strs> v{{}}; size_t from = 0;
  for (int l = 0; l < len; ++l) { size_t to = v.size(); for (size_t i = from; i < to; ++i) for (auto& n : names) { Strs s = v[i]; s.push_back(n); v.push_back(s); } from = to; }
  return v;
}

SS choose_answer() { static const SS a[] = {SS::DONE, SS::ONGOING, SS::ERROR}; return a[mc::choose(3)]; }

// every request shape in every combination of controller states
void fam_requests()
{
  const bool th = mc::thorough();
  static const Strs names{"a", "b", "c"};
  static const auto seqs = sequences({"a", "b", "c", "x"}, 2), seqs3 = sequences({"a", "b", "c", "x"}, 3);
  run({"a", "b", "c", "x"}, [&](World& w) {
    static const St sts[] = {INIT, RUN, STOP, ABORT, WAIT};
    std::map<std::string, St> want;
    for (auto& n : names) want[n] = sts[mc::choose(th || n == "a" ? 5 : n == "b" ? 4 : 3)];
    Req r; r.start = mc::pick(th ? seqs3 : seqs); r.stop = mc::pick(seqs); r.strict = mc::choose(3); r.asap = mc::flip();
    w.reach(want);
    w.do_switch(r);
    Req nothing; nothing.strict = r.strict; nothing.asap = r.asap; w.do_switch(nothing);      // nothing of the request is left over
    w.idle();
  });
}

// every combination of claims, running set and request
void fam_claims()
{
  typedef std::pair<std::set<std::string>, std::set<std::string>> AB;
  static const std::vector<AB> cl{{{}, {}}, {{"r1"}, {}}, {{"r2"}, {}}, {{}, {"r1"}}, {{"r1"}, {"r1"}}, {{"r1", "r2"}, {}}, {{"r1"}, {"r2"}}};
  run({"a", "b", "c"}, [&](World& w) {
    Req first, r; const Strs names{"a", "b", "c"};
    for (auto& n : names) { const AB& x = mc::pick(cl); w.e.cfg[n].a = x.first; w.e.cfg[n].b = x.second; }
    for (auto& n : names) { const int k = mc::choose(2); if (k) first.start.push_back(n); }
    for (auto& n : names) { const int k = mc::choose(3); if (k == 1) r.start.push_back(n); else if (k == 2) r.stop.push_back(n); }
    r.strict = 1 + mc::choose(2);
    for (auto& n : names) w.do_load(n);
    w.do_switch(first);
    w.do_switch(r);
    Req nothing; nothing.strict = r.strict; w.do_switch(nothing);                             // nothing of the request is left over
    w.idle();
  });
}

// every sequence of hardware answers, resets and timeouts while a switch is pending
void fam_pending(bool asap, int depth)
{
  static const std::vector<double> tos{0, 0.5, 1.0, 1.25};
  static const std::vector<std::pair<Strs, Strs>> rq{{{"a", "b"}, {"c"}}, {{"a"}, {}}, {{}, {"c"}}, {{"b", "a", "d"}, {"c"}}, {{}, {}}};
  run({"a", "b", "c", "d", "e"}, [&](World& w) {
    const int q = mc::choose(static_cast<int>(rq.size()) - (asap && !mc::thorough() ? 2 : 0));
    Req r; r.start = rq[q].first; r.stop = rq[q].second; r.asap = asap; r.timeout = mc::pick(tos); r.strict = 2;
    if (q == 4) r.start.clear();
    const bool resets = !(asap && q == 3);
    std::map<std::string, St> want{{"a", STOP}, {"b", INIT}, {"c", RUN}, {"d", ABORT}, {"e", RUN}};
    w.reach(want);
    int k = 0;
    w.gen_prepare = [] { return !mc::flip(); };
    w.gen_all = [&] { return k > depth ? SS::DONE : choose_answer(); };
    w.gen_one = [&](const std::string&) { return k > depth ? SS::DONE : choose_answer(); };
    w.next_step = [&] { ++k; Step s; s.reset = resets && k <= 2 && mc::flip(); return s; };
    w.do_switch(r);
    w.gen_prepare = nullptr; w.gen_all = nullptr; w.gen_one = nullptr;
    w.idle();
    Req again; again.stop = r.start; again.strict = 1; w.do_switch(again);
    w.idle(true);
  });
}

// the service gives up on its wall clock at every possible point
void fam_timeout()
{
  static const std::vector<double> tos{0, 0.5, 2.0};
  run({"a", "b", "c"}, [&](World& w) {
    Req r; r.start = {"a", "b"}; r.stop = {"c"}; r.asap = mc::flip(); r.timeout = mc::pick(tos); r.strict = 1 + mc::choose(2);
    std::map<std::string, St> want{{"a", INIT}, {"b", STOP}, {"c", RUN}};
    w.reach(want);
    const int64_t limit = static_cast<int64_t>((r.timeout + 1.0) * 1e9);
    int k = 0; bool more = true; SS ans = SS::ONGOING;
    w.gen_all = [&] { return ans; }; w.gen_one = [&](const std::string& n) { return n == "b" && ans == SS::DONE && k < 3 && r.asap && mc::flip() ? SS::ONGOING : ans; };
    w.next_step = [&] {
      Step s; s.dt = 100000000LL; ++k; ans = SS::ONGOING;
      const int64_t el = timehook::wall_ns() - w.wall0;
      if (k > (mc::thorough() ? 5 : 4)) { if (r.timeout == 0) { ans = SS::DONE; } else { s.cycle = false; s.wall = limit + 1000000; } return s; }
      switch (mc::choose(6))
      {
        case 0: break;                                                               // one more pending cycle
        case 1: ans = SS::DONE; break;
        case 2: s.cycle = false; break;                                              // the loop is late
        case 3: s.cycle = false; s.wall = std::max<int64_t>(limit - 2000000 - el, 100000); if (el + s.wall >= limit) s.wall = 100000; break;   // just before giving up
        case 4: s.cycle = false; s.wall = limit + 1000000; break;                    // time is up, no cycle
        case 5: s.wall = limit + 1000000; break;                                     // time is up and a cycle runs
      }
      return s;
    };
    w.do_switch(r);
    w.next_step = nullptr;
    const bool done_later = mc::flip();
    ans = done_later ? SS::DONE : SS::ONGOING; k = 10;
    w.idle(); w.idle(mc::flip()); w.idle();
    ans = SS::DONE;
    Req r2; r2.strict = 1; r2.start = {"a"}; r2.stop = {"c"}; if (mc::flip()) { r2.start = {"c"}; r2.stop = {"a", "b"}; }
    w.do_switch(r2);
    w.idle();
    w.do_unload("b");
    (void)more;
  });
}

// unmerged operation histories
void fam_history(int depth)
{
  run({"a", "b", "c"}, [&](World& w) {
    w.e.cfg["a"].a = {"r1"}; w.e.cfg["b"].b = {"r1"}; w.e.cfg["b"].a = {"r2"}; w.e.cfg["c"].a = {"r3"};
    w.set_type("b", "t/own");
    w.via_service = true;
    if (mc::flip()) w.idle();
    for (int i = 0; i < depth; ++i)
    {
      Req r;
      switch (mc::choose(16))
      {
        case 0: w.do_load("a"); break;
        case 1: w.do_load("b"); break;
        case 2: w.do_unload("a"); break;
        case 3: w.do_unload("b"); break;
        case 4: r.start = {"a"}; w.do_switch(r); break;
        case 5: r.start = {"b"}; r.strict = 1; r.asap = true; w.do_switch(r); break;
        case 6: r.start = {"b"}; r.stop = {"a"}; w.do_switch(r); break;
        case 7: r.start = {"a"}; r.stop = {"b"}; r.strict = 1; w.do_switch(r); break;
        case 8: r.stop = {"a", "b"}; r.strict = 1; w.do_switch(r); break;
        case 9: r.start = {"a", "b"}; r.strict = 0; w.gen_all = [] { return SS::ERROR; }; w.do_switch(r); w.gen_all = nullptr; break;
        case 10: w.idle(); break;
        case 11: w.idle(true); break;
        case 12: w.do_reload(false); break;
        case 13: w.do_reload(true); break;
        case 14: r.start = {"c", "a"}; r.strict = 1; r.asap = true; w.gen_one = [](const std::string& n) { return n == "a" ? SS::ERROR : SS::DONE; }; w.do_switch(r); w.gen_one = nullptr; break;
        case 15: w.do_load("c"); break;
      }
    }
    w.idle();
  });
}

// loading in every way it can fail, between other controllers
void fam_load()
{
  static const Strs types{"t/ok", "t/own", "t/both", "t/null", "", "t/unknown", "t/throw", "t/logic", "t/o", "t/okx"};
  static const Strs plugin{"t/ok", "t/both", "t/null", "t/throw", "t/logic", "t/okx"};
  run({"a", "b", "c", "1bad", "ns/a"}, [&](World& w) {
    w.via_service = mc::flip();
    w.e.cfg["a"].a = {"r1"}; w.e.cfg["b"].a = {"r1", "r2"}; w.e.cfg["b"].b = {"r3"}; w.e.cfg["c"].b = {"r2"};
    const int before = mc::choose(4);                       // nothing, a loaded, a running, a loaded and unloaded
    if (mc::flip()) w.idle();
    if (before) w.do_load("a");
    if (before == 2) { Req r; r.start = {"a"}; w.do_switch(r); }
    if (before == 3) w.do_unload("a");
    const std::string n = mc::pick(Strs{"b", "a", "1bad", "ns/a"});
    w.set_type(n, mc::pick(types));
    w.e.cfg[n].init = static_cast<Cfg::Init>(mc::choose(4));
    w.do_load(n);
    if (mc::flip()) w.idle();
    w.do_load("c");
    w.do_load(n);
    w.e.cfg[n].init = Cfg::OK; w.set_type(n, "t/ok");
    w.do_load(n);
    Req r; r.start = {n == "1bad" ? "c" : n}; r.strict = 1; w.do_switch(r);
    const int after = mc::choose(3);
    if (after == 0) { w.do_unload("c"); w.do_unload(n); w.idle(true); }
    if (after == 1) { w.do_reload(true); w.do_load("c"); }
    if (after == 2) { w.do_unload("a"); w.do_load("a"); w.do_reload(false); }
    w.idle();
    w.check_listing(); w.check_types(plugin);
  });
}

// forced and unforced reloads from every combination of states, with the hardware agreeing or not
void fam_reload()
{
  run({"a", "b", "c"}, [&](World& w) {
    static const St sts[] = {INIT, RUN, STOP, ABORT, WAIT};
    std::map<std::string, St> want;
    const int n = mc::choose(4);
    for (int i = 0; i < n; ++i) want[std::string(1, static_cast<char>('a' + i))] = sts[mc::choose(5)];
    const bool force = mc::flip();
    w.reach(want);
    w.gen_prepare = [] { return !mc::flip(); };
    w.do_reload(force);
    w.gen_prepare = nullptr;
    if (mc::flip()) w.idle();
    w.do_load("b"); w.do_load("c");
    w.do_reload(mc::flip());
    w.idle();
  });
}

// a reset in any cycle
void fam_reset()
{
  run({"a", "b", "c"}, [&](World& w) {
    static const St sts[] = {INIT, RUN, STOP, ABORT, WAIT};
    std::map<std::string, St> want;
    for (auto& n : {"a", "b", "c"}) want[n] = sts[mc::choose(5)];
    const int p = mc::choose(32);
    w.reach(want);
    for (int i = 0; i < 5; ++i) w.idle(p & (1 << i));
    Req r; r.stop = {"a", "b"}; r.start = {"c"}; r.strict = 1;
    w.next_step = [&] { Step s; s.reset = true; return s; };
    w.do_switch(r);
    w.next_step = nullptr;
    w.idle(p & 1);
    w.do_unload("a"); w.idle(true); w.do_load("a"); w.idle(true);
  });
}

// many controllers with look-alike names, every subset to change, in a long run of switches
void fam_crowd()
{
  static const Strs base{"arm", "arm_2", "ar", "Arm", "arm/x", "a_very_long_name_of_a_controller_that_does_not_fit_into_any_small_buffer_of_a_string_at_all", "b7", "b71", "b72", "b73", "b74"};
  const int n = mc::thorough() ? 6 : 4, total = static_cast<int>(base.size());
  run(base, [&](World& w) {
    for (int i = 0; i < total; ++i)
    {
      Cfg& c = w.e.cfg[base[i]];
      auto add = [&](bool b, int k) { const std::string r = "joint" + std::to_string(k); (b ? c.b : c.a).insert(r); if (b) w.hw.b.registerHandle(Res{r}); else w.hw.a.registerHandle(Res{r}); };
      for (int k = 0; k <= i % 3; ++k) add(i % 2, 10 * i + k);
      if (i % 4 == 3) add(false, 10 * i + 7);
    }
    std::vector<int> kind; for (int i = 0; i < n; ++i) kind.push_back(mc::choose(4));      // bit 0: runs before, bit 1: asked to change
    const bool reverse = mc::flip(), asap = mc::flip(), busy = mc::flip();
    for (auto& x : base) w.do_load(x);
    Req first, r, back; r.strict = 1; r.asap = asap;
    for (int i = 0; i < total; ++i)
    {
      const int k = i < n ? kind[i] : i % 4;
      if (k & 1) first.start.push_back(base[i]);
      if (k == 3) { r.stop.push_back(base[i]); back.start.push_back(base[i]); }
      if (k == 2) { r.start.push_back(base[i]); back.stop.push_back(base[i]); }
    }
    if (reverse) { std::reverse(r.start.begin(), r.start.end()); std::reverse(r.stop.begin(), r.stop.end()); std::reverse(first.start.begin(), first.start.end()); }
    w.do_switch(first);
    w.idle();
    int cyc = 0;
    w.gen_all = [&] { return busy && cyc < 3 ? SS::ONGOING : SS::DONE; };
    w.gen_one = [&](const std::string& x) { int i = static_cast<int>(std::find(base.begin(), base.end(), x) - base.begin()); return busy && cyc <= (i * 5) % 4 ? SS::ONGOING : i % 5 == 4 ? SS::ERROR : SS::DONE; };
    w.next_step = [&] { ++cyc; Step s; s.reset = busy && cyc == 2; return s; };
    w.do_switch(r);
    w.next_step = nullptr; w.gen_all = nullptr; w.gen_one = nullptr;
    w.idle(true);
    for (int i = 0; i < 3; ++i)
    {
      back.asap = i == 1; back.strict = 2; w.do_switch(back);
      r.strict = 2; w.do_switch(r);
    }
    for (int i = 0; i < total; i += 2) { Req s; s.stop = {base[i]}; w.do_switch(s); w.do_unload(base[i]); }
    w.idle();
    w.check_listing();
    w.do_load(base[2]); w.do_load(base[0]);
    w.do_reload(true);
    w.do_load(base[5]); w.idle();
  });
}

// one controller on its own: every sequence of requests
struct Solo : public controller_interface::MultiInterfaceController<IfA>
{
  bool init(hardware_interface::RobotHW* hw, ros::NodeHandle&, ros::NodeHandle&) override { hw->get<IfA>()->getHandle("r1"); seen += "i" + text(); return good; }
  void starting(const ros::Time& t) override { seen += "s" + std::to_string(t.toNSec()) + text(); }
  void stopping(const ros::Time& t) override { seen += "t" + std::to_string(t.toNSec()) + text(); }
  void waiting(const ros::Time& t) override { seen += "w" + std::to_string(t.toNSec()) + text(); }
  void aborting(const ros::Time& t) override { seen += "a" + std::to_string(t.toNSec()) + text(); }
  void update(const ros::Time& t, const ros::Duration& p) override { seen += "u" + std::to_string(t.toNSec()) + "," + std::to_string(p.toNSec()) + text(); }
  std::string text() const { return std::string("(") + (isInitialized() ? "I" : "") + (isRunning() ? "R" : "") + (isStopped() ? "S" : "") + (isWaiting() ? "W" : "") + (isAborted() ? "A" : "") + ")"; }
  std::string seen; bool good = true;
};
void fam_solo()
{
  Env e; env() = &e;
  Hw hw; Solo c; std::string st, h; const int depth = mc::thorough() ? 7 : 5;
  for (int i = 0; i < depth; ++i)
  {
    const int op = mc::choose(7); const int64_t now = 1000 + 10 * i; const ros::Time t = ros::Time().fromNSec(now);
    const std::string in = "(" + st + ")", tn = std::to_string(now) + in; std::string want, to = st; bool res = true, expect = !st.empty();
    c.seen.clear();
    if (op < 2)
    {
      c.good = op == 0; controller_interface::ControllerBase::ClaimedResources cl; ros::NodeHandle a, b("c");
      res = static_cast<controller_interface::ControllerBase&>(c).initRequest(&hw, a, b, cl); expect = st.empty() && c.good; if (st.empty()) { want = "i" + in; if (c.good) to = "I"; }
    }
    else if (op == 6) { const ros::Duration p = ros::Duration().fromNSec(7 + i); c.updateRequest(t, p); res = expect; if (st == "R") want = "u" + std::to_string(now) + "," + std::to_string(7 + i) + in; }
    else
    {
      res = op == 2 ? c.startRequest(t) : op == 3 ? c.stopRequest(t) : op == 4 ? c.waitRequest(t) : c.abortRequest(t);
      if (!st.empty()) { want = std::string(1, "stwa"[op - 2]) + tn; to = std::string(1, "RSWA"[op - 2]); }
    }
    h += "IFstwau"[op]; mc::note("%s: %s", h.c_str(), c.seen.c_str());
    st = to; mc::state(mc::hash(h));
    if (c.seen != want) { mc::fail("C01", "solo-callbacks", "requests " + h + ": the last one calls [" + c.seen + "] instead of [" + want + "] (callback, time, state seen in it)"); break; }
    if (c.text() != "(" + st + ")") { mc::fail("C01", "solo-state", "requests " + h + ": the controller reports " + c.text() + " instead of (" + st + ")"); break; }
    if (res != expect) { mc::fail("C01", "solo-result", "requests " + h + ": the last one reports " + (res ? "success" : "failure")); break; }
  }
  mc::outcome(mc::hash(h)); env() = nullptr;
}
}

int main(int argc, char** argv)
{
  mc::init(argc, argv);
  const bool th = mc::thorough();
  rt::install();
  if (mc::wants({"C01", "C02", "C04"}) || (th && mc::selected("C13"))) mc::explore("requests", fam_requests);
  if (mc::wants({"C01"})) mc::explore("one controller", fam_solo);
  if (mc::wants({"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C13"})) mc::explore("crowd", fam_crowd);
  if (mc::wants({"C02", "C03", "C04"})) mc::explore("claims", fam_claims);
  if (mc::wants({"C01", "C02", "C04", "C05", "C11", "C10", "C13"}))
  {
    mc::explore("pending", [&] { fam_pending(false, th ? 9 : 6); });
    mc::explore("pending_asap", [&] { fam_pending(true, th ? 5 : 4); });
  }
  if (mc::wants({"C10", "C05", "C01"}) || (th && mc::selected("C13"))) mc::explore("timeout", fam_timeout);
  if (mc::wants({"C01", "C02", "C03", "C04", "C06", "C07", "C11", "C13"})) mc::explore("history", [&] { fam_history(th ? 5 : 4); });
  if (mc::wants({"C06", "C07", "C01"})) mc::explore("load", fam_load);
  if (mc::wants({"C06", "C07"})) mc::explore("reload", fam_reload);
  if (mc::wants({"C11", "C01", "C07", "C13"})) mc::explore("reset", fam_reset);
  return mc::finish();
}
