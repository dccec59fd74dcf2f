// A small stateless model checker for C++ harnesses.
//
// A harness body is a deterministic function of the answers it gets from mc::choose(n).  mc::explore() runs the body for every
// sequence of answers (depth-first, exhaustively), split over forked workers; the body calls mc::fail() where a property is
// broken.  Every violation, crash or hang is replayed from its recorded choices in a fresh process before it is reported.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

namespace mc
{
static const int MAX_DEPTH = 1 << 16;
static const int MAX_WORKERS = 16;

struct Violation { std::string prop, sig, msg, family; std::vector<int> choices; std::vector<std::string> trace; };

struct Slot                      // shared between a worker and the parent
{
  volatile uint64_t heartbeat;
  volatile int depth;            // choices made so far in the current execution
  int choice[MAX_DEPTH];
};
// A piece of the search: everything that starts with the first n-1 choices and goes on with choice n-1 or a later one.
static const int MAX_ITEMS = 128, ITEM_LEN = 8000;
struct Item { int n; uint16_t choice[ITEM_LEN]; };
struct Shared { volatile int stop, lock, items, waiting; Item item[MAX_ITEMS]; Slot slot[MAX_WORKERS]; };

struct Family { std::string name; uint64_t executions = 0, choices = 0, states = 0, outcomes = 0; int max_depth = 0; bool complete = true; uint64_t cap = 0; };

struct G
{
  std::string prop = "all", tier = "quick", out, replay_family;
  std::vector<int> replay_choices;
  bool replaying = false;
  int workers = 8;
  double hang_s = 60;
  std::set<std::string> known;          // signatures of known findings
  // current execution
  std::vector<int> path, width;
  size_t pos = 0;
  Slot* slot = nullptr;
  Shared* shared = nullptr;
  bool trace = false;
  int note_fd = -1;
  std::vector<std::string> notes;
  std::string fail_prop, fail_sig, fail_msg;
  std::map<std::string, uint64_t> known_hit;
  // totals of this worker
  uint64_t executions = 0, transitions = 0, choices = 0, cap = 0;
  int max_depth = 0, dev_left = 0;
  bool foreign = false;
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::string> samples;
  std::string family;
  // results
  std::vector<Violation> violations;
  std::vector<Family> families;
  uint64_t all_exec = 0, all_states = 0, all_trans = 0, all_outcomes = 0;
  std::vector<std::string> all_samples;
  std::map<std::string, uint64_t> all_known;
  std::string error;
  double t0 = 0;
};
inline G& g() { static G x; return x; }

inline bool thorough() { return g().tier == "thorough"; }
inline bool tracing() { return g().trace; }
inline bool selected(const char* prop) { return g().prop == "all" || g().prop == prop; }
inline bool wants(std::initializer_list<const char*> ps) { for (auto p : ps) if (selected(p)) return true; return false; }

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h, s.size()); }

inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...)
{
  if (!g().trace) return;
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  g().notes.push_back(buf);
  if (g().note_fd >= 0) { std::string l = std::string(buf) + "\n"; if (write(g().note_fd, l.data(), l.size()) < 0) {} }
  if (getenv("MC_ECHO")) fprintf(stderr, "%s\n", buf);
}
inline void outcome(uint64_t h) { if (!g().foreign) g().outcomes.insert(h); }
inline void outcome(const std::string& s) { outcome(hash(s)); }
inline void state(uint64_t h) { ++g().transitions; if (!g().foreign) g().states.insert(h); }
inline bool failed() { return !g().fail_sig.empty(); }
inline void fail(const char* prop, const std::string& sig, const std::string& msg)
{
  G& x = g();
  if (!selected(prop)) return;
  if (x.known.count(sig)) { if (!x.foreign) ++x.known_hit[sig]; note("KNOWN FINDING %s: %s", sig.c_str(), msg.c_str()); return; }
  if (failed()) return;
  x.fail_prop = prop; x.fail_sig = sig; x.fail_msg = msg;
  note("VIOLATION of %s [%s]: %s", prop, sig.c_str(), msg.c_str());
}

// The only source of nondeterminism of a body.
inline int choose(int n)
{
  G& x = g();
  if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
  if (n == 1) return 0;
  int c = 0;
  if (x.pos < x.path.size())
  {
    c = x.path[x.pos];
    if (c >= n || (x.width.size() > x.pos && x.width[x.pos] != 0 && x.width[x.pos] != n))
    { fprintf(stderr, "mc: replay divergence at choice %zu (%d of %d)\n", x.pos, c, n); _exit(77); }
    if (x.width.size() <= x.pos) x.width.resize(x.pos + 1, 0);
    x.width[x.pos] = n;
  }
  else { x.path.push_back(0); x.width.resize(x.path.size(), 0); x.width.back() = n; }
  if (x.slot && x.pos < MAX_DEPTH) { x.slot->choice[x.pos] = c; x.slot->depth = static_cast<int>(x.pos) + 1; }
  ++x.pos;
  ++x.choices;
  return c;
}
// A choice whose alternatives to the default 0 cost one deviation each.
inline int choose_dev(int n)
{
  if (g().dev_left <= 0) return 0;
  int c = choose(n);
  if (c) --g().dev_left;
  return c;
}
inline bool flip() { return choose(2) == 1; }
template <class T> const T& pick(const std::vector<T>& v) { return v[choose(static_cast<int>(v.size()))]; }

inline double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}

inline void begin_execution() { G& x = g(); x.pos = 0; x.notes.clear(); x.fail_prop.clear(); x.fail_sig.clear(); x.fail_msg.clear(); if (x.slot) x.slot->depth = 0; }

// serialisation of a worker's result over a file
inline void put(FILE* f, const std::string& s) { uint32_t n = s.size(); fwrite(&n, 4, 1, f); fwrite(s.data(), 1, n, f); }
inline std::string get(FILE* f) { uint32_t n = 0; if (fread(&n, 4, 1, f) != 1) return ""; std::string s(n, 0); if (n && fread(&s[0], 1, n, f) != n) return ""; return s; }
inline void put64(FILE* f, uint64_t v) { fwrite(&v, 8, 1, f); }
inline uint64_t get64(FILE* f) { uint64_t v = 0; if (fread(&v, 8, 1, f) != 1) return 0; return v; }

inline void worker(int id, int nworkers, const std::function<void()>& body, const std::string& file)
{
  G& x = g();
  x.slot = &x.shared->slot[id];
  x.path.clear(); x.width.clear();
  x.executions = x.transitions = x.choices = 0; x.max_depth = 0;
  x.states.clear(); x.outcomes.clear(); x.samples.clear(); x.known_hit.clear();
  Violation v; bool have = false;
  
  // Workers take pieces of the search from a shared list; a busy worker gives away its shallowest untried alternatives when others wait.
  Shared* sh = x.shared;
  auto lock = [sh] { while (__sync_lock_test_and_set(&sh->lock, 1)) {} };
  auto unlock = [sh] { __sync_lock_release(&sh->lock); };
  bool complete = true; bool waiting = false;
  for (;;)
  {
    size_t fixed = 0; bool got = false;
    lock();
    if (sh->items > 0)
    {
      Item& it = sh->item[--sh->items];
      x.path.assign(it.choice, it.choice + it.n); x.width.clear(); fixed = it.n ? it.n - 1 : 0; got = true;
      if (waiting) { waiting = false; --sh->waiting; }
    }
    else if (!waiting) { waiting = true; ++sh->waiting; }
    const bool over = !got && sh->waiting == nworkers;
    unlock();
    if (over || sh->stop) { if (sh->stop) complete = false; break; }
    if (!got) { ++x.slot->heartbeat; struct timespec t = {0, 200000}; syscall(SYS_nanosleep, &t, nullptr); continue; }
    for (bool more = true; more;)
    {
      begin_execution();
      body();
      ++x.slot->heartbeat;
      ++x.executions;
      if (static_cast<int>(x.pos) > x.max_depth) x.max_depth = static_cast<int>(x.pos);
      if (failed() && !have)
      {
        have = true;
        v.prop = x.fail_prop; v.sig = x.fail_sig; v.msg = x.fail_msg; v.family = x.family;
        v.choices.assign(x.path.begin(), x.path.begin() + x.pos);
        sh->stop = 1;
      }
      if (x.samples.size() < 2 && (x.executions == 3 || x.executions == 1000))
      {
        std::vector<int> p = x.path, w = x.width; size_t ps = x.pos;
        x.trace = true; begin_execution(); body(); x.trace = false;
        std::string s; for (size_t i = 0; i < x.notes.size() && i < 60; ++i) s += (i ? "; " : "") + x.notes[i];
        x.samples.push_back(x.family + ": " + s);
        x.path = p; x.width = w; x.pos = ps;
      }
      if (sh->stop) { complete = false; break; }
      if (x.cap && x.executions >= x.cap / nworkers + 1) { complete = false; sh->stop = 1; break; }
      // backtrack
      x.path.resize(x.pos); x.width.resize(x.pos);
      while (x.path.size() > fixed && x.path.back() + 1 >= x.width.back()) { x.path.pop_back(); x.width.pop_back(); }
      more = x.path.size() > fixed;
      if (more) ++x.path.back();
      if (more && sh->waiting > sh->items && sh->items < MAX_ITEMS)
      {
        for (size_t i = fixed; i < x.path.size() && i + 1 < ITEM_LEN; ++i)
        {
          if (x.path[i] + 1 >= x.width[i]) continue;
          lock();
          if (sh->items < MAX_ITEMS)
          {
            Item& it = sh->item[sh->items++];
            it.n = static_cast<int>(i) + 1; for (size_t k = 0; k < i; ++k) it.choice[k] = static_cast<uint16_t>(x.path[k]);
            it.choice[i] = static_cast<uint16_t>(x.path[i] + 1);
            fixed = i + 1;
          }
          unlock();
          break;
        }
      }
    }
    if (!complete) break;
  }
  FILE* f = fopen(file.c_str(), "wb");
  put64(f, 0x6d63); put64(f, x.executions); put64(f, x.transitions); put64(f, x.choices); put64(f, x.max_depth); put64(f, complete);
  put64(f, x.states.size()); for (auto h : x.states) put64(f, h);
  put64(f, x.outcomes.size()); for (auto h : x.outcomes) put64(f, h);
  put64(f, x.samples.size()); for (auto& s : x.samples) put(f, s);
  put64(f, x.known_hit.size()); for (auto& k : x.known_hit) { put(f, k.first); put64(f, k.second); }
  put64(f, have);
  if (have) { put(f, v.prop); put(f, v.sig); put(f, v.msg); put64(f, v.choices.size()); for (int c : v.choices) put64(f, c); }
  fclose(f);
}

// Re-runs one choice sequence in a fresh process; returns what happened.
inline std::string replay_once(const std::vector<int>& choices, const std::function<void()>& body, double limit, Violation& v)
{
  G& x = g();
  char tmp[] = "/tmp/mcreplay.XXXXXX"; int fd = mkstemp(tmp); close(fd);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0)
  {
    x.path = choices; x.width.assign(choices.size(), 0); x.trace = true; x.slot = &x.shared->slot[0]; x.foreign = false;
    x.note_fd = open((std::string(tmp) + ".notes").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    begin_execution();
    body();
    FILE* f = fopen(tmp, "wb"); put(f, x.fail_prop); put(f, x.fail_sig); put(f, x.fail_msg); put64(f, x.notes.size()); for (auto& n : x.notes) put(f, n); fclose(f);
    _exit(0);
  }
  double t = now_s(); int st = 0; bool hung = false;
  for (;;)
  {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (now_s() - t > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
    usleep(2000);
  }
  std::string res;
  if (hung) res = "hang";
  else if (WIFSIGNALED(st)) res = "crash:signal-" + std::to_string(WTERMSIG(st));
  else if (WEXITSTATUS(st) == 77) res = "diverged";
  else if (WEXITSTATUS(st) != 0) res = "crash:exit-" + std::to_string(WEXITSTATUS(st));
  else
  {
    FILE* f = fopen(tmp, "rb");
    v.prop = get(f); v.sig = get(f); v.msg = get(f); uint64_t n = get64(f); v.trace.clear();
    for (uint64_t i = 0; i < n; ++i) v.trace.push_back(get(f));
    fclose(f);
    res = v.sig.empty() ? "ok" : "fail";
  }
  if (res != "ok" && res != "fail")
  {
    v.trace.clear();
    FILE* f = fopen((std::string(tmp) + ".notes").c_str(), "rb");
    if (f) { char b[8192]; while (fgets(b, sizeof b, f)) { std::string l = b; if (!l.empty() && l.back() == '\n') l.pop_back(); v.trace.push_back(l); } fclose(f); }
  }
  unlink(tmp); unlink((std::string(tmp) + ".notes").c_str());
  return res;
}

inline void report(const Violation& v) { g().violations.push_back(v); }

inline void explore(const std::string& family, const std::function<void()>& body, uint64_t cap = 0)
{
  G& x = g();
  if (!x.error.empty()) return;
  x.family = family;
  if (x.replaying)
  {
    if (x.replay_family != family) return;
    Violation v; v.choices = x.replay_choices; v.family = family;
    std::string r = replay_once(x.replay_choices, body, 4 * x.hang_s, v);
    for (auto& n : v.trace) printf("  %s\n", n.c_str());
    printf("replay of %s: %s %s\n", family.c_str(), r.c_str(), v.msg.c_str());
    if (r != "ok") { if (r != "fail") { v.prop = x.prop; v.sig = r; v.msg = r; } report(v); }
    return;
  }
  if (!x.violations.empty()) return;              // one violation is enough
  const int W = x.workers;
  x.cap = cap;
  x.shared->stop = x.shared->lock = x.shared->waiting = 0; x.shared->items = 1; x.shared->item[0].n = 0;
  for (int i = 0; i < W; ++i) { x.shared->slot[i].heartbeat = 0; x.shared->slot[i].depth = 0; }
  char dir[] = "/tmp/mcwork.XXXXXX"; if (!mkdtemp(dir)) { x.error = "mkdtemp"; return; }
  std::vector<pid_t> pid(W); std::vector<std::string> file(W); std::vector<bool> done(W, false);
  fflush(nullptr);
  for (int i = 0; i < W; ++i)
  {
    file[i] = std::string(dir) + "/" + std::to_string(i);
    pid[i] = fork();
    if (pid[i] == 0)
    {
      int fd = open((file[i] + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if (!getenv("MC_ECHO")) dup2(fd, 2);
      worker(i, W, body, file[i]); fflush(nullptr); _exit(0);
    }
  }
  std::vector<uint64_t> hb(W, 0); std::vector<double> last(W, now_s());
  int left = W; int bad = -1; std::string badwhat, badtext; std::vector<int> badchoices;
  auto slurp = [](const std::string& f) { std::string s; FILE* p = fopen(f.c_str(), "rb"); if (p) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0 && s.size() < 20000) s.append(b, n); fclose(p); } return s; };
  while (left)
  {
    bool any = false;
    for (int i = 0; i < W; ++i)
    {
      if (done[i]) continue;
      int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
      bool hung = false;
      if (r == 0)
      {
        if (x.shared->slot[i].heartbeat != hb[i]) { hb[i] = x.shared->slot[i].heartbeat; last[i] = now_s(); continue; }
        else if (now_s() - last[i] > x.hang_s) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); hung = true; }
        else continue;
      }
      any = true; done[i] = true; --left;
      if (hung || WIFSIGNALED(st) || WEXITSTATUS(st) != 0)
      {
        x.shared->stop = 1;
        if (bad < 0)
        {
          bad = i; badwhat = hung ? "hang" : "crash";
          if (!hung && !WIFSIGNALED(st) && WEXITSTATUS(st) == 77) badwhat = "diverged";
          badchoices.assign(x.shared->slot[i].choice, x.shared->slot[i].choice + x.shared->slot[i].depth);
          badtext = slurp(file[i] + ".err");
        }
      }
    }
    if (!any) usleep(3000);
  }
  Family fam; fam.name = family; fam.cap = cap;
  std::unordered_set<uint64_t> st, oc; std::vector<Violation> found;
  for (int i = 0; i < W; ++i)
  {
    FILE* f = fopen(file[i].c_str(), "rb");
    if (!f) { fam.complete = false; continue; }
    if (get64(f) == 0x6d63)
    {
      fam.executions += get64(f); x.all_trans += get64(f); fam.choices += get64(f);
      int md = static_cast<int>(get64(f)); if (md > fam.max_depth) fam.max_depth = md;
      if (!get64(f)) fam.complete = false;
      for (uint64_t n = get64(f); n; --n) st.insert(get64(f));
      for (uint64_t n = get64(f); n; --n) oc.insert(get64(f));
      for (uint64_t n = get64(f); n; --n) { std::string s = get(f); if (x.all_samples.size() < 8) x.all_samples.push_back(s); }
      for (uint64_t n = get64(f); n; --n) { std::string k = get(f); x.all_known[k] += get64(f); }
      if (get64(f)) { Violation v; v.prop = get(f); v.sig = get(f); v.msg = get(f); v.family = family; for (uint64_t n = get64(f); n; --n) v.choices.push_back(static_cast<int>(get64(f))); found.push_back(v); }
    }
    fclose(f);
  }
  for (int i = 0; i < W; ++i) { unlink(file[i].c_str()); unlink((file[i] + ".err").c_str()); }
  rmdir(dir);
  fam.states = st.size(); fam.outcomes = oc.size();
  x.all_exec += fam.executions; x.all_states += fam.states; x.all_outcomes += fam.outcomes;
  x.families.push_back(fam);
  if (getenv("MC_VERBOSE")) fprintf(stderr, "%-40s executions=%lu outcomes=%lu depth=%d complete=%d  %.1fs\n", family.c_str(), static_cast<unsigned long>(fam.executions), static_cast<unsigned long>(fam.outcomes), fam.max_depth, fam.complete, now_s() - x.t0);
  if (!found.empty())
  {
    size_t best = 0;
    for (size_t i = 1; i < found.size(); ++i) if (found[i].choices.size() < found[best].choices.size()) best = i;
    Violation v = found[best], again = v;
    std::string r = replay_once(v.choices, body, 4 * x.hang_s, again);
    if (r == "fail" && again.sig == v.sig) { v.trace = again.trace; v.msg = again.msg; report(v); }
    else if (r.compare(0, 5, "crash") == 0) { v.msg += " (the replay crashed: " + r + ")"; report(v); }
    else x.error = "violation [" + v.sig + "] " + v.msg + " did not replay: " + r;
  }
  else if (bad >= 0)
  {
    Violation v; v.family = family; v.choices = badchoices; v.prop = x.prop;
    if (badwhat == "diverged") { x.error = "nondeterminism: " + badtext; return; }
    std::string r = replay_once(badchoices, body, 4 * x.hang_s, v);
    if (r == "ok" || r == "diverged") x.error = "a worker ended with " + badwhat + " that does not replay (" + r + "): " + badtext.substr(0, 2000);
    else if (r == "fail") report(v);
    else { v.prop = x.prop; v.sig = r; v.msg = r + ": " + badtext.substr(0, 3000); report(v); }
  }
}

inline void init(int argc, char** argv)
{
  G& x = g();
  x.t0 = now_s();
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i]; auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") x.prop = next();
    else if (a == "--tier") x.tier = next();
    else if (a == "--out") x.out = next();
    else if (a == "--workers") x.workers = atoi(next().c_str());
    else if (a == "--known") x.known.insert(next());
    else if (a == "--hang") x.hang_s = atof(next().c_str());
    else if (a == "--replay") { x.replaying = true; x.replay_family = next(); std::stringstream s(next()); std::string t; while (std::getline(s, t, ',')) if (!t.empty()) x.replay_choices.push_back(atoi(t.c_str())); }
  }
  if (x.workers > MAX_WORKERS) x.workers = MAX_WORKERS;
  if (x.workers < 1) x.workers = 1;
  x.shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

inline int finish()
{
  G& x = g();
  std::ostringstream o;
  o << "{\"executions\":" << x.all_exec << ",\"states\":" << x.all_states << ",\"transitions\":" << x.all_trans << ",\"outcomes\":" << x.all_outcomes;
  o << ",\"wall_s\":" << now_s() - x.t0 << ",\"error\":" << jstr(x.error) << ",\"families\":[";
  for (size_t i = 0; i < x.families.size(); ++i)
  {
    auto& f = x.families[i];
    o << (i ? "," : "") << "{\"name\":" << jstr(f.name) << ",\"executions\":" << f.executions << ",\"choice_points\":" << f.choices << ",\"distinct_states\":" << f.states
      << ",\"distinct_outcomes\":" << f.outcomes << ",\"max_choices_in_one_execution\":" << f.max_depth << ",\"complete\":" << (f.complete ? "true" : "false") << ",\"cap\":" << f.cap << "}";
  }
  o << "],\"samples\":[";
  for (size_t i = 0; i < x.all_samples.size(); ++i) o << (i ? "," : "") << jstr(x.all_samples[i]);
  o << "],\"known\":{";
  { bool first = true; for (auto& k : x.all_known) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; } }
  o << "},\"violations\":[";
  for (size_t i = 0; i < x.violations.size(); ++i)
  {
    auto& v = x.violations[i];
    o << (i ? "," : "") << "{\"property\":" << jstr(v.prop) << ",\"signature\":" << jstr(v.sig) << ",\"message\":" << jstr(v.msg) << ",\"family\":" << jstr(v.family) << ",\"choices\":[";
    for (size_t k = 0; k < v.choices.size(); ++k) o << (k ? "," : "") << v.choices[k];
    o << "],\"trace\":[";
    for (size_t k = 0; k < v.trace.size(); ++k) o << (k ? "," : "") << jstr(v.trace[k]);
    o << "]}";
  }
  o << "]}\n";
  if (!x.out.empty()) { FILE* f = fopen(x.out.c_str(), "wb"); fputs(o.str().c_str(), f); fclose(f); }
  else fputs(o.str().c_str(), stdout);
  if (!x.error.empty()) { fprintf(stderr, "mc: error: %s\n", x.error.c_str()); return 2; }
  return x.violations.empty() ? 0 : 1;
}
}
