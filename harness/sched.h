// Controlled scheduler: fibers, preemption-bounded exploration, virtual mutexes and time, and a happens-before race detector
// fed by the compiler's ThreadSanitizer instrumentation (this file is its run-time; the real one is not linked).
#pragma once
#include "../mc/mc.h"
#include <cxxabi.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <algorithm>
#include <functional>
#include <string>
#include <map>
#include <unordered_map>
#include <vector>

#define NOTSAN __attribute__((no_sanitize("thread")))

extern "C" char __libc_single_threaded;

namespace sched
{
static const int MAXT = 6;
static const size_t STACK = 1 << 18;
struct VC { uint32_t c[MAXT] = {0}; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct Fiber
{
  std::string name; std::function<void()> body; ucontext_t ctx; char* stack = nullptr;
  enum St { READY, SLEEPING, BLOCKED, DONE } st = READY;
  const void* waiting_for = nullptr;
  uint64_t seen = 0;            // changes made by others when it last woke
  uint64_t others = 0;          // changes made by others so far
  bool is_loop = false;         // the control loop
  bool woken = false;
  int ignore = 0;               // >0: harness code, not tracked
  int burst = 0;
  void* eh[2] = {nullptr, nullptr};
  VC vc;
};
struct Cell { uint8_t mask; uint8_t tid; bool write, atomic; uint32_t clk; uintptr_t pc; };
static const int CELLS = 10;
struct Word { uintptr_t a; uint32_t gen, n; Cell c[CELLS]; };
// what has been accessed by whom, per 8 bytes
struct Shadow
{
  static const uint32_t N = 1 << 15;
  Word* w = static_cast<Word*>(mmap(nullptr, sizeof(Word) * N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); uint32_t gen = 1, used = 0;
  void clear() { ++gen; used = 0; }
  Word* find(uintptr_t a, bool make)
  {
    uint32_t h = static_cast<uint32_t>((a >> 3) * 0x9e3779b97f4a7c15ULL >> 40) & (N - 1);
    while (w[h].gen == gen) { if (w[h].a == a) return &w[h]; h = (h + 1) & (N - 1); }
    if (!make) return nullptr;
    if (++used > N * 3 / 4) { fprintf(stderr, "sched: shadow memory full\n"); abort(); }
    w[h].gen = gen; w[h].a = a; w[h].n = 0; return &w[h];
  }
};
struct Mtx { int owner = -1, count = 0; VC vc; };
struct Block { size_t size; int by; };

struct S
{
  bool on = false;
  Fiber f[MAXT]; int n = 0, cur = -1;
  ucontext_t main;
  Shadow shadow;
  std::unordered_map<uintptr_t, VC> sync;
  std::unordered_map<const void*, Mtx> mtx;
  std::map<uintptr_t, Block> freed;                       // quarantine: start -> block
  int64_t wall = 0;
  int budget = 0, steps = 0, forced = -1;
  bool stop = false;
  std::function<void(const std::string&, const std::string&)> violation;   // (signature, message)
  std::function<void()> on_step;
  std::function<bool()> idle;                  // called when nothing can run; returns true if it changed something
  std::function<void(int64_t)> off_sleep;      // a sleep while no exploration is on
  std::string race_sig, race_msg;
};
inline S& s() { static S x; return x; }
inline Fiber& me() { return s().f[s().cur]; }
struct Ignore   // harness or scheduler code
{
  Ignore() { if (s().on && s().cur >= 0) ++me().ignore; }
  ~Ignore() { if (s().on && s().cur >= 0) --me().ignore; }
};
struct Code     // code under test
{
  int keep = 0;
  Code() { if (s().on && s().cur >= 0) { keep = me().ignore; me().ignore = 0; } }
  ~Code() { if (s().on && s().cur >= 0) me().ignore = keep; }
};
inline bool tracked() { return s().on && s().cur >= 0 && me().ignore == 0; }

extern "C" char __executable_start;
inline uintptr_t base() { return reinterpret_cast<uintptr_t>(&__executable_start); }

// Racy program counters become scheduling points in a second pass; shared between the workers.
struct Racy { volatile int n, lock, fresh_n; uintptr_t pc[32], fresh[32]; };
inline Racy* racy() { static Racy* r = static_cast<Racy*>(mmap(nullptr, sizeof(Racy), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); return r; }
inline bool is_racy(uintptr_t pc) { Racy* r = racy(); if (!r->n) return false; pc -= base(); for (int i = 0; i < r->n; ++i) if (r->pc[i] == pc) return true; return false; }
inline void found_racy(uintptr_t pc)
{
  if (!pc) return;
  Racy* r = racy(); pc -= base();
  while (__sync_lock_test_and_set(&r->lock, 1)) {}
  bool known = false; for (int i = 0; i < r->fresh_n; ++i) known |= r->fresh[i] == pc;
  if (!known && r->fresh_n < 32) { r->fresh[r->fresh_n] = pc; r->fresh_n = r->fresh_n + 1; }
  __sync_lock_release(&r->lock);
}
inline std::string racy_name() { Racy* r = racy(); std::string s; char b[32]; for (int i = 0; i < r->n; ++i) { snprintf(b, sizeof b, "%s%lx", i ? "," : "", static_cast<unsigned long>(r->pc[i])); s += b; } return s; }
inline void racy_set(const std::string& names) { Racy* r = racy(); r->n = r->fresh_n = 0; const char* p = names.c_str(); while (*p && r->n < 32) { char* e; r->pc[r->n] = strtoul(p, &e, 16); r->n = r->n + 1; p = *e ? e + 1 : e; } }
inline bool racy_grow() { Racy* r = racy(); bool g = false; for (int i = 0; i < r->fresh_n; ++i) { bool k = false; for (int j = 0; j < r->n; ++j) k |= r->pc[j] == r->fresh[i]; if (!k && r->n < 32) { r->pc[r->n] = r->fresh[i]; r->n = r->n + 1; g = true; } } r->fresh_n = 0; std::sort(r->pc, r->pc + r->n); return g; }

inline void changed() { S& x = s(); for (int i = 0; i < x.n; ++i) if (i != x.cur) ++x.f[i].others; }
inline void to_main() { S& x = s(); Fiber& f = me(); x.cur = -1; swapcontext(&f.ctx, &x.main); }
inline bool enabled(Fiber& f)
{
  switch (f.st)
  {
    case Fiber::READY: return true;
    case Fiber::SLEEPING: return f.others != f.seen;
    case Fiber::BLOCKED: { auto it = s().mtx.find(f.waiting_for); return it == s().mtx.end() || it->second.owner < 0; }
    default: return false;
  }
}
inline void fail(const std::string& sig, const std::string& msg)
{
  { Ignore i; if (s().violation) s().violation(sig, msg); s().stop = true; }
  if (s().cur >= 0) to_main();
}

// a point where another fiber may take over
inline void yield_point()
{
  S& x = s();
  if (!x.on || x.cur < 0) return;
  Fiber& f = me();
  bool hand_over = false;
  {
    Ignore ign;
    if (++x.steps > 20000) { fail("no-progress", "an execution does not end"); return; }
    if (++f.burst > 600)
    {
      if (f.is_loop) { fail("loop-waits", "the control loop spins, waiting for another thread"); return; }
      f.burst = 0; f.st = Fiber::SLEEPING; hand_over = true;
      if (x.on_step) x.on_step();
    }
    else
    {
      if (x.on_step) x.on_step();
      if (x.budget <= 0) return;
      int others = 0; for (int i = 0; i < x.n; ++i) if (i != x.cur && enabled(x.f[i])) ++others;
      if (!others) return;
      const int c = mc::choose(others + 1);
      if (!c) return;
      --x.budget;
      int k = 0; for (int i = 0; i < x.n; ++i) if (i != x.cur && enabled(x.f[i]) && ++k == c) { x.forced = i; break; }
      hand_over = true;
    }
  }
  if (hand_over) to_main();
}
inline void point() { if (tracked()) yield_point(); }
inline void sleep_now()
{
  S& x = s();
  if (!x.on || x.cur < 0) return;
  Fiber& f = me();
  if (f.is_loop && f.ignore == 0) { fail("loop-sleeps", "the control loop sleeps inside its cycle"); return; }
  { Ignore ign; if (++x.steps > 20000) { fail("no-progress", "an execution does not end"); return; } if (x.on_step) x.on_step(); }
  f.st = Fiber::SLEEPING; f.burst = 0;
  to_main();
}
NOTSAN inline void entry(unsigned i)
{
  s().f[i].body();
  if (s().on_step) s().on_step();
  s().f[i].st = Fiber::DONE;
  changed();
  to_main();
}
// memory freed in the last execution is returned, everything is forgotten
inline void reset()
{
  S& x = s();
  for (auto& b : x.freed) free(reinterpret_cast<void*>(b.first));
  x.freed.clear(); x.shadow.clear(); x.sync.clear(); x.mtx.clear();
  x.n = 0; x.cur = -1; x.stop = false; x.steps = 0; x.forced = -1; x.race_sig.clear(); x.race_msg.clear();
  x.wall = 1700000000LL * 1000000000LL;
}
inline int add(const std::string& name, std::function<void()> body, bool is_loop = false)
{
  S& x = s(); const int i = x.n++;
  if (i >= MAXT) abort();
  Fiber& f = x.f[i]; f.name = name; f.body = std::move(body); f.st = Fiber::READY; f.is_loop = is_loop; f.seen = f.others = 0; f.ignore = 1; f.burst = 0; f.eh[0] = f.eh[1] = nullptr;
  f.vc = VC();
  if (!f.stack) f.stack = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr;
  makecontext(&f.ctx, reinterpret_cast<void (*)()>(entry), 1, i);
  return i;
}
// Runs all fibers to completion.  Returns false if the execution was abandoned.
inline bool run(int budget)
{
  S& x = s();
  x.budget = budget; x.on = true; __libc_single_threaded = 0;
  for (int i = 0; i < x.n; ++i) { for (int j = 0; j < x.n; ++j) x.f[i].vc.c[j] = 1; x.f[i].vc.c[i] = 2; }      // everything before happened before
  int next = -1, idle = 0; x.forced = -1;
  void** eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
  for (;;)
  {
    if (x.stop) break;
    if (x.forced >= 0) { next = x.forced; x.forced = -1; }
    else
    {
      int en[MAXT], k = 0, left = 0;
      for (int i = 0; i < x.n; ++i) { if (x.f[i].st != Fiber::DONE) ++left; if (enabled(x.f[i])) en[k++] = i; }
      if (!left) break;
      if (!k)
      {
        // nobody can see anything new: time passes, the control loop runs its next cycle
        int loop = -1; for (int i = 0; i < x.n; ++i) if (x.f[i].is_loop && x.f[i].st == Fiber::SLEEPING) loop = i;
        if (++idle > 6 || loop < 0)
        {
          if (x.idle && x.idle()) { idle = 0; continue; }
          std::string who; for (int i = 0; i < x.n; ++i) if (x.f[i].st != Fiber::DONE && !x.f[i].is_loop) who += " " + x.f[i].name + (x.f[i].st == Fiber::BLOCKED ? " (blocked on a lock)" : "");
          fail("never-returns", "calls that never return although the control loop keeps cycling:" + who);
          break;
        }
        next = loop;
      }
      else { idle = 0; next = en[mc::choose(k)]; }
    }
    Fiber& f = x.f[next];
    if (f.st == Fiber::SLEEPING) f.seen = f.others;
    if (f.st != Fiber::DONE) f.st = Fiber::READY;
    f.burst = 0;
    x.cur = next;
    void* keep[2] = {eh[0], eh[1]}; eh[0] = f.eh[0]; eh[1] = f.eh[1];
    swapcontext(&x.main, &f.ctx);
    f.eh[0] = eh[0]; f.eh[1] = eh[1]; eh[0] = keep[0]; eh[1] = keep[1];
    x.cur = -1;
    ++mc::g().transitions;
  }
  x.on = false; __libc_single_threaded = 1;
  return !x.stop;
}

// ---- happens-before
inline void access(uintptr_t a, size_t size, bool write, bool atomic, uintptr_t pc)
{
  S& x = s();
  if (!tracked()) return;
  Fiber& f = me();
  const uintptr_t st = reinterpret_cast<uintptr_t>(f.stack);
  if (a >= st && a < st + STACK) return;
  if (!atomic && is_racy(pc)) yield_point();
  Ignore ign;
  if (!x.freed.empty())
  {
    auto b = x.freed.upper_bound(a);
    if (b != x.freed.begin() && (--b, a < b->first + b->second.size)) { fail("use-after-free", f.name + " uses memory that " + x.f[b->second.by].name + " has freed"); return; }
  }
  bool shared_write = false;
  while (size)
  {
    const uintptr_t g = a & ~uintptr_t(7); const size_t off = a - g, n = std::min(size, 8 - off);
    const uint8_t mask = static_cast<uint8_t>(((1u << n) - 1) << off);
    Word* w = x.shadow.find(g, true);
    uint32_t k = 0;
    for (uint32_t i = 0; i < w->n; ++i)
    {
      const Cell& c = w->c[i];
      if ((c.mask & mask) && c.tid != x.cur)
      {
        if (write) shared_write = true;
        if ((c.write || write) && !(c.atomic && atomic) && c.clk > f.vc.c[c.tid])
        {
          if (!atomic) found_racy(pc);
          if (!c.atomic) found_racy(c.pc);
          if (x.race_sig.empty())
          {
            char b[256]; snprintf(b, sizeof b, "%s %s and %s %s the same memory without synchronisation (exe+0x%lx, exe+0x%lx)", x.f[c.tid].name.c_str(), c.write ? "writes" : "reads", f.name.c_str(), write ? "writes" : "reads",
                                  static_cast<unsigned long>(c.pc - base()), static_cast<unsigned long>(pc - base()));
            x.race_sig = "data-race"; x.race_msg = b;
          }
        }
      }
      if (!(c.tid == x.cur && (c.mask & ~mask) == 0 && (write || !c.write) && (!atomic || c.atomic))) w->c[k++] = c;
    }
    if (k == CELLS) { memmove(w->c, w->c + 1, sizeof(Cell) * (CELLS - 1)); --k; }
    w->c[k++] = Cell{mask, static_cast<uint8_t>(x.cur), write, atomic, f.vc.c[x.cur], pc};
    w->n = k;
    a += n; size -= n;
  }
  if (shared_write && !atomic) changed();
}
inline void clear_shadow(uintptr_t a, size_t size) { S& x = s(); for (uintptr_t g = a & ~uintptr_t(7); g < a + size; g += 8) { Word* w = x.shadow.find(g, false); if (w) w->n = 0; } }
inline void acquire(VC& v) { me().vc.join(v); }
inline void release(VC& v) { Fiber& f = me(); v.join(f.vc); ++f.vc.c[s().cur]; }
inline void release_store(VC& v) { Fiber& f = me(); v = f.vc; ++f.vc.c[s().cur]; }
inline VC& sync_of(const volatile void* p) { return s().sync[reinterpret_cast<uintptr_t>(p)]; }

inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

template <class T> T aload(const volatile T* p, int mo, uintptr_t pc)
{
  if (tracked()) { yield_point(); access(reinterpret_cast<uintptr_t>(p), sizeof(T), false, true, pc); Ignore i; if (acq(mo)) acquire(sync_of(p)); }
  return *p;
}
template <class T> void astore(volatile T* p, T v, int mo, uintptr_t pc)
{
  if (tracked())
  {
    yield_point(); access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true, pc);
    Ignore i;
    VC& c = sync_of(p);
    if (rel(mo)) release_store(c); else c = VC();
    if (*p != v) changed();
  }
  *p = v;
}
template <class T, class F> T armw(volatile T* p, F fn, int mo, uintptr_t pc)
{
  if (tracked())
  {
    yield_point(); access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true, pc);
    Ignore i;
    VC& c = sync_of(p);
    if (acq(mo)) acquire(c);
    if (rel(mo)) release(c);
    if (fn(*p) != *p) changed();
  }
  const T old = *p;
  *p = fn(old);
  return old;
}
template <class T> bool acas(volatile T* p, T* exp, T v, int mo, int fmo, uintptr_t pc)
{
  if (tracked())
  {
    yield_point(); access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true, pc);
    Ignore i;
    VC& c = sync_of(p);
    if (*p == *exp) { if (acq(mo)) acquire(c); if (rel(mo)) release(c); if (*p != v) changed(); }
    else if (acq(fmo)) acquire(c);
  }
  if (*p == *exp) { *p = v; return true; }
  *exp = *p; return false;
}
}

#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { sched::access(reinterpret_cast<uintptr_t>(a), n, false, false, PC); } \
  void __tsan_write##n(void* a) { sched::access(reinterpret_cast<uintptr_t>(a), n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { sched::access(reinterpret_cast<uintptr_t>(a), n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { sched::access(reinterpret_cast<uintptr_t>(a), n, true, false, PC); } \
  void __tsan_read_write##n(void* a) { sched::access(reinterpret_cast<uintptr_t>(a), n, true, false, PC); } \
  void __tsan_unaligned_read_write##n(void* a) { sched::access(reinterpret_cast<uintptr_t>(a), n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { sched::access(reinterpret_cast<uintptr_t>(a), n, false, false, PC); } \
  void __tsan_volatile_write##n(void* a) { sched::access(reinterpret_cast<uintptr_t>(a), n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { if (*a != v) sched::access(reinterpret_cast<uintptr_t>(a), 8, true, false, PC); }
void __tsan_vptr_read(void** a) { sched::access(reinterpret_cast<uintptr_t>(a), 8, false, false, PC); }
void __tsan_read_range(void* a, unsigned long n) { sched::access(reinterpret_cast<uintptr_t>(a), n, false, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { sched::access(reinterpret_cast<uintptr_t>(a), n, true, false, PC); }
void* __tsan_memcpy(void* d, const void* q, unsigned long n) { sched::access(reinterpret_cast<uintptr_t>(q), n, false, false, PC); sched::access(reinterpret_cast<uintptr_t>(d), n, true, false, PC); return __builtin_memcpy(d, q, n); }
void* __tsan_memmove(void* d, const void* q, unsigned long n) { sched::access(reinterpret_cast<uintptr_t>(q), n, false, false, PC); sched::access(reinterpret_cast<uintptr_t>(d), n, true, false, PC); return __builtin_memmove(d, q, n); }
void* __tsan_memset(void* d, int v, unsigned long n) { sched::access(reinterpret_cast<uintptr_t>(d), n, true, false, PC); return __builtin_memset(d, v, n); }
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int mo) { return sched::aload(a, mo, PC); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { sched::astore(a, v, mo, PC); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { return sched::armw(a, [v](T) { return v; }, mo, PC); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { return sched::armw(a, [v](T o) { return static_cast<T>(o + v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { return sched::armw(a, [v](T o) { return static_cast<T>(o - v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { return sched::armw(a, [v](T o) { return static_cast<T>(o & v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { return sched::armw(a, [v](T o) { return static_cast<T>(o | v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { return sched::armw(a, [v](T o) { return static_cast<T>(o ^ v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int mo) { return sched::armw(a, [v](T o) { return static_cast<T>(~(o & v)); }, mo, PC); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return sched::acas(a, e, v, mo, fmo, PC); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return sched::acas(a, e, v, mo, fmo, PC); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { sched::acas(a, &e, v, mo, fmo, PC); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { sched::point(); }
void __tsan_atomic_signal_fence(int) {}

int pthread_mutex_lock(pthread_mutex_t* m)
{
  using namespace sched;
  if (!s().on || s().cur < 0 || me().ignore) return 0;
  const bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  point();
  for (;;)
  {
    Mtx* xp; { Ignore i; xp = &s().mtx[m]; }
    Mtx& x = *xp;
    if (x.owner == s().cur && rec) { ++x.count; return 0; }
    if (x.owner < 0) { x.owner = s().cur; x.count = 1; acquire(x.vc); return 0; }
    if (me().is_loop) { fail("loop-blocks", "the control loop blocks on a lock held by " + s().f[x.owner].name); return 0; }
    me().st = Fiber::BLOCKED; me().waiting_for = m;
    to_main();
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  using namespace sched;
  if (!s().on || s().cur < 0 || me().ignore) return 0;
  const bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  point();
  Mtx* xp; { Ignore i; xp = &s().mtx[m]; }
  Mtx& x = *xp;
  if (x.owner == s().cur && rec) { ++x.count; return 0; }
  if (x.owner >= 0) return EBUSY;
  x.owner = s().cur; x.count = 1; acquire(x.vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  using namespace sched;
  if (!s().on || s().cur < 0 || me().ignore) return 0;
  Mtx* xp; { Ignore i; xp = &s().mtx[m]; }
  Mtx& x = *xp;
  if (x.owner != s().cur) return EPERM;
  if (--x.count) return 0;
  release(x.vc); x.owner = -1; changed();
  point();
  return 0;
}
static bool outside(int64_t ns)
{
  if (sched::s().on) { sched::sleep_now(); return true; }
  if (sched::s().off_sleep) { sched::s().off_sleep(ns); return true; }
  return false;
}
int nanosleep(const struct timespec* t, struct timespec* rem) { return outside(t->tv_sec * 1000000000LL + t->tv_nsec) ? 0 : syscall(SYS_nanosleep, t, rem); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) { return outside(t->tv_sec * 1000000000LL + t->tv_nsec) ? 0 : syscall(SYS_clock_nanosleep, c, flags, t, rem); }
int usleep(useconds_t us)
{
  if (outside(us * 1000LL)) return 0;
  struct timespec t = {static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, nullptr);
}
int sched_yield(void) { return outside(0) ? 0 : syscall(SYS_sched_yield); }
int clock_gettime(clockid_t c, struct timespec* t)
{
  if (!sched::s().on || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return syscall(SYS_clock_gettime, c, t);
  t->tv_sec = sched::s().wall / 1000000000LL; t->tv_nsec = sched::s().wall % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
static int cond_sleep(pthread_mutex_t* m) { pthread_mutex_unlock(m); sched::sleep_now(); pthread_mutex_lock(m); return 0; }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { return cond_sleep(m); }
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec* t) { cond_sleep(m); return sched::s().wall >= t->tv_sec * 1000000000LL + t->tv_nsec ? ETIMEDOUT : 0; }
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec* t) { cond_sleep(m); return sched::s().wall >= t->tv_sec * 1000000000LL + t->tv_nsec ? ETIMEDOUT : 0; }
int pthread_cond_signal(pthread_cond_t*) { if (sched::s().on && sched::s().cur >= 0) sched::changed(); return 0; }
int pthread_cond_broadcast(pthread_cond_t*) { if (sched::s().on && sched::s().cur >= 0) sched::changed(); return 0; }
}

// Memory: freeing counts as a write of the whole block; freed blocks stay in quarantine until the execution ends.
static inline void* tracked_new(size_t n)
{
  void* p = malloc(n ? n : 1); if (!p) abort();
  if (sched::s().on && sched::s().cur >= 0) sched::clear_shadow(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
  return p;
}
static inline void tracked_delete(void* p, uintptr_t pc)
{
  if (!p) return;
  if (sched::tracked())
  {
    const size_t n = malloc_usable_size(p);
    sched::access(reinterpret_cast<uintptr_t>(p), n, true, false, pc);
    sched::Ignore i;
    sched::s().freed[reinterpret_cast<uintptr_t>(p)] = sched::Block{n, sched::s().cur};
    return;
  }
  free(p);
}
void* operator new(size_t n) { return tracked_new(n); }
void* operator new[](size_t n) { return tracked_new(n); }
void operator delete(void* p) noexcept { tracked_delete(p, PC); }
void operator delete[](void* p) noexcept { tracked_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { tracked_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { tracked_delete(p, PC); }
