// Counts what a real-time function must not do: allocate, free, wait for a lock, sleep. Counting is on inside rt::Scope and off inside rt::Out (callbacks of the harness).
#pragma once
#include <dlfcn.h>
#include <pthread.h>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <string>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace rt
{
struct Counts { int alloc = 0, freed = 0, locks = 0, sleeps = 0; };
inline Counts& counts() { static Counts c; return c; }
inline int& level() { static int l = 0; return l; }
inline void on_malloc(const volatile void*, size_t) { if (level() > 0) ++counts().alloc; }
inline void on_free(const volatile void* p) { if (p && level() > 0) ++counts().freed; }
struct Scope { int l; Scope() : l(level()) { counts() = Counts(); level() = 1; } ~Scope() { level() = l; } };
struct Out { int l; Out() : l(level()) { level() = 0; } ~Out() { level() = l; } };
inline void install()                                   // and make sure that it counts
{
  counts(); level(); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; void* volatile p;
  { Scope s; p = malloc(8); free(p); pthread_mutex_lock(&m); pthread_mutex_unlock(&m); }
  if (counts().alloc != 1 || counts().freed != 1 || counts().locks != 1) { fprintf(stderr, "heap operations or locks are not observed: %d %d %d\n", counts().alloc, counts().freed, counts().locks); abort(); }
}
inline std::string what()
{
  const Counts c = counts();
  return c.alloc ? "allocates memory" : c.freed ? "frees memory" : c.locks ? "takes a lock" : c.sleeps ? "sleeps" : "";
}
inline const char* sig() { const Counts c = counts(); return c.alloc || c.freed ? "heap" : c.locks ? "lock" : "sleep"; }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
  static int (*real)(pthread_mutex_t*) = [] { rt::Out out; return reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_lock")); }();
  if (rt::level() > 0) ++rt::counts().locks;
  return real ? real(m) : 0;
}
