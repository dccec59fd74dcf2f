// Owns time in single-threaded harnesses: every sleep or timed wait of the code under test ends up in timehook::on_sleep, every clock reads timehook::wall_ns.
#pragma once
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <cstdint>
#include <functional>
namespace timehook
{
inline bool& active() { static bool a = false; return a; }
inline int64_t& wall_ns() { static int64_t w = 0; return w; }
inline std::function<void(int64_t)>& on_sleep() { static std::function<void(int64_t)> f; return f; }
inline void slept(int64_t ns) { if (on_sleep()) on_sleep()(ns); }
}
extern "C" {
int nanosleep(const struct timespec* t, struct timespec* rem)
{
  if (!timehook::active()) return syscall(SYS_nanosleep, t, rem);
  timehook::slept(t->tv_sec * 1000000000LL + t->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem)
{
  if (!timehook::active()) return syscall(SYS_clock_nanosleep, c, flags, t, rem);
  int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec;
  if (flags & TIMER_ABSTIME) ns -= timehook::wall_ns();
  timehook::slept(ns < 0 ? 0 : ns);
  return 0;
}
int usleep(useconds_t us)
{
  if (!timehook::active()) { struct timespec t = {static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, nullptr); }
  timehook::slept(us * 1000LL);
  return 0;
}
int sched_yield(void)
{
  if (!timehook::active()) return syscall(SYS_sched_yield);
  timehook::slept(1000);
  return 0;
}
int clock_gettime(clockid_t c, struct timespec* t)
{
  if (!timehook::active() || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return syscall(SYS_clock_gettime, c, t);
  t->tv_sec = timehook::wall_ns() / 1000000000LL; t->tv_nsec = timehook::wall_ns() % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec* t)
{
  int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec - timehook::wall_ns();
  pthread_mutex_unlock(m); timehook::slept(ns < 0 ? 0 : ns); pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec* t)
{
  int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec - timehook::wall_ns();
  pthread_mutex_unlock(m); timehook::slept(ns < 0 ? 0 : ns); pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m)
{
  pthread_mutex_unlock(m); timehook::slept(0); pthread_mutex_lock(m);
  return 0;
}
}
