// Stand-in for roscpp's time types: same arithmetic and overflow behaviour, virtual clock.
#pragma once
#include <cstdint>
#include <cmath>
#include <stdexcept>
#include <ostream>
#include <limits>
#include "ros/exception.h"

namespace ros
{
class Time;
class Duration;

class TimeNotInitializedException : public ros::Exception
{
public:
  TimeNotInitializedException() : ros::Exception("Cannot use ros::Time::now() before the first NodeHandle has been created or ros::start() has been called.") {}
};

class Duration
{
public:
  int32_t sec = 0, nsec = 0;
  Duration() = default;
  Duration(int32_t s, int32_t n) { set(static_cast<int64_t>(s) * 1000000000LL + n); }
  explicit Duration(double t) { fromSec(t); }
  static Duration fromNSecs(int64_t t) { Duration d; d.set(t); return d; }
  Duration& fromSec(double t)
  {
    int64_t s = static_cast<int64_t>(std::floor(t));
    if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max())
      throw std::runtime_error("Duration is out of dual 32-bit range");
    int64_t n = static_cast<int64_t>(std::round((t - s) * 1e9));
    set(s * 1000000000LL + n);
    return *this;
  }
  Duration& fromNSec(int64_t t) { set(t); return *this; }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000LL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const;
  Duration operator+(const Duration& o) const { return Duration().fromNSec(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  Duration operator-() const { return Duration().fromNSec(-toNSec()); }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration& operator+=(const Duration& o) { return *this = *this + o; }
  Duration& operator-=(const Duration& o) { return *this = *this - o; }
  Duration& operator*=(double s) { return *this = *this * s; }
  bool operator==(const Duration& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Duration& o) const { return !(*this == o); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
private:
  void set(int64_t t)
  {
    int64_t s = t / 1000000000LL, n = t % 1000000000LL;
    if (n < 0) { n += 1000000000LL; --s; }
    if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max())
      throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = static_cast<int32_t>(s); nsec = static_cast<int32_t>(n);
  }
};

namespace stub { extern int64_t now_ns; extern void (*on_sleep)(int64_t ns); }

class Time
{
public:
  uint32_t sec = 0, nsec = 0;
  Time() = default;
  Time(uint32_t s, uint32_t n) { set(static_cast<int64_t>(s) * 1000000000LL + n); }
  explicit Time(double t) { fromSec(t); }
  static Time now() { return Time().fromNSec(stub::now_ns); }
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
  static bool isSimTime() { return false; }
  static bool isSystemTime() { return true; }
  static void init() {}
  static bool sleepUntil(const Time& end);
  Time& fromSec(double t)
  {
    int64_t s = static_cast<int64_t>(std::floor(t));
    if (s < 0 || s > std::numeric_limits<uint32_t>::max()) throw std::runtime_error("Time is out of dual 32-bit range");
    int64_t n = static_cast<int64_t>(std::round((t - s) * 1e9));
    set(s * 1000000000LL + n);
    return *this;
  }
  Time& fromNSec(uint64_t t) { set(static_cast<int64_t>(t)); return *this; }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ULL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool is_zero() const { return isZero(); }
  Duration operator-(const Time& o) const { return Duration().fromNSec(static_cast<int64_t>(toNSec()) - static_cast<int64_t>(o.toNSec())); }
  Time operator+(const Duration& d) const { Time t; t.set(static_cast<int64_t>(toNSec()) + d.toNSec()); return t; }
  Time operator-(const Duration& d) const { Time t; t.set(static_cast<int64_t>(toNSec()) - d.toNSec()); return t; }
  Time& operator+=(const Duration& d) { return *this = *this + d; }
  Time& operator-=(const Duration& d) { return *this = *this - d; }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
private:
  void set(int64_t t)
  {
    int64_t s = t / 1000000000LL, n = t % 1000000000LL;
    if (n < 0) { n += 1000000000LL; --s; }
    if (s < 0 || s > std::numeric_limits<uint32_t>::max()) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = static_cast<uint32_t>(s); nsec = static_cast<uint32_t>(n);
  }
};

typedef Time WallTime;
typedef Time SteadyTime;
typedef Duration WallDuration;

static const Time TIME_MIN(0, 1);
static const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);
static const Duration DURATION_MAX(std::numeric_limits<int32_t>::max(), 999999999);
static const Duration DURATION_MIN(std::numeric_limits<int32_t>::min(), 0);

inline bool Duration::sleep() const { if (stub::on_sleep) stub::on_sleep(toNSec()); return true; }
inline bool Time::sleepUntil(const Time& end) { Duration d = end - now(); if (d.toNSec() > 0) d.sleep(); return true; }
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.sec << "." << t.nsec; }
inline std::ostream& operator<<(std::ostream& os, const Duration& t) { return os << t.toSec(); }

class Rate
{
public:
  explicit Rate(double hz) : d_(1.0 / hz) {}
  explicit Rate(const Duration& d) : d_(d) {}
  bool sleep() { return d_.sleep(); }
  void reset() {}
  Duration cycleTime() const { return d_; }
  Duration expectedCycleTime() const { return d_; }
private:
  Duration d_;
};
}
