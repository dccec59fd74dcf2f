// Stand-in for rosconsole.  INFO and above format their arguments (so that a bad expression in a log line is executed, as
// it would be on a robot); DEBUG, which is disabled by default on a robot too, does not.
#pragma once
#include <cstdio>
#include <sstream>
#include <string>
#include <cassert>
#include <cstdlib>
#include <cstring>
#include <cstddef>
#include <iostream>
#include <map>
#include <set>
#include <list>
#include <vector>
#include <memory>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <limits>
#include <utility>
#include "ros/time.h"
namespace ros { namespace console { namespace stub {
extern unsigned long lines;                       // number of INFO+ lines
__attribute__((format(printf, 1, 2))) void print(const char* fmt, ...);
void emit(const std::string& s);
} } }
#define ROS_STUB_PRINT(...) do { ::ros::console::stub::print(__VA_ARGS__); } while (0)
#define ROS_STUB_STREAM(args) do { std::stringstream ros_stub_ss__; ros_stub_ss__ << args; ::ros::console::stub::emit(ros_stub_ss__.str()); } while (0)
#define ROS_STUB_NOPRINT(...) do { if (0) ::ros::console::stub::print(__VA_ARGS__); } while (0)
#define ROS_STUB_NOSTREAM(args) do { if (0) { std::stringstream ros_stub_ss__; ros_stub_ss__ << args; } } while (0)

#define ROS_DEBUG(...) ROS_STUB_NOPRINT(__VA_ARGS__)
#define ROS_DEBUG_STREAM(args) ROS_STUB_NOSTREAM(args)
#define ROS_DEBUG_NAMED(name, ...) ROS_STUB_NOPRINT(__VA_ARGS__)
#define ROS_DEBUG_STREAM_NAMED(name, args) do { (void)std::string(name); ROS_STUB_NOSTREAM(args); } while (0)
#define ROS_DEBUG_COND(cond, ...) do { if (cond) ROS_STUB_NOPRINT(__VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_COND(cond, args) do { if (cond) ROS_STUB_NOSTREAM(args); } while (0)
#define ROS_DEBUG_COND_NAMED(cond, name, ...) do { if (cond) ROS_STUB_NOPRINT(__VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_COND_NAMED(cond, name, args) do { if (cond) ROS_STUB_NOSTREAM(args); } while (0)
#define ROS_DEBUG_ONCE(...) ROS_STUB_NOPRINT(__VA_ARGS__)
#define ROS_DEBUG_STREAM_ONCE(args) ROS_STUB_NOSTREAM(args)
#define ROS_DEBUG_ONCE_NAMED(name, ...) ROS_STUB_NOPRINT(__VA_ARGS__)
#define ROS_DEBUG_STREAM_ONCE_NAMED(name, args) ROS_STUB_NOSTREAM(args)
#define ROS_DEBUG_THROTTLE(period, ...) ROS_STUB_NOPRINT(__VA_ARGS__)
#define ROS_DEBUG_STREAM_THROTTLE(period, args) ROS_STUB_NOSTREAM(args)
#define ROS_DEBUG_THROTTLE_NAMED(period, name, ...) ROS_STUB_NOPRINT(__VA_ARGS__)
#define ROS_DEBUG_STREAM_THROTTLE_NAMED(period, name, args) ROS_STUB_NOSTREAM(args)
#define ROS_DEBUG_DELAYED_THROTTLE(period, ...) ROS_STUB_NOPRINT(__VA_ARGS__)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE(period, args) ROS_STUB_NOSTREAM(args)
#define ROS_DEBUG_DELAYED_THROTTLE_NAMED(period, name, ...) ROS_STUB_NOPRINT(__VA_ARGS__)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) ROS_STUB_NOSTREAM(args)
#define ROS_INFO(...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_INFO_STREAM(args) ROS_STUB_STREAM(args)
#define ROS_INFO_NAMED(name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_INFO_STREAM_NAMED(name, args) do { (void)std::string(name); ROS_STUB_STREAM(args); } while (0)
#define ROS_INFO_COND(cond, ...) do { if (cond) ROS_STUB_PRINT(__VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_COND(cond, args) do { if (cond) ROS_STUB_STREAM(args); } while (0)
#define ROS_INFO_COND_NAMED(cond, name, ...) do { if (cond) ROS_STUB_PRINT(__VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_COND_NAMED(cond, name, args) do { if (cond) ROS_STUB_STREAM(args); } while (0)
#define ROS_INFO_ONCE(...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_INFO_STREAM_ONCE(args) ROS_STUB_STREAM(args)
#define ROS_INFO_ONCE_NAMED(name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_INFO_STREAM_ONCE_NAMED(name, args) ROS_STUB_STREAM(args)
#define ROS_INFO_THROTTLE(period, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_INFO_STREAM_THROTTLE(period, args) ROS_STUB_STREAM(args)
#define ROS_INFO_THROTTLE_NAMED(period, name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_INFO_STREAM_THROTTLE_NAMED(period, name, args) ROS_STUB_STREAM(args)
#define ROS_INFO_DELAYED_THROTTLE(period, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_INFO_STREAM_DELAYED_THROTTLE(period, args) ROS_STUB_STREAM(args)
#define ROS_INFO_DELAYED_THROTTLE_NAMED(period, name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_INFO_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) ROS_STUB_STREAM(args)
#define ROS_WARN(...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_WARN_STREAM(args) ROS_STUB_STREAM(args)
#define ROS_WARN_NAMED(name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_WARN_STREAM_NAMED(name, args) do { (void)std::string(name); ROS_STUB_STREAM(args); } while (0)
#define ROS_WARN_COND(cond, ...) do { if (cond) ROS_STUB_PRINT(__VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_COND(cond, args) do { if (cond) ROS_STUB_STREAM(args); } while (0)
#define ROS_WARN_COND_NAMED(cond, name, ...) do { if (cond) ROS_STUB_PRINT(__VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_COND_NAMED(cond, name, args) do { if (cond) ROS_STUB_STREAM(args); } while (0)
#define ROS_WARN_ONCE(...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_WARN_STREAM_ONCE(args) ROS_STUB_STREAM(args)
#define ROS_WARN_ONCE_NAMED(name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_WARN_STREAM_ONCE_NAMED(name, args) ROS_STUB_STREAM(args)
#define ROS_WARN_THROTTLE(period, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_WARN_STREAM_THROTTLE(period, args) ROS_STUB_STREAM(args)
#define ROS_WARN_THROTTLE_NAMED(period, name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_WARN_STREAM_THROTTLE_NAMED(period, name, args) ROS_STUB_STREAM(args)
#define ROS_WARN_DELAYED_THROTTLE(period, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_WARN_STREAM_DELAYED_THROTTLE(period, args) ROS_STUB_STREAM(args)
#define ROS_WARN_DELAYED_THROTTLE_NAMED(period, name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_WARN_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) ROS_STUB_STREAM(args)
#define ROS_ERROR(...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_ERROR_STREAM(args) ROS_STUB_STREAM(args)
#define ROS_ERROR_NAMED(name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_ERROR_STREAM_NAMED(name, args) do { (void)std::string(name); ROS_STUB_STREAM(args); } while (0)
#define ROS_ERROR_COND(cond, ...) do { if (cond) ROS_STUB_PRINT(__VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_COND(cond, args) do { if (cond) ROS_STUB_STREAM(args); } while (0)
#define ROS_ERROR_COND_NAMED(cond, name, ...) do { if (cond) ROS_STUB_PRINT(__VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_COND_NAMED(cond, name, args) do { if (cond) ROS_STUB_STREAM(args); } while (0)
#define ROS_ERROR_ONCE(...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_ERROR_STREAM_ONCE(args) ROS_STUB_STREAM(args)
#define ROS_ERROR_ONCE_NAMED(name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_ERROR_STREAM_ONCE_NAMED(name, args) ROS_STUB_STREAM(args)
#define ROS_ERROR_THROTTLE(period, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_ERROR_STREAM_THROTTLE(period, args) ROS_STUB_STREAM(args)
#define ROS_ERROR_THROTTLE_NAMED(period, name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_ERROR_STREAM_THROTTLE_NAMED(period, name, args) ROS_STUB_STREAM(args)
#define ROS_ERROR_DELAYED_THROTTLE(period, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE(period, args) ROS_STUB_STREAM(args)
#define ROS_ERROR_DELAYED_THROTTLE_NAMED(period, name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) ROS_STUB_STREAM(args)
#define ROS_FATAL(...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_FATAL_STREAM(args) ROS_STUB_STREAM(args)
#define ROS_FATAL_NAMED(name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_FATAL_STREAM_NAMED(name, args) do { (void)std::string(name); ROS_STUB_STREAM(args); } while (0)
#define ROS_FATAL_COND(cond, ...) do { if (cond) ROS_STUB_PRINT(__VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_COND(cond, args) do { if (cond) ROS_STUB_STREAM(args); } while (0)
#define ROS_FATAL_COND_NAMED(cond, name, ...) do { if (cond) ROS_STUB_PRINT(__VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_COND_NAMED(cond, name, args) do { if (cond) ROS_STUB_STREAM(args); } while (0)
#define ROS_FATAL_ONCE(...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_FATAL_STREAM_ONCE(args) ROS_STUB_STREAM(args)
#define ROS_FATAL_ONCE_NAMED(name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_FATAL_STREAM_ONCE_NAMED(name, args) ROS_STUB_STREAM(args)
#define ROS_FATAL_THROTTLE(period, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_FATAL_STREAM_THROTTLE(period, args) ROS_STUB_STREAM(args)
#define ROS_FATAL_THROTTLE_NAMED(period, name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_FATAL_STREAM_THROTTLE_NAMED(period, name, args) ROS_STUB_STREAM(args)
#define ROS_FATAL_DELAYED_THROTTLE(period, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE(period, args) ROS_STUB_STREAM(args)
#define ROS_FATAL_DELAYED_THROTTLE_NAMED(period, name, ...) ROS_STUB_PRINT(__VA_ARGS__)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE_NAMED(period, name, args) ROS_STUB_STREAM(args)
#define ROS_ASSERT(cond) do { if (!(cond)) { fprintf(stderr, "ROS_ASSERT failed: %s\n", #cond); __builtin_trap(); } } while (0)
#define ROS_ASSERT_MSG(cond, ...) ROS_ASSERT(cond)
#define ROS_BREAK() __builtin_trap()
