#pragma once
#include <string>
namespace ros
{
namespace stub { extern bool (*ok_fn)(); }
bool ok();
inline bool isShuttingDown() { return !ok(); }
inline bool isInitialized() { return true; }
inline bool isStarted() { return true; }
inline void shutdown() {}
inline void spinOnce() {}
}
