#include "pluginlib/class_loader.hpp"
namespace pluginlib { namespace stub {
std::map<std::string, std::function<void*()>>& exported() { static std::map<std::string, std::function<void*()>> m; return m; }
std::map<std::string, std::vector<Entry>>& declared() { static std::map<std::string, std::vector<Entry>> m; return m; }
int loaders_created = 0, loaders_destroyed = 0;
} }
