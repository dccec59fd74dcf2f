#pragma once
#include <stdexcept>
#include <string>
namespace ros
{
class Exception : public std::runtime_error { public: Exception(const std::string& w) : std::runtime_error(w) {} };
}
