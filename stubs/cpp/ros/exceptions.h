#pragma once
#include "ros/exception.h"
namespace ros
{
class InvalidNodeNameException : public Exception { public: InvalidNodeNameException(const std::string& n, const std::string& r) : Exception("Invalid node name [" + n + "]: " + r) {} };
class InvalidNameException : public Exception { public: InvalidNameException(const std::string& m) : Exception(m) {} };
class ConflictingSubscriptionException : public Exception { public: ConflictingSubscriptionException(const std::string& m) : Exception(m) {} };
class InvalidParameterException : public Exception { public: InvalidParameterException(const std::string& m) : Exception(m) {} };
class InvalidPortException : public Exception { public: InvalidPortException(const std::string& m) : Exception(m) {} };
}
