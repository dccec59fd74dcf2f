#pragma once
#include <stdexcept>
#include <string>
namespace pluginlib
{
class PluginlibException : public std::runtime_error { public: PluginlibException(const std::string& w) : std::runtime_error(w) {} };
class LibraryLoadException : public PluginlibException { public: LibraryLoadException(const std::string& w) : PluginlibException(w) {} };
class ClassLoaderException : public PluginlibException { public: ClassLoaderException(const std::string& w) : PluginlibException(w) {} };
class LibraryUnloadException : public PluginlibException { public: LibraryUnloadException(const std::string& w) : PluginlibException(w) {} };
class CreateClassException : public PluginlibException { public: CreateClassException(const std::string& w) : PluginlibException(w) {} };
class InvalidXMLException : public PluginlibException { public: InvalidXMLException(const std::string& w) : PluginlibException(w) {} };
}
