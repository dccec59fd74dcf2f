#pragma once
#include "pluginlib/class_loader.hpp"
#define PLUGINLIB_STUB_CAT_(a, b) a##b
#define PLUGINLIB_STUB_CAT(a, b) PLUGINLIB_STUB_CAT_(a, b)
#define PLUGINLIB_EXPORT_CLASS(cls, base) \
  static const bool PLUGINLIB_STUB_CAT(pluginlib_stub_reg_, __COUNTER__) __attribute__((unused)) = \
    (::pluginlib::stub::exported()[#cls "|" #base] = []() -> void* { return static_cast<base*>(new cls); }, true);
#define PLUGINLIB_DECLARE_CLASS(pkg, name, cls, base) PLUGINLIB_EXPORT_CLASS(cls, base)
