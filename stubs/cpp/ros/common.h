#pragma once
#define ROS_VERSION_MAJOR 1
#define ROS_VERSION_MINOR 15
#define ROS_VERSION_PATCH 15
#define ROS_VERSION_COMBINED(major, minor, patch) (((major) << 20) | ((minor) << 10) | (patch))
#define ROS_VERSION ROS_VERSION_COMBINED(ROS_VERSION_MAJOR, ROS_VERSION_MINOR, ROS_VERSION_PATCH)
#define ROS_VERSION_GE(a, b, c, d, e, f) (ROS_VERSION_COMBINED(a, b, c) >= ROS_VERSION_COMBINED(d, e, f))
#define ROS_VERSION_MINIMUM(a, b, c) ROS_VERSION_GE(1, 15, 15, a, b, c)
