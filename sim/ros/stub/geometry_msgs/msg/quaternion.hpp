#pragma once
#include "geometry_msgs/msg/vector3.hpp"
