#pragma once
#include <memory>
namespace geometry_msgs { namespace msg {
struct Vector3 {using SharedPtr = std::shared_ptr<Vector3>; double x{0}, y{0}, z{0};};
struct Quaternion {using SharedPtr = std::shared_ptr<Quaternion>; double x{0}, y{0}, z{0}, w{1};};
}}
