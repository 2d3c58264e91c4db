#pragma once
#include <array>
#include <cstdint>
#include <memory>
#include "sensor_msgs/msg/nav_sat_status.hpp"
#include "std_msgs/msg/header.hpp"
namespace sensor_msgs { namespace msg {
struct NavSatFix
{
  using SharedPtr = std::shared_ptr<NavSatFix>;
  using ConstSharedPtr = std::shared_ptr<const NavSatFix>;
  static constexpr uint8_t COVARIANCE_TYPE_UNKNOWN = 0, COVARIANCE_TYPE_APPROXIMATED = 1, COVARIANCE_TYPE_DIAGONAL_KNOWN = 2, COVARIANCE_TYPE_KNOWN = 3;
  std_msgs::msg::Header header;
  NavSatStatus status;
  double latitude{0}, longitude{0}, altitude{0};
  std::array<double, 9> position_covariance{};
  uint8_t position_covariance_type{0};
};
}}
