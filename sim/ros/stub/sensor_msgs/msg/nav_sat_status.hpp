#pragma once
#include <cstdint>
#include <memory>
namespace sensor_msgs { namespace msg {
struct NavSatStatus
{
  using SharedPtr = std::shared_ptr<NavSatStatus>;
  static constexpr int8_t STATUS_UNKNOWN = -2, STATUS_NO_FIX = -1, STATUS_FIX = 0, STATUS_SBAS_FIX = 1, STATUS_GBAS_FIX = 2;
  static constexpr uint16_t SERVICE_UNKNOWN = 0, SERVICE_GPS = 1, SERVICE_GLONASS = 2, SERVICE_COMPASS = 4, SERVICE_GALILEO = 8;
  int8_t status{-2};
  uint16_t service{0};
};
}}
