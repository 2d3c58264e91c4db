#pragma once
#include <string>
#include "checks.hpp"
#include "sensors/gps_message.hpp"
#include "sensors/imu_message.hpp"
#include "sensors/sim/sim_camera_message.hpp"

std::string pack(const ImuMessage & m);
std::string pack(const GpsMessage & m);
std::string pack(const SimCameraMessage & m);
// Build the filter and the sensors that `text` (YAML) describes, feed them the packed messages, log to
// `dir`.  Returns what went wrong with the messages, or nothing.
std::string wire_twin(const std::string & text, const std::string & dir, const std::string & messages);
