#pragma once
#include <memory>
#include <string>
#include "builtin_interfaces/msg/time.hpp"
namespace std_msgs { namespace msg {
struct Header
{
  using SharedPtr = std::shared_ptr<Header>;
  builtin_interfaces::msg::Time stamp;
  std::string frame_id;
};
}}
