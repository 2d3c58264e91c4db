#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace std_msgs { namespace msg {
struct MultiArrayDimension {std::string label; uint32_t size{0}; uint32_t stride{0};};
struct MultiArrayLayout {std::vector<MultiArrayDimension> dim; uint32_t data_offset{0};};
struct Float64MultiArray
{
  using SharedPtr = std::shared_ptr<Float64MultiArray>;
  using ConstSharedPtr = std::shared_ptr<const Float64MultiArray>;
  using UniquePtr = std::unique_ptr<Float64MultiArray>;
  MultiArrayLayout layout;
  std::vector<double> data;
};
}}
