#pragma once
#include <cstdlib>
#include <stdexcept>
#include <string>
namespace sensor_msgs { namespace image_encodings {
const char RGB8[] = "rgb8", RGBA8[] = "rgba8", BGR8[] = "bgr8", BGRA8[] = "bgra8", MONO8[] = "mono8", MONO16[] = "mono16";
const char TYPE_8UC1[] = "8UC1", TYPE_8UC3[] = "8UC3", TYPE_8UC4[] = "8UC4", TYPE_16UC1[] = "16UC1", TYPE_32FC1[] = "32FC1";
inline bool isColor(const std::string & e) {return e == RGB8 || e == BGR8 || e == RGBA8 || e == BGRA8;}
inline bool isMono(const std::string & e) {return e == MONO8 || e == MONO16;}
inline bool isBayer(const std::string & e) {return e.compare(0, 6, "bayer_") == 0;}
inline bool hasAlpha(const std::string & e) {return e == RGBA8 || e == BGRA8;}
inline int numChannels(const std::string & e)
{
  if (isMono(e) || isBayer(e)) {return 1;}
  if (isColor(e)) {return hasAlpha(e) ? 4 : 3;}
  if (e == TYPE_8UC1 || e == TYPE_16UC1 || e == TYPE_32FC1) {return 1;}
  if (e == TYPE_8UC3) {return 3;}
  if (e == TYPE_8UC4) {return 4;}
  throw std::runtime_error("Unknown encoding " + e);
}
inline int bitDepth(const std::string & e)
{
  if (e == MONO16 || e == TYPE_16UC1) {return 16;}
  if (e == TYPE_32FC1) {return 32;}
  numChannels(e);
  return 8;
}
}}
