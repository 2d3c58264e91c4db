// Stand-in for cv_bridge: the same conversions and the same refusals for the encodings the simulation uses.
#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include "sensor_msgs/image_encodings.hpp"
#include "sensor_msgs/msg/image.hpp"
namespace cv_bridge
{
class Exception : public std::runtime_error {public: explicit Exception(const std::string & s) : std::runtime_error(s) {}};
class CvImage;
using CvImagePtr = std::shared_ptr<CvImage>;
using CvImageConstPtr = std::shared_ptr<const CvImage>;
class CvImage
{
public:
  std_msgs::msg::Header header;
  std::string encoding;
  cv::Mat image;
  CvImage() {}
  CvImage(const std_msgs::msg::Header & h, const std::string & e, const cv::Mat & i = cv::Mat()) : header(h), encoding(e), image(i) {}
  sensor_msgs::msg::Image::SharedPtr toImageMsg() const
  {
    auto p = std::make_shared<sensor_msgs::msg::Image>();
    toImageMsg(*p);
    return p;
  }
  void toImageMsg(sensor_msgs::msg::Image & o) const
  {
    o.header = header; o.height = static_cast<uint32_t>(image.rows); o.width = static_cast<uint32_t>(image.cols);
    o.encoding = encoding; o.is_bigendian = 0;
    size_t line = static_cast<size_t>(image.cols) * image.elemSize();
    o.step = static_cast<uint32_t>(line);
    o.data.resize(line * static_cast<size_t>(image.rows));
    for (int i = 0; i < image.rows; ++i) {std::copy(image.ptr(i), image.ptr(i) + line, o.data.data() + static_cast<size_t>(i) * line);}
  }
};
inline CvImagePtr toCvCopy(const sensor_msgs::msg::Image & s, const std::string & want = std::string())
{
  namespace enc = sensor_msgs::image_encodings;
  int type = CV_MAKETYPE(enc::bitDepth(s.encoding) == 8 ? CV_8U : enc::bitDepth(s.encoding) == 16 ? CV_16U : CV_32F, enc::numChannels(s.encoding));
  size_t line = static_cast<size_t>(s.width) * CV_ELEM_SIZE(type);
  if (s.step < line) {throw Exception("Image is wrongly formed: step < width * byte_depth * num_channels");}
  if (static_cast<size_t>(s.height) * s.step != s.data.size()) {throw Exception("Image is wrongly formed: height * step != size");}
  cv::Mat m(static_cast<int>(s.height), static_cast<int>(s.width), type, const_cast<uint8_t *>(s.data.data()), s.step);
  auto o = std::make_shared<CvImage>();
  o->header = s.header;
  o->encoding = want.empty() ? s.encoding : want;
  if (want.empty() || want == s.encoding) {o->image = m.clone(); return o;}
  auto colour = [](const std::string & e) {return enc::isColor(e) || enc::isMono(e) || enc::isBayer(e);};
  if (!colour(s.encoding)) {
    if (colour(want)) {throw Exception("[" + s.encoding + "] is not a color format. but [" + want + "] is. The conversion does not make sense");}
    if (enc::numChannels(s.encoding) != enc::numChannels(want)) {throw Exception("the number of channels differs");}
    o->image = m.clone();
    return o;
  }
  if (!colour(want)) {
    if (enc::numChannels(s.encoding) != enc::numChannels(want)) {throw Exception("[" + s.encoding + "] is a color format but [" + want + "] is not so they must have the same OpenCV type");}
    o->image = m.clone();
    return o;
  }
  int code = -1;
  const std::string & e = s.encoding;
  if (want == enc::MONO8) {
    code = e == enc::BGR8 ? cv::COLOR_BGR2GRAY : e == enc::RGB8 ? cv::COLOR_RGB2GRAY : e == enc::BGRA8 ? cv::COLOR_BGRA2GRAY : e == enc::RGBA8 ? cv::COLOR_RGBA2GRAY : -1;
  } else if (want == enc::BGR8) {
    code = e == enc::MONO8 ? cv::COLOR_GRAY2BGR : e == enc::RGB8 ? cv::COLOR_RGB2BGR : -1;
  } else if (want == enc::RGB8) {
    code = e == enc::MONO8 ? cv::COLOR_GRAY2RGB : e == enc::BGR8 ? cv::COLOR_BGR2RGB : -1;
  }
  if (code < 0) {throw Exception("Unsupported conversion from [" + e + "] to [" + want + "]");}
  cv::cvtColor(m, o->image, code);
  return o;
}
inline CvImagePtr toCvCopy(const sensor_msgs::msg::Image::ConstSharedPtr & s, const std::string & e = std::string()) {return toCvCopy(*s, e);}
inline CvImageConstPtr toCvShare(const sensor_msgs::msg::Image::ConstSharedPtr & s, const std::string & e = std::string()) {return toCvCopy(*s, e);}
}  // namespace cv_bridge
