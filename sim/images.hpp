#pragma once
#include <opencv2/core.hpp>
#include "plan.hpp"
// The image of a 'J' operation (one plan per process: the scene is built once).
cv::Mat scene_image(const Plan & p, const Op & op);
