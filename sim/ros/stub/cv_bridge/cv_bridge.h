#pragma once
#include "cv_bridge/cv_bridge.hpp"
