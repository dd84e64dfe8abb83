#pragma once
#include <string>
#define SOURCEXTRACTORPLUSPLUS_VERSION_STRING "0.0"
static const std::string SOURCEXTRACTORPLUSPLUS_VERSION_STRING_S{"0.0"};
