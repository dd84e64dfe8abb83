#pragma once
#include <string>
namespace Elements { namespace System {
inline std::string getEnv(const std::string& n) { const char* v = std::getenv(n.c_str()); return v ? v : ""; }
static const std::string DEFAULT_SHLIB_PREFIX{"lib"}; static const std::string DEFAULT_SHLIB_SUFFIX{".so"};
static const std::string LIB_PREFIX{"lib"}; static const std::string SHLIB_SUFFIX{".so"};
} }
