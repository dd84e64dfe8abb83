#ifndef VERIF_SHIM_MEMORY_TOOLS_H
#define VERIF_SHIM_MEMORY_TOOLS_H
#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace Euclid {
using std::make_unique;
}
#endif
