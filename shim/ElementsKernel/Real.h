#ifndef VERIF_SHIM_ELEMENTS_REAL_H
#define VERIF_SHIM_ELEMENTS_REAL_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
namespace Elements {
// "equal" within a few units in the last place, as Elements defines it.
template <typename T> inline bool isEqual(T a, T b) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  T scale = std::fmax(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= 10 * std::numeric_limits<T>::epsilon() * scale;
}
template <typename T> inline bool isNotEqual(T a, T b) { return !isEqual(a, b); }
template <typename T> inline bool almostEqual2sComplement(T a, T b) { return isEqual(a, b); }
}  // namespace Elements
#endif
