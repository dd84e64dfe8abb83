#ifndef VERIF_SHIM_ALEXANDRIA_STRINGUTILS_H
#define VERIF_SHIM_ALEXANDRIA_STRINGUTILS_H
#include "ElementsKernel/Exception.h"
#include <boost/lexical_cast.hpp>
#include <sstream>
#include <string>
#include <vector>
namespace Euclid {
template <typename T> std::vector<T> stringToVector(std::string str) {
  std::vector<T> out;
  std::stringstream ss(str);
  std::string item;
  while (std::getline(ss, item, ',')) {
    auto b = item.find_first_not_of(" \t"), e = item.find_last_not_of(" \t");
    if (b == std::string::npos) throw Elements::Exception() << "Invalid list " << str;
    try { out.emplace_back(boost::lexical_cast<T>(item.substr(b, e - b + 1))); }
    catch (const boost::bad_lexical_cast&) { throw Elements::Exception() << "Invalid value " << item; }
  }
  return out;
}
inline bool checkNumber(const std::string& s) {
  try { boost::lexical_cast<double>(s); return true; } catch (...) { return false; }
}
}  // namespace Euclid
#endif
