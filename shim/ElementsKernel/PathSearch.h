#pragma once
#include <boost/filesystem.hpp>
#include <string>
#include <vector>
namespace Elements {
enum class SearchType { LOCAL, RECURSIVE };
inline std::vector<boost::filesystem::path> pathSearchInEnvVariable(const std::string&, const std::string&,
                                                                    SearchType = SearchType::RECURSIVE) {
  return {};
}
}
