#pragma once
#include <map>
#include <boost/filesystem.hpp>
#include <set>
#include <string>
#include <boost/program_options.hpp>
namespace Euclid { namespace Configuration {
class ProgramOptionsHelper {
public:
  using VariablesMap = std::map<std::string, boost::program_options::variable_value>;
  static std::string wildcard(const std::string& name) { return name + "-*"; }
  static std::map<std::string, std::string> findWildcardOptions_(const VariablesMap&) { return {}; }
  static std::set<std::string> findWildcardNames(const std::vector<std::string>& patterns, const VariablesMap& args) {
    std::set<std::string> out;
    for (auto& p : patterns)
      for (auto& a : args) {
        auto pre = p + "-";
        if (a.first.compare(0, pre.size(), pre) == 0) out.insert(a.first.substr(pre.size()));
      }
    return out;
  }
  static std::string wildcard(const std::string& name, const std::string& instance) {
    return instance.empty() ? name : name + "-" + instance;
  }
};
} }
