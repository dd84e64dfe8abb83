// Stand-in for Alexandria's Configuration framework.
#ifndef VERIF_SHIM_CONFIGURATION_H
#define VERIF_SHIM_CONFIGURATION_H
#include <algorithm>
#include <boost/program_options.hpp>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <typeindex>
#include <vector>
#include "ElementsKernel/Exception.h"
namespace Euclid {
namespace Configuration {
class ConfigManager;
class Configuration {
public:
  using OptionDescriptionList = std::vector<boost::program_options::option_description>;
  using UserValues            = std::map<std::string, boost::program_options::variable_value>;
  enum class State { CONSTRUCTED = 0, PRE_INITIALIZED = 1, INITIALIZED = 2, FINAL = 3 };
  virtual ~Configuration() = default;
  virtual std::map<std::string, OptionDescriptionList> getProgramOptions() { return {}; }
  virtual void preInitialize(const UserValues&) {}
  virtual void initialize(const UserValues&) {}
  virtual void postInitialize(const UserValues&) {}
  State        getCurrentState() const { return m_state; }

protected:
  explicit Configuration(long manager_id) : m_manager_id(manager_id) {}
  template <typename T> void declareDependency();
  template <typename T> T& getDependency();
  template <typename T> const T& getDependency() const;

private:
  friend class ConfigManager;
  State m_state = State::CONSTRUCTED;
  long  m_manager_id;
  std::vector<std::type_index> m_pending;
};
}  // namespace Configuration
}  // namespace Euclid
#include "Configuration/ConfigManager.h"
#endif
