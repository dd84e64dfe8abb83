#ifndef VERIF_SHIM_CONFIGMANAGER_H
#define VERIF_SHIM_CONFIGMANAGER_H
#include "Configuration/Configuration.h"
namespace Euclid {
namespace Configuration {
class ConfigManager {
public:
  static ConfigManager& getInstance(long id) {
    static std::map<long, std::unique_ptr<ConfigManager>> managers;
    auto& p = managers[id];
    if (!p) p.reset(new ConfigManager(id));
    return *p;
  }
  template <typename T> void registerConfiguration() {
    std::type_index key(typeid(T));
    if (m_configs.count(key)) return;
    m_configs[key] = nullptr;  // breaks declaration cycles
    m_configs[key] = std::unique_ptr<Configuration>(new T(m_id));
  }
  template <typename T1, typename T2> void registerDependency() {
    registerConfiguration<T1>();
    registerConfiguration<T2>();
    m_deps[typeid(T1)].insert(typeid(T2));
  }
  boost::program_options::options_description closeRegistration() {
    boost::program_options::options_description all;
    std::map<std::string, boost::program_options::options_description> groups;
    for (auto& c : m_configs)
      for (auto& g : c.second->getProgramOptions()) {
        auto it = groups.find(g.first);
        if (it == groups.end()) it = groups.emplace(g.first, boost::program_options::options_description(g.first)).first;
        for (auto& o : g.second) it->second.add(boost::shared_ptr<boost::program_options::option_description>(
            new boost::program_options::option_description(o)));
      }
    for (auto& g : groups) all.add(g.second);
    return all;
  }
  void initialize(const Configuration::UserValues& values) {
    std::vector<Configuration*> order;
    std::set<std::type_index>   done, active;
    for (auto& c : m_configs) visit(c.first, order, done, active);
    for (auto c : order) { c->preInitialize(values); c->m_state = Configuration::State::PRE_INITIALIZED; }
    for (auto c : order) { c->initialize(values); c->m_state = Configuration::State::INITIALIZED; }
    for (auto c : order) { c->postInitialize(values); c->m_state = Configuration::State::FINAL; }
    m_initialized = true;
  }
  template <typename T> T& getConfiguration() {
    if (!m_initialized) throw Elements::Exception() << "ConfigManager: not initialized";
    return get<T>();
  }
  template <typename T> T& get() {
    auto it = m_configs.find(typeid(T));
    if (it == m_configs.end()) throw Elements::Exception() << "ConfigManager: unknown configuration " << typeid(T).name();
    return static_cast<T&>(*it->second);
  }

private:
  explicit ConfigManager(long id) : m_id(id) {}
  void visit(std::type_index k, std::vector<Configuration*>& order, std::set<std::type_index>& done, std::set<std::type_index>& active) {
    if (done.count(k)) return;
    if (!active.insert(k).second) throw Elements::Exception() << "ConfigManager: circular dependency";
    for (auto& d : m_configs.at(k)->m_pending) visit(d, order, done, active);
    for (auto& d : m_deps[k]) visit(d, order, done, active);
    active.erase(k);
    done.insert(k);
    order.push_back(m_configs.at(k).get());
  }
  long m_id;
  bool m_initialized = false;
  std::map<std::type_index, std::unique_ptr<Configuration>>  m_configs;
  std::map<std::type_index, std::set<std::type_index>>       m_deps;
};
template <typename T> void Configuration::declareDependency() {
  auto& m = ConfigManager::getInstance(m_manager_id);
  m.registerConfiguration<T>();
  m_pending.push_back(typeid(T));
}
template <typename T> T& Configuration::getDependency() { return ConfigManager::getInstance(m_manager_id).template get<T>(); }
template <typename T> const T& Configuration::getDependency() const { return ConfigManager::getInstance(m_manager_id).template get<T>(); }
}  // namespace Configuration
}  // namespace Euclid
#endif
