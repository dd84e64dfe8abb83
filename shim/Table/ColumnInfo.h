#pragma once
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
#include <memory>
#include <set>
#include <string>
#include <typeindex>
#include <vector>
namespace Euclid { namespace Table {
class ColumnDescription {
public:
  ColumnDescription(std::string n, std::type_index t = typeid(std::string), std::string u = "", std::string d = "")
      : name(std::move(n)), type(t), unit(std::move(u)), description(std::move(d)) {}
  std::string name; std::type_index type; std::string unit, description;
};
class ColumnInfo {
public:
  using info_type = ColumnDescription;
  explicit ColumnInfo(std::vector<info_type> i) : m_info(std::move(i)) {
    std::set<std::string> seen;
    for (auto& c : m_info) if (!seen.insert(c.name).second) throw Elements::Exception() << "Duplicate column name: " << c.name;
  }
  size_t size() const { return m_info.size(); }
  const ColumnDescription& getDescription(size_t i) const { if (i >= m_info.size()) throw Elements::Exception() << "Column index out of bounds"; return m_info[i]; }
  std::unique_ptr<size_t> find(const std::string& n) const {
    for (size_t i = 0; i < m_info.size(); ++i) if (m_info[i].name == n) return std::unique_ptr<size_t>(new size_t(i));
    return nullptr;
  }
private:
  std::vector<info_type> m_info;
};
} }
