#pragma once
#include "Table/Row.h"
#include <numeric>
namespace Euclid { namespace Table {
class Table {
public:
  explicit Table(std::shared_ptr<ColumnInfo> i) : m_info(std::move(i)) {}
  Table(std::vector<Row> r) : m_rows(std::move(r)) {
    if (m_rows.empty()) throw Elements::Exception() << "Table: no rows";
    m_info = m_rows.front().getColumnInfo();
  }
  std::shared_ptr<ColumnInfo> getColumnInfo() const { return m_info; }
  size_t size() const { return m_rows.size(); }
  const Row& operator[](size_t i) const { return m_rows.at(i); }
  std::vector<Row>::const_iterator begin() const { return m_rows.begin(); }
  std::vector<Row>::const_iterator end() const { return m_rows.end(); }
private:
  std::vector<Row> m_rows; std::shared_ptr<ColumnInfo> m_info;
};
} }
