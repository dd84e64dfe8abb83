#pragma once
#include "NdArray/NdArray.h"
#include "Table/ColumnInfo.h"
#include <boost/variant.hpp>
#include <cstdint>
namespace Euclid { namespace Table {
class Row {
public:
  using cell_type = boost::variant<bool, int32_t, int64_t, float, double, std::string, std::vector<bool>, std::vector<int32_t>,
                                   std::vector<int64_t>, std::vector<float>, std::vector<double>, NdArray::NdArray<int32_t>,
                                   NdArray::NdArray<int64_t>, NdArray::NdArray<float>, NdArray::NdArray<double>>;
  Row(std::vector<cell_type> v, std::shared_ptr<ColumnInfo> c) : m_values(std::move(v)), m_info(std::move(c)) {
    if (!m_info || m_values.size() != m_info->size()) throw Elements::Exception() << "Row: wrong number of cells";
  }
  std::shared_ptr<ColumnInfo> getColumnInfo() const { return m_info; }
  size_t size() const { return m_values.size(); }
  const cell_type& operator[](size_t i) const { if (i >= m_values.size()) throw Elements::Exception() << "Row: index out of bounds"; return m_values[i]; }
  const cell_type& operator[](const std::string& n) const { auto i = m_info->find(n); if (!i) throw Elements::Exception() << "Row: unknown column " << n; return m_values[*i]; }
  std::vector<cell_type>::const_iterator begin() const { return m_values.begin(); }
  std::vector<cell_type>::const_iterator end() const { return m_values.end(); }
private:
  std::vector<cell_type> m_values; std::shared_ptr<ColumnInfo> m_info;
};
} }
