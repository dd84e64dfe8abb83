#pragma once
#include "Table/TableReader.h"
namespace Euclid { namespace Table {
class AsciiReader : public TableReader {
public:
  explicit AsciiReader(const std::string& f) : m_file(f) {}
  Table read(long = -1) override {
    std::ifstream in(m_file);
    if (!in) throw Elements::Exception() << "cannot open " << m_file;
    std::vector<Row> rows; std::shared_ptr<ColumnInfo> info; std::string line;
    while (std::getline(in, line)) {
      auto h = line.find('#'); if (h != std::string::npos) line.resize(h);
      std::istringstream ss(line); std::vector<Row::cell_type> cells; double v;
      while (ss >> v) cells.emplace_back(v);
      if (cells.empty()) continue;
      if (!info) { std::vector<ColumnInfo::info_type> c; for (size_t i = 0; i < cells.size(); ++i) c.emplace_back("col" + std::to_string(i + 1), typeid(double)); info = std::make_shared<ColumnInfo>(c); }
      rows.emplace_back(cells, info);
    }
    return Table(rows);
  }
private:
  std::string m_file;
};
} }
