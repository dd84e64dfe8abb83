#pragma once
#include "Table/TableWriter.h"
namespace Euclid { namespace Table {
class AsciiWriter : public TableWriter {
public:
  explicit AsciiWriter(const std::string& f) : m_file(f) {}
  explicit AsciiWriter(std::ostream&) {}
  void addData(const Table& t) override { shim::tableSink().push_back({"ascii", m_file, "", false, std::vector<Row>(t.begin(), t.end()), m_id}); }
private:
  std::string m_file; int m_id = shim::newWriter();
};
} }
