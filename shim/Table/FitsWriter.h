#pragma once
#include "Table/TableWriter.h"
namespace Euclid { namespace Table {
class FitsWriter : public TableWriter {
public:
  enum class Format { ASCII, BINARY };
  explicit FitsWriter(const std::string& f, bool o = false) : m_file(f), m_override(o) {}
  FitsWriter& setFormat(Format) { return *this; }
  FitsWriter& setHduName(const std::string& n) { if (m_initialized) throw Elements::Exception() << "Changing the HDU name after writing has started is not allowed"; m_hdu = n; return *this; }
  void addData(const Table& t) override {
    shim::tableSink().push_back({"fits", m_file, m_hdu, m_override && !m_initialized, std::vector<Row>(t.begin(), t.end()), m_id});
    m_initialized = true;
  }
private:
  std::string m_file, m_hdu; bool m_override, m_initialized = false; int m_id = shim::newWriter();
};
} }
