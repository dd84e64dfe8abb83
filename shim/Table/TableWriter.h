// The writers record what they are given instead of formatting a file: shim::tableSink() is what the checks look at.
#pragma once
#include "Table/Table.h"
#include <functional>
#include <iostream>
namespace Euclid { namespace Table {
namespace shim {
struct WriteEvent { std::string kind, file, hdu; bool override_file; std::vector<Row> rows; int writer = 0; };   // writer: which writer object this was
inline int newWriter() { static int n = 0; return ++n; }
inline std::vector<WriteEvent>& tableSink() { static std::vector<WriteEvent> s; return s; }
}
class TableWriter {
public:
  virtual ~TableWriter() = default;
  virtual void addComment(const std::string&) {}
  virtual void addData(const Table& t) = 0;
};
} }
