#pragma once
#include "Table/Table.h"
#include <fstream>
#include <sstream>
namespace Euclid { namespace Table {
class TableReader {
public:
  virtual ~TableReader() = default;
  virtual Table read(long rows = -1) = 0;
};
} }
