#pragma once
#include "Table/TableReader.h"
namespace Euclid { namespace Table {
class FitsReader : public TableReader {
public:
  explicit FitsReader(const std::string& f) { throw Elements::Exception() << "not a FITS table (stand-in reads text only): " << f; }
  Table read(long = -1) override { throw Elements::Exception() << "unreachable"; }
};
} }
