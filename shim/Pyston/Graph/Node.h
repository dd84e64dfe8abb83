// What SourceXtractor++ uses of Pyston, without compilation of the functions: they are always called in Python.
#pragma once
#include <boost/any.hpp>
#include <boost/variant.hpp>
#include <cstdint>
#include <map>
#include <string>
namespace Pyston {
using Context = std::map<std::string, boost::any>;
class AttributeSet : public std::map<std::string, boost::variant<std::string, bool, int64_t, double>> {
public:
  virtual ~AttributeSet() = default;
};
class Visitor { public: virtual ~Visitor() = default; };
class Node { public: virtual ~Node() = default; void visit(Visitor&) const {} };
}
