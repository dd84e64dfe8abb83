#pragma once
#include "Table/Row.h"
#include <boost/lexical_cast.hpp>
namespace Euclid { namespace Table {
template <typename To> class CastVisitor : public boost::static_visitor<To> {
public:
  template <typename F> To operator()(const F& f) const { return cast(f, std::is_arithmetic<F>()); }
  To operator()(const std::string& s) const { return boost::lexical_cast<To>(s); }
private:
  template <typename F> To cast(const F& f, std::true_type) const { return static_cast<To>(f); }
  template <typename F> To cast(const F&, std::false_type) const { throw Elements::Exception() << "CastVisitor: cannot convert"; }
};
} }
