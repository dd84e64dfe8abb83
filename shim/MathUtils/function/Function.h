#pragma once
#include <functional>
#include <memory>
namespace Euclid { namespace MathUtils {
class Function {
public:
  virtual ~Function() = default;
  virtual double operator()(const double) const = 0;
  virtual std::unique_ptr<Function> clone() const = 0;
};
} }
