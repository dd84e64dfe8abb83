#pragma once
#include "MathUtils/function/Function.h"
namespace Euclid { namespace MathUtils {
class FunctionAdapter : public Function {
public:
  explicit FunctionAdapter(std::function<double(double)> f) : m_f(std::move(f)) {}
  double operator()(const double x) const override { return m_f(x); }
  std::unique_ptr<Function> clone() const override { return std::unique_ptr<Function>(new FunctionAdapter(m_f)); }
private:
  std::function<double(double)> m_f;
};
} }
