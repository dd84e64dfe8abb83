// Stand-in for Alexandria's 1D interpolation: piecewise linear and natural cubic spline, extrapolating with the
// outermost piece when asked to, 0 outside otherwise.
#pragma once
#include "ElementsKernel/Exception.h"
#include "MathUtils/function/Function.h"
#include <algorithm>
#include <vector>
namespace Euclid { namespace MathUtils {
enum class InterpolationType { LINEAR, CUBIC_SPLINE };
namespace shim {
class Piecewise : public Function {
public:
  std::vector<double> x, y, b, c, d;
  bool extrapolate = false;
  double operator()(const double v) const override {
    if (x.size() == 1) return (extrapolate || v == x[0]) ? y[0] : 0.;
    if (!extrapolate && (v < x.front() || v > x.back())) return 0.;
    size_t i = std::upper_bound(x.begin(), x.end(), v) - x.begin();
    i = i == 0 ? 0 : i - 1;
    i = std::min(i, x.size() - 2);
    double t = v - x[i];
    return y[i] + t * (b[i] + t * (c[i] + t * d[i]));
  }
  std::unique_ptr<Function> clone() const override { return std::unique_ptr<Function>(new Piecewise(*this)); }
};
}
inline std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::vector<double>& y,
                                             InterpolationType type, bool extrapolate = false) {
  if (x.size() != y.size()) throw Elements::Exception() << "Interpolation: mismatched sizes";
  for (size_t i = 1; i < x.size(); ++i)
    if (x[i] <= x[i - 1]) throw Elements::Exception() << "Interpolation: only strictly increasing knots";
  std::unique_ptr<shim::Piecewise> p(new shim::Piecewise);
  p->x = x; p->y = y; p->extrapolate = extrapolate;
  size_t n = x.size();
  p->b.assign(n, 0); p->c.assign(n, 0); p->d.assign(n, 0);
  if (n >= 2) {
    std::vector<double> h(n - 1);
    for (size_t i = 0; i + 1 < n; ++i) h[i] = x[i + 1] - x[i];
    if (type == InterpolationType::CUBIC_SPLINE && n >= 3) {
      std::vector<double> mu(n, 0), z(n, 0);
      for (size_t i = 1; i + 1 < n; ++i) {
        double a = 3 * ((y[i + 1] - y[i]) / h[i] - (y[i] - y[i - 1]) / h[i - 1]);
        double l = 2 * (x[i + 1] - x[i - 1]) - h[i - 1] * mu[i - 1];
        mu[i] = h[i] / l;
        z[i]  = (a - h[i - 1] * z[i - 1]) / l;
      }
      for (size_t i = n - 1; i-- > 0;) {
        p->c[i] = i == 0 ? -mu[0] * p->c[1] + z[0] : z[i] - mu[i] * p->c[i + 1];
        p->b[i] = (y[i + 1] - y[i]) / h[i] - h[i] * (p->c[i + 1] + 2 * p->c[i]) / 3;
        p->d[i] = (p->c[i + 1] - p->c[i]) / (3 * h[i]);
      }
    } else {
      for (size_t i = 0; i + 1 < n; ++i) p->b[i] = (y[i + 1] - y[i]) / h[i];
    }
  }
  return std::unique_ptr<Function>(p.release());
}
} }
