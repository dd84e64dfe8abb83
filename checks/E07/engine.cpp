// The least squares engine on problems whose solution is known.
#include "vkit.h"
#include "ModelFitting/Engine/EngineParameterManager.h"
#include "ModelFitting/Engine/LeastSquareEngineManager.h"
#include "ModelFitting/Engine/ResidualEstimator.h"
#include "ModelFitting/Engine/WorldValueResidual.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/ExpSigmoidConverter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
#include <array>
#include <cmath>
#include <functional>
using namespace ModelFitting;
namespace {
typedef std::vector<double> V;
// model and derivatives at abscissa t of parameters p
struct Model { const char* name; int np; V truth; std::function<double(double, const V&, V*)> f; };
const std::vector<Model>& models() {
  static const std::vector<Model> m{
    {"line", 2, {1.5, 0.8}, [](double t, const V& p, V* d) { if (d) *d = {1, t}; return p[0] + p[1] * t; }},
    {"decay", 2, {2, 1.5}, [](double t, const V& p, V* d) { double e = exp(-p[1] * t); if (d) *d = {e, -p[0] * t * e}; return p[0] * e; }},
    {"peak", 3, {3, 1.2, 0.7}, [](double t, const V& p, V* d) { double z = (t - p[1]) / p[2], e = exp(-z * z / 2); if (d) *d = {e, p[0] * e * z / p[2], p[0] * e * z * z / p[2]}; return p[0] * e; }},
    {"scale and power", 2, {1.3, 1.7}, [](double t, const V& p, V* d) { double b = std::pow(t + .5, p[1]); if (d) *d = {b, p[0] * b * log(t + .5)}; return p[0] * b; }},
  };
  return m;
}
const int N = 24;
double abscissa(int i) { return i * 3. / N; }
double noise(int i) { return ((i * 7919 + 13) % 31) / 15. - 1; }
// the smallest sum of squares, found in the parameters themselves with exact derivatives
bool invert(std::vector<V> a, std::vector<V>& r) {
  int n = a.size();
  r.assign(n, V(n, 0));
  for (int i = 0; i < n; ++i) r[i][i] = 1;
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int i = c; i < n; ++i) if (std::fabs(a[i][c]) > std::fabs(a[p][c])) p = i;
    if (a[p][c] == 0) return false;
    std::swap(a[p], a[c]); std::swap(r[p], r[c]);
    double d = a[c][c];
    for (int j = 0; j < n; ++j) { a[c][j] /= d; r[c][j] /= d; }
    for (int i = 0; i < n; ++i) if (i != c) { double f = a[i][c]; for (int j = 0; j < n; ++j) { a[i][j] -= f * a[c][j]; r[i][j] -= f * r[c][j]; } }
  }
  return true;
}
struct Problem {
  const Model* m;
  V data;
  double prior_value = 0, prior_weight = 0;   // of parameter 0
  double cost(const V& p) const { double s = 0; for (int i = 0; i < N; ++i) { double e = m->f(abscissa(i), p, nullptr) - data[i]; s += e * e; } double e = (p[0] - prior_value) * prior_weight; return s + e * e; }
  std::vector<V> normal(const V& p, V& g) const {
    std::vector<V> a(m->np, V(m->np, 0));
    g.assign(m->np, 0);
    for (int i = 0; i < N; ++i) { V d; double e = m->f(abscissa(i), p, &d) - data[i]; for (int j = 0; j < m->np; ++j) { g[j] += d[j] * e; for (int k = 0; k < m->np; ++k) a[j][k] += d[j] * d[k]; } }
    a[0][0] += prior_weight * prior_weight;
    g[0] += (p[0] - prior_value) * prior_weight * prior_weight;
    return a;
  }
  V best() const {
    V p = m->truth, g;
    double mu = 1e-3;
    for (int it = 0; it < 200; ++it) {
      auto a = normal(p, g);
      for (int j = 0; j < m->np; ++j) a[j][j] *= 1 + mu;
      std::vector<V> inv;
      if (!invert(a, inv)) break;
      V q = p;
      for (int j = 0; j < m->np; ++j) for (int k = 0; k < m->np; ++k) q[j] -= inv[j][k] * g[k];
      if (cost(q) <= cost(p)) { p = q; mu /= 10; } else mu *= 10;
    }
    return p;
  }
};
struct Block : ResidualBlockProvider {
  const Problem* q; std::vector<std::shared_ptr<EngineParameter>> p; int from, to;
  long* calls;
  std::size_t numberOfResiduals() const override { return to - from; }
  void populateResidualBlock(IterType it) override {
    ++*calls;
    V v;
    for (auto& x : p) v.push_back(x->getValue());
    for (int i = from; i < to; ++i) *it++ = q->m->f(abscissa(i), v, nullptr) - q->data[i];
  }
};
const char* CONV[] = {"neutral", "normalized by 2", "linear range around the start", "linear range off the start", "exponential range around the start", "exponential range off the start", "linear range around the start but for rounding"};
std::unique_ptr<CoordinateConverter> converter(int kind, double start, double truth, double& lo, double& hi) {
  lo = -1e300; hi = 1e300;
  double reach = 3 * std::max(std::fabs(start - truth), 0.5);
  switch (kind) {
    case 0: return std::unique_ptr<CoordinateConverter>(new NeutralConverter);
    case 1: return std::unique_ptr<CoordinateConverter>(new NormalizedConverter(2));
    case 2: lo = start - reach; hi = start + reach; return std::unique_ptr<CoordinateConverter>(new SigmoidConverter(lo, hi));
    case 3: lo = std::min(start, truth) - 1; hi = std::max(start, truth) + 2; return std::unique_ptr<CoordinateConverter>(new SigmoidConverter(lo, hi));
    case 4: lo = start / 20; hi = start * 20; return std::unique_ptr<CoordinateConverter>(new ExpSigmoidConverter(lo, hi));
    case 5: lo = std::min(start, truth) / 3; hi = std::max(start, truth) * 8; return std::unique_ptr<CoordinateConverter>(new ExpSigmoidConverter(lo, hi));
    default: lo = start - reach * (1 + 1e-14); hi = start + reach; return std::unique_ptr<CoordinateConverter>(new SigmoidConverter(lo, hi));
  }
}
struct Case { int model; std::vector<int> conv; V start; int noisy, blocks, limit; bool spare; int prior; };
void one(vk::Run& r, const Case& c) {
  const Model& m = models()[c.model];
  auto what = [&] { std::string s = std::string(m.name) + ", from " + vk::strv(c.start) + ", parameters"; for (int k : c.conv) s += std::string(" (") + CONV[k] + ")"; return s + (c.noisy ? ", noise" : "") + ", " + std::to_string(c.blocks) + " blocks, at most " + std::to_string(c.limit) + " iterations" + (c.spare ? ", a parameter without effect" : "") + (c.prior ? ", a prior" : ""); };
  r.desc(what);
  Problem q;
  q.m = &m;
  for (int i = 0; i < N; ++i) q.data.push_back(m.f(abscissa(i), m.truth, nullptr) + (c.noisy ? 0.02 * noise(i) : 0));
  if (c.prior) { q.prior_value = m.truth[0] * 1.1; q.prior_weight = c.prior == 1 ? 3 : 1e4; }
  EngineParameterManager manager;
  ResidualEstimator est;
  std::vector<std::shared_ptr<EngineParameter>> ps;
  V lo(m.np), hi(m.np);
  std::shared_ptr<EngineParameter> spare;
  for (int j = 0; j < m.np; ++j) {
    if (c.spare && j == 1) { spare = std::make_shared<EngineParameter>(0.3, std::unique_ptr<CoordinateConverter>(new SigmoidConverter(0, 1))); manager.registerParameter(spare); }
    ps.push_back(std::make_shared<EngineParameter>(c.start[j], converter(c.conv[j], c.start[j], m.truth[j], lo[j], hi[j])));
    manager.registerParameter(ps[j]);
  }
  long calls = 0;
  for (int b = 0; b < c.blocks; ++b) { auto x = new Block; x->q = &q; x->p = ps; x->from = N * b / c.blocks; x->to = N * (b + 1) / c.blocks; x->calls = &calls; est.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(x)); }
  if (c.prior) est.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new WorldValueResidual(ps[0], q.prior_value, q.prior_weight)));
  int residuals = N + (c.prior ? 1 : 0), np = m.np + (c.spare ? 1 : 0);
  auto values = [&] { V v; for (auto& p : ps) v.push_back(p->getValue()); return v; };
  V before = values();
  double cost0 = q.cost(before);
  auto engine = LeastSquareEngineManager::create("GSL", c.limit);
  auto s = engine->solveProblem(manager, est);
  r.transition(calls);
  V after = values(), best = q.best();
  double cost = q.cost(after), low = q.cost(best);
  auto info = boost::any_cast<std::array<double, 10>>(s.underlying_framework_info);
  auto all = [&] { std::ostringstream o; o.precision(12); o << "; found " << vk::strv(after) << ", solution " << vk::strv(best) << ", sum of squares " << cost << ", at the start " << cost0 << ", smallest " << low << ", status " << s.status_flag << " after " << s.iteration_no << " iterations, errors " << vk::strv(s.parameter_sigmas) << "; " << what(); return o.str(); };
  r.require(s.status_flag == LeastSquareSummary::SUCCESS || s.status_flag == LeastSquareSummary::MAX_ITER, "status", [&] { return "status" + all(); });
  r.require((long)s.iteration_no <= c.limit, "limit", [&] { return "more iterations than allowed" + all(); });
  r.require(std::fabs(info[0] - cost0) <= 1e-9 * (1 + cost0), "first-cost", [&] { return "reports a sum of squares of " + vk::str(info[0]) + " at the start" + all(); });
  r.require(std::fabs(info[1] - cost) <= 1e-9 * cost + 1e-14, "last-cost", [&] { return "reports a sum of squares of " + vk::str(info[1]) + " but leaves parameters" + all(); });
  r.require(cost <= cost0 * (1 + 1e-12) + 1e-14, "worse", [&] { return "worse than at the start" + all(); });
  for (int j = 0; j < m.np; ++j) r.require(after[j] >= lo[j] && after[j] <= hi[j], "range", [&] { return "parameter " + std::to_string(j) + " outside of its range" + all(); });
  if (spare) r.require(std::fabs(spare->getValue() - 0.3) < 1e-12, "spare", [&] { return "a parameter without effect moved to " + vk::str(spare->getValue()) + all(); });
  r.require((int)s.parameter_sigmas.size() == np, "sigmas", [&] { return std::to_string(s.parameter_sigmas.size()) + " errors of " + std::to_string(np) + " parameters"; });
  {
    V cov(np * np), want;
    for (int i = 0; i < np * np; ++i) cov[i] = 1 + i * i;
    auto got = manager.convertCovarianceMatrixToWorldSpace(cov);
    std::vector<std::shared_ptr<EngineParameter>> order = ps;
    if (spare) order.insert(order.begin() + 1, spare);
    for (int i = 0; i < np; ++i) for (int j = 0; j < np; ++j) {
      double w = cov[i * np + j] * order[i]->getEngineToWorldDerivative() * order[j]->getEngineToWorldDerivative();
      r.require(got.size() == cov.size() && vk::close(got[i * np + j], w, 1e-12), "covariance", [&] { return "covariance of parameters " + std::to_string(i) + " and " + std::to_string(j) + all(); });
    }
  }
  if (c.limit >= 100) {
    V g;
    std::vector<V> inv;
    invert(q.normal(after, g), inv);
    // a hundredth of the error, or of the value when there is none
    for (int j = 0; j < m.np; ++j) r.require(std::fabs(after[j] - best[j]) <= 1e-4 * (std::fabs(best[j]) + 0.1) + 0.03 * std::sqrt(inv[j][j] * low / (residuals - np)), "solution", [&] { return "parameter " + std::to_string(j) + " is not at the solution" + all(); });
    if (c.noisy) for (int j = 0; j < m.np; ++j) {
      double want = std::sqrt(inv[j][j] * cost / (residuals - np)), got = s.parameter_sigmas[j + (c.spare && j >= 1 ? 1 : 0)];
      r.require(std::fabs(got / want - 1) < 0.01, "sigma", [&] { return "the error of parameter " + std::to_string(j) + " is " + vk::str(got) + " instead of " + vk::str(want) + all(); });
    }
    r.nontrivial();
  }
  r.trace();
  r.see(vk::hashStr(what()));
}
}
VK_SUITE(problems) {
  int n = 0;
  for (int model = 0; model < 4; ++model) {
    int np = models()[model].np;
    const V& t = models()[model].truth;
    std::vector<std::vector<int>> convs;
    for (vk::Odo o(std::vector<int>(np, 7)); !o.done; o.inc()) convs.push_back(std::vector<int>(o.v.begin(), o.v.end()));
    std::vector<V> starts;
    for (vk::Odo o(std::vector<int>(np, 4)); !o.done; o.inc()) { V s; const double F[] = {0.7, 1, 1.25, 1.0000001}; for (int j = 0; j < np; ++j) s.push_back(t[j] * F[o.v[j]]); starts.push_back(s); }
    for (auto& cv : convs) for (auto& s : starts) for (int noisy = 0; noisy < 2; ++noisy) {
      ++n;
      if (np == 3 && !r.thorough() && n % 7) continue;
      if (r.next()) one(r, {model, cv, s, noisy, 1, 1000, false, 0});
      if (!r.thorough() && n % 3) continue;
      if (r.next()) one(r, {model, cv, s, noisy, 3, 1000, n % 2 == 0, n % 3});
      if (r.next()) one(r, {model, cv, s, noisy, 2, 1 + n % 4, n % 2 == 1, 0});
    }
  }
}
