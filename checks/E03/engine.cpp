// The engine side of model fitting: parameter vectors, covariance, residual vectors, comparators, registry of engines.
#include "vkit.h"
#include <deque>
#include <list>
#include <memory>
#include "ModelFitting/Engine/AsinhChiSquareComparator.h"
#include "ModelFitting/Engine/ChiSquareComparator.h"
#include "ModelFitting/Engine/DataVsModelResiduals.h"
#include "ModelFitting/Engine/EngineParameterManager.h"
#include "ModelFitting/Engine/EngineValueResidual.h"
#include "ModelFitting/Engine/LeastSquareEngineManager.h"
#include "ModelFitting/Engine/LogChiSquareComparator.h"
#include "ModelFitting/Engine/ResidualEstimator.h"
#include "ModelFitting/Engine/WorldValueResidual.h"
#include "ModelFitting/Parameters/DependentParameter.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
using namespace ModelFitting;
static std::unique_ptr<CoordinateConverter> conv(int k) {
  if (k == 0) return std::unique_ptr<CoordinateConverter>(new NeutralConverter);
  if (k == 1) return std::unique_ptr<CoordinateConverter>(new NormalizedConverter(4));
  return std::unique_ptr<CoordinateConverter>(new SigmoidConverter(-10, 30));
}
static double deriv(int k, double w) { return k == 0 ? 1 : k == 1 ? 4 : (w + 10) * (30 - w) / 40; }
static double toWorld(int k, double e) { return k == 0 ? e : k == 1 ? 4 * e : -10 + 40 / (1 + std::exp(-e)); }

// n parameters with every choice of converters (one may be registered under several positions), every update, every basis covariance.
VK_SUITE(parameter_vectors) {
  for (int n = 0; n <= (r.thorough() ? 5 : 4); ++n)
    for (vk::Odo o(std::vector<int>(n, 3)); !o.done; o.inc()) {
      if (!r.next()) continue;
      auto kind = o.v;
      r.desc([=] { return "parameters with converters " + vk::strv(kind); });
      r.guarded("parameters", [&] {
        EngineParameterManager man;
        std::vector<std::shared_ptr<EngineParameter>> p;
        std::vector<double> init;
        for (int i = 0; i < n; ++i) {
          double w = 1.5 * i - 2;
          p.push_back(std::make_shared<EngineParameter>(w, conv(kind[i])));
          man.registerParameter(p[i]);
          init.push_back(w);
        }
        r.check(man.numberOfParameters() == (size_t)n, "count", "number of parameters");
        for (int round = 0; round < 3; ++round) {
          std::vector<double> in(n), out(n + 1, -77), world(n);
          for (int i = 0; i < n; ++i) in[i] = (round + 1) * 0.25 * (i + 1) * (i % 2 ? -1 : 1);
          if (round) {
            std::list<double> as_list(in.begin(), in.end());
            if (round == 1) man.updateEngineValues(in.data()); else man.updateEngineValues(as_list.begin());
          }
          man.getEngineValues(out.data());
          for (int i = 0; i < n; ++i) {
            double want = round ? in[i] : p[i]->getEngineValue();
            r.check(out[i] == want && p[i]->getEngineValue() == want, "engine-values", [&] { return "parameter " + vk::str(i) + ": engine value " + vk::str(out[i]) + " instead of " + vk::str(want); });
            world[i] = round ? toWorld(kind[i], in[i]) : init[i];
            r.check(vk::close(p[i]->getValue(), world[i], 1e-12, 1e-12), "world-values", [&] { return "parameter " + vk::str(i) + ": world value " + vk::str(p[i]->getValue()) + " instead of " + vk::str(world[i]); });
            r.seeD(out[i]);
          }
          r.check(out[n] == -77, "overrun", "more engine values than parameters written");
          for (int b = 0; b <= n * n; ++b) {
            std::vector<double> c(n * n);
            for (int i = 0; i < n * n; ++i) c[i] = b == n * n ? 1 + i * i : i == b;
            auto w = man.convertCovarianceMatrixToWorldSpace(c);
            r.check(w.size() == c.size(), "covariance-size", "size of the covariance matrix");
            for (int j = 0; j < n && w.size() == c.size(); ++j) for (int i = 0; i < n; ++i) {
              double want = c[j * n + i] * deriv(kind[i], world[i]) * deriv(kind[j], world[j]);
              r.check(vk::close(w[j * n + i], want, 1e-9, 1e-12), "covariance", [&] { return "element " + vk::str(j) + "," + vk::str(i) + " of the covariance is " + vk::str(w[j * n + i]) + " instead of " + vk::str(want); });
            }
            r.transition();
          }
        }
        r.nontrivial(n > 1);
      });
    }
}

// Residual vectors: every sequence of blocks, three ways to read them, before and after the parameters change.
struct Block : ResidualBlockProvider {
  int n; double base;
  Block(int n_, double b) : n(n_), base(b) {}
  std::size_t numberOfResiduals() const override { return n; }
  void populateResidualBlock(IterType it) override { for (int i = 0; i < n; ++i) it[i] = base + i; }
};
VK_SUITE(residual_vectors) {
  int len = r.thorough() ? 5 : 4;
  for (int l = 0; l <= len; ++l) for (vk::Odo o(std::vector<int>(l, 6)); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto v = o.v;
    r.desc([=] { return "residual blocks " + vk::strv(v) + " (0-2: that many values, 3: data against model, 4: world value, 5: engine value)"; });
    r.guarded("residuals", [&] {
      auto man = std::make_shared<ManualParameter>(1.0);
      auto dep = createDependentParameter([](double x) { return x * x; }, man);
      auto eng = std::make_shared<EngineParameter>(2.0, conv(1));
      ResidualEstimator est;
      std::vector<std::function<double()>> want;
      for (int i = 0; i < l; ++i) {
        if (v[i] <= 2) { est.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new Block(v[i], 100 * i))); for (int k = 0; k < v[i]; ++k) want.push_back([=] { return 100.0 * i + k; }); }
        else if (v[i] == 3) {
          std::vector<double> d{1, 2, 3}, m{5, 7, 11}, w{1, 0.5, 2};
          est.registerBlockProvider(createDataVsModelResiduals(d, m, w, ChiSquareComparator{}));
          for (int k = 0; k < 3; ++k) want.push_back([=] { return w[k] * (d[k] - m[k]); });
        }
        else if (v[i] == 4) {
          if (i % 2) { est.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new WorldValueResidual(man, 10, 3))); want.push_back([=] { return 3 * (man->getValue() - 10); }); }
          else { est.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new WorldValueResidual(dep, 10, 3))); want.push_back([=] { return 3 * (man->getValue() * man->getValue() - 10); }); }
        }
        else { est.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new EngineValueResidual(*eng, 7, 0.5))); want.push_back([=] { return 0.5 * (7 - eng->getValue() / 4); }); }
      }
      r.check(est.numberOfResiduals() == want.size(), "residual-count", [&] { return vk::str(est.numberOfResiduals()) + " residuals instead of " + vk::str(want.size()); });
      for (int round = 0; round < 4; ++round) {
        if (round == 1) man->setValue(4);
        if (round == 2) eng->setEngineValue(-1.25);
        if (round == 3) { eng->setValue(16); man->setValue(-2); }
        for (int way = 0; way < 3; ++way) {
          std::vector<double> out(want.size() + 1, -77);
          if (way == 0) est.populateResiduals(out.data());
          else if (way == 1) est.populateResiduals(out.begin());
          else { std::deque<double> d(out.begin(), out.end()); est.populateResiduals(d.begin()); out.assign(d.begin(), d.end()); }
          for (size_t i = 0; i < want.size(); ++i) r.check(vk::close(out[i], want[i](), 1e-12, 1e-12), "residual", [&] { return "residual " + vk::str(i) + " is " + vk::str(out[i]) + " instead of " + vk::str(want[i]()); });
          r.check(out.back() == -77, "residual-overrun", "more residuals than announced");
          r.seeD(out[0]); r.transition();
        }
      }
      r.nontrivial(l > 1);
    });
  }
}
VK_SUITE(world_residual_lifetime) {
  for (int order = 0; order < 4; ++order) {
    if (!r.next()) continue;
    r.desc([=] { return "lifetime of a world value residual, order " + vk::str(order); });
    r.guarded("lifetime", [&] {
      auto man = std::make_shared<ManualParameter>(1.0);
      { WorldValueResidual a(man, 2, 1), b(man, 3, 1); if (order & 1) man->setValue(5); r.check(man->isObserved(), "observed", "a residual does not observe its parameter"); }
      r.check(!man->isObserved(), "released", "a destroyed residual still observes its parameter");
      if (order & 2) man->setValue(6);
      r.see(order); r.nontrivial();
    });
  }
}

// Comparators over a grid of values, weights and scales; data against model element by element and size checks.
VK_SUITE(comparators) {
  static const double val[] = {-1e6, -37.5, -1, -1e-3, 0, 1e-3, 0.7, 1, 37.5, 1e6}, wt[] = {0, 1e-3, 0.5, 1, 30, 1e4}, u0[] = {0.1, 1, 10, 1000};
  for (double real : val) for (double u : u0) {
    if (!r.next()) continue;
    r.desc([=] { return "comparators, data " + vk::str(real) + ", scale " + vk::str(u); });
    r.guarded("comparators", [&] {
      for (double model : val) for (double w : wt) {
        double d = w * (real - model), lg = (d < 0 ? -1 : 1) * u * std::log1p(std::abs(d) / u), as = u * std::asinh(d / u);
        double a = ChiSquareComparator()(real, model, w), b = LogChiSquareComparator(u)(real, model, w), c = AsinhChiSquareComparator(u)(real, model, w);
        auto what = [&](const char* n, double got, double want) { return std::string(n) + "(" + vk::str(real) + ", " + vk::str(model) + ", " + vk::str(w) + "; " + vk::str(u) + ") is " + vk::str(got) + " instead of " + vk::str(want); };
        r.check(vk::close(a, d, 1e-12, 1e-300), "chi2", [&] { return what("plain", a, d); });
        r.check(vk::close(b, lg, 1e-9, 1e-300), "log", [&] { return what("log", b, lg); });
        r.check(vk::close(c, as, 1e-6, 1e-30), "asinh", [&] { return what("asinh", c, as); });
        if (u == 10) {
          r.check(LogChiSquareComparator()(real, model, w) == b, "log-default", "default scale of the log comparator");
          r.check(AsinhChiSquareComparator()(real, model, w) == c, "asinh-default", "default scale of the asinh comparator");
        }
        r.seeD(c); r.transition(3);
      }
      r.nontrivial();
    });
  }
}
VK_SUITE(data_vs_model) {
  for (vk::Odo o({4, 4, 4}); !o.done; o.inc()) {
    if (!r.next()) continue;
    int nd = o.v[0], nm = o.v[1], nw = o.v[2];
    r.desc([=] { return "data of " + vk::str(nd) + ", model of " + vk::str(nm) + ", weights of " + vk::str(nw); });
    r.guarded("data-vs-model", [&] {
      std::vector<double> d, m, w;
      for (int i = 0; i < nd; ++i) d.push_back(3 * i + 1);
      for (int i = 0; i < nm; ++i) m.push_back(i * i - 4);
      for (int i = 0; i < nw; ++i) w.push_back(i + 0.5);
      bool ok = true;
      try {
        auto p = createDataVsModelResiduals(d, m, w, LogChiSquareComparator(2));
        r.check(p->numberOfResiduals() == (size_t)nd, "size", "number of residuals");
        std::vector<double> out(nd + 1, -77);
        p->populateResidualBlock(out.data());
        for (int i = 0; i < nd; ++i) r.check(out[i] == LogChiSquareComparator(2)(d[i], m[i], w[i]), "element", "a residual compares the wrong elements");
        r.check(out[nd] == -77, "overrun", "more residuals than data");
      } catch (const Elements::Exception&) { ok = false; }
      r.check(ok == (nd == nm && nd == nw), "sizes", "sizes accepted or refused wrongly");
      r.see(nd * 16 + nm * 4 + nw); r.nontrivial();
    });
  }
}

// Registry of engines: all sequences of registrations.
struct Dummy : LeastSquareEngine {
  int tag; unsigned max;
  Dummy(int t, unsigned m) : tag(t), max(m) {}
  LeastSquareSummary solveProblem(EngineParameterManager&, ResidualEstimator&) override { return {}; }
};
VK_SUITE(engine_registry) {
  static const char* names[] = {"alpha", "Alpha", "beta", "levmar"};
  for (int l = 0; l <= 3; ++l) for (vk::Odo o(std::vector<int>(l, 4)); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto v = o.v;
    r.desc([=] { return "engines registered in order " + vk::strv(v); });
    std::string how;
    int rc = vk::isolated([&] {
      std::map<std::string, int> model;
      for (int i = 0; i < l; ++i) {
        std::string n = names[v[i]], low = n;
        for (auto& c : low) c = tolower(c);
        bool threw = false;
        try { LeastSquareEngineManager::StaticEngine e(n, [i](unsigned m) { return std::make_shared<Dummy>(i, m); }); } catch (const Elements::Exception&) { threw = true; }
        if (threw != (model.count(low) > 0)) return false;
        model.emplace(low, i);
      }
      auto impl = LeastSquareEngineManager::getImplementations();
      if (impl.size() != model.size()) return false;
      for (auto& n : impl) if (!model.count(n)) return false;
      std::string def = LeastSquareEngineManager::getDefault();
      if (model.count("levmar") ? def != "levmar" : model.empty() ? def != "" : !model.count(def)) return false;
      for (auto* n : {"alpha", "ALPHA", "beta", "Beta", "levmar", "LevMar", "gamma"}) {
        std::string low = n;
        for (auto& c : low) c = tolower(c);
        try {
          auto e = std::dynamic_pointer_cast<Dummy>(LeastSquareEngineManager::create(n, 17));
          if (!model.count(low) || !e || e->tag != model[low] || e->max != 17) return false;
        } catch (const Elements::Exception&) { if (model.count(low)) return false; }
      }
      return true;
    }, 5, &how);
    r.check(rc == 0, "registry", [&] { return "registration " + vk::strv(v) + " (" + how + ")"; });
    r.see(vk::hashStr(vk::strv(v))); r.nontrivial(l > 0); r.transition(l);
  }
}
