// Model parameters: all histories of changes, observers, creations and destructions over a small graph of parameters,
// and the coordinate converters over grids.
#include "vkit.h"
#include <memory>
#include "ModelFitting/Parameters/DependentParameter.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/ExpSigmoidConverter.h"
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
using namespace ModelFitting;
using BP = std::shared_ptr<BasicParameter>;

// Nodes: 0 manual, 1 engine (norm 4), 2 = 2*m+1, 3 = m+10*e, 4 = n2*n3 (optional), 5 = n4-n2 (optional, needs 4), 6 = n2+n3+e (optional)
static const int N = 7;
struct World {
  std::shared_ptr<ManualParameter> m;
  std::shared_ptr<EngineParameter> e;
  BP node[N];
  std::weak_ptr<BasicParameter> weak[N];
  std::size_t obs[N] = {};      // observer id
  bool observed[N] = {};
  double last[N] = {};          // last value notified
  int calls[N] = {};
  bool dirty[N] = {};           // its inputs changed since the observer was added
  double vm = 1, ve = 2;
  std::string bad;
  World() {
    m = std::make_shared<ManualParameter>(1);
    e = std::make_shared<EngineParameter>(2, std::unique_ptr<CoordinateConverter>(new NormalizedConverter(4)));
    node[0] = m; node[1] = e;
    node[2] = createDependentParameter([](double a) { return 2 * a + 1; }, m);
    node[3] = createDependentParameter([](double a, double b) { return a + 10 * b; }, m, e);
  }
  double ref(int i) const {
    double n2 = 2 * vm + 1, n3 = vm + 10 * ve;
    switch (i) { case 0: return vm; case 1: return ve; case 2: return n2; case 3: return n3; case 4: return n2 * n3; case 5: return n2 * n3 - n2; default: return n2 + n3 + ve; }
  }
  bool depends(int i, int input) const { return i == input || (i == 2 ? input == 0 : i >= 3); }
  void changed(int input) { for (int i = 0; i < N; ++i) if (observed[i] && depends(i, input)) dirty[i] = true; }
  // returns false: not applicable
  bool op(int k) {
    if (k == 0 || k == 1) { vm = k ? 5 : 3; m->setValue(vm); changed(0); return true; }
    if (k == 2) { ve = 7; e->setValue(7); changed(1); return true; }
    if (k == 3) { ve = 6; e->setEngineValue(1.5); changed(1); return true; }
    if (k < 4 + N) { int i = k - 4; if (!node[i] || i < 2) return false; double v = node[i]->getValue(); if (v != ref(i)) bad = "value of node " + vk::str(i) + " is " + vk::str(v) + " instead of " + vk::str(ref(i)); return true; }
    k -= 4 + N;
    if (k < N) {
      int i = k;
      if (!node[i]) return false;
      if (!observed[i]) {
        observed[i] = true; dirty[i] = false;
        World* w = this;
        obs[i] = node[i]->addObserver([w, i](double v) {
          w->last[i] = v; ++w->calls[i];
          if (i == 1 && v != 4 * w->e->getEngineValue()) w->bad = "an observer sees engine value " + vk::str(w->e->getEngineValue()) + " with world value " + vk::str(v);
        });
        if (!node[i]->isObserved()) bad = "observed parameter says it is not";
      } else {
        observed[i] = false;
        if (!node[i]->removeObserver(obs[i])) bad = "observer could not be removed";
        if (node[i]->removeObserver(obs[i])) bad = "observer removed twice";
      }
      return true;
    }
    k -= N;
    if (k == 0) {
      if (node[4]) { if (node[5]) return false; node[4].reset(); observed[4] = false; }
      else { auto a = std::static_pointer_cast<DependentParameter<std::shared_ptr<ManualParameter>>>(node[2]); node[4] = createDependentParameter([](double x, double y) { return x * y; }, node[2], node[3]); }
      return true;
    }
    if (k == 1) {
      if (node[5]) { node[5].reset(); observed[5] = false; }
      else { if (!node[4]) return false; node[5] = createDependentParameter([](double x, double y) { return x - y; }, node[4], node[2]); }
      return true;
    }
    if (k == 2) {
      if (node[6]) { node[6].reset(); observed[6] = false; }
      else node[6] = createDependentParameter([](double x, double y, double z) { return x + y + z; }, node[2], node[3], e);
      return true;
    }
    return false;
  }
};
static const int OPS = 4 + N + N + 3;
static std::string opName(int k) {
  if (k < 4) return std::string(k == 0 ? "manual=3" : k == 1 ? "manual=5" : k == 2 ? "world=7" : "engine=1.5");
  if (k < 4 + N) return "get" + vk::str(k - 4);
  if (k < 4 + 2 * N) return "observe" + vk::str(k - 4 - N);
  return "create/destroy" + vk::str(k - 4 - 2 * N + 4);
}
static std::string hist(const std::vector<int>& h) { std::string s; for (int k : h) s += opName(k) + " "; return s; }
static bool replay(vk::Run& r, const std::vector<int>& h) {
  World w;
  for (int k : h) if (!w.op(k)) return false;
  r.transition(h.size());
  uint64_t st = w.vm * 10 + w.ve;
  for (int i = 0; i < N; ++i) {
    if (w.observed[i] && w.dirty[i])
      r.check(w.calls[i] > 0 && w.last[i] == w.ref(i), "notified", [&] { return "after " + hist(h) + ": the observer of node " + vk::str(i) + " last saw " + (w.calls[i] ? vk::str(w.last[i]) : "nothing") + ", the value is " + vk::str(w.ref(i)); });
    st = vk::mix(st, (w.node[i] != nullptr) + 2 * w.observed[i] + 4 * w.dirty[i]);
  }
  for (int i = 0; i < N; ++i) if (w.node[i]) { double v = w.node[i]->getValue(); r.check(v == w.ref(i), "value", [&] { return "after " + hist(h) + ": node " + vk::str(i) + " is " + vk::str(v) + " instead of " + vk::str(w.ref(i)); }); }
  double ev = w.e->getEngineValue();
  r.check(ev == w.ve / 4, "engine-value", [&] { return "after " + hist(h) + ": engine value " + vk::str(ev); });
  r.check(w.bad.empty(), "observation", [&] { return "after " + hist(h) + ": " + w.bad; });
  r.state(st);
  return true;
}
static void extend(vk::Run& r, std::vector<int>& h, size_t depth) {
  if (!replay(r, h)) return;
  r.count("histories");
  if (h.size() == depth) return;
  for (int k = 0; k < OPS; ++k) { h.push_back(k); extend(r, h, depth); h.pop_back(); }
}
VK_SUITE(histories) {
  size_t depth = r.thorough() ? 6 : 5;
  for (int a = 0; a < OPS; ++a) for (int b = 0; b < OPS; ++b) {
    if (!r.next()) continue;
    std::vector<int> h{a, b};
    r.desc([=] { return "histories starting with " + hist(h); });
    r.guarded("history", [&] { extend(r, h, depth); r.see(a * 100 + b); r.nontrivial(); });
  }
}

// Converters: inverse, range, order and derivative on grids.
static void converter(vk::Run& r, const std::string& name, CoordinateConverter& c, const std::vector<double>& world, const std::vector<double>& engine, double lo, double hi, double rel) {
  double prev = -HUGE_VAL;
  for (double e : engine) {
    double w = c.engineToWorld(e);
    r.check(!std::isfinite(hi) || (w >= lo - 1e-12 * (hi - lo + std::abs(lo)) && w <= hi + 1e-12 * (hi - lo + std::abs(hi))), "range", [&] { return name + ": engine " + vk::str(e) + " -> world " + vk::str(w) + ", out of range"; });
    r.check(w >= prev - 1e-12 * std::abs(prev) - (std::isfinite(hi) ? 1e-12 * (hi - lo) : 0), "monotone", [&] { return name + ": world value falls at engine " + vk::str(e); });
    prev = w;
    if (std::abs(e) <= 10) {
      double back = c.worldToEngine(w);
      r.check(vk::close(back, e, 1e-6, 1e-6), "inverse-engine", [&] { return name + ": engine " + vk::str(e) + " -> " + vk::str(w) + " -> " + vk::str(back); });
      double h = 1e-4, num = (c.engineToWorld(e + h) - c.engineToWorld(e - h)) / (2 * h), der = c.getEngineToWorldDerivative(w);
      r.check(vk::close(num, der, 1e-4, 1e-6 * std::abs(w)), "derivative", [&] { return name + ": derivative at world " + vk::str(w) + " is " + vk::str(der) + ", differences give " + vk::str(num); });
    }
  }
  for (double w : world) {
    double e = c.worldToEngine(w), back = c.engineToWorld(e), want = std::min(hi, std::max(lo, w));
    r.check(vk::close(back, want, rel, rel * (std::abs(want) + (std::isfinite(hi) ? hi - lo : 0))), "inverse-world", [&] { return name + ": world " + vk::str(w) + " -> engine " + vk::str(e) + " -> " + vk::str(back); });
  }
  r.transition(world.size() + engine.size());
}
VK_SUITE(converters) {
  std::vector<double> eng;
  for (int i = -400; i <= 400; ++i) eng.push_back(i * 0.25);
  for (int kind = 0; kind < 4; ++kind) for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) {
    if (kind == 0 && (a || b)) continue;
    if (kind == 1 && b) continue;
    static const double lim[] = {-1000, -3.5, -1e-3, 0, 1e-6, 0.5, 7, 1e5};
    static const double pos[] = {1e-12, 1e-6, 1e-3, 0.5, 1, 7, 1e3, 1e9};
    if (kind == 2 && a >= b) continue;
    if (kind == 3 && a >= b) continue;
    if (!r.next()) continue;
    double lo = kind == 3 ? pos[a] : lim[a], hi = kind == 3 ? pos[b] : lim[b];
    r.desc([=] { return std::string(kind == 0 ? "neutral" : kind == 1 ? "normalized " + vk::str(pos[a]) : kind == 2 ? "sigmoid" : "exponential sigmoid") + (kind >= 2 ? " from " + vk::str(lo) + " to " + vk::str(hi) : ""); });
    r.guarded("converter", [&] {
      std::vector<double> world;
      if (kind >= 2) for (int i = -5; i <= 105; ++i) world.push_back(kind == 2 ? lo + (hi - lo) * i / 100 : lo * std::pow(hi / lo, i / 100.0));
      else for (int i = -40; i <= 40; ++i) world.push_back(i * 1.37);
      double inf = HUGE_VAL;
      if (kind == 0) { NeutralConverter c; converter(r, "neutral", c, world, eng, -inf, inf, 1e-12); }
      else if (kind == 1) { NormalizedConverter c(pos[a]); converter(r, "normalized", c, world, eng, -inf, inf, 1e-12); }
      else if (kind == 2) { SigmoidConverter c(lo, hi); converter(r, "sigmoid", c, world, eng, lo, hi, 1e-9); }
      else { ExpSigmoidConverter c(lo, hi); converter(r, "exponential sigmoid", c, world, eng, lo, hi, 1e-6); }
      r.see(kind * 100 + a * 10 + b); r.nontrivial();
    });
  }
}
VK_SUITE(converter_limits) {
  for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) {
    if (!r.next()) continue;
    static const double v[] = {-1, 0, 1, 2, 3};
    r.desc([=] { return "limits " + vk::str(v[a]) + " and " + vk::str(v[b]); });
    bool sig = true, exps = true;
    try { SigmoidConverter c(v[a], v[b]); } catch (const Elements::Exception&) { sig = false; }
    try { ExpSigmoidConverter c(v[a], v[b]); } catch (const Elements::Exception&) { exps = false; }
    r.check(sig == (v[a] <= v[b]), "limits", "sigmoid limits accepted or refused wrongly");
    r.check(exps == (v[a] <= v[b] && v[a] > 0), "limits", "exponential sigmoid limits accepted or refused wrongly");
    r.see(sig * 2 + exps); r.nontrivial(!sig || !exps);
  }
}
