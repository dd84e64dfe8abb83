// Model components: every stack of scale, rotation and linear transform, and the sampling of their sharp region.
#include "vkit.h"
#include <array>
#include <memory>
#include "ModelFitting/Models/AutoSharp.h"
#include "ModelFitting/Models/CircularlySymmetricModelComponent.h"
#include "ModelFitting/Models/FlattenedMoffatComponent.h"
#include "ModelFitting/Models/OldSharp.h"
#include "ModelFitting/Models/OnlySmooth.h"
#include "ModelFitting/Models/PointModel.h"
#include "ModelFitting/Models/RotatedModelComponent.h"
#include "ModelFitting/Models/ScaledModelComponent.h"
#include "ModelFitting/Models/SersicProfile.h"
#include "ModelFitting/Models/TransformModelComponent.h"
#include "ModelFitting/Parameters/ManualParameter.h"
using namespace ModelFitting;
typedef std::array<double, 4> M;                      // (x, y) -> (x m0 + y m1, x m2 + y m3)
static M mul(const M& a, const M& b) { return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]}; }
static double det(const M& m) { return m[0] * m[3] - m[1] * m[2]; }
static M inv(const M& m) { double d = det(m); return {m[3] / d, -m[1] / d, -m[2] / d, m[0] / d}; }

static double base(double x, double y) { return 3 * x + 5 * y + x * y + 100; }
static bool inside(double x, double y) { return x * x + 2 * y * y < 2.3 && x + y > -1.1; }
struct Seen { double scale = -1, rmax = -1; int dead = 0; };
struct Probe : ModelComponent {
  Seen* s;
  explicit Probe(Seen* s_) : s(s_) {}
  ~Probe() { ++s->dead; }
  double getValue(double x, double y) override { return base(x, y); }
  void updateRasterizationInfo(double a, double b) override { s->scale = a; s->rmax = b; }
  std::vector<ModelSample> getSharpSampling() override {
    std::vector<ModelSample> v;
    for (int i = 0; i < 7; ++i) { double x = 0.3 * i - 1, y = 0.7 - 0.2 * i * i; v.emplace_back(x, y, base(x, y) * (0.01 + 0.001 * i)); }
    return v;
  }
  bool insideSharpRegion(double x, double y) override { return inside(x, y); }
};

VK_SUITE(component_stacks) {
  const double sc[3][2] = {{2, 0.5}, {1.5, 3}, {0.25, 0.25}}, rot[3] = {0.3, -2.1, M_PI / 2};
  const M tr[3] = {{2, 0, 0, 0.5}, {1, 0.5, -0.25, 1.5}, {0, 1, -1, 0.1}};   // as stored: t0..t3
  for (int l = 0; l <= (r.thorough() ? 5 : 4); ++l) for (vk::Odo o(std::vector<int>(l, 9)); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto v = o.v;
    r.desc([=] { return "stack " + vk::strv(v) + " (0-2 scaled, 3-5 rotated, 6-8 transformed; the first is the innermost)"; });
    r.guarded("stack", [&] {
      Seen seen;
      std::unique_ptr<ModelComponent> c(new Probe(&seen));
      std::vector<std::shared_ptr<ManualParameter>> p1(l), p2(l);
      for (int i = 0; i < l; ++i) {
        int k = v[i] % 3;
        bool moved = (l + i + v[i]) % 3 == 0;
        if (v[i] < 3) {
          p1[i] = std::make_shared<ManualParameter>(sc[k][0]); p2[i] = std::make_shared<ManualParameter>(sc[k][1]);
          c.reset(new ScaledModelComponent(std::move(c), p1[i], p2[i]));
          if (moved) c.reset(new ScaledModelComponent(std::move(*static_cast<ScaledModelComponent*>(c.get()))));
        } else if (v[i] < 6) {
          p1[i] = std::make_shared<ManualParameter>(rot[k]);
          c.reset(new RotatedModelComponent(std::move(c), p1[i]));
          if (moved) c.reset(new RotatedModelComponent(std::move(*static_cast<RotatedModelComponent*>(c.get()))));
        } else {
          c.reset(new TransformModelComponent(std::move(c), std::make_tuple(tr[k][0], tr[k][1], tr[k][2], tr[k][3])));
          if (moved) c.reset(new TransformModelComponent(std::move(*static_cast<TransformModelComponent*>(c.get()))));
        }
      }
      for (int round = 0; round <= l; ++round) {       // after each round one more parameter has changed
        if (round) {
          int i = (round * 2 + v[0]) % l;
          if (v[i] < 3) { p1[i]->setValue(0.7 * round); if (round % 2) p2[i]->setValue(1.3); }
          else if (v[i] < 6) p1[i]->setValue(0.4 * round + 1);
          r.transition();
        }
        // map: base coordinates -> outer coordinates; weights of samples grow with the scaled area only, values fall with the transformed area
        M map{1, 0, 0, 1};
        double area = 1, jac = 1, fs = 1;
        for (int i = 0; i < l; ++i) {
          M m;
          if (v[i] < 3) { double a = p1[i]->getValue(), b = p2[i]->getValue(); m = {a, 0, 0, b}; area *= a * b; }
          else if (v[i] < 6) { double a = p1[i]->getValue(); m = {std::cos(a), std::sin(a), -std::sin(a), std::cos(a)}; }
          else { auto& t = tr[v[i] % 3]; m = {t[0], t[2], t[1], t[3]}; jac *= std::fabs(det(m)); }
          map = mul(m, map);
        }
        for (int i = l; i--;) {
          if (v[i] < 3) fs /= std::min(p1[i]->getValue(), p2[i]->getValue());
          else if (v[i] >= 6) { auto& t = tr[v[i] % 3]; fs /= std::min(std::hypot(t[0], t[1]), std::hypot(t[2], t[3])); }
        }
        M back = inv(map);
        for (int xi = -2; xi <= 2; ++xi) for (int yi = -2; yi <= 2; ++yi) {
          double x = 0.37 * xi, y = 0.61 * yi, bx = back[0] * x + back[1] * y, by = back[2] * x + back[3] * y, want = base(bx, by) / jac, got = c->getValue(x, y);
          r.check(vk::close(got, want, 1e-9, 1e-9), "value", [&] { return "value " + vk::str(got) + " at " + vk::str(x) + "," + vk::str(y) + " instead of " + vk::str(want); });
          r.seeD(got);
          double e = 1e-9 * (1 + std::fabs(bx) + std::fabs(by));
          if (inside(bx + e, by + e) == inside(bx - e, by - e) && inside(bx + e, by - e) == inside(bx - e, by + e))
            r.check(c->insideSharpRegion(x, y) == inside(bx, by), "sharp-region", [&] { return "point " + vk::str(x) + "," + vk::str(y) + " is wrongly placed " + (inside(bx, by) ? "outside" : "inside") + " the sharp region"; });
        }
        Seen dummy; Probe ref(&dummy);
        auto want = ref.getSharpSampling(), got = c->getSharpSampling();
        r.require(want.size() == got.size(), "samples", [&] { return vk::str(got.size()) + " samples instead of " + vk::str(want.size()); });
        for (size_t i = 0; i < got.size(); ++i) {
          double x = std::get<0>(want[i]), y = std::get<1>(want[i]), ox = map[0] * x + map[1] * y, oy = map[2] * x + map[3] * y, w = std::get<2>(want[i]) * area;
          r.check(vk::close(std::get<0>(got[i]), ox, 1e-9, 1e-9) && vk::close(std::get<1>(got[i]), oy, 1e-9, 1e-9), "sample-position", [&] { return "sample " + vk::str(i) + " is at " + vk::str(std::get<0>(got[i])) + "," + vk::str(std::get<1>(got[i])) + " instead of " + vk::str(ox) + "," + vk::str(oy); });
          r.check(vk::close(std::get<2>(got[i]), w, 1e-9, 1e-9), "sample-flux", [&] { return "sample " + vk::str(i) + " has the flux " + vk::str(std::get<2>(got[i])) + " instead of " + vk::str(w); });
          // the same law stated on the outside only: flux of a sample = value at its position x its area there
          r.check(vk::close(std::get<2>(got[i]), c->getValue(std::get<0>(got[i]), std::get<1>(got[i])) * (0.01 + 0.001 * i) * std::fabs(det(map)), 1e-7, 1e-9), "sample-value", [&] { return "flux of sample " + vk::str(i) + " is not value times area"; });
        }
        c->updateRasterizationInfo(0.2, 30);
        r.check(vk::close(seen.scale, 0.2 * fs, 1e-9, 0) && vk::close(seen.rmax, 30 * fs, 1e-9, 0), "rasterization-info", [&] { return "the component is told a pixel of " + vk::str(seen.scale) + " and a radius of " + vk::str(seen.rmax) + " instead of " + vk::str(0.2 * fs) + " and " + vk::str(30 * fs); });
      }
      r.check(seen.dead == 0, "lifetime", "the inner component died too early");
      c.reset();
      r.check(seen.dead == 1, "lifetime", "the inner component was not destroyed");
      for (auto& p : p1) if (p) p->setValue(2);        // nobody listens any more
      r.nontrivial(l > 1);
    });
  }
}

// The sharp region of circularly symmetric components: rings follow the definition, tile the disc, and give back its flux.
VK_SUITE(sharp_sampling) {
  struct K { double i0, n, k; };
  const K prof[] = {{10, 1, 1.678}, {4, 4, 7.669}, {1, 0.5, 0.7}, {0, 1, 1}, {7, 2.5, 4}};
  const double scales[] = {0.05, 0.2, 1, 2.5}, rmax[] = {0.5, 6, 15}, inc[] = {1.122, 1.5}, first[] = {1e-4, 1e-2}, tol[] = {0.05, 0.5}, samp[] = {5, 2};
  for (int kind = 0; kind < 3; ++kind)
    for (vk::Odo o(std::vector<int>{5, 4, 3, 2, 2, kind == 0 ? 2 : 1, kind == 0 ? 2 : 1}); !o.done; o.inc()) {
      if (kind == 2 && (o.v[3] || o.v[4])) continue;
      if (!r.next()) continue;
      auto v = o.v;
      r.desc([=] { return std::string(kind == 0 ? "automatic" : kind == 1 ? "fixed" : "no") + " sharp region, profile " + vk::str(v[0]) + ", pixel " + vk::str(scales[v[1]]) + ", radius " + vk::str(rmax[v[2]]) + ", increment " + vk::str(inc[v[3]]) + ", first " + vk::str(first[v[4]]) + ", tolerance " + vk::str(tol[v[5]]) + ", sampling " + vk::str(samp[v[6]]); });
      r.guarded("sharp", [&] {
        auto p = [&](double x) { return std::make_shared<ManualParameter>(x); };
        auto i0 = p(1), n = p(1), k = p(1);
        std::unique_ptr<SharpRegionManager> m;
        if (kind == 0) m.reset(new AutoSharp(inc[v[3]], first[v[4]], tol[v[5]], samp[v[6]]));
        else if (kind == 1) m.reset(new OldSharp(4, inc[v[3]], first[v[4]]));
        else m.reset(new OnlySmooth);
        SersicModelComponent c(std::move(m), i0, n, k);
        auto P = prof[v[0]];
        i0->setValue(P.i0); n->setValue(P.n); k->setValue(P.k);          // parameters set after construction are used
        auto f = [&](double r) { return P.i0 * std::exp(-P.k * std::pow(r, 1 / P.n)); };
        double s = scales[v[1]], R = rmax[v[2]];
        for (int round = 0; round < 2; ++round) {       // the second time with another pixel scale
          if (round) s *= 2;
          c.updateRasterizationInfo(s, R);
          for (double x = -3; x <= 3; x += 0.75) r.check(vk::close(c.getValue(x, 1), f(std::sqrt(x * x + 1)), 1e-12, 1e-15), "profile", [&] { return "value at radius " + vk::str(std::sqrt(x * x + 1)); });
          double rs = 0;
          if (kind == 0) {
            double err = tol[v[5]];
            while (rs < R && err >= tol[v[5]]) { double mid = f(rs + s / 2); err = std::fabs((mid - (f(rs) + f(rs + s)) / 2) / mid); rs += s; }
            rs = std::max(std::min(rs, R), 4 * s);
          } else if (kind == 1) rs = 4 * s;
          for (double a = 0; a < 6.28; a += 0.5) for (double q : {0.0, 0.5, 0.999, 1.001, 2.0}) if (rs > 0 || q == 0)
            r.check(c.insideSharpRegion(rs * q * std::cos(a), rs * q * std::sin(a)) == (rs > 0 && q < 1), "sharp-radius", [&] { return "a point at " + vk::str(q) + " of the sharp radius " + vk::str(rs) + " is misplaced"; });
          std::vector<std::array<double, 3>> want;
          double r1 = 0, r2 = 0;
          while (r2 < rs) {
            r2 = r1 > 0 ? (kind == 0 ? std::min(r1 * inc[v[3]], r1 + s / samp[v[6]]) : r1 * inc[v[3]]) : first[v[4]];
            int na = kind == 1 ? 72 : r2 > s / 2 ? (int)std::ceil(2 * M_PI * r1 / (s / samp[v[6]])) : 1;
            double h = (r1 + r2) / 2;
            for (int i = 0; i < na; ++i) want.push_back({h, 2 * M_PI * i / na, f(h) * M_PI * (r2 * r2 - r1 * r1) / na});
            r1 = r2;
          }
          auto got = c.getSharpSampling();
          r.require(got.size() == want.size(), "ring-samples", [&] { return vk::str(got.size()) + " samples instead of " + vk::str(want.size()); });
          for (size_t i = 0; i < got.size(); ++i) {
            double x = want[i][0] * std::cos(want[i][1]), y = want[i][0] * std::sin(want[i][1]);
            r.check(vk::close(std::get<0>(got[i]), x, 1e-6, 1e-7 * s) && vk::close(std::get<1>(got[i]), y, 1e-6, 1e-7 * s) && vk::close(std::get<2>(got[i]), want[i][2], 1e-8, 1e-15), "ring", [&] { return "sample " + vk::str(i) + ": " + vk::str(std::get<0>(got[i])) + "," + vk::str(std::get<1>(got[i])) + " flux " + vk::str(std::get<2>(got[i])) + " instead of " + vk::str(x) + "," + vk::str(y) + " " + vk::str(want[i][2]); });
          }
          r.see(got.size()); r.transition();
        }
        r.nontrivial(kind < 2);
      });
    }
}

VK_SUITE(other_components) {
  const double v0[] = {0, 2}, v1[] = {1, 3.5}, v2[] = {2, 4, 1.5}, v3[] = {0, 1.25};
  for (vk::Odo o({2, 2, 3, 2}); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto v = o.v;
    r.desc([=] { return "flattened Moffat " + vk::strv(v); });
    r.guarded("moffat", [&] {
      auto a = std::make_shared<ManualParameter>(1), b = std::make_shared<ManualParameter>(1), d = std::make_shared<ManualParameter>(1), t = std::make_shared<ManualParameter>(1);
      FlattenedMoffatComponent c(a, b, d, t);
      a->setValue(v0[v[0]]); b->setValue(v1[v[1]]); d->setValue(v2[v[2]]); t->setValue(v3[v[3]]);
      for (double x = -3; x <= 3; x += 0.5) for (double y = -3; y <= 3; y += 0.75) {
        double m = std::pow(std::pow(std::fabs(x), v2[v[2]]) + std::pow(std::fabs(y), v2[v[2]]), 1 / v2[v[2]]) - v3[v[3]];
        double want = v0[v[0]] * std::pow(1 + (m > 0 ? m * m : 0), -v1[v[1]]);
        r.check(vk::close(c.getValue(x, y), want, 1e-10, 1e-12), "moffat", [&] { return "value " + vk::str(c.getValue(x, y)) + " instead of " + vk::str(want); });
        r.check(!c.insideSharpRegion(x, y), "moffat-sharp", "a smooth component has a sharp region");
        r.seeD(want);
      }
      c.updateRasterizationInfo(1, 1);
      r.check(c.getSharpSampling().empty(), "moffat-sharp", "a smooth component has sharp samples");
      r.nontrivial(v[0]);
    });
  }
  for (int moved = 0; moved < 2; ++moved) {
    if (!r.next()) continue;
    r.desc([=] { return moved ? "moved point model" : "point model"; });
    r.guarded("point", [&] {
      auto x = std::make_shared<ManualParameter>(1), y = std::make_shared<ManualParameter>(2), f = std::make_shared<ManualParameter>(3);
      std::vector<PointModel> all;
      if (moved) for (int i = 0; i < 5; ++i) all.emplace_back(x, y, f); else all.emplace_back(x, y, f);
      for (int i = 0; i < 3; ++i) {
        for (auto& m : all) r.check(m.getX() == x->getValue() && m.getY() == y->getValue() && m.getValue() == f->getValue(), "point", "a point model does not follow its parameters");
        if (i == 0) x->setValue(7); else { y->setValue(8); f->setValue(9); }
      }
      r.nontrivial(); r.see(moved);
    });
  }
}
