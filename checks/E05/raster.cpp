// Rendering of models: resampling of images, rasterisation of components, frames of several models.
#include "vkit.h"
#include <memory>
#include <numeric>
#include "ModelFitting/Image/NullPsf.h"
#include "ModelFitting/Models/ExtendedModel.h"
#include "ModelFitting/Models/AutoSharp.h"
#include "ModelFitting/Models/CircularlySymmetricModelComponent.h"
#include "ModelFitting/Models/CompactExponentialModel.h"
#include "ModelFitting/Models/CompactSersicModel.h"
#include "ModelFitting/Models/FlattenedMoffatComponent.h"
#include "ModelFitting/Models/FrameModel.h"
#include "ModelFitting/Models/OldSharp.h"
#include "ModelFitting/Models/OnlySmooth.h"
#include "ModelFitting/Models/RotatedModelComponent.h"
#include "ModelFitting/Models/ScaledModelComponent.h"
#include "ModelFitting/Models/TransformModelComponent.h"
#include "ModelFitting/Models/TransformedModel.h"
#include "ModelFitting/Parameters/ManualParameter.h"
#include "SEImplementation/Image/DownSampledImagePsf.h"
#include "SEImplementation/Image/ImageInterfaceTraits.h"
#include "SEImplementation/Image/ImagePsf.h"
#include "SEImplementation/Image/WriteableImageInterfaceTraits.h"
using namespace ModelFitting;
using SourceXtractor::SeFloat;
using SourceXtractor::VectorImage;
typedef ImageInterfaceTypePtr Img;
typedef ImageTraits<Img> T;
typedef ImageTraits<WriteableInterfaceTypePtr> WT;
typedef std::vector<std::vector<double>> Grid;

static double sinc(double x) { return std::fabs(x) < 1e-9 ? 1 : std::sin(M_PI * x) / (M_PI * x); }
// normalised Lanczos weights of the taps -a+1 .. a for a fractional position
static std::vector<double> lanczos(int a, double pos) {
  std::vector<double> k(2 * a);
  for (int i = 0; i < 2 * a; ++i) { double d = i - (a - 1) - pos; k[i] = sinc(d) * sinc(d / a); }
  double s = std::accumulate(k.begin(), k.end(), 0.0);
  for (auto& v : k) v /= s;
  return k;
}
static Img pattern(int w, int h, int kind) {
  auto im = T::factory(w, h);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x)
    T::at(im, x, y) = kind == 0 ? 1 + 3 * x + 7 * y : kind == 1 ? 100 * std::exp(-(std::pow(x - (w - 1) / 2., 2) + std::pow(y - (h - 1) / 2. , 2) * 1.5) / (0.02 * w * h)) : (x * 7 + y * 13) % 11;
  return im;
}

VK_SUITE(resampling) {
  const double scale[] = {1, 0.5, 2, 0.7, 1.3}, pos[] = {-3, 0, 2.5, 4.25, 5, 6.8, 9.5, 14};
  const int size[][2] = {{9, 9}, {12, 9}, {11, 14}, {5, 5}, {8, 17}};
  for (vk::Odo o({5, 5, 8, 8, 3}); !o.done; o.inc()) {
    if (!r.thorough() && (o.v[2] + o.v[3] + o.v[4]) % 2) continue;
    if (!r.next()) continue;
    auto v = o.v;
    int w = size[v[0]][0], h = size[v[0]][1];
    double s = scale[v[1]], x = pos[v[2]], y = pos[v[3]];
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image (" + vk::str(v[4]) + ") added at scale " + vk::str(s) + " at " + vk::str(x) + "," + vk::str(y); });
    r.guarded("resampling", [&] {
      auto src = pattern(w, h, v[4]);
      auto out = T::factory(10, 12);
      for (int j = 0; j < 12; ++j) for (int i = 0; i < 10; ++i) T::at(out, i, j) = i - j;
      T::addImageToImage(out, src, s, x, y);
      // position of a target pixel in the source, in units where source pixel i is centred at i + 1
      auto where = [&](int t, double c, int n) { return (t + 0.5 - (c - n * s / 2)) / s + 0.5; };
      auto taps = [&](double p, int n, std::vector<double>& k) -> int {   // first tap, or -1: not covered
        int i = (int)std::floor(p) - 4;
        if (i < 0 || i + 7 >= n) return -1;
        k = lanczos(4, p - std::floor(p));
        return i;
      };
      double total = 0;
      for (int j = 0; j < 12; ++j) for (int i = 0; i < 10; ++i) {
        double px = where(i, x, w), py = where(j, y, h), want = i - j;
        std::vector<double> kx, ky;
        int a = taps(px, w, kx), b = taps(py, h, ky);
        bool in = i >= std::floor(x - w * s / 2) && i < std::ceil(x + w * s / 2) && j >= std::floor(y - h * s / 2) && j < std::ceil(y + h * s / 2);
        if (a >= 0 && b >= 0 && in) for (int l = 0; l < 8; ++l) for (int m = 0; m < 8; ++m) want += kx[l] * ky[m] * T::at(src, a + l, b + m) / (s * s);
        double got = T::at(out, i, j);
        // the border of the covered area may move by a rounding error
        if ((std::fabs(px - std::round(px)) < 1e-5 || std::fabs(py - std::round(py)) < 1e-5) && s != 1 && s != 0.5 && s != 2) continue;
        r.check(vk::close(got, want, 2e-4, 2e-3), "resampled", [&] { return "pixel " + vk::str(i) + "," + vk::str(j) + " is " + vk::str(got) + " instead of " + vk::str(want); });
        total += got - (i - j);
        r.seeD(std::round(want * 100));
      }
      r.nontrivial(std::fabs(total) > 1e-3);
      for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) if (T::at(src, i, j) != T::at(pattern(w, h, v[4]), i, j)) r.fail("source-changed", "the image added was changed");
    });
  }
}

// The renderer for writable images, pixel by pixel: either displaced as it is now (known_findings.txt) or where it should be.
VK_SUITE(writable) {
  const double scale[] = {1, 0.5, 2, 0.7, 1.3}, pos[] = {-3, 0, 2.5, 4.25, 5, 6.8, 9.5, 14};
  const int size[][2] = {{9, 9}, {12, 9}, {5, 14}};
  for (vk::Odo o({3, 5, 8, 8, 3}); !o.done; o.inc()) {
    if (!r.thorough() && (o.v[2] + o.v[3] + o.v[4] + o.v[1]) % 3) continue;
    if (!r.next()) continue;
    auto v = o.v;
    int w = size[v[0]][0], h = size[v[0]][1];
    double s = scale[v[1]], x = pos[v[2]], y = pos[v[3]];
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " writable image (" + vk::str(v[4]) + ") added at scale " + vk::str(s) + " at " + vk::str(x) + "," + vk::str(y); });
    r.guarded("writable", [&] {
      auto src = pattern(w, h, v[4]);
      auto out = T::factory(10, 12);
      for (int j = 0; j < 12; ++j) for (int i = 0; i < 10; ++i) T::at(out, i, j) = i - j;
      { WriteableInterfaceTypePtr a = out, b = src; WT::addImageToImage(a, b, s, x, y); }
      std::string why[2]; double total = 0;
      for (int fixed = 0; fixed < 2; ++fixed) for (int j = 0; j < 12 && why[fixed].empty(); ++j) for (int i = 0; i < 10; ++i) {
        double left = x - w * s / 2, top = y - h * s / 2, px = fixed ? (i + 0.5 - left) / s - 0.5 : (i - left) / s, py = fixed ? (j + 0.5 - top) / s - 0.5 : (j - top) / s, want = i - j;
        bool in = i >= std::floor(left) && i < std::ceil(left + w * s) && j >= std::floor(top) && j < std::ceil(top + h * s);
        int a = (int)std::floor(px) - (fixed ? 3 : 4), b = (int)std::floor(py) - (fixed ? 3 : 4);
        bool whole = a >= 0 && b >= 0 && a + 7 < w && b + 7 < h;
        if (std::fabs(px - std::round(px)) < 1e-5 || std::fabs(py - std::round(py)) < 1e-5) { if (s != 1 && s != 0.5 && s != 2) continue; }
        if (fixed && in && !whole) continue;          // the border is up to the repair
        if (in && px >= 0 && py >= 0) {
          auto kx = lanczos(4, px - std::floor(px)), ky = lanczos(4, py - std::floor(py));
          for (int l = 0; l < 8; ++l) for (int m = 0; m < 8; ++m) if (a + l >= 0 && a + l < w && b + m >= 0 && b + m < h) want += kx[l] * ky[m] * T::at(src, a + l, b + m) / (s * s);
        }
        double got = T::at(out, i, j);
        if (in && (px < 0 || py < 0)) continue;      // left of the first pixel, by less than one
        if (!vk::close(got, want, 2e-4, 2e-3)) { why[fixed] = "pixel " + vk::str(i) + "," + vk::str(j) + " is " + vk::str(got) + " instead of " + vk::str(want); break; }
        total += std::fabs(got - (i - j)); r.seeD(std::round(want * 100));
      }
      r.check(why[0].empty() || why[1].empty(), "writable-pixels", [&] { return why[0]; });
      r.nontrivial(total > 1e-3);
    });
  }
}

// A compact image keeps its flux and lands centred on the requested position, whatever the scale.
VK_SUITE(centroids) {
  const double scale[] = {1, 0.5, 0.8, 1.5, 2}, frac[] = {0, 0.25, 0.5, 0.9};
  for (int sz : {41, 48}) for (vk::Odo o({5, 4, 4, 2}); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto v = o.v;
    double s = scale[v[0]], cx = 60 + frac[v[1]], cy = 55 + frac[v[2]];
    bool wr = v[3];
    r.desc([=] { return std::string(wr ? "writable" : "vector") + " image of " + vk::str(sz) + " pixels at " + vk::str(cx) + "," + vk::str(cy) + ", scale " + vk::str(s); });
    r.guarded("centroid", [&] {
      auto src = pattern(sz, sz, 1);
      auto out = T::factory(120, 110);
      if (wr) { WriteableInterfaceTypePtr a = out; WriteableInterfaceTypePtr b = src; WT::addImageToImage(a, b, s, cx, cy); }
      else T::addImageToImage(out, src, s, cx, cy);
      double f = 0, mx = 0, my = 0, f0 = std::accumulate(src->getData().begin(), src->getData().end(), 0.0);
      for (int j = 0; j < 110; ++j) for (int i = 0; i < 120; ++i) { double p = T::at(out, i, j); f += p; mx += p * (i + 0.5); my += p * (j + 0.5); }
      mx /= f; my /= f;
      r.check(vk::close(f, f0, 2e-3, 0), "flux", [&] { return "flux " + vk::str(f) + " instead of " + vk::str(f0); });
      if (!wr) r.check(std::fabs(mx - cx) < 0.025 && std::fabs(my - cy) < 0.025, "position", [&] { return "centred at " + vk::str(mx) + "," + vk::str(my); });
      else {
        // the renderer of the test image generator is displaced by half a source pixel plus half a target pixel (see known_findings.txt)
        double off = (s + 1) / 2;
        bool one = s == 0.5 && v[1] == 0 && v[2] == 0 && sz == 41;
        if (one) r.check(std::fabs(mx - cx) < 0.025 && std::fabs(my - cy) < 0.025, "writable-position", [&] { return "centred at " + vk::str(mx) + "," + vk::str(my); });
        r.check((std::fabs(mx - cx - off) < 0.025 && std::fabs(my - cy - off) < 0.025) || (std::fabs(mx - cx) < 0.025 && std::fabs(my - cy) < 0.025), "writable-displacement", [&] { return "centred at " + vk::str(mx) + "," + vk::str(my); });
      }
      r.nontrivial(); r.seeD(std::round(mx * 1e3)); r.seeD(std::round(my * 1e3)); r.seeD(s);
    });
  }
}

VK_SUITE(interpolation) {
  const int width[] = {1, 2, 4, 6, 8};
  for (int type = 0; type < 5; ++type) for (int w : {3, 8, 11}) for (int h : {4, 9}) {
    if (!r.next()) continue;
    r.desc([=] { return "interpolation " + vk::str(type) + " in " + vk::str(w) + "x" + vk::str(h); });
    auto im = pattern(w, h, 2);
    std::vector<float> px(im->getData().begin(), im->getData().end());
    for (double x = 0.55; x < w + 2; x += 0.37) for (double y = 0.55; y < h + 2; y += 0.21) {
      double got = SourceXtractor::interpolate_pix(px.data(), x, y, w, h, (SourceXtractor::interpenum)type), want = 0;
      auto k = [&](double p) -> std::vector<double> { double f = p - std::floor(p); return type == 0 ? std::vector<double>{1} : type == 1 ? std::vector<double>{1 - f, f} : lanczos(type, f); };
      int ix = type == 0 ? (int)(x - 0.50001) : (int)std::floor(x), iy = type == 0 ? (int)(y - 0.50001) : (int)std::floor(y), kw = width[type];
      ix -= kw / 2; iy -= kw / 2;
      if (ix >= 0 && iy >= 0 && ix + kw <= w && iy + kw <= h) { auto a = k(x), b = k(y); for (int j = 0; j < kw; ++j) for (int i = 0; i < kw; ++i) want += a[i] * b[j] * px[(iy + j) * w + ix + i]; }
      r.check(vk::close(got, want, 1e-4, 1e-4), "interpolated", [&] { return "value " + vk::str(got) + " at " + vk::str(x) + "," + vk::str(y) + " instead of " + vk::str(want); });
      r.seeD(std::round(want * 100));
      r.nontrivial(want != 0);
    }
  }
}

// The view of a writable image: iteration, assignment, accumulation.
VK_SUITE(writable_view) {
  for (int w = 1; w <= 4; ++w) for (int h = 1; h <= 4; ++h) for (int mode = 0; mode < 4; ++mode) {
    if (!r.next()) continue;
    r.desc([=] { return "writable view of " + vk::str(w) + "x" + vk::str(h) + ", mode " + vk::str(mode); });
    r.guarded("view", [&] {
      WriteableInterfaceTypePtr im = WT::factory(w, h);
      const WriteableInterfaceTypePtr cim = im;
      r.check((int)WT::width(im) == w && (int)WT::height(im) == h, "size", "size");
      Grid m(h, std::vector<double>(w));
      int n = 0;
      if (mode == 0) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { WT::at(im, x, y) = ++n; m[y][x] = n; }
      else {
        auto e = WT::end(im);
        for (auto it = WT::begin(im); it != e; ++it) { r.require(n < w * h, "iteration", [&] { return std::string("iteration past the last pixel"); }); m[n / w][n % w] = 10 + n; *it = 10 + n; ++n; if ((float)*it != 9 + n) r.fail("read-back", "a pixel just written reads differently"); }
        r.check(n == w * h, "iteration", [&] { return vk::str(n) + " pixels visited"; });
      }
      if (mode >= 2) for (int k = 0; k < mode; ++k) for (int y = 0; y < h; ++y) for (int x = w; x--;) { auto a = WT::at(im, x, y); auto b = WT::at(im, (x + k) % w, y); b += 3; a += 2; m[y][(x + k) % w] += 3; m[y][x] += 2; r.transition(); }
      if (mode == 3) for (auto it = WT::begin(im); it != WT::end(im); ++it) *it += 1;
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double want = m[y][x] + (mode == 3); r.check(WT::at(cim, x, y) == want && (float)WT::at(im, x, y) == want, "pixel", [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " is " + vk::str((double)WT::at(cim, x, y)) + " instead of " + vk::str(want); }); r.seeD(want); }
      r.nontrivial(w * h > 1);
    });
  }
}

typedef std::shared_ptr<ManualParameter> MP;
static MP P(double x) { return std::make_shared<ManualParameter>(x); }
static std::unique_ptr<ModelComponent> component(int k) {
  if (k == 0) return std::unique_ptr<ModelComponent>(new SersicModelComponent(std::unique_ptr<SharpRegionManager>(new OnlySmooth), P(5), P(1), P(0.6)));
  if (k == 1) return std::unique_ptr<ModelComponent>(new SersicModelComponent(std::unique_ptr<SharpRegionManager>(new OldSharp), P(30), P(4), P(4)));
  if (k == 2) return std::unique_ptr<ModelComponent>(new SersicModelComponent(std::unique_ptr<SharpRegionManager>(new AutoSharp), P(9), P(1), P(1.678)));
  return std::unique_ptr<ModelComponent>(new FlattenedMoffatComponent(P(3), P(2), P(2), P(1)));
}
// Pixels as defined: the flux of the sharp samples that fall in them when they are inside the sharp region, value at the centre times area otherwise.
static Grid definition(ModelComponent& c, double s, int w, int h) {
  c.updateRasterizationInfo(s, std::sqrt(w * w + h * h) / 2.);
  Grid g(h, std::vector<double>(w));
  for (auto& p : c.getSharpSampling()) {
    int x = std::floor(std::get<0>(p) / s + w / 2.), y = std::floor(std::get<1>(p) / s + h / 2.);
    if (x >= 0 && y >= 0 && x < w && y < h) g[y][x] += std::get<2>(p);
  }
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    double cx = (x - (w - 1) / 2.) * s, cy = (y - (h - 1) / 2.) * s, e = s / 2;
    if (!(c.insideSharpRegion(cx - e, cy - e) && c.insideSharpRegion(cx + e, cy - e) && c.insideSharpRegion(cx - e, cy + e) && c.insideSharpRegion(cx + e, cy + e))) g[y][x] = c.getValue(cx, cy) * s * s;
  }
  return g;
}
VK_SUITE(extended_models) {
  const double sc[] = {1, 2.5}, sy[] = {1, 0.6}, rot[] = {0, 0.7}, px[] = {1, 0.4, 2};
  const int dim[][2] = {{9, 9}, {15, 7}, {3, 5}, {1, 1}};
  std::vector<std::vector<int>> lists;
  for (int a = 0; a < 4; ++a) { lists.push_back({a}); for (int b = a; b < 4; ++b) lists.push_back({a, b}); }
  lists.push_back({}); lists.push_back({0, 1, 3});
  for (auto& list : lists) for (vk::Odo o({2, 2, 2, 3, 4, 3}); !o.done; o.inc()) {
    if (!r.thorough() && list.size() > 1 && (o.v[0] + o.v[1] + o.v[2] + o.v[3] + o.v[4] + o.v[5]) % 3) continue;
    if (!r.next()) continue;
    auto v = o.v;
    r.desc([=] { return "components " + vk::strv(list) + " in the configuration " + vk::strv(v); });
    r.guarded("extended", [&] {
      auto xs = P(1), ys = P(1), an = P(0), x = P(3), y = P(4);
      auto make = [&] { std::vector<std::unique_ptr<ModelComponent>> l; for (int k : list) l.push_back(component(k)); return l; };
      std::unique_ptr<ExtendedModel<Img>> m;
      auto tr = std::make_tuple(1.5, 0.25, -0.5, 1.0);
      if (v[5] == 0) m.reset(new ExtendedModel<Img>(make(), xs, ys, an, 20, 30, x, y));
      else if (v[5] == 1) m.reset(new TransformedModel<Img>(make(), xs, ys, an, 20, 30, x, y));
      else m.reset(new TransformedModel<Img>(make(), xs, ys, an, 20, 30, x, y, tr));
      xs->setValue(sc[v[0]]); ys->setValue(sc[v[0]] * sy[v[1]]); an->setValue(rot[v[2]]); x->setValue(5.5);
      r.check(m->getWidth() == 20 && m->getHeight() == 30 && m->getX() == 5.5 && m->getY() == 4, "geometry", "size or position of the model");
      int w = dim[v[4]][0], h = dim[v[4]][1];
      double s = px[v[3]];
      Grid want(h, std::vector<double>(w));
      std::vector<std::unique_ptr<ModelComponent>> ref;
      for (auto& c : make()) {
        std::unique_ptr<ModelComponent> a(new ScaledModelComponent(std::move(c), xs, ys));
        a.reset(new RotatedModelComponent(std::move(a), an));
        if (v[5] == 2) a.reset(new TransformModelComponent(std::move(a), tr));
        ref.push_back(std::move(a));
      }
      for (auto& c : ref) { auto g = definition(*c, s, w, h); for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) want[j][i] += g[j][i]; }
      for (int round = 0; round < 2; ++round) {
        auto im = m->getRasterizedImage(s, w, h);
        r.require((int)T::width(im) == w && (int)T::height(im) == h, "raster-size", [&] { return std::string("size of the raster"); });
        for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) {
          r.check(vk::close(T::at(im, i, j), want[j][i], 1e-4, 1e-6), "raster", [&] { return "pixel " + vk::str(i) + "," + vk::str(j) + " is " + vk::str((double)T::at(im, i, j)) + " instead of " + vk::str(want[j][i]); });
          r.seeD(want[j][i]);
        }
      }
      double val = 0;
      for (auto& c : ref) val += c->getValue(1.25, -0.5);
      r.check(vk::close(m->getValue(6.75, 3.5), val, 1e-9, 1e-12), "model-value", "value of the model at a point");
      for (int bad = 0; bad < 3; ++bad) { bool threw = false; try { m->getRasterizedImage(s, bad == 1 ? w : w + 1, bad == 0 ? h : h + 1); } catch (const Elements::Exception&) { threw = true; } r.check(threw, "even-size", "an even raster size was accepted"); }
      r.nontrivial(!list.empty());
    });
  }
}

// Compact models: pixel values follow the profile, the total is the flux parameter.
VK_SUITE(compact_models) {
  const double rot[] = {0, 0.6, 2.2}, asp[] = {1, 0.4}, px[] = {1, 0.5}, idx[] = {0, 1, 4};   // 0: exponential
  const int dim[][2] = {{41, 41}, {51, 31}, {5, 5}};
  const double tr[][4] = {{1, 0, 0, 1}, {1.4, 0.3, -0.2, 0.9}, {0, -1, 1, 0}};
  for (vk::Odo o({3, 2, 2, 3, 3, 3}); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto v = o.v;
    r.desc([=] { return "compact model: index " + vk::str(idx[v[3]]) + ", rotation " + vk::str(rot[v[0]]) + ", aspect " + vk::str(asp[v[1]]) + ", pixel " + vk::str(px[v[2]]) + ", size " + vk::str(v[4]) + ", transform " + vk::str(v[5]); });
    r.guarded("compact", [&] {
      double n = idx[v[3]] ? idx[v[3]] : 1, k = n == 1 ? 0.5 : 4, flux = 250, s = px[v[2]];
      int w = dim[v[4]][0], h = dim[v[4]][1];
      auto& t = tr[v[5]];
      auto transform = std::make_tuple(t[0], t[1], t[2], t[3]);
      auto i0 = P(1), kk = P(1), nn = P(1), xs = P(1), ys = P(1), an = P(0), x = P(1), y = P(2), f = P(1);
      std::unique_ptr<ExtendedModel<Img>> m;
      if (idx[v[3]]) m.reset(new CompactSersicModel<Img>(3, i0, kk, nn, xs, ys, an, 20, 30, x, y, f, transform));
      else m.reset(new CompactExponentialModel<Img>(2, i0, kk, xs, ys, an, 20, 30, x, y, f, transform));
      i0->setValue(7); kk->setValue(k); nn->setValue(n); xs->setValue(1); ys->setValue(asp[v[1]]); an->setValue(rot[v[0]]); f->setValue(flux);
      // sky coordinates -> profile coordinates
      double d = t[0] * t[3] - t[1] * t[2], c = std::cos(rot[v[0]]), sn = std::sin(rot[v[0]]);
      auto back = [&](double X, double Y, double& a, double& b) {
        double u = (X * t[3] - Y * t[2]) / d, q = (-X * t[1] + Y * t[0]) / d;
        a = u * c + q * sn; b = (-u * sn + q * c) / asp[v[1]];
      };
      auto prof = [&](double X, double Y) { double a, b; back(X, Y, a, b); return 7 * std::exp(-k * std::pow(std::hypot(a, b), 1 / n)) / std::fabs(d); };
      for (double X = -3; X <= 3; X += 1.5) for (double Y = -2; Y <= 2; Y += 0.8) r.check(vk::close(m->getValue(X, Y), prof(X, Y), 1e-4, 1e-7), "compact-value", [&] { return "value " + vk::str(m->getValue(X, Y)) + " at " + vk::str(X) + "," + vk::str(Y) + " instead of " + vk::str(prof(X, Y)); });
      // the profile is cut at the largest ellipse inside 95% of the raster
      double rmax2 = 1e300;
      for (int side = 0; side < 2; ++side) {
        double X = w * 0.95 / 2 * s, Y = h * 0.95 / 2 * s, ax, ay, bx, by;
        back(X, Y, ax, ay); if (side) back(X, -Y, bx, by); else back(-X, Y, bx, by);
        double cr = (bx - ax) * ay - (by - ay) * ax;
        rmax2 = std::min(rmax2, cr * cr / ((bx - ax) * (bx - ax) + (by - ay) * (by - ay)));
      }
      auto cut = [&](double X, double Y) { double a, b; back(X, Y, a, b); return a * a + b * b < rmax2 ? prof(X, Y) : 0; };
      auto im = m->getRasterizedImage(s, w, h);
      r.require((int)T::width(im) == w + 8 && (int)T::height(im) == h + 8, "raster-size", [&] { return std::string("size of the raster"); });
      double total = 0, wt = 0;
      Grid want(h + 8, std::vector<double>(w + 8));
      std::vector<std::vector<char>> edge(h + 8, std::vector<char>(w + 8));
      for (int j = 0; j < h + 8; ++j) for (int i = 0; i < w + 8; ++i) {
        total += T::at(im, i, j);
        int dx = i - 4 - w / 2, dy = j - 4 - h / 2;
        if (i < 4 || j < 4 || i >= w + 4 || j >= h + 4) continue;
        double rad = idx[v[3]] ? 3 : 2;
        if (dx * dx + dy * dy < rad * rad) { double a = 0; for (int p = 0; p < 8; ++p) for (int q = 0; q < 8; ++q) a += cut((dx + (p + 0.5) / 8 - 0.5) * s, (dy + (q + 0.5) / 8 - 0.5) * s); want[j][i] = a / 64; }
        else want[j][i] = cut(dx * s, dy * s);
        bool in = cut(dx * s, dy * s) > 0;
        for (double ex : {-0.51, 0.51}) for (double ey : {-0.51, 0.51}) if ((cut((dx + ex) * s, (dy + ey) * s) > 0) != in) edge[j][i] = 1;
        wt += want[j][i];
      }
      r.check(vk::close(total, flux, 1e-3, 0), "compact-flux", [&] { return "total flux " + vk::str(total) + " instead of " + vk::str(flux); });
      double peak = want[4 + h / 2][4 + w / 2] / wt * flux;
      for (int j = 0; j < h + 8; ++j) for (int i = 0; i < w + 8; ++i) if (!edge[j][i]) {
        double e = want[j][i] / wt * flux, got = T::at(im, i, j);
        r.check(std::fabs(got - e) <= 0.12 * e + 0.02 * peak * (n > 2) + 1e-6 * peak, "compact-pixel", [&] { return "pixel " + vk::str(i) + "," + vk::str(j) + " is " + vk::str(got) + " instead of about " + vk::str(e); });
        if (i >= 4 && j >= 4 && i < w + 4 && j < h + 4) { double o = T::at(im, w + 7 - i, h + 7 - j); r.check(std::fabs(got - o) <= 1e-3 * std::fabs(got) + 1e-6, "compact-symmetry", [&] { return "opposite pixels are " + vk::str(got) + " and " + vk::str(o); }); }
        if (want[j][i] == 0) r.check(got == 0, "compact-border", "flux outside of the profile");
        r.seeD(std::round(e * 1e3));
      }
      for (int bad = 0; bad < 3; ++bad) { bool threw = false; try { m->getRasterizedImage(s, bad == 1 ? w : w + 1, bad == 0 ? h : h + 1); } catch (const Elements::Exception&) { threw = true; } r.check(threw, "even-size", "an even raster size was accepted"); }
      r.nontrivial(w > 5);
    });
  }
}

// Frames: every list of models gives the sum of its models alone, on top of what the image held; parameters are followed.
struct Scene {
  std::vector<MP> p;
  std::vector<ConstantModel> constants; std::vector<PointModel> points; std::vector<std::shared_ptr<ExtendedModel<Img>>> ext;
  void add(int k, int i) {
    if (k == 0) { p.push_back(P(1.5 + i)); constants.emplace_back(p.back()); }
    else {
      auto x = P(12.5 + 5 * i), y = P(20 - 4.25 * i), f = P(100 + 30 * i);
      p.insert(p.end(), {x, y, f});
      if (k == 1) points.emplace_back(x, y, f);
      else ext.push_back(std::make_shared<CompactExponentialModel<Img>>(2., P(1), P(0.8), P(1), P(0.5 + 0.1 * i), P(0.3 * i), 9 + 4. * i, 13, x, y, f, std::make_tuple(1., 0., 0., 1.)));
    }
  }
};
VK_SUITE(frames) {
  using SourceXtractor::ImagePsf; using SourceXtractor::DownSampledImagePsf;
  int len = r.thorough() ? 4 : 3;
  for (int l = 0; l <= len; ++l) for (vk::Odo o(std::vector<int>(l, 3)); !o.done; o.inc()) for (int psfk = 0; psfk < 4; ++psfk) {
    if (!r.next()) continue;
    auto v = o.v;
    r.desc([=] { return "frame of models " + vk::strv(v) + " (0 constant, 1 point, 2 extended), PSF " + vk::str(psfk); });
    r.guarded("frame", [&] {
      const int W = 34, H = 30;
      auto kernel = pattern(21, 21, 1);
      double ks = std::accumulate(kernel->getData().begin(), kernel->getData().end(), 0.0);
      for (auto& x : kernel->getData()) x /= ks;
      double ps = psfk == 2 ? 0.5 : 1;
      auto frame = [&](Scene& s, auto use) {
        if (psfk == 0) { FrameModel<NullPsf<Img>, Img> f(1, W, H, std::move(s.constants), std::move(s.points), s.ext); use(f); }
        else if (psfk == 3) { FrameModel<DownSampledImagePsf, Img> f(1, W, H, std::move(s.constants), std::move(s.points), s.ext, DownSampledImagePsf(1, kernel, 0.7)); use(f); }
        else { FrameModel<ImagePsf, Img> f(1, W, H, std::move(s.constants), std::move(s.points), s.ext, ImagePsf(ps, kernel)); use(f); }
      };
      auto grab = [](const Img& im) { return std::vector<double>(im->getData().begin(), im->getData().end()); };
      auto alone = [&](int k, int i, int change) {
        Scene s; s.add(k, i);
        if (change) { s.p.back()->setValue(s.p.back()->getValue() * 2); if (k) s.p[0]->setValue(15); }
        std::vector<double> out;
        frame(s, [&](auto& f) { out = grab(f.getImage()); });
        return out;
      };
      Scene s;
      std::vector<int> first;
      for (int i = 0; i < l; ++i) { first.push_back(s.p.size()); s.add(v[i], i); }
      auto params = s.p;
      std::vector<double> sum(W * H);
      double flux = 0, extflux = 0;
      for (int i = 0; i < l; ++i) { auto a = alone(v[i], i, 0); for (int q = 0; q < W * H; ++q) sum[q] += a[q]; if (v[i]) (v[i] == 1 ? flux : extflux) += 100 + 30 * i; }
      frame(s, [&](auto& f) {
        r.check(f.size() == (size_t)W * H, "frame-size", "number of pixels");
        auto same = [&](const std::vector<double>& a, const std::vector<double>& b, const char* key, double off = 0) {
          r.require(a.size() == b.size(), key, [&] { return std::string("sizes"); });
          for (size_t q = 0; q < a.size(); ++q) r.check(vk::close(a[q], b[q] + off, 1e-4, 1e-4), key, [&] { return "pixel " + vk::str(q % W) + "," + vk::str(q / W) + " is " + vk::str(a[q]) + " instead of " + vk::str(b[q] + off); });
        };
        for (int round = 0; round < 2; ++round) same(grab(f.getImage()), sum, "frame-sum");
        auto im = T::factory(W, H);
        for (auto& x : im->getData()) x = 4;
        f.rasterToImage(im);
        same(grab(im), sum, "frame-accumulates", 4);
        std::vector<double> it;
        for (auto b = f.begin(), e = f.end(); b != e; ++b) it.push_back(*b);
        same(it, sum, "frame-iteration");
        for (int i = 0; i < l; ++i) {                   // change one model: the image follows
          auto before = alone(v[i], i, 0), after = alone(v[i], i, 1);
          size_t lastp = i + 1 < l ? first[i + 1] : params.size();
          params[lastp - 1]->setValue(params[lastp - 1]->getValue() * 2);
          if (v[i]) params[first[i]]->setValue(15);
          for (int q = 0; q < W * H; ++q) sum[q] += after[q] - before[q];
          same(grab(f.getImage()), sum, "frame-follows");
          r.transition();
        }
        for (double x : sum) r.seeD(std::round(x * 1e3));
      });
      if (psfk && l == 1 && v[0]) {
        auto a = alone(v[0], 0, 0);
        double t = 0, mx = 0, my = 0;
        for (int q = 0; q < W * H; ++q) { t += a[q]; mx += a[q] * (q % W + 0.5); my += a[q] * (q / W + 0.5); }
        r.check(vk::close(t, 100, 0.03, 0) && std::fabs(mx / t - 12.5) < 0.1 && std::fabs(my / t - 20) < 0.1, "frame-flux", [&] { return "a model of flux 100 at 12.5,20 is rendered with the flux " + vk::str(t) + " at " + vk::str(mx / t) + "," + vk::str(my / t); });
      }
      if (psfk && l == 1 && v[0] == 1) {                // a point has the width of the PSF on the sky
        auto a = alone(1, 0, 0);
        double t = 0, vx = 0, vy = 0;
        for (int q = 0; q < W * H; ++q) { t += a[q]; vx += a[q] * std::pow(q % W - 12, 2); vy += a[q] * std::pow(q / W - 19.5, 2); }
        r.check(vk::close(vx / t, 4.41 * ps * ps, 0.06, 0.03) && vk::close(vy / t, 2.94 * ps * ps, 0.06, 0.03), "psf-width", [&] { return "variances " + vk::str(vx / t) + "," + vk::str(vy / t) + " of a point source instead of " + vk::str(4.41 * ps * ps) + "," + vk::str(2.94 * ps * ps); });
      }
      r.nontrivial(l > 1);
    });
  }
}
// Downsampled PSFs: size, pixel scale and flux for every factor; a missing PSF does nothing.
VK_SUITE(downsampled_psf) {
  using SourceXtractor::DownSampledImagePsf;
  for (int n : {1, 3, 9, 21}) for (double d : {1.0, 0.9, 0.7, 0.5, 1.5}) for (bool norm : {true, false}) {
    if (!r.next()) continue;
    r.desc([=] { return "PSF of " + vk::str(n) + " pixels, factor " + vk::str(d) + (norm ? ", normalised" : ""); });
    r.guarded("downsampled", [&] {
      auto k = pattern(n, n, 1);
      DownSampledImagePsf p(0.4, k, d, norm);
      double f0 = std::accumulate(k->getData().begin(), k->getData().end(), 0.0);
      int want = d == 1 ? n : (int)(n * d) | 1;
      r.check((int)p.getSize() == want, "psf-size", [&] { return "size " + vk::str(p.getSize()); });
      r.check(vk::close(p.getPixelScale(), 0.4 / d, 1e-12, 0), "psf-scale", [&] { return "pixel scale " + vk::str(p.getPixelScale()); });
      auto s = p.getScaledKernel(3);
      double f = std::accumulate(s->getData().begin(), s->getData().end(), 0.0);
      if (want > 8 || d == 1) r.check(vk::close(f, 3 * (d == 1 || !norm ? f0 : 1), 1e-3, 0), "psf-flux", [&] { return "flux " + vk::str(f); });
      r.nontrivial(n > 1); r.seeD(f);
    });
  }
  for (double d : {1.0, 0.5}) {
    if (!r.next()) continue;
    r.desc([=] { return std::string("no PSF"); });
    r.guarded("no-psf", [&] {
      DownSampledImagePsf p(0.4, nullptr, d);
      auto im = pattern(5, 5, 2), ref = pattern(5, 5, 2);
      p.convolve(im);
      auto c = p.prepare(im);
      p.convolve(im, c);
      r.check(p.getSize() == 1 && p.getPixelScale() == 1 && im->getData() == ref->getData(), "no-psf", "a missing PSF changes the image");
    });
  }
  for (int w = 1; w <= 4; ++w) for (int h = 1; h <= 4; ++h) if (w != h || w % 2 == 0) {
    if (!r.next()) continue;
    r.desc([=] { return "PSF of " + vk::str(w) + "x" + vk::str(h); });
    bool threw = false;
    try { DownSampledImagePsf p(1, pattern(w, h, 0), 0.5); } catch (const Elements::Exception&) { threw = true; }
    bool threw2 = false;
    try { SourceXtractor::ImagePsf p(1, pattern(w, h, 0)); } catch (const Elements::Exception&) { threw2 = true; }
    r.check(threw && threw2, "psf-shape", "a PSF that is not square and odd was accepted");
  }
}
