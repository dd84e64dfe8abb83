// Background estimation: every stage against its definition, then the whole analyzer.
#include "vkit.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ImageSource.h"
#include "SEFramework/Image/ScaledImageSource.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEImplementation/Background/SE/ImageMode.h"
#include "SEImplementation/Background/SE/KappaSigmaBinning.h"
#include "SEImplementation/Background/SE/MedianFilter.h"
#include "SEImplementation/Background/SE/ReplaceUndefImage.h"
#include "SEImplementation/Background/SE/SEBackgroundLevelAnalyzer.h"
#include "SEImplementation/Background/SimpleBackgroundAnalyzer.h"
using namespace SourceXtractor;
typedef VectorImage<SeFloat> V;
typedef std::vector<float> F;
static const float INVALID = std::numeric_limits<float>::lowest();

static double medianOf(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2;
}
struct Img {
  int w, h; F d;
  Img(int w_, int h_) : w(w_), h(h_), d((size_t)w_ * h_) {}
  float& at(int x, int y) { return d[(size_t)y * w + x]; }
  float at(int x, int y) const { return d[(size_t)y * w + x]; }
  std::shared_ptr<V> img() const { return V::create(w, h, d); }
};
static Img noise(int w, int h, uint64_t seed, int range) {
  Img i(w, h);
  for (int k = 0; k < w * h; ++k) i.d[k] = (float)(vk::mix(seed * 7919 + k) % range);
  return i;
}

// --- the oracles -------------------------------------------------------------------------------------------------
static Img medianOracle(const Img& a, const Img& ref, int bw, int bh, double thr, bool of_var, const Img& var) {
  Img o(a.w, a.h);
  for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) {
    int hw = std::min(bw / 2, std::min(x, a.w - 1 - x)), hh = std::min(bh / 2, std::min(y, a.h - 1 - y));
    std::vector<double> s, sv;
    for (int j = -hh; j <= hh; ++j) for (int i = -hw; i <= hw; ++i) { s.push_back(ref.at(x + i, y + j)); sv.push_back(var.at(x + i, y + j)); }
    double m = medianOf(s);
    bool replaced = std::abs(m - ref.at(x, y)) >= thr;
    o.at(x, y) = of_var ? (replaced ? medianOf(sv) : var.at(x, y)) : (replaced ? m : ref.at(x, y));
  }
  return o;
}
static Img replaceOracle(const Img& a, float inv) {
  Img o(a.w, a.h);
  for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) {
    if (a.at(x, y) != inv) { o.at(x, y) = a.at(x, y); continue; }
    int best = 1 << 30, n = 0; double sum = 0;
    for (int j = 0; j < a.h; ++j) for (int i = 0; i < a.w; ++i) if (a.at(i, j) != inv) {
      int d = (i - x) * (i - x) + (j - y) * (j - y);
      if (d < best) { best = d; n = 0; sum = 0; }
      if (d == best) { ++n; sum += a.at(i, j); }
    }
    o.at(x, y) = n ? sum / n : 0;
  }
  return o;
}
struct Bins { double scale, zero; size_t n; ssize_t index(double v) const { return (ssize_t)(v / scale + (0.49999 - zero / scale)); } double edge(size_t e) const { return ((double)e - 0.5) * scale + zero; } double centre(size_t i) const { return i * scale + zero; } };
static void stat(const std::vector<double>& v, double& mean, double& sigma) {
  double s = 0, q = 0;
  for (double x : v) { s += x; q += x * x; }
  mean = s / v.size();
  sigma = q / v.size() - mean * mean;
  sigma = sigma > std::numeric_limits<double>::epsilon() ? std::sqrt(sigma) : 0;
}
static Bins binning(const std::vector<double>& v, double k1, double k2, size_t min_pixels) {
  double mean, sigma;
  stat(v, mean, sigma);
  double cut = sigma == 0 ? std::abs(v[0] - mean) : sigma * k1;
  std::vector<double> in;
  for (double x : v) if (x >= mean - cut && x <= mean + cut) in.push_back(x);
  stat(in, mean, sigma);
  Bins b;
  b.n = std::min<size_t>((size_t)(in.size() * std::sqrt(2 / M_PI) * k2 / min_pixels + 1), 4096);
  b.scale = 2 * k2 * sigma / b.n;
  if (b.scale == 0) b.scale = 1;
  b.zero = mean - k2 * sigma;
  return b;
}
// The SExtractor 2 mode estimator on the histogram
static void guess(const std::vector<double>& v, float& mode, float& sig) {
  Bins b = binning(v, 2, 5, 4);
  std::vector<long> c(b.n, 0);
  for (double x : v) { ssize_t i = b.index(x); if (i >= 0 && i < (ssize_t)b.n) ++c[i]; }
  ssize_t lo = 0, hi = (ssize_t)b.n - 1;
  auto stats = [&](float& mean, float& median, float& sigma) {
    double tot = 0, m = 0, s = 0, low = 0, high = 0;
    ssize_t l = lo, h = hi;
    for (ssize_t i = lo; i <= hi; ++i) {
      if (low < high) low += c[l++]; else high += c[h--];
      double x = b.centre(i);
      tot += c[i]; m += c[i] * x; s += c[i] * x * x;
    }
    if (tot <= 0) { mean = median = sigma = 0; return; }
    m /= tot; s = s / tot - m * m;
    mean = m; sigma = s > 0 ? std::sqrt(s) : 0;
    double med = b.centre(lo);
    if (h >= lo) {
      double cl = l < (ssize_t)b.n ? c[l] : 0, ch = c[h], k = std::max(cl, ch);
      med = b.edge(h + 1) + (k > 0 ? (high - low) / (2 * k) * (b.edge(h + 1) - b.edge(h)) : 0);
    }
    median = med;
  };
  float mean, median, sigma, prev;
  double atol = (b.edge(1) - b.edge(0)) * 0.1;
  stats(mean, median, sigma);
  prev = sigma * 10;
  for (int it = 0; it < 100 && sigma > atol && std::abs(sigma / prev - 1.0) > (float)1e-4; ++it) {
    ssize_t a = b.index(median - sigma * 3), z = b.index(median + sigma * 3), last = (ssize_t)b.n - 1;
    lo = a < 0 ? 0 : std::min(a, last);
    hi = z < lo ? lo : std::min(z, last);
    prev = sigma;
    stats(mean, median, sigma);
  }
  if (sigma == 0) mode = mean;
  else if (std::abs((mean - median) / sigma) < 0.3) mode = 2.5 * median - 1.5 * mean;
  else mode = median;
  sig = sigma;
}
static void cells(const Img& a, int cw, int ch, float inv, Img& mode, Img& sigma) {
  mode = sigma = Img((a.w + cw - 1) / cw, (a.h + ch - 1) / ch);
  for (int cy = 0; cy < mode.h; ++cy) for (int cx = 0; cx < mode.w; ++cx) {
    std::vector<double> v; int n = 0;
    for (int y = cy * ch; y < std::min(a.h, (cy + 1) * ch); ++y) for (int x = cx * cw; x < std::min(a.w, (cx + 1) * cw); ++x) { ++n; if (a.at(x, y) != inv) v.push_back(a.at(x, y)); }
    if (v.size() * 2 < (size_t)n) mode.at(cx, cy) = sigma.at(cx, cy) = inv;
    else guess(v, mode.at(cx, cy), sigma.at(cx, cy));
  }
}
static void same(vk::Run& r, const char* key, const Image<SeFloat>& got, const Img& want, double rel = 1e-5, double abs = 1e-5) {
  r.require(got.getWidth() == want.w && got.getHeight() == want.h, key, [&] { return "image of " + vk::str(got.getWidth()) + "x" + vk::str(got.getHeight()) + " instead of " + vk::str(want.w) + "x" + vk::str(want.h); });
  auto c = got.getChunk(0, 0, want.w, want.h);
  for (int y = 0; y < want.h; ++y) for (int x = 0; x < want.w; ++x) {
    double g = c->getValue(x, y), w = want.at(x, y);
    r.require(vk::close(g, w, rel, abs), key, [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " is " + vk::str(g) + " instead of " + vk::str(w); });
    r.seeD(g);
  }
}

VK_SUITE(median_filter) {
  const int boxes[] = {1, 2, 3, 4, 5, 7, 9};
  for (int w = 1; w <= 5; ++w) for (int h = 1; h <= 5; ++h) for (int bw : boxes) for (int bh : boxes) for (int t = 0; t < 3; ++t) {
    if (!r.next()) continue;
    double thr = t == 0 ? 0 : (t == 1 ? 1.5 : 4);
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image, box " + vk::str(bw) + "x" + vk::str(bh) + ", threshold " + vk::str(thr); });
    r.guarded("median-filter", [&] {
      for (int s = 0; s < 4; ++s) {
        Img a = noise(w, h, s + 11, 9), v = noise(w, h, s + 31, 7);
        auto out = s % 2 ? MedianFilter<SeFloat>(bw, bh)(*a.img(), *v.img(), thr) : MedianFilter<SeFloat>(std::array<int, 2>{{bw, bh}})(*a.img(), *v.img(), thr);
        same(r, "median-filter", *out.first, medianOracle(a, a, bw, bh, thr, false, v));
        same(r, "median-filter-variance", *out.second, medianOracle(a, a, bw, bh, thr, true, v));
      }
      if (w * h > 1) r.nontrivial();
    });
  }
  // all small images
  for (int w = 1; w <= 3; ++w) for (int h = 1; h <= 2; ++h) for (vk::Odo o(std::vector<int>(w * h, 4)); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto val = o.v;
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image " + vk::strv(val); });
    r.guarded("median-filter", [&] {
      Img a(w, h), v(w, h);
      for (int k = 0; k < w * h; ++k) { a.d[k] = val[k] * val[k] - 3; v.d[k] = (val[k] * 5 + k) % 7; }
      for (int b = 1; b <= 5; b += 2) for (int t = 0; t < 3; ++t) {
        auto out = t == 0 ? MedianFilter<SeFloat>(b, b)(*a.img(), *v.img()) : MedianFilter<SeFloat>(b, b)(*a.img(), *v.img(), t * 2);
        same(r, "median-filter", *out.first, medianOracle(a, a, b, b, t * 2, false, v));
        same(r, "median-filter-variance", *out.second, medianOracle(a, a, b, b, t * 2, true, v));
      }
      if (w * h > 1) r.nontrivial();
    });
  }
}
VK_SUITE(replace_undefined) {
  for (int w = 1; w <= 4; ++w) for (int h = 1; h <= 3; ++h) {
    if (w * h > (r.thorough() ? 12 : 9)) continue;
    for (vk::Odo o(std::vector<int>(w * h, 3)); !o.done; o.inc()) {
      if (!r.next()) continue;
      auto val = o.v;
      r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image " + vk::strv(val) + " (0: undefined)"; });
      r.guarded("replace-undefined", [&] {
        Img a(w, h);
        bool some = false, none = true;
        for (int k = 0; k < w * h; ++k) { a.d[k] = val[k] ? (val[k] == 1 ? -2.5f : k + 1.f) : INVALID; some |= !val[k]; none &= !val[k]; }
        same(r, "replace-undefined", *ReplaceUndef<SeFloat>(*a.img(), INVALID), replaceOracle(a, INVALID));
        for (auto& v : a.d) if (v == INVALID) v = -99;
        same(r, "replace-undefined", *ReplaceUndef<SeFloat>(*a.img(), -99), replaceOracle(a, -99));
        if (some && !none) r.nontrivial();
      });
    }
  }
  // farther than one ring, up to 9 x 9
  for (int w = 1; w <= 9; ++w) for (int h = 1; h <= 9; ++h) for (int s = 0; s < 6; ++s) {
    if (!r.next()) continue;
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image with isolated values, pattern " + vk::str(s); });
    r.guarded("replace-undefined", [&] {
      Img a(w, h);
      for (int k = 0; k < w * h; ++k) a.d[k] = vk::mix(k * 31 + s) % (2 + s * 6) ? INVALID : 1.f + k;
      same(r, "replace-undefined", *ReplaceUndef<SeFloat>(*a.img(), INVALID), replaceOracle(a, INVALID));
      if (w * h > 2) r.nontrivial();
    });
  }
}
VK_SUITE(kappa_sigma_binning) {
  // every multiset sequence of up to 6 values out of 5, and longer runs
  const double vals[] = {0, 1, 2.5, -4, 40};
  auto one = [&](const std::vector<double>& v, float k1, float k2, size_t mp) {
    KappaSigmaBinning<double> b(k1, k2, mp);
    b.computeBins(v.begin(), v.end());
    Bins w = binning(v, k1, k2, mp);
    r.require(b.getBinCount() == w.n, "bin-count", [&] { return vk::str(b.getBinCount()) + " bins instead of " + vk::str(w.n) + " for " + vk::str(v.size()) + " values"; });
    for (size_t e = 0; e <= w.n; ++e) r.require(vk::close(b.getEdge(e), w.edge(e), 1e-6, 1e-6 * (1 + std::abs(w.zero))), "bin-edges", [&] { return "edge " + vk::str(e) + " is " + vk::str(b.getEdge(e)) + " instead of " + vk::str(w.edge(e)); });
    for (size_t e = 0; e < w.n; ++e) {
      r.require(vk::close(b.getBin(e), w.centre(e), 1e-6, 1e-6 * (1 + std::abs(w.zero))), "bin-centre", [&] { return "bin " + vk::str(e) + " is centred at " + vk::str(b.getBin(e)) + " instead of " + vk::str(w.centre(e)); });
      // a value well within a bin belongs to it
      for (double f : {0.1, 0.5, 0.9}) {
        double x = w.edge(e) + f * w.scale;
        r.require(b.getBinIndex(x) == (ssize_t)e, "bin-index", [&] { return vk::str(x) + " is put in bin " + vk::str(b.getBinIndex(x)) + " instead of " + vk::str(e); });
      }
    }
    r.seeD(w.scale);
  };
  for (int l = 1; l <= (r.thorough() ? 7 : 6); ++l) for (vk::Odo o(std::vector<int>(l, 5)); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto idx = o.v;
    r.desc([=] { return "values " + vk::strv(idx); });
    r.guarded("binning", [&] {
      std::vector<double> v;
      for (int i : idx) v.push_back(vals[i]);
      one(v, 2, 5, 4); one(v, 1, 3, 1);
      if (l > 1) r.nontrivial();
    });
  }
  for (int n : {10, 100, 1000, 4000, 5000, 20000}) for (int mp : {1, 4, 7}) {
    if (!r.next()) continue;
    r.desc([=] { return vk::str(n) + " values, " + vk::str(mp) + " mode pixels"; });
    r.guarded("binning", [&] {
      std::vector<double> v;
      for (int i = 0; i < n; ++i) v.push_back((double)(vk::mix(i) % 1000) / 7 - 30 + (i % 50 ? 0 : 500));
      one(v, 2, 5, mp); one(v, 3, 4, mp);
      r.nontrivial();
    });
  }
}
VK_SUITE(cell_modes) {
  // the contents of one cell: every assignment of up to 6 pixels
  const float vals[] = {INVALID, 0, 1, 3};
  for (int l = 1; l <= (r.thorough() ? 8 : 7); ++l) for (vk::Odo o(std::vector<int>(l, 4)); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto idx = o.v;
    r.desc([=] { return "one cell with the pixels " + vk::strv(idx) + " (0: invalid)"; });
    r.guarded("cell-mode", [&] {
      Img a(l, 1), m(1, 1), s(1, 1);
      int valid = 0;
      for (int i = 0; i < l; ++i) { a.d[i] = vals[idx[i]]; valid += idx[i] > 0; }
      ImageMode<SeFloat> im(a.img(), nullptr, l, 1, INVALID);
      cells(a, l, 1, INVALID, m, s);
      same(r, "cell-mode", *im.getModeImage(), m); same(r, "cell-sigma", *im.getSigmaImage(), s, 1e-4, 1e-4);
      r.require(!im.getVarianceModeImage() && !im.getVarianceSigmaImage(), "cell-mode", [] { return std::string("a variance result without a variance map"); });
      if (valid > 1) r.nontrivial();
    });
  }
  // the partition of the image in cells
  for (int w = 1; w <= 9; ++w) for (int h = 1; h <= 7; ++h) for (int cw = 1; cw <= 5; ++cw) for (int ch = 1; ch <= 4; ++ch) for (int mask = 0; mask < 3; ++mask) {
    if (!r.next()) continue;
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image in cells of " + vk::str(cw) + "x" + vk::str(ch) + (mask ? ", pixels masked" : ""); });
    r.guarded("cells", [&] {
      Img a = noise(w, h, 5 + mask, 13), v = noise(w, h, 8 + mask, 5), m(1, 1), s(1, 1);
      for (int k = 0; k < w * h; ++k) { if (mask && vk::mix(k + 77 * mask) % 3 < (unsigned)mask) a.d[k] = -7; if (mask == 2 && k % 4 == 1) v.d[k] = -7; }
      ImageMode<SeFloat> im(a.img(), v.img(), cw, ch, -7);
      cells(a, cw, ch, -7, m, s);
      same(r, "cells", *im.getModeImage(), m); same(r, "cells-sigma", *im.getSigmaImage(), s, 1e-4, 1e-4);
      cells(v, cw, ch, -7, m, s);
      same(r, "cells-variance", *im.getVarianceModeImage(), m); same(r, "cells-variance-sigma", *im.getVarianceSigmaImage(), s, 1e-4, 1e-4);
      if (m.w * m.h > 1) r.nontrivial();
    });
  }
  // larger populations: the iterations matter
  for (int n = 0; n < (r.thorough() ? 600 : 150); ++n) {
    if (!r.next()) continue;
    r.desc([=] { return "population " + vk::str(n); });
    r.guarded("populations", [&] {
      int w = 8 + n % 9, h = 8 + n % 5;
      Img a(w, h), m(1, 1), s(1, 1);
      for (int k = 0; k < w * h; ++k) {
        double g = 0;
        for (int j = 0; j < 6; ++j) g += (double)(vk::mix(n * 100003ULL + k * 7 + j) % 1000) / 1000 - 0.5;
        a.d[k] = 100 + 10 * g + (vk::mix(k * 13 + n) % 10 < (unsigned)(n % 5) ? 50 + 20 * (k % 5) : 0);
      }
      ImageMode<SeFloat> im(a.img(), nullptr, w, h, INVALID);
      cells(a, w, h, INVALID, m, s);
      same(r, "populations", *im.getModeImage(), m, 1e-4, 1e-4); same(r, "populations", *im.getSigmaImage(), s, 1e-3, 1e-3);
      r.nontrivial();
    });
  }
}
static double splineAt(const std::vector<double>& x, const std::vector<double>& y, bool cubic, double at) {
  return (*Euclid::MathUtils::interpolate(x, y, cubic ? Euclid::MathUtils::InterpolationType::CUBIC_SPLINE : Euclid::MathUtils::InterpolationType::LINEAR, true))(at);
}
static Img scaled(const Img& a, int w, int h, bool cubic) {
  Img o(w, h);
  double sx = std::ceil((float)w / a.w), sy = std::ceil((float)h / a.h);
  std::vector<double> xs, ys;
  for (int i = 0; i < a.w; ++i) xs.push_back(std::floor((i + 0.5) * sx));
  for (int i = 0; i < a.h; ++i) ys.push_back(std::floor((i + 0.5) * sy));
  for (int y = 0; y < h; ++y) {
    std::vector<double> row;
    for (int x = 0; x < a.w; ++x) { std::vector<double> col; for (int j = 0; j < a.h; ++j) col.push_back(a.at(x, j)); row.push_back(splineAt(ys, col, cubic, y)); }
    for (int x = 0; x < w; ++x) o.at(x, y) = splineAt(xs, row, cubic, x);
  }
  return o;
}
VK_SUITE(scaled_images) {
  for (int mw = 1; mw <= 5; ++mw) for (int mh = 1; mh <= 4; ++mh) for (int f = 1; f <= 4; ++f) for (int g = 0; g < 3; ++g) for (int cubic = 0; cubic < 2; ++cubic) {
    if (!r.next()) continue;
    int w = std::max(1, mw * f - g % f), h = std::max(1, mh * (f + 1) - g);
    if (std::ceil((float)w / mw) * mw < w) continue;
    r.desc([=] { return vk::str(mw) + "x" + vk::str(mh) + " map scaled to " + vk::str(w) + "x" + vk::str(h) + (cubic ? " cubic" : " linear"); });
    r.guarded("scaled", [&] {
      Img a = noise(mw, mh, 3 + g, 50), want = scaled(a, w, h, cubic);
      typedef ScaledImageSource<SeFloat> S;
      std::vector<F> seen;
      for (int tw : {1, 3, 7, 64}) for (int th : {1, 2, 64}) {
        auto src = cubic && tw == 7 ? std::make_shared<S>(a.img(), w, h) : std::make_shared<S>(a.img(), w, h, cubic ? S::InterpolationType::BICUBIC : S::InterpolationType::BILINEAR);
        F px((size_t)w * h);
        for (int ty = 0; ty < h; ty += th) for (int tx = 0; tx < w; tx += tw) {
          int cw = std::min(tw, w - tx), ch = std::min(th, h - ty);
          auto t = src->getImageTile(tx, ty, cw, ch);
          for (int y = ty; y < ty + ch; ++y) for (int x = tx; x < tx + cw; ++x) {
            px[(size_t)y * w + x] = t->getValue<SeFloat>(x, y);
            r.require(vk::close(px[(size_t)y * w + x], want.at(x, y), 1e-5, 1e-4), "scaled", [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " is " + vk::str(px[(size_t)y * w + x]) + " instead of " + vk::str(want.at(x, y)); });
          }
        }
        seen.push_back(px);
        r.require(px == seen[0], "scaled-tiles", [&] { return "the values depend on the tile size (" + vk::str(tw) + "x" + vk::str(th) + ")"; });
        r.require(src->getWidth() == w && src->getHeight() == h, "scaled", [] { return std::string("wrong size"); });
      }
      if (mw > 1 && f > 1) r.nontrivial();
    });
  }
}
VK_SUITE(simple_analyzer) {
  auto one = [&](const Img& a) {
    auto m = SimpleBackgroundAnalyzer().analyzeBackground(a.img(), nullptr, nullptr, 1e30);
    F s = a.d;
    std::sort(s.begin(), s.end());
    float med = s[s.size() / 2];
    double v = 0; int n = 0;
    for (float x : a.d) if (x < med) { v += (x - (double)med) * (x - (double)med); ++n; }
    if (n) v /= n;
    Img lm(a.w, a.h), vm(a.w, a.h);
    for (auto& x : lm.d) x = med;
    for (auto& x : vm.d) x = v;
    same(r, "simple-level", *m.getLevelMap(), lm); same(r, "simple-variance", *m.getVarianceMap(), vm);
    r.require(m.getScalingFactor() == 1 && vk::close(m.getMedianRms(), std::sqrt(v), 1e-5, 1e-6), "simple-rms", [&] { return "rms " + vk::str(m.getMedianRms()) + " instead of " + vk::str(std::sqrt(v)); });
  };
  for (int w = 1; w <= 3; ++w) for (int h = 1; h <= 3; ++h) {
    if (w * h > (r.thorough() ? 9 : 6)) continue;
    for (vk::Odo o(std::vector<int>(w * h, 4)); !o.done; o.inc()) {
      if (!r.next()) continue;
      auto val = o.v;
      r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image " + vk::strv(val); });
      r.guarded("simple", [&] { Img a(w, h); for (int k = 0; k < w * h; ++k) a.d[k] = val[k] == 3 ? -11 : val[k] * 1.5f; one(a); if (w * h > 1) r.nontrivial(); });
    }
  }
  for (int w : {1, 17, 255, 256, 257, 300}) for (int h : {1, 2, 5}) {
    if (!r.next()) continue;
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image"; });
    r.guarded("simple", [&] { one(noise(w, h, w + h, 97)); if (w > 1) r.nontrivial(); });
  }
}
VK_SUITE(se_analyzer) {
  for (int w : {1, 4, 7, 10}) for (int h : {1, 5, 8}) for (int c = 0; c < 4; ++c) for (int sb = 0; sb < 4; ++sb) for (int masks = 0; masks < 4; ++masks) for (int flat = 0; flat < 3; ++flat) {
    if (!r.next()) continue;
    const std::vector<int> cs[] = {{3}, {2, 4}, {4, 2}, {16}}, bs[] = {{1}, {3}, {5, 3}, {3, 7}};
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image" + (flat ? flat == 1 ? " (constant)" : " (gradient)" : "") + ", cell " + vk::strv(cs[c]) + ", smoothing " + vk::strv(bs[sb]) + (masks & 1 ? ", mask" : "") + (masks & 2 ? ", weights" : ""); });
    r.guarded("se-analyzer", [&] {
      TileManager::getInstance()->flush();
      Img a = noise(w, h, w * h + c, 40), v = noise(w, h, 9 + c, 6), mk = noise(w, h, 4 + c + sb, 5);
      for (int k = 0; k < w * h; ++k) { if (flat == 1) a.d[k] = 12; if (flat == 2) a.d[k] += 20 * (k % w); v.d[k] += 1; if (flat == 1 && sb == 1) v.d[k] = 3; }
      if (flat == 1 && sb == 2) for (auto& x : v.d) x = 1e9;      // nothing usable
      auto m8 = VectorImage<unsigned char>::create(w, h);
      for (int k = 0; k < w * h; ++k) m8->setValue(k % w, k / w, mk.d[k] == 0 ? 1 : (mk.d[k] == 1 ? 2 : (mk.d[k] == 2 ? 3 : 0)));
      double thr = 5.5;
      SEBackgroundLevelAnalyzer an(cs[c], bs[sb], masks & 2 ? WeightImageConfig::WeightType::WEIGHT_TYPE_WEIGHT : WeightImageConfig::WeightType::WEIGHT_TYPE_NONE);
      std::shared_ptr<DetectionImage> im = a.img();
      std::shared_ptr<WeightImage> vm = v.img();
      auto m = an.analyzeBackground(im, masks & 2 ? vm : nullptr, masks & 1 ? std::shared_ptr<Image<unsigned char>>(m8) : nullptr, thr);
      // the definition
      Img ia = a, iv = v;
      for (int k = 0; k < w * h; ++k) {
        if ((masks & 1) && (m8->getValue(k % w, k / w) & 1)) ia.d[k] = INVALID;
        if ((masks & 2) && v.d[k] >= thr) ia.d[k] = iv.d[k] = INVALID;
      }
      int cw = cs[c].front(), ch = cs[c].back(), bw = bs[sb].front(), bh = bs[sb].back();
      Img mo(1, 1), si(1, 1), wm(1, 1), ws(1, 1);
      cells(ia, cw, ch, INVALID, mo, si);
      mo = replaceOracle(mo, INVALID); si = replaceOracle(si, INVALID);
      Img mf = medianOracle(mo, mo, bw, bh, 0, false, si), sf = medianOracle(mo, mo, bw, bh, 0, true, si);
      auto med = [](const Img& i) { return medianOf(std::vector<double>(i.d.begin(), i.d.end())); };
      r.require(vk::close(m.getMedianRms(), med(sf), 1e-4, 1e-4), "median-rms", [&] { return "median rms " + vk::str(m.getMedianRms()) + " instead of " + vk::str(med(sf)); });
      double spread = 1;
      for (auto x : mf.d) spread = std::max(spread, std::abs((double)x));
      same(r, "background-level", *m.getLevelMap(), scaled(mf, w, h, true), 1e-4, 1e-4 * spread);
      Img fv(w, h);
      double scale = 99999;
      if (masks & 2) {
        cells(iv, cw, ch, INVALID, wm, ws);
        wm = replaceOracle(wm, INVALID);
        Img wf = medianOracle(wm, wm, bw, bh, 0, false, ws);
        std::vector<double> q;
        for (int k = 0; k < wf.w * wf.h; ++k) if (wf.d[k] > 0 && sf.d[k] * sf.d[k] / wf.d[k] > 0) q.push_back(sf.d[k] * sf.d[k] / wf.d[k]);
        scale = q.empty() ? 1 : medianOf(q);
        Img s2 = sf;
        for (auto& x : s2.d) x *= x;
        fv = scaled(s2, w, h, true);
        for (auto& x : fv.d) x = std::fabs(x);
      } else for (auto& x : fv.d) x = med(sf) * med(sf);
      double vs = 1;
      for (auto x : sf.d) vs = std::max(vs, (double)x * x);
      same(r, "background-variance", *m.getVarianceMap(), fv, 2e-3, 2e-3 * vs);
      r.require(vk::close(m.getScalingFactor(), scale, 2e-3, 1e-4), "scaling", [&] { return "scaling factor " + vk::str(m.getScalingFactor()) + " instead of " + vk::str(scale); });
      if (mo.w * mo.h > 1) r.nontrivial();
      // maps of another size are refused
      if (flat == 0) for (int which = 0; which < 4; ++which) {
        auto bad_v = V::create(w + (which == 0), h + (which == 1));
        auto bad_m = VectorImage<unsigned char>::create(w + (which == 2), h + (which == 3));
        bool thrown = false;
        try { an.analyzeBackground(im, which < 2 ? std::shared_ptr<WeightImage>(bad_v) : nullptr, which < 2 ? nullptr : std::shared_ptr<Image<unsigned char>>(bad_m), thr); } catch (const Elements::Exception&) { thrown = true; }
        r.require(thrown, "size-mismatch", [&] { return std::string(which < 2 ? "a weight" : "a mask") + " map of another size is accepted"; });
      }
    });
  }
}
