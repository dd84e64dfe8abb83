// Aperture flux and flags against sums over all the pixels of the image: every bad-pixel mask of small images, centres in
// and around them, every aperture of the list, with and without the use of symmetry.
#include "vkit.h"
#include <memory>
#include "SEFramework/Aperture/CircularAperture.h"
#include "SEFramework/Aperture/EllipticalAperture.h"
#include "SEFramework/Aperture/TransformedAperture.h"
#include "SEFramework/Aperture/FluxMeasurement.h"
#include "SEFramework/Aperture/Flagging.h"
#include "SEFramework/Aperture/NeighbourInfo.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/ConstantImage.h"
using namespace SourceXtractor;
using AP = std::shared_ptr<Aperture>;

static std::vector<std::pair<AP, std::string>> apertures() {
  std::vector<std::pair<AP, std::string>> v;
  for (double rad : {.45, .9, 1.3, 2.1}) v.push_back({std::make_shared<CircularAperture>((SeFloat)rad), "circle " + vk::str(rad)});
  v.push_back({std::make_shared<EllipticalAperture>(.3f, .8f, .2f, 1.07f), "ellipse"});
  v.push_back({std::make_shared<TransformedAperture>(std::make_shared<CircularAperture>(1.1f), std::make_tuple(1.2, .3, -.2, .9)), "transformed circle"});
  return v;
}
static float val(int x, int y) { return 1.f + x * 3.f + y * 17.f + ((x * 5 + y * 3) % 7) * .25f; }
static float var(int x, int y) { return .1f + .01f * x + .07f * y; }
static const float BADV = 1e3f, THR = 10.f;

static void one(vk::Run& r, const AP& ap, int w, int h, unsigned mask, double cx, double cy, const std::shared_ptr<Image<SeFloat>>& img, const std::shared_ptr<Image<SeFloat>>& vimg) {
  auto mn = ap->getMinPixel(cx, cy), mx = ap->getMaxPixel(cx, cy);
  bool outside = mx.m_x < 0 || mx.m_y < 0 || mn.m_x >= w || mn.m_y >= h;
  bool boundary = !outside && (mn.m_x < 0 || mn.m_y < 0 || mx.m_x >= w || mx.m_y >= h);
  for (int sym = 0; sym < 2; ++sym) {
    auto m = measureFlux(ap, cx, cy, img, vimg, THR, sym);
    double flux = 0, vr = 0, area = 0, bad = 0;
    bool tie = false, cut = false;
    for (int y = -4; y < h + 4; ++y) for (int x = -4; x < w + 4; ++x) {
      double a = ap->getArea(cx, cy, x, y);
      if (a == 0) continue;
      if (x < 0 || y < 0 || x >= w || y >= h) { cut = true; continue; }
      area += a;
      if (!(mask >> (y * w + x) & 1)) { flux += a * val(x, y); vr += a * var(x, y); continue; }
      bad += 1;
      if (!sym) continue;
      double px = 2. * (SeFloat)cx - x, py = 2. * (SeFloat)cy - y;
      if (std::fabs(px - std::floor(px) - .5) < 2e-3 || std::fabs(py - std::floor(py) - .5) < 2e-3) tie = true;
      int ix = (int)std::floor(px + .5), iy = (int)std::floor(py + .5);
      if (ix < 0 || iy < 0 || ix >= w || iy >= h || (mask >> (iy * w + ix) & 1)) continue;
      flux += a * val(ix, iy); vr += a * var(ix, iy);
    }
    auto where = [&] { return "centre " + vk::str(cx) + "," + vk::str(cy) + " bad pixels 0x" + vk::str(mask) + (sym ? " with symmetry" : "") + ": flux " + vk::str(m.m_flux) + " variance " + vk::str(m.m_variance) + " area " + vk::str(m.m_total_area) + " bad " + vk::str(m.m_bad_area) + " flags " + vk::str((int64_t)m.m_flags) + "; expected " + vk::str(flux) + " " + vk::str(vr) + " " + vk::str(area) + " " + vk::str(bad); };
    if (!tie) {
      r.check(vk::close(m.m_flux, flux, 3e-5, 1e-4), "flux", where);
      r.check(vk::close(m.m_variance, vr, 3e-5, 1e-5), "variance", where);
    }
    r.check(vk::close(m.m_total_area, area, 3e-5, 1e-4), "area", where);
    r.check(vk::close(m.m_bad_area, bad, 1e-6, 1e-6), "bad-area", where);
    bool fo = (m.m_flags & Flags::OUTSIDE) != Flags::NONE, fb = (m.m_flags & Flags::BOUNDARY) != Flags::NONE, fz = (m.m_flags & Flags::BIASED) != Flags::NONE;
    r.check(fo == outside, "outside-flag", where);
    r.check(fb == boundary, "boundary-flag", where);
    if (cut) r.check(fo || fb, "cut-unflagged", where);
    if (std::fabs(area) < 1e-9 || std::fabs(bad / area - .1) > 1e-3) r.check(fz == (area > 0 && bad / area > .1), "biased-flag", where);
    r.check(((int64_t)m.m_flags & ~(int64_t)(Flags::OUTSIDE | Flags::BOUNDARY | Flags::BIASED)) == 0, "other-flags", where);
    if (area > 0 && (cut || bad)) r.nontrivial();
    r.seeD(m.m_flux); r.transition();
  }
}

VK_SUITE(flux) {
  auto aps = apertures();
  std::vector<std::pair<int, int>> sizes{{1, 1}, {2, 1}, {1, 3}, {2, 2}, {3, 2}, {3, 3}};
  if (r.thorough()) { sizes.push_back({2, 5}); sizes.push_back({4, 3}); }
  for (auto& s : sizes) {
    int w = s.first, h = s.second;
    for (unsigned mask = 0; mask < 1u << (w * h); ++mask) {
      if (!r.next()) continue;
      r.desc([=] { return "image " + vk::str(w) + "x" + vk::str(h) + ", bad pixels 0x" + vk::str(mask) + ", all apertures and centres"; });
      r.guarded("flux", [&] {
        auto img = VectorImage<SeFloat>::create(w, h), vimg = VectorImage<SeFloat>::create(w, h);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { img->setValue(x, y, val(x, y)); vimg->setValue(x, y, mask >> (y * w + x) & 1 ? BADV : var(x, y)); }
        double step = w * h <= 4 ? .17 : .34;
        for (auto& a : aps) for (double cx = -2.6; cx <= w + 1.7; cx += step) for (double cy = -2.55; cy <= h + 1.7; cy += step * 1.1) one(r, a.first, w, h, mask, cx, cy, img, vimg);
      });
    }
  }
}

// A larger image with a few bad pixels: the aperture is well inside, or cut by one border only.
VK_SUITE(flux_large) {
  auto aps = apertures();
  aps.push_back({std::make_shared<CircularAperture>(3.6f), "circle 3.6"});
  int w = 12, h = 11;
  for (size_t k = 0; k < aps.size(); ++k) for (int b = 0; b < 26; ++b) {
    if (!r.next()) continue;
    r.desc([=] { return aps[k].second + " on 12x11, bad pattern " + vk::str(b) + ", all centres"; });
    r.guarded("flux", [&] {
      auto isbad = [&](int x, int y) { return b == 0 ? false : b < 25 ? x / 3 == (b - 1) % 4 && y / 2 == (b - 1) / 4 : (x + y) % 3 == 0; };
      std::vector<float> vi(w * h), vv(w * h);
      std::vector<bool> bad(w * h);
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { bad[y * w + x] = isbad(x, y); vi[y * w + x] = val(x, y); vv[y * w + x] = bad[y * w + x] ? BADV : var(x, y); }
      auto img = VectorImage<SeFloat>::create(w, h, vi), vimg = VectorImage<SeFloat>::create(w, h, vv);
      for (double cx = -1; cx < w + 1; cx += .43) for (double cy = -1; cy < h + 1; cy += .47) for (int sym = 0; sym < 2; ++sym) {
        auto m = measureFlux(aps[k].first, cx, cy, img, vimg, THR, sym);
        double flux = 0, vr = 0, area = 0; int nb = 0; bool tie = false;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
          double a = aps[k].first->getArea(cx, cy, x, y);
          if (a == 0) continue;
          area += a;
          int i = x, j = y;
          if (bad[y * w + x]) {
            ++nb;
            if (!sym) continue;
            double px = 2. * (SeFloat)cx - x, py = 2. * (SeFloat)cy - y;
            if (std::fabs(px - std::floor(px) - .5) < 2e-3 || std::fabs(py - std::floor(py) - .5) < 2e-3) tie = true;
            i = (int)std::floor(px + .5); j = (int)std::floor(py + .5);
            if (i < 0 || j < 0 || i >= w || j >= h || bad[j * w + i]) continue;
          }
          flux += a * val(i, j); vr += a * var(i, j);
        }
        auto where = [&] { return "centre " + vk::str(cx) + "," + vk::str(cy) + (sym ? " with symmetry" : "") + ": flux " + vk::str(m.m_flux) + " variance " + vk::str(m.m_variance) + "; expected " + vk::str(flux) + " " + vk::str(vr); };
        if (!tie) { r.check(vk::close(m.m_flux, flux, 3e-5, 1e-4), "flux", where); r.check(vk::close(m.m_variance, vr, 3e-5, 1e-5), "variance", where); }
        r.check(vk::close(m.m_total_area, area, 3e-5, 1e-4), "area", where);
        r.check(m.m_bad_area == nb, "bad-area", where);
        if (nb) r.nontrivial();
        r.seeD(m.m_flux); r.transition();
      }
    });
  }
}

VK_SUITE(neighbours) {
  std::vector<std::pair<int, int>> sizes{{1, 1}, {2, 2}, {3, 2}};
  if (r.thorough()) { sizes.push_back({1, 5}); sizes.push_back({3, 3}); }
  for (auto& s : sizes) {
    int w = s.first, h = s.second, n = w * h;
    for (unsigned over = 0; over < 1u << n; ++over) {
      if (!r.next()) continue;
      r.desc([=] { return vk::str(w) + "x" + vk::str(h) + ", pixels above threshold 0x" + vk::str(over) + ", all pixel lists and rectangles"; });
      r.guarded("neighbours", [&] {
        std::vector<float> t(n);
        for (int i = 0; i < n; ++i) t[i] = over >> i & 1 ? .5f + i : i & 1 ? 0.f : -1.f;
        auto timg = VectorImage<SeFloat>::create(w, h, t);
        for (unsigned mine = 0; mine < 1u << n; ++mine) {
          std::vector<PixelCoordinate> px;
          for (int i = 0; i < n; ++i) if (mine >> i & 1) px.push_back({i % w, i / w});
          px.push_back({-1, 0}); px.push_back({w, h});  // pixels elsewhere do no harm
          for (int x0 = 0; x0 < w; ++x0) for (int y0 = 0; y0 < h; ++y0) for (int x1 = x0; x1 < w + 1; ++x1) for (int y1 = y0; y1 < h + 1; ++y1) {
            NeighbourInfo ni({x0 ? x0 : -(x1 & 1), y0}, {x1, y1}, px, timg);
            for (int y = y0; y <= std::min(y1, h - 1); ++y) for (int x = x0; x <= std::min(x1, w - 1); ++x) {
              bool e = (over >> (y * w + x) & 1) && !(mine >> (y * w + x) & 1);
              r.check(ni.isNeighbourObjectPixel(x, y) == e, "neighbour", [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " own pixels 0x" + vk::str(mine) + " rectangle " + vk::str(x0) + "," + vk::str(y0) + ".." + vk::str(x1) + "," + vk::str(y1); });
              if (e) r.nontrivial();
              r.see(e); r.transition();
            }
          }
        }
      });
    }
  }
}

VK_SUITE(flags) {
  auto aps = apertures();
  int w = 3, h = 3, n = 9;
  for (unsigned mask = 0; mask < 512; ++mask) {
    if (!r.next()) continue;
    r.desc([=] { return "3x3, bad pixels 0x" + vk::str(mask) + ", neighbours and own pixels derived masks, all apertures and centres"; });
    r.guarded("flags", [&] {
      for (unsigned k = 0; k < (r.thorough() ? 32u : 8u); ++k) {
        unsigned over = (mask * 37 + k * 73) & 511, mine = (over >> 1 | k * 5) & 511;
        std::vector<float> t(n), v(n);
        std::vector<PixelCoordinate> px;
        for (int i = 0; i < n; ++i) { t[i] = over >> i & 1 ? 2.f : -2.f; v[i] = mask >> i & 1 ? BADV : 1.f; if (mine >> i & 1) px.push_back({i % w, i / w}); }
        auto timg = VectorImage<SeFloat>::create(w, h, t), vimg = VectorImage<SeFloat>::create(w, h, v), img = VectorImage<SeFloat>::create(w, h);
        for (auto& a : aps) for (double cx = -.7; cx < 3.8; cx += .73) for (double cy = -.7; cy < 3.8; cy += .71) {
          auto f = computeFlags(a.first, cx, cy, px, img, vimg, timg, THR);
          auto mn = a.first->getMinPixel(cx, cy), mx = a.first->getMaxPixel(cx, cy);
          bool boundary = mn.m_x < 0 || mn.m_y < 0 || mx.m_x >= w || mx.m_y >= h;
          double area = 0, bad = 0, full = 0;
          for (int i = 0; i < n; ++i) {
            double ar = a.first->getArea(cx, cy, i % w, i / w);
            if (ar == 0) continue;
            area += ar; bad += mask >> i & 1; full += (over >> i & 1) && !(mine >> i & 1);
          }
          auto where = [&] { return a.second + " centre " + vk::str(cx) + "," + vk::str(cy) + " above threshold 0x" + vk::str(over) + " own 0x" + vk::str(mine) + " flags " + vk::str((int64_t)f); };
          auto has = [&](Flags g) { return (f & g) != Flags::NONE; };
          r.check(has(Flags::BOUNDARY) == boundary, "flags-boundary", where);
          if (area == 0 || std::fabs(bad / area - .1) > 1e-3) r.check(has(Flags::BIASED) == (area > 0 && bad / area > .1), "flags-biased", where);
          if (area == 0 || std::fabs(full / area - .1) > 1e-3) r.check(has(Flags::NEIGHBORS) == (area > 0 && full / area > .1), "flags-neighbours", where);
          r.check(((int64_t)f & ~(int64_t)(Flags::BIASED | Flags::BOUNDARY | Flags::NEIGHBORS)) == 0, "flags-other", where);
          if (area > 0) r.nontrivial();
          r.see((uint64_t)f); r.transition();
        }
      }
    });
  }
}
