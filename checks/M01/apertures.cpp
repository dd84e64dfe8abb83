// Apertures against their geometric definition: every centre on a sub-pixel grid, every radius/shape/transform of the
// lists, every pixel of a window larger than the aperture.
#include "vkit.h"
#include <memory>
#include <tuple>
#include "SEFramework/Aperture/CircularAperture.h"
#include "SEFramework/Aperture/EllipticalAperture.h"
#include "SEFramework/Aperture/TransformedAperture.h"
#include "SEFramework/Aperture/FluxMeasurement.h"
#include "SEFramework/Image/VectorImage.h"
using namespace SourceXtractor;

static const double TIE = 2e-4;
// Fraction of the 10x10 sampling points of a pixel inside the circle; lo/hi: range when some points are on the edge.
static void circleArea(double dx, double dy, double r, double& lo, double& hi) {
  lo = hi = 0;
  double d2 = dx * dx + dy * dy;
  if (d2 > (r + .8) * (r + .8)) return;
  for (int j = 0; j < 10; ++j) for (int i = 0; i < 10; ++i) {
    double x = dx + (i - 5) / 10., y = dy + (j - 5) / 10., q = x * x + y * y - r * r;
    if (q < TIE) hi += .01;
    if (q < -TIE) lo += .01;
  }
}
static std::vector<double> centres(bool th) {
  std::vector<double> c;
  for (int i = 0; i < (th ? 32 : 16); ++i) c.push_back(9 + i / (th ? 32. : 16.));
  for (double b : {0.f, .25f, .4f, .9f, -1.3f, -2.6f, 2.75f}) c.push_back(b);
  return c;
}
static const double RADII[] = {0, .2, .5, .7, .75, .8, 1, 1.1, 1.5, 1.9, 2, 2.45, 2.9, 3, 3.3, 4.75};

VK_SUITE(circle) {
  auto cs = centres(r.thorough());
  for (double rad : RADII) for (double cx : cs) {
    if (!r.next()) continue;
    r.desc([=] { return "circle of radius " + vk::str(rad) + ", centre x " + vk::str(cx) + ", all centre y"; });
    r.guarded("circle", [&] {
      CircularAperture a((SeFloat)rad);
      double R = (SeFloat)rad;
      for (double cy : cs) {
        auto mn = a.getMinPixel(cx, cy), mx = a.getMaxPixel(cx, cy);
        double total = 0;
        for (int y = (int)cy - 8; y <= (int)cy + 8; ++y) for (int x = (int)cx - 8; x <= (int)cx + 8; ++x) {
          auto where = [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " centre " + vk::str(cx) + "," + vk::str(cy); };
          double dx = x - (double)(SeFloat)cx, dy = y - (double)(SeFloat)cy, lo, hi;
          double got = a.getArea(cx, cy, x, y);
          circleArea(dx, dy, R, lo, hi);
          r.check(got >= lo - 1e-4 && got <= hi + 1e-4, "area", [&] { return where() + ": covered fraction " + vk::str(got) + ", expected " + vk::str(lo) + ".." + vk::str(hi); });
          total += got;
          bool in = x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y;
          r.check(in || got == 0, "bounds", [&] { return where() + " is covered (" + vk::str(got) + ") but outside the bounding box " + vk::str(mn.m_x) + "," + vk::str(mn.m_y) + ".." + vk::str(mx.m_x) + "," + vk::str(mx.m_y); });
          if (got > 0 && got < 1) r.nontrivial();
          double d2 = dx * dx + dy * dy;
          r.check(vk::close(a.getRadiusSquared(cx, cy, x, y), d2, 1e-4, 1e-4), "radius", where);
          double inner = R > .5 ? R - .5 : 0, outer = R + .5;
          double dr = a.drawArea(cx, cy, x, y);
          bool ring = d2 > inner * inner && d2 <= outer * outer;
          if (std::fabs(d2 - inner * inner) > TIE && std::fabs(d2 - outer * outer) > TIE) {
            r.check(dr == (ring ? 1. : 0.), "ring", where);
            r.check(in || dr == 0, "ring-bounds", where);
          }
          r.seeD(got); r.transition();
        }
        r.check(std::fabs(total - M_PI * R * R) <= .05 * R * R + .1 * R + 0.02, "total-area", [&] { return "areas add up to " + vk::str(total) + ", circle of " + vk::str(M_PI * R * R); });
        // nothing is gained by a much larger box
        r.check(mn.m_x >= std::floor(cx - R) - 1 && mx.m_x <= std::ceil(cx + R) + 1 && mn.m_y >= std::floor(cy - R) - 1 && mx.m_y <= std::ceil(cy + R) + 1, "box-size", "bounding box too large");
      }
    });
  }
}

struct Ell { double a, b, th; };
static std::vector<Ell> ellipses(bool th) {
  std::vector<Ell> v;
  for (double a : {1., 1.6, 2.5}) for (double q : {1., .7, .3}) for (int k = 0; k < (th ? 12 : 6); ++k) v.push_back({a, a * q, k * M_PI / (th ? 12 : 6) + .05});
  return v;
}
static void coef(const Ell& e, float& cxx, float& cyy, float& cxy) {
  double c = std::cos(e.th), s = std::sin(e.th);
  cxx = c * c / (e.a * e.a) + s * s / (e.b * e.b);
  cyy = s * s / (e.a * e.a) + c * c / (e.b * e.b);
  cxy = 2 * c * s * (1 / (e.a * e.a) - 1 / (e.b * e.b));
}

VK_SUITE(ellipse) {
  auto cs = centres(false);
  for (auto& e : ellipses(r.thorough())) for (double rad : {.6, 1., 1.7, 2.5}) {
    if (!r.next()) continue;
    r.desc([=] { return "ellipse a=" + vk::str(e.a) + " b=" + vk::str(e.b) + " theta=" + vk::str(e.th) + " radius " + vk::str(rad) + ", all centres"; });
    r.guarded("ellipse", [&] {
      float cxx, cyy, cxy; coef(e, cxx, cyy, cxy);
      EllipticalAperture a(cxx, cyy, cxy, rad);
      double R = (SeFloat)rad;
      for (double cx : cs) for (double cy : cs) {
        auto mn = a.getMinPixel(cx, cy), mx = a.getMaxPixel(cx, cy);
        for (int y = (int)cy - 8; y <= (int)cy + 8; ++y) for (int x = (int)cx - 8; x <= (int)cx + 8; ++x) {
          auto where = [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " centre " + vk::str(cx) + "," + vk::str(cy); };
          double dx = x - (double)(SeFloat)cx, dy = y - (double)(SeFloat)cy;
          // along the axes, not through the coefficients
          double u = dx * std::cos(e.th) + dy * std::sin(e.th), v = -dx * std::sin(e.th) + dy * std::cos(e.th);
          double d2 = u * u / (e.a * e.a) + v * v / (e.b * e.b);
          double tie = 1e-3 * (1 + d2);
          r.check(vk::close(a.getRadiusSquared(cx, cy, x, y), d2, tie, 1e-3), "ellipse-radius", where);
          double got = a.getArea(cx, cy, x, y), dr = a.drawArea(cx, cy, x, y);
          bool in = x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y;
          r.check(got == 0 || got == 1, "ellipse-area", where);
          if (std::fabs(d2 - R * R) > tie) {
            r.check(got == (d2 < R * R ? 1. : 0.), "ellipse-area", where);
            r.check(in || got == 0, "ellipse-bounds", [&] { return where() + " is covered but outside the bounding box " + vk::str(mn.m_x) + "," + vk::str(mn.m_y) + ".." + vk::str(mx.m_x) + "," + vk::str(mx.m_y); });
            double inner = R > 1 ? R - 1 : 0;
            if (std::fabs(d2 - inner * inner) > tie) r.check(dr == (d2 < R * R && d2 > inner * inner ? 1. : 0.), "ellipse-ring", where);
          }
          if (got > 0) r.nontrivial();
          r.seeD(got); r.transition();
        }
      }
    });
  }
}

using Jac = std::tuple<double, double, double, double>;
static std::vector<Jac> jacobians(bool th) {
  std::vector<Jac> v{{1, 0, 0, 1}, {2, 0, 0, 2}, {.5, 0, 0, .5}, {1, 1, 0, 1}, {1, 0, 1, 1}, {-1, 0, 0, 1}, {0, 1, -1, 0}, {0, 1, 1, 0}, {1.3, 0, 0, .7}, {.9, .3, -.2, 1.1}, {3, 0, 0, 3}, {1.5, -.7, .4, 2.2}};
  for (int k = 1; k < (th ? 16 : 4); ++k) { double t = k * M_PI / (th ? 8 : 2) + .3; v.push_back({std::cos(t), std::sin(t), -std::sin(t), std::cos(t)}); }
  return v;
}

VK_SUITE(transformed) {
  auto cs = centres(false);
  std::vector<std::pair<std::shared_ptr<Aperture>, std::string>> ins;
  for (double rad : {.4, 1., 2., 2.4, 2.9, 3.}) ins.push_back({std::make_shared<CircularAperture>((SeFloat)rad), "circle " + vk::str(rad)});
  for (auto& e : {Ell{2, 1, .4}, Ell{2.9, 1.9, 1.2}, Ell{1.45, 1.45, 0}}) {
    float cxx, cyy, cxy; coef(e, cxx, cyy, cxy);
    for (double rad : {1., 1.4}) ins.push_back({std::make_shared<EllipticalAperture>(cxx, cyy, cxy, rad), "ellipse " + vk::str(e.a) + "," + vk::str(e.b) + "," + vk::str(e.th) + " radius " + vk::str(rad)});
  }
  for (size_t k = 0; k < ins.size(); ++k) for (auto& j : jacobians(r.thorough())) {
    if (!r.next()) continue;
    double t0, t1, t2, t3;
    std::tie(t0, t1, t2, t3) = j;
    r.desc([=] { return ins[k].second + " transformed by " + vk::str(t0) + "," + vk::str(t1) + "," + vk::str(t2) + "," + vk::str(t3) + ", all centres"; });
    r.guarded("transformed", [&] {
      auto in = ins[k].first;
      TransformedAperture a(in, j);
      double det = t0 * t3 - t2 * t1;
      bool circ = k < 6;
      // up to this magnification the sampling of a pixel cannot reach past the box
      bool tight = std::fabs(t0) + std::fabs(t2) < 1.99 && std::fabs(t1) + std::fabs(t3) < 1.99;
      for (double cx : cs) for (double cy : cs) {
        auto mn = a.getMinPixel(cx, cy), mx = a.getMaxPixel(cx, cy);
        int W = 14;
        for (int y = (int)cy - W; y <= (int)cy + W; ++y) for (int x = (int)cx - W; x <= (int)cx + W; ++x) {
          auto where = [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " centre " + vk::str(cx) + "," + vk::str(cy); };
          bool inside = x >= mn.m_x && x <= mx.m_x && y >= mn.m_y && y <= mx.m_y;
          double got = a.getArea(cx, cy, x, y);
          if (!inside && got > 0) {
            // the pixel in the frame of the aperture
            double dx = x - (double)(SeFloat)cx, dy = y - (double)(SeFloat)cy;
            double u = (dx * t3 - dy * t2) / det, v = (-dx * t1 + dy * t0) / det;
            bool centre_in = !circ;
            if (circ) { static const double RR[] = {.4, 1., 2., 2.4, 2.9, 3.}; centre_in = u * u + v * v < RR[k] * RR[k] - TIE; }
            r.check(!(centre_in || tight) || got < 1e-3, "transformed-bounds", [&] { return where() + " is covered (" + vk::str(got) + ") but outside the bounding box " + vk::str(mn.m_x) + "," + vk::str(mn.m_y) + ".." + vk::str(mx.m_x) + "," + vk::str(mx.m_y); });
          }
          if (got > 0) r.nontrivial();
          r.transition();
          if (std::abs(x - cx) > 7 || std::abs(y - cy) > 7) continue;
          double dx = x - (double)(SeFloat)cx, dy = y - (double)(SeFloat)cy;
          double u = (dx * t3 - dy * t2) / det, v = (-dx * t1 + dy * t0) / det;
          r.check(vk::close(a.getRadiusSquared(cx, cy, x, y), in->getRadiusSquared(0, 0, u, v), 1e-3, 1e-3), "transformed-radius", where);
          auto near = [&](double g, auto f) {  // equal to the value at the point or at one a rounding error away
            if (std::fabs(g - f(u, v)) < 1e-4) return true;
            double lo = 1e9, hi = -1e9;
            for (double eu : {-1e-5, 0., 1e-5}) for (double ev : {-1e-5, 0., 1e-5}) { double q = f(u + eu * (1 + std::fabs(u)), v + ev * (1 + std::fabs(v))); lo = std::min(lo, q); hi = std::max(hi, q); }
            return g >= lo - 1e-4 && g <= hi + 1e-4;
          };
          r.check(near(got, [&](double p, double q) { return (double)in->getArea(0, 0, p, q); }), "transformed-area", where);
          r.check(near(a.drawArea(cx, cy, x, y), [&](double p, double q) { return (double)in->drawArea(0, 0, p, q); }), "transformed-ring", where);
          r.seeD(got);
        }
      }
    });
  }
}

template <typename T>
static void drawing(vk::Run& r, const char* name) {
  std::vector<std::pair<std::shared_ptr<Aperture>, std::string>> ap;
  for (double rad : {.3, 1., 1.5, 2.9}) ap.push_back({std::make_shared<CircularAperture>((SeFloat)rad), "circle " + vk::str(rad)});
  ap.push_back({std::make_shared<EllipticalAperture>(.3f, .8f, .2f, 1.4f), "ellipse"});
  ap.push_back({std::make_shared<TransformedAperture>(std::make_shared<CircularAperture>(1.9f), Jac(1.2, .3, -.2, .9)), "transformed"});
  for (auto& a : ap) for (int w = 1; w <= 4; ++w) for (int h = 1; h <= 4; ++h) {
    if (!r.next()) continue;
    r.desc([=] { return std::string(name) + " " + a.second + " drawn on " + vk::str(w) + "x" + vk::str(h); });
    r.guarded("draw", [&] {
      for (double cx = -3; cx <= w + 2; cx += .37) for (double cy = -3; cy <= h + 2; cy += .41) for (int fill = 0; fill < 2; ++fill) {
        auto img = VectorImage<T>::create(w, h);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) img->setValue(x, y, T(x + 10 * y));
        if (fill) fillAperture<T>(a.first, cx, cy, img, T(77)); else drawAperture<T>(a.first, cx, cy, img, T(77));
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
          bool on = (fill ? a.first->getArea(cx, cy, x, y) : a.first->drawArea(cx, cy, x, y)) > 0;
          auto mn = a.first->getMinPixel(cx, cy), mx = a.first->getMaxPixel(cx, cy);
          if (x < mn.m_x || x > mx.m_x || y < mn.m_y || y > mx.m_y) on = false;
          r.check(img->getValue(x, y) == (on ? T(77) : T(x + 10 * y)), "draw", [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " centre " + vk::str(cx) + "," + vk::str(cy); });
          if (on) r.nontrivial();
          r.see(on); r.transition();
        }
      }
    });
  }
}
VK_SUITE(draw) { drawing<float>(r, "float"); drawing<int>(r, "int"); }
