// Measurements made from the pixel list of a source: every small shape and value pattern, against their definition in double precision.
#include "common/tilecheck.h"
#include "common/plugins.h"
#include <cmath>
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStamp.h"
#include "SEImplementation/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStampTask.h"
#include "SEImplementation/Plugin/ErrorEllipse/ErrorEllipse.h"
#include "SEImplementation/Plugin/ErrorEllipse/ErrorEllipseTaskFactory.h"
#include "SEImplementation/Plugin/HduNumber/HduNumber.h"
#include "SEImplementation/Plugin/HduNumber/HduNumberTaskFactory.h"
#include "SEImplementation/Plugin/IsophotalFlux/IsophotalFlux.h"
#include "SEImplementation/Plugin/IsophotalFlux/IsophotalFluxTask.h"
#include "SEImplementation/Plugin/NDetectedPixels/NDetectedPixels.h"
#include "SEImplementation/Plugin/NDetectedPixels/NDetectedPixelsTaskFactory.h"
#include "SEImplementation/Plugin/SNRRatio/SNRRatio.h"
#include "SEImplementation/Plugin/SNRRatio/SNRRatioTaskFactory.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroid.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroidTaskFactory.h"
using namespace SourceXtractor;
using plugins::show; using plugins::sorted;
using Pixels = std::vector<PixelCoordinate>;
struct Filter : DetectionImageFrame::ImageFilter {   // filtered = 2 * value + 1, so that the two cannot be mistaken
  std::shared_ptr<Image<SeFloat>> processImage(std::shared_ptr<Image<SeFloat>> i, std::shared_ptr<Image<SeFloat>>, SeFloat) const override {
    auto c = i->getChunk(0, 0, i->getWidth(), i->getHeight());
    auto o = VectorImage<SeFloat>::create(i->getWidth(), i->getHeight());
    for (int y = 0; y < i->getHeight(); ++y) for (int x = 0; x < i->getWidth(); ++x) o->setValue(x, y, 2 * c->getValue(x, y) + 1);
    return o;
  }
};
static std::shared_ptr<plugins::Factory> factory() {
  static std::shared_ptr<plugins::Factory> f;
  if (!f) {
    auto reg = plugins::registry();
    reg->registerTaskFactory<ErrorEllipseTaskFactory, ErrorEllipse>();
    reg->registerTaskFactory<HduNumberTaskFactory, HduNumber>();
    reg->registerTaskFactory<NDetectedPixelsTaskFactory, NDetectedPixels>();
    reg->registerTaskFactory<SNRRatioTaskFactory, SNRRatio>();
    reg->registerTaskFactory<WorldCentroidTaskFactory, WorldCentroid>();
    f = std::make_shared<plugins::Factory>(reg);
  }
  return f;
}
struct Scene {
  Img image, var; float gain, sat; bool filter; double bg;
  std::shared_ptr<DetectionImageFrame> frame;
  Pixels px;
  Scene(int w, int h, std::function<float(int, int)> f, std::function<float(int, int)> v, float g, bool filt, float b = 0) : image(w, h, f), var(w, h, v), gain(g), sat(1234), filter(filt), bg(b) {
    frame = std::make_shared<DetectionImageFrame>(image.img(), var.img(), 1e30f, std::make_shared<plugins::Shift>(100, -50), gain, sat, 0);
    frame->setBackgroundLevel(b);
    frame->setHduIndex(3);
    frame->setDetectionThreshold(1.5);
    if (filter) frame->setFilter(std::make_shared<Filter>());
  }
  double val(const PixelCoordinate& p) const { return image.at(p.m_x, p.m_y) - bg; }
  double fil(const PixelCoordinate& p) const { return filter ? 2 * val(p) + 1 : val(p); }
  double vari(const PixelCoordinate& p) const { return filter ? 2 * var.at(p.m_x, p.m_y) + 1 : var.at(p.m_x, p.m_y); }
  std::unique_ptr<SourceInterface> source() const {
    auto s = factory()->createSource();
    s->setProperty<PixelCoordinateList>(px); s->setProperty<DetectionFrame>(frame); s->setProperty<SourceId>();
    return s;
  }
};
static std::string show(const Scene& s) {
  std::string q = vk::str(s.image.w) + "x" + vk::str(s.image.h) + " gain " + vk::str(s.gain) + (s.filter ? " filtered" : "") + ":";
  for (auto& p : s.px) q += " " + vk::str(p.m_x) + "," + vk::str(p.m_y) + "=" + vk::str(s.fil(p)) + "~" + vk::str(s.vari(p));
  return q;
}
static void measure(vk::Run& r, Scene& s) {
  auto src = s.source();
  auto is = [&](const char* key, double got, double want, double rel = 2e-4, double abs = 2e-4) {
    if (std::isnan(want) || std::isinf(want)) return;
    r.require(vk::close(got, want, rel, abs), key, [&] { return vk::str(got) + " instead of " + vk::str(want); });
    r.seeD(std::round(got * 100));
  };
  // the order in which the properties are asked for must not matter; this one starts with the most derived
  double zp = 25;
  IsophotalFluxTask(zp).computeProperties(*src);
  auto& ee = src->getProperty<ErrorEllipse>();
  auto& iso = src->getProperty<IsophotalFlux>();
  auto& sh = src->getProperty<ShapeParameters>();
  int n = s.px.size();
  // boundaries
  int x0 = 1 << 30, y0 = 1 << 30, x1 = -1, y1 = -1;
  double lo = 1e300, hi = -1e300, sum = 0, vsum = 0, fsum = 0, mx = 0, my = 0;
  PixelCoordinate at(-1, -1);
  for (auto& p : s.px) {
    x0 = std::min(x0, p.m_x); x1 = std::max(x1, p.m_x); y0 = std::min(y0, p.m_y); y1 = std::max(y1, p.m_y);
    double f = s.fil(p);
    if (f > hi) { hi = f; at = p; }
    lo = std::min(lo, f); sum += s.val(p); vsum += s.vari(p); fsum += f; mx += f * p.m_x; my += f * p.m_y;
  }
  auto& b = src->getProperty<PixelBoundaries>();
  r.require(b.getMin() == PixelCoordinate(x0, y0) && b.getMax() == PixelCoordinate(x1, y1) && b.getWidth() == x1 - x0 + 1 && b.getHeight() == y1 - y0 + 1, "boundaries", [&] { return show({b.getMin(), b.getMax()}); });
  int hx0 = 1 << 30, hy0 = 1 << 30, hx1 = -1, hy1 = -1, above = 0; bool edge = false;
  for (auto& p : s.px) if (s.fil(p) >= hi / 2) { hx0 = std::min(hx0, p.m_x); hx1 = std::max(hx1, p.m_x); hy0 = std::min(hy0, p.m_y); hy1 = std::max(hy1, p.m_y); }
  if (hx1 >= 0) {
    auto& hb = src->getProperty<PixelBoundariesHalfMaximum>();
    r.require(hb.getMin() == PixelCoordinate(hx0, hy0) && hb.getMax() == PixelCoordinate(hx1, hy1), "half-maximum-boundaries", [&] { return show({hb.getMin(), hb.getMax()}); });
  }
  // the stamp, and the values of the pixels
  auto& st = src->getProperty<DetectionFrameSourceStamp>();
  int bx = (int)((x1 - x0) * .8) + 2, by = (int)((y1 - y0) * .8) + 2;
  PixelCoordinate a(std::max(0, x0 - bx), std::max(0, y0 - by)), z(std::min(s.image.w - 1, x1 + bx), std::min(s.image.h - 1, y1 + by));
  auto stampIs = [&](const char* key, const Image<SeFloat>& i, std::function<double(int, int)> f) {
    r.require(i.getWidth() == z.m_x - a.m_x + 1 && i.getHeight() == z.m_y - a.m_y + 1, key, [&] { return "stamp of " + vk::str(i.getWidth()) + "x" + vk::str(i.getHeight()); });
    auto c = i.getChunk(0, 0, i.getWidth(), i.getHeight());
    for (int y = 0; y < i.getHeight(); ++y) for (int x = 0; x < i.getWidth(); ++x) r.require(vk::close(c->getValue(x, y), f(x + a.m_x, y + a.m_y), 1e-5, 1e-5), key, [&] { return "stamp pixel " + vk::str(x) + "," + vk::str(y) + " is " + vk::str(c->getValue(x, y)) + " instead of " + vk::str(f(x + a.m_x, y + a.m_y)); });
  };
  auto P = [](int x, int y) { return PixelCoordinate(x, y); };
  r.require(st.getTopLeft() == a, "stamp-corner", [&] { return show({st.getTopLeft()}) + " instead of " + show({a}); });
  stampIs("stamp", st.getStamp(), [&](int x, int y) { return s.val(P(x, y)); });
  stampIs("stamp-filtered", st.getFilteredStamp(), [&](int x, int y) { return s.fil(P(x, y)); });
  stampIs("stamp-variance", st.getVarianceStamp(), [&](int x, int y) { return s.vari(P(x, y)); });
  stampIs("stamp-thresholded", st.getThresholdedStamp(), [&](int x, int y) { return s.fil(P(x, y)) - 1.5 * std::sqrt(s.vari(P(x, y))); });
  stampIs("stamp-threshold", st.getThresholdMapStamp(), [&](int x, int y) { return 1.5 * std::sqrt(s.var.at(x, y)); });
  auto& v = src->getProperty<DetectionFramePixelValues>();
  r.require((int)v.getValues().size() == n && (int)v.getFilteredValues().size() == n && (int)v.getVariances().size() == n, "pixel-count", [] { return std::string("number of values"); });
  for (int i = 0; i < n; ++i) { is("pixel-value", v.getValues()[i], s.val(s.px[i]), 1e-5, 1e-5); is("pixel-filtered", v.getFilteredValues()[i], s.fil(s.px[i]), 1e-5, 1e-5); is("pixel-variance", v.getVariances()[i], s.vari(s.px[i]), 1e-5, 1e-5); }
  auto& pk = src->getProperty<PeakValue>();
  is("peak", pk.getMaxValue(), hi, 1e-6, 1e-9); is("peak-min", pk.getMinValue(), lo, 1e-6, 1e-9);
  r.require(PixelCoordinate(pk.getMaxValueX(), pk.getMaxValueY()) == at, "peak-position", [&] { return show({PixelCoordinate(pk.getMaxValueX(), pk.getMaxValueY())}) + " instead of " + show({at}); });
  r.require(src->getProperty<NDetectedPixels>().getNDetectedPixels() == n, "detected-pixels", [&] { return vk::str((int)src->getProperty<NDetectedPixels>().getNDetectedPixels()); });
  r.require(src->getProperty<HduNumber>().getHduNumber() == 3, "hdu", [] { return std::string("HDU number"); });
  auto& info = src->getProperty<DetectionFrameInfo>();
  r.require(info.getWidth() == s.image.w && info.getHeight() == s.image.h && info.getGain() == s.gain && info.getSaturation() == s.sat && info.getHduIndex() == 3, "frame-info", [] { return std::string("frame information"); });
  // flux
  double err = std::sqrt(vsum + (s.gain > 0 ? sum / s.gain : 0));
  is("flux", iso.getFlux(), sum); is("flux-error", iso.getFluxError(), err);
  if (sum > 1e-3) { is("mag", iso.getMag(), zp - 2.5 * std::log10(sum)); is("mag-error", iso.getMagError(), 1.0857 * err / sum); }
  else if (sum < 0) r.require(std::isnan(iso.getMag()), "mag-undefined", [&] { return "magnitude " + vk::str(iso.getMag()) + " for a negative flux"; });
  if (err > 1e-3) is("snr", src->getProperty<SNRRatio>().getSNRRatio(), sum / err);
  // moments, where the total is not a difference of large numbers
  double scale = 0; for (auto& p : s.px) scale += std::fabs(s.fil(p));
  if (fsum > .05 * scale) {
    double cx = mx / fsum, cy = my / fsum;
    auto& c = src->getProperty<PixelCentroid>();
    is("centroid-x", c.getCentroidX(), cx); is("centroid-y", c.getCentroidY(), cy);
    auto& wc = src->getProperty<WorldCentroid>();
    is("world-centroid", wc.getCentroidAlpha(), cx + 100); is("world-centroid", wc.getCentroidDelta(), cy - 50);
    double xx = 0, yy = 0, xy = 0, half = (hi + lo) / 2, exx = 0, eyy = 0, exy = 0;
    for (auto& p : s.px) {
      double dx = p.m_x - cx, dy = p.m_y - cy, f = s.fil(p), w = s.vari(p);
      xx += dx * dx * f; yy += dy * dy * f; xy += dx * dy * f; exx += dx * dx * w; eyy += dy * dy * w; exy += dx * dy * w;
      above += f > half; edge = edge || std::fabs(f - half) < 1e-5 * std::fabs(hi);
    }
    xx /= fsum; yy /= fsum; xy /= fsum;
    double d = std::sqrt(.25 * (xx - yy) * (xx - yy) + xy * xy), m = (xx + yy) / 2, A = std::sqrt(m + d), B = m > d ? std::sqrt(m - d) : 0, det = xx * yy - xy * xy;
    double size = 1 + std::max(x1, y1);
    if (lo > 0) {
      is("ellipse-a", sh.getEllipseA(), A, 1e-3, 2e-3); 
      if (m - d > 1e-3) { is("ellipse-b", sh.getEllipseB(), B, 1e-3, 2e-3); is("elongation", sh.getElongation(), A / B, 5e-3, 5e-3); is("ellipticity", sh.getEllipticity(), 1 - B / A, 5e-3, 5e-3); }
      if (d > 1e-2) {  // the direction of the major axis, modulo half a turn
        double dt = sh.getEllipseTheta() - std::atan2(2 * xy, xx - yy) / 2; dt -= M_PI * std::round(dt / M_PI);
        r.require(std::fabs(dt) < 1e-2, "theta", [&] { return "theta " + vk::str(sh.getEllipseTheta()); });
      }
      if (std::fabs(det - .00694) > 1e-4 * size) {
        bool sing = det < .00694; double u = xx, w = yy;
        if (sing) { u += 1 / 12.; w += 1 / 12.; }
        double q = u * w - xy * xy;
        r.require(sh.getSinguFlag() == sing, "singular", [&] { return "singular flag with a determinant of " + vk::str(det); });
        is("cxx", sh.getEllipseCxx(), w / q, 5e-3, 2e-3); is("cyy", sh.getEllipseCyy(), u / q, 5e-3, 2e-3); is("cxy", sh.getEllipseCxy(), -2 * xy / q, 5e-3, 2e-3);
        // error ellipse
        double t2 = fsum * fsum, pxx = exx / t2, pyy = eyy / t2, pxy = exy / t2, add = vsum * .08333 / t2;
        double cmp = pxx * pyy - pxy * pxy - add * add;
        if (std::fabs(cmp) > 1e-4 * add * add || !sing) {
          if (sing && cmp < 0) { pxx += add; pyy += add; }
          double e = std::sqrt(.25 * (pxx - pyy) * (pxx - pyy) + pxy * pxy), g = .5 * (pxx + pyy);
          is("error-a", ee.getEllipseAError(), std::sqrt(g + e), 5e-3, 2e-3); 
          if (g - e > 1e-3 * g) is("error-b", ee.getEllipseBError(), std::sqrt(g - e), 2e-2, 5e-3);
          is("error-cxx", ee.getEllipseCxxError(), pxx, 1e-2, 1e-3); is("error-cyy", ee.getEllipseCyyError(), pyy, 1e-2, 1e-3); is("error-cxy", ee.getEllipseCxyError(), pxy, 1e-2, 1e-3);
          if (e > 1e-2 * g && std::fabs(pxx - pyy) > 1e-3 * g) is("error-theta", ee.getEllipseThetaError(), std::atan2(2 * pxy, std::fabs(pxx - pyy)), 1e-2, 1e-2);
        }
      }
      if (!edge && B > .03) {
        double t = lo / half, ab = (n - above > 0 ? n - above : 1) / (2 * M_PI * -std::log(t < 1 ? t : .99) * A * B);
        if (lo < hi * .999) is("abcor", sh.getAbcor(), std::min(1., ab), 1e-2, 1e-2);
      }
    }
    r.require(sh.getArea() == n, "area", [&] { return "area " + vk::str(sh.getArea()); });
    is("intensity", sh.getIntensity(), fsum);
  }
  r.nontrivial(n > 1); r.transition(n);
}
VK_SUITE(shapes) {
  // every shape in a 3x3 box, several value patterns, at places where the stamp is and is not clipped
  for (int m = 1; m < 512; ++m) for (int pattern = 0; pattern < 8; ++pattern) for (int place = 0; place < 4; ++place) {
    if (place && !r.thorough() && (m + pattern) % 3) continue;
    if (!r.next()) continue;
    int ox = place == 0 ? 0 : place == 1 ? 6 : place == 2 ? 9 : 200, oy = place == 0 ? 0 : place == 1 ? 7 : place == 2 ? 3 : 2, w = place == 2 ? 12 : ox + 9, h = oy + 3 + (place == 1 ? 8 : 0);
    auto f = [=](int x, int y) -> float {
      int i = (y - oy) * 3 + x - ox; unsigned k = vk::mix(i + 17 * pattern + 1000 * (x < ox || y < oy || x > ox + 2 || y > oy + 2));
      switch (pattern) { case 0: return 5; case 1: return 1 + i; case 2: return 1 + k % 100; case 3: return k % 7 - 3.f; case 4: return -1.f - k % 5; case 5: return .25f + (k % 3) * 1e4f; case 6: return 1 + (k % 4) * .125f; default: return k % 2 ? 0 : 12; }
    };
    Scene s(w, h, f, [=](int x, int y) { return .5f + (x * 3 + y * 5 + pattern) % 4; }, pattern % 3 ? 0 : 2.5f, pattern % 2, pattern == 6 ? -3.f : 0);
    for (int i = 0; i < 9; ++i) if (m >> i & 1) s.px.push_back(PixelCoordinate(ox + i % 3, oy + i / 3));
    if (m % 2) std::reverse(s.px.begin(), s.px.end());
    r.desc([&] { return show(s); });
    r.guarded("measure", [&] { TileManager::getInstance()->flush(); measure(r, s); });
  }
}
VK_SUITE(values) {
  const float lv[] = {1, 2, 7, 50};
  for (vk::Odo o(std::vector<int>(r.thorough() ? 8 : 6, 4)); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto v = o.v;
    Scene s(9, 7, [&](int x, int y) { int i = (x - 3) + 3 * (y - 2); return x >= 3 && x < 6 && y >= 2 && i < (int)v.size() ? lv[v[i]] : 300; }, [](int x, int y) { return 1.f + (x + y) % 2; }, 4, false);
    for (int i = 0; i < (int)v.size(); ++i) s.px.push_back(PixelCoordinate(3 + i % 3, 2 + i / 3));
    r.desc([&] { return show(s); });
    r.guarded("measure", [&] { TileManager::getInstance()->flush(); measure(r, s); });
  }
}
VK_SUITE(elongated) {
  // lines and diagonals (degenerate ellipses), long extents
  for (int l = 1; l <= (r.thorough() ? 60 : 30); ++l) for (int dir = 0; dir < 4; ++dir) for (int p = 0; p < 3; ++p) {
    if (!r.next()) continue;
    Scene s(80, 70, [&](int x, int y) { return p == 0 ? 3.f : p == 1 ? 1.f + x + y : 1.f + (x * 7 + y) % 5; }, [](int, int) { return 2.f; }, 0, false);
    for (int i = 0; i < l; ++i) s.px.push_back(dir == 0 ? PixelCoordinate(5 + i, 4) : dir == 1 ? PixelCoordinate(4, 5 + i) : dir == 2 ? PixelCoordinate(3 + i, 4 + i) : PixelCoordinate(70 - i, 4 + i));
    r.desc([&] { return show(s); });
    r.guarded("measure", [&] { TileManager::getInstance()->flush(); measure(r, s); });
  }
}
VK_SUITE(group_stamp) {
  for (vk::Odo o({4, 4, 4, 4, 3}); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto v = o.v;
    r.desc([=] { return "two sources at " + vk::str(5 * v[0]) + "," + vk::str(4 * v[1]) + " and " + vk::str(5 * v[2]) + "," + vk::str(4 * v[3]) + " of size " + vk::str(v[4] + 1); });
    r.guarded("group", [&] {
      TileManager::getInstance()->flush();
      Scene s(18, 15, [](int x, int y) { return (float)(x * 20 + y); }, [](int x, int y) { return 1.f + x + y; }, 0, true, 2);
      SimpleSourceGroup g;
      int x0 = 99, y0 = 99, x1 = -1, y1 = -1;
      for (int k = 0; k < 2; ++k) {
        s.px.clear();
        for (int i = 0; i <= v[4]; ++i) { PixelCoordinate p(5 * v[2 * k] + i, 4 * v[2 * k + 1] + i / 2); s.px.push_back(p); x0 = std::min(x0, p.m_x); x1 = std::max(x1, p.m_x); y0 = std::min(y0, p.m_y); y1 = std::max(y1, p.m_y); }
        g.addSource(s.source());
      }
      DetectionFrameGroupStampTask().computeProperties(g);
      auto& st = g.getProperty<DetectionFrameGroupStamp>();
      int bx = (int)((x1 - x0) * .8) + 2, by = (int)((y1 - y0) * .8) + 2;
      PixelCoordinate a(std::max(0, x0 - bx), std::max(0, y0 - by)), z(std::min(17, x1 + bx), std::min(14, y1 + by));
      r.require(st.getTopLeft() == a, "group-stamp-corner", [&] { return show({st.getTopLeft()}) + " instead of " + show({a}); });
      Img want(z.m_x - a.m_x + 1, z.m_y - a.m_y + 1);
      auto fill = [&](std::function<double(PixelCoordinate)> f) { for (int y = 0; y < want.h; ++y) for (int x = 0; x < want.w; ++x) want.at(x, y) = f(a + PixelCoordinate(x, y)); };
      fill([&](PixelCoordinate p) { return s.val(p); }); imageIs(r, "group-stamp", st.getStamp(), want, 1e-5, 1e-4);
      fill([&](PixelCoordinate p) { return s.vari(p); }); imageIs(r, "group-stamp-variance", st.getVarianceStamp(), want, 1e-5, 1e-4);
      fill([&](PixelCoordinate p) { return s.fil(p) - 1.5 * std::sqrt(s.vari(p)); }); imageIs(r, "group-stamp-thresholded", st.getThresholdedStamp(), want, 1e-5, 1e-3);
      r.nontrivial(true); r.transition();
    });
  }
}
