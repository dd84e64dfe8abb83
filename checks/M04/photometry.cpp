// Aperture, automatic and growth curve photometry, Kron radius, flux radius and vignets of a source in a measurement frame.
#include "common/tilecheck.h"
#include "common/plugins.h"
#include "common/affine.h"
#include "common/checkimages.h"
#include <cmath>
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Aperture/CircularAperture.h"
#include "SEFramework/Aperture/EllipticalAperture.h"
#include "SEFramework/Aperture/TransformedAperture.h"
#include "SEFramework/Aperture/FluxMeasurement.h"
#include "SEFramework/Aperture/Flagging.h"
#include "SEImplementation/Plugin/AperturePhotometry/ApertureFlag.h"
#include "SEImplementation/Plugin/AperturePhotometry/ApertureFlagTask.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometry.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArray.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArrayTask.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryTask.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometry.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryArray.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryArrayTask.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryFlag.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryFlagTask.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryTask.h"
#include "SEImplementation/Plugin/BlendedFlag/BlendedFlag.h"
#include "SEImplementation/Plugin/FluxRadius/FluxRadius.h"
#include "SEImplementation/Plugin/FluxRadius/FluxRadiusTask.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurve.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurveResampled.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurveResampledTask.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurveTask.h"
#include "SEImplementation/Plugin/Jacobian/Jacobian.h"
#include "SEImplementation/Plugin/Jacobian/JacobianTaskFactory.h"
#include "SEImplementation/Plugin/KronRadius/KronRadius.h"
#include "SEImplementation/Plugin/KronRadius/KronRadiusTask.h"
#include "SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinates.h"
#include "SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinatesTaskFactory.h"
#include "SEImplementation/Plugin/MeasurementFrameImages/MeasurementFrameImages.h"
#include "SEImplementation/Plugin/MeasurementFrameImages/MeasurementFrameImagesTaskFactory.h"
#include "SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfo.h"
#include "SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfoTaskFactory.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroid.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroidTaskFactory.h"
#include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinates.h"
#include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinatesTask.h"
#include "SEImplementation/Plugin/SaturateFlag/SaturateFlag.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEImplementation/Plugin/Vignet/Vignet.h"
#include "SEImplementation/Plugin/Vignet/VignetArray.h"
#include "SEImplementation/Plugin/Vignet/VignetArraySourceTask.h"
#include "SEImplementation/Plugin/Vignet/VignetSourceTask.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroid.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroidTaskFactory.h"

struct RefFactory : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId&) const override { return std::make_shared<ReferenceCoordinatesTask>(0, nullptr); } };
static std::shared_ptr<plugins::Factory> factory() {
  static std::shared_ptr<plugins::Factory> f;
  if (!f) {
    auto reg = plugins::registry();
    reg->registerTaskFactory<JacobianTaskFactory, JacobianSource>();
    reg->registerTaskFactory<MeasurementFrameCoordinatesTaskFactory, MeasurementFrameCoordinates>();
    reg->registerTaskFactory<MeasurementFrameImagesTaskFactory, MeasurementFrameImages>();
    reg->registerTaskFactory<MeasurementFrameInfoTaskFactory, MeasurementFrameInfo>();
    reg->registerTaskFactory<MeasurementFramePixelCentroidTaskFactory, MeasurementFramePixelCentroid>();
    reg->registerTaskFactory<WorldCentroidTaskFactory, WorldCentroid>();
    reg->registerTaskFactory<FramesFactory, MeasurementFrame>();
    reg->registerTaskFactory<RefFactory, ReferenceCoordinates>();
    f = std::make_shared<plugins::Factory>(reg);
  }
  return f;
}
typedef std::function<double(int, int)> Fun;
static const float BAD = 1e10f, LIMIT = 50.f;
// everything about one case, in plain numbers
struct Scene {
  int W = 15, H = 13, MW = 14, MH = 12;           // detection and measurement image
  std::vector<PixelCoordinate> pixels;             // of the source
  int mask = 0, crowd = 0;                         // bad pixels, neighbours
  std::shared_ptr<Affine> det, me;
  double gain = 0;
  bool symmetry = false;
  std::shared_ptr<VectorImage<float>> dimg, dvar, mimg, mvar;
  std::shared_ptr<DetectionImageFrame> dframe;
  double threshold = 3;
  bool bright(int x, int y) const { return dimg->getValue(x, y) > threshold; }   // above the threshold (unit sigma)
};
static bool bad(int mask, int x, int y) {
  switch (mask) { case 1: return x == 7 && y == 6; case 2: return (x + 2 * y) % 5 == 0; case 3: return x >= 8; default: return false; }
}
static void build(Scene& s, int shape, int place, int values) {
  const int ox[] = {7, 1, 13}, oy[] = {6, 0, 11};
  std::vector<std::pair<int, int>> d;
  if (shape == 0) d = {{0, 0}};
  if (shape == 1) for (int y = -1; y <= 1; ++y) for (int x = -1; x <= 1; ++x) d.push_back({x, y});
  if (shape == 2) d = {{-2, -1}, {-1, -1}, {-1, 0}, {0, 0}, {1, 0}, {1, 1}};
  if (shape == 3) for (int x = -3; x <= 3; ++x) d.push_back({x, 0});
  s.dimg = VectorImage<float>::create(s.W, s.H); s.dvar = VectorImage<float>::create(s.W, s.H);
  s.mimg = VectorImage<float>::create(s.MW, s.MH); s.mvar = VectorImage<float>::create(s.MW, s.MH);
  for (int y = 0; y < s.H; ++y) for (int x = 0; x < s.W; ++x) { s.dimg->setValue(x, y, .25f * ((x * 3 + y) % 4) - .3f); s.dvar->setValue(x, y, bad(s.mask, x, y) ? BAD : 1.f); }
  for (auto& p : d) { int x = ox[place] + p.first, y = oy[place] + p.second; if (x < 0 || y < 0 || x >= s.W || y >= s.H) continue; s.pixels.push_back({x, y}); s.dimg->setValue(x, y, values == 0 ? 10 : 8 + (p.first * 3 + p.second + 20) % 5 * 2.5f); }
  std::set<std::pair<int, int>> own; for (auto& p : s.pixels) own.insert({p.m_x, p.m_y});
  for (int y = 0; y < s.H; ++y) for (int x = 0; x < s.W; ++x) if (!own.count({x, y})) {
    if (s.crowd == 1 && x == ox[place] - 2 && y == oy[place] + 2) s.dimg->setValue(x, y, 6);
    if (s.crowd == 2 && (x - ox[place]) % 3 == 1) s.dimg->setValue(x, y, 7 + y % 2);
  }
  for (int y = 0; y < s.MH; ++y) for (int x = 0; x < s.MW; ++x) { s.mimg->setValue(x, y, values == 2 ? -1.5f - x % 3 : 2.f + (x * 7 + y * 5) % 11 * .75f - (y % 3)); s.mvar->setValue(x, y, bad(s.mask, x, y) ? BAD : 1.5f + (x + y) % 2); }
  auto unit = std::make_shared<Affine>(1, 0, 0, 1, 0, 0);
  Frames::frames = {std::make_shared<MeasurementImageFrame>(VectorImage<float>::create(3, 3), VectorImage<float>::create(3, 3), 1e30f, unit, 0, 0, 0),
                    std::make_shared<MeasurementImageFrame>(s.mimg, s.mvar, LIMIT, s.me, s.gain, 0, 0)};
  s.dframe = std::make_shared<DetectionImageFrame>(s.dimg, s.dvar, LIMIT, s.det, 0, 0, 0);
  s.dframe->setDetectionThreshold(s.threshold);
}
static std::unique_ptr<SourceInterface> source(const Scene& s, bool blended, bool saturated, unsigned id) {
  auto o = factory()->createSource();
  o->setProperty<PixelCoordinateList>(s.pixels); o->setProperty<DetectionFrame>(s.dframe); o->setProperty<SourceID>(id, id);
  o->setProperty<BlendedFlag>(blended); o->setIndexedProperty<SaturateFlag>(1, saturated); o->setIndexedProperty<SaturateFlag>(0, false);
  return o;
}
static bool nums(double a, double b, double rel = 2e-4, double abs = 2e-4) { return (std::isnan(a) && std::isnan(b)) || (std::isinf(a) && std::isinf(b) && a * b > 0) || vk::close(a, b, rel, abs); }
static std::shared_ptr<Aperture> moved(std::shared_ptr<Aperture> a, const Affine& det, const Affine& me) {
  double q = det.a * det.d - det.b * det.c, ia = det.d / q, ib = -det.b / q, ic = -det.c / q, id = det.a / q;
  return std::make_shared<TransformedAperture>(a, std::make_tuple(me.a * ia + me.b * ic, me.c * ia + me.d * ic, me.a * ib + me.b * id, me.c * ib + me.d * id));
}
struct Sum { double flux = 0, var = 0; };
// the sum over the pixels of an aperture, a bad pixel replaced with its mirror or nothing
static Sum sum(const Scene& s, const Aperture& a, double cx, double cy) {
  Sum o;
  auto mn = a.getMinPixel(cx, cy), mx = a.getMaxPixel(cx, cy);
  for (int y = 0; y < s.MH; ++y) for (int x = 0; x < s.MW; ++x) {
    double area = a.getArea(cx, cy, x, y);
    if (area <= 0) continue;
    if (x < mn.m_x || y < mn.m_y || x > mx.m_x || y > mx.m_y) continue;   // (the box of the aperture holds it: M01)
    if (!bad(s.mask, x, y)) { o.flux += s.mimg->getValue(x, y) * area; o.var += s.mvar->getValue(x, y) * area; continue; }
    if (!s.symmetry) continue;
    int px = (int)std::floor(2 * (float)cx - x + .49999), py = (int)std::floor(2 * (float)cy - y + .49999);
    if (px < std::max(0, mn.m_x) || py < std::max(0, mn.m_y) || px > std::min(s.MW - 1, mx.m_x) || py > std::min(s.MH - 1, mx.m_y) || bad(s.mask, px, py)) continue;
    o.flux += s.mimg->getValue(px, py) * area; o.var += s.mvar->getValue(px, py) * area;
  }
  return o;
}
struct Case { int shape, place, values, mask, crowd, map, sym, gain; };
static std::string show(const Case& c) { return "shape " + vk::str(c.shape) + " place " + vk::str(c.place) + " values " + vk::str(c.values) + " mask " + vk::str(c.mask) + " neighbours " + vk::str(c.crowd) + " map " + vk::str(c.map) + (c.sym ? " symmetric" : "") + (c.gain ? " gain" : ""); }
static Scene scene(const Case& c) {
  static const double lin[][6] = {{1, 0, 0, 1, 0, 0}, {.8, 0, 0, .8, 1.3, 1.1}, {1.2, .1, -.1, 1.1, -1.25, .5}, {0, 1, -1, 0, 1, 13}, {-1, 0, 0, 1, 13, 0}, {.8, -.1, .25, 1.2, -7, 2}};
  Scene s; s.mask = c.mask; s.crowd = c.crowd; s.symmetry = c.sym; s.gain = c.gain ? 1.7 : 0;
  s.det = c.map % 2 ? std::make_shared<Affine>(.6, .8, -.8, .6, 2, 5) : std::make_shared<Affine>(1, 0, 0, 1, 0, 0);
  auto& l = lin[c.map];
  // measurement pixel = l(detection pixel)
  double a = l[0] * s.det->a + l[1] * s.det->c, b = l[0] * s.det->b + l[1] * s.det->d, cc = l[2] * s.det->a + l[3] * s.det->c, d = l[2] * s.det->b + l[3] * s.det->d;
  s.me = std::make_shared<Affine>(a, b, cc, d, l[0] * s.det->tx + l[1] * s.det->ty + l[4], l[2] * s.det->tx + l[3] * s.det->ty + l[5]);
  build(s, c.shape, c.place, c.values);
  return s;
}
template <typename F> static void each(vk::Run& r, F f, int thin) {
  for (vk::Odo o(std::vector<int>{4, 3, 3, 4, 3, 6, 2, 2}); !o.done; o.inc()) {
    auto& v = o.v; int total = 0; for (size_t i = 0; i < v.size(); ++i) total += v[i] * (int)(i * i + 1);
    if (!r.thorough() && total % thin) continue;
    if (!r.next()) continue;
    Case c{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]};
    r.desc([=] { return show(c); });
    r.guarded("photometry", [&] { TileManager::getInstance()->flush(); checkimages::clear(); f(c, scene(c)); r.transition(); });
  }
}
static std::string set(Flags f) { std::ostringstream o; o << f; return o.str(); }
template <typename I> static void drawn(vk::Run& r, const char* key, const I& im, int id, const Aperture& a, double cx, double cy) {
  auto q = im->second;
  for (int y = 0; y < q->getHeight(); ++y) for (int x = 0; x < q->getWidth(); ++x) {
    int v = q->getValue(x, y); bool in = a.drawArea(cx, cy, x, y) > 0;
    r.require(v == 0 || (v == id && in), key, [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " of the check image is " + vk::str(v); });
  }
}
VK_SUITE(kron_and_auto) {
  const double kf[][2] = {{2.5, 3.5}, {1.2, .5}, {4, 0}};
  each(r, [&](const Case& c, const Scene& s) {
    auto o = source(s, c.shape == 1, c.place == 1, 41);
    auto& sh = o->getProperty<ShapeParameters>(); auto& pc = o->getProperty<PixelCentroid>();
    double dx = pc.getCentroidX(), dy = pc.getCentroidY();
    // Kron: first moment of the radius within six units of the ellipse, without the pixels of neighbours
    EllipticalAperture e6(sh.getEllipseCxx(), sh.getEllipseCyy(), sh.getEllipseCxy(), 6);
    std::set<std::pair<int, int>> own; for (auto& p : s.pixels) own.insert({p.m_x, p.m_y});
    double rs = 0, fs = 0, n = 0, nb = 0, nf = 0; bool border = false;
    auto mn = e6.getMinPixel(dx, dy), mx = e6.getMaxPixel(dx, dy);
    for (int y = mn.m_y; y <= mx.m_y; ++y) for (int x = mn.m_x; x <= mx.m_x; ++x) {
      double r2 = sh.getEllipseCxx() * (x - dx) * (x - dx) + sh.getEllipseCyy() * (y - dy) * (y - dy) + sh.getEllipseCxy() * (x - dx) * (y - dy);
      if (std::fabs(r2 - 36) < 1e-3) return;   // on the limit
      if (r2 >= 36) continue;
      if (x < 0 || y < 0 || x >= s.W || y >= s.H) { border = true; continue; }
      n++; bool b = bad(s.mask, x, y); nb += b;
      if (s.bright(x, y) && !b && !own.count({x, y})) { nf++; continue; }
      if (s.dimg->getValue(x, y) > s.threshold && !own.count({x, y})) {}   // a bad pixel is not above the threshold in units of its noise
      if (!b) { rs += s.dimg->getValue(x, y) * std::sqrt(std::max(0., r2)); fs += s.dimg->getValue(x, y); }
    }
    KronRadiusTask().computeProperties(*o);
    double want = fs > 0 ? rs / fs : 0; int flag = (border ? 8 : 0) | ((n > 0 && (nb / n > .1 || nf / n > .1)) ? 1 : 0);
    auto& k = o->getProperty<KronRadius>();
    r.require(nums(k.getKronRadius(), want, 1e-3), "kron-radius", [&] { return vk::str(k.getKronRadius()) + " instead of " + vk::str(want); });
    r.require((int)k.getFlag() == flag, "kron-flag", [&] { return vk::str(k.getFlag()) + " instead of " + vk::str(flag); });
    // automatic
    auto& pk = kf[(c.values + c.place + c.map) % 3];
    float rad = std::max((float)pk[0] * k.getKronRadius(), (float)pk[1]);
    auto ell = std::make_shared<EllipticalAperture>(sh.getEllipseCxx(), sh.getEllipseCyy(), sh.getEllipseCxy(), rad);
    auto aper = moved(ell, *s.det, *s.me);
    auto w = s.me->worldToImage(s.det->imageToWorld(ImageCoordinate(dx, dy)));
    for (int y = 0; y < s.MH; ++y) for (int x = 0; x < s.MW; ++x) if (std::fabs(aper->getRadiusSquared(w.m_x, w.m_y, x, y) - rad * rad) < 1e-3 * (1 + rad * rad)) return;
    if (c.shape % 2) checkimages::auto_aperture[1] = VectorImage<int>::create(s.MW, s.MH);
    AutoPhotometryFlagTask(pk[0], pk[1]).computeProperties(*o);
    auto df = computeFlags(ell, dx, dy, s.pixels, s.dimg, s.dvar, s.dframe->getImage(LayerThresholdedImage), LIMIT);
    r.require(o->getProperty<AutoPhotometryFlag>().getFlags() == df, "auto-detection-flags", [&] { return set(o->getProperty<AutoPhotometryFlag>().getFlags()) + " instead of " + set(df); });
    AutoPhotometryTask(1, 25.5f, pk[0], pk[1], s.symmetry).computeProperties(*o);
    auto& a = o->getProperty<AutoPhotometry>(1);
    auto m = sum(s, *aper, w.m_x, w.m_y);
    double err = std::sqrt(m.var + (s.gain > 0 ? m.flux / s.gain : 0)), mag = m.flux > 0 ? 25.5 - 2.5 * std::log10(m.flux) : NAN;
    if (std::fabs(m.flux) < 1e-3 && m.flux != 0) return;
    r.require(nums(a.getFlux(), m.flux), "auto-flux", [&] { return vk::str(a.getFlux()) + " instead of " + vk::str(m.flux); });
    r.require(nums(a.getFluxError(), err), "auto-flux-error", [&] { return vk::str(a.getFluxError()) + " instead of " + vk::str(err); });
    r.require(nums(a.getMag(), mag, 1e-3), "auto-mag", [&] { return vk::str(a.getMag()) + " instead of " + vk::str(mag); });
    r.require(nums(a.getMagError(), 1.0857 * err / m.flux, 1e-3), "auto-mag-error", [&] { return vk::str(a.getMagError()) + " instead of " + vk::str(1.0857 * err / m.flux); });
    auto mf = measureFlux(aper, w.m_x, w.m_y, s.mimg, s.mvar, LIMIT, s.symmetry).m_flags | df;
    if (c.shape == 1) mf |= Flags::BLENDED; if (c.place == 1) mf |= Flags::SATURATED;
    r.require(a.getFlags() == mf, "auto-flags", [&] { return set(a.getFlags()) + " instead of " + set(mf); });
    if (c.shape % 2) drawn(r, "auto-check-image", checkimages::auto_aperture.find(1), 41, *aper, w.m_x, w.m_y);
    o->setIndexedProperty<AutoPhotometry>(5, 1.f, 2.f, 3.f, 4.f, Flags::OUTSIDE);
    AutoPhotometryArrayTask({5, 1, 5}).computeProperties(*o);
    auto& arr = o->getProperty<AutoPhotometryArray>();
    r.require(arr.getFluxes().size() == 3 && arr.getFluxes()[0] == 1 && nums(arr.getFluxes()[1], a.getFlux()) && arr.getFluxErrors()[2] == 2 && nums(arr.getFluxErrors()[1], a.getFluxError()) && nums(arr.getMags()[1], a.getMag()) && arr.getMags()[0] == 3 && nums(arr.getMagErrors()[1], a.getMagError()) && arr.getMagErrors()[2] == 4 && arr.getFlags() == std::vector<Flags>({Flags::OUTSIDE, a.getFlags(), Flags::OUTSIDE}), "auto-array", [] { return std::string("the columns differ from the measurements"); });
    r.seeD(a.getFlux()); r.nontrivial(m.flux != 0);
  }, 1);
}
VK_SUITE(apertures) {
  each(r, [&](const Case& c, const Scene& s) {
    auto o = source(s, c.shape == 2, c.place == 2, 17);
    std::vector<SeFloat> diam = c.shape == 0 ? std::vector<SeFloat>{2.5f} : c.shape == 1 ? std::vector<SeFloat>{4.5f, 1.25f, 7.f} : std::vector<SeFloat>{3.f, 5.f};
    auto& pc = o->getProperty<PixelCentroid>(); double dx = pc.getCentroidX(), dy = pc.getCentroidY();
    auto w = s.me->worldToImage(s.det->imageToWorld(ImageCoordinate(dx, dy)));
    bool check = c.values == 1; if (check) checkimages::aperture[1] = VectorImage<int>::create(s.MW, s.MH);
    std::vector<Flags> dflags;
    auto all = diam; all.push_back(2.f);
    bool with = c.place != 1;   // without detection flags otherwise
    for (auto d : diam) dflags.push_back(with ? computeFlags(std::make_shared<CircularAperture>(d / 2.), dx, dy, s.pixels, s.dimg, s.dvar, s.dframe->getImage(LayerThresholdedImage), LIMIT) : Flags::NONE);
    if (with) {
      ApertureFlagTask(all).computeProperties(*o);
      auto& got = o->getProperty<ApertureFlag>().getFlags();
      r.require(got.size() == std::set<SeFloat>(all.begin(), all.end()).size(), "aperture-detection-flags", [] { return std::string("number of apertures"); });
      for (size_t i = 0; i < diam.size(); ++i) r.require(got.at(diam[i]) == dflags[i], "aperture-detection-flags", [&] { return set(got.at(diam[i])) + " instead of " + set(dflags[i]); });
    }
    AperturePhotometryTask(diam, 1, -3.f, s.symmetry).computeProperties(*o);
    auto& a = o->getProperty<AperturePhotometry>(1);
    r.require(a.getFluxes().size() == diam.size() && a.getFluxErrors().size() == diam.size() && a.getMags().size() == diam.size() && a.getMagErrors().size() == diam.size() && a.getFlags().size() == diam.size(), "aperture-number", [] { return std::string("number of apertures"); });
    std::vector<std::shared_ptr<Aperture>> aps;
    for (size_t i = 0; i < diam.size(); ++i) {
      auto ap = moved(std::make_shared<CircularAperture>(diam[i] / 2.), *s.det, *s.me); aps.push_back(ap);
      auto m = sum(s, *ap, w.m_x, w.m_y);
      double err = std::sqrt(m.var + (s.gain > 0 ? m.flux / s.gain : 0)), mag = m.flux > 0 ? -3 - 2.5 * std::log10(m.flux) : NAN;
      if (std::fabs(m.flux) < 1e-2 && m.flux != 0) continue;
      // a sample of the circle may fall on either side of its edge, by rounding
      auto tell = [&](const char* w, double g, double e) { return "diameter " + vk::str(diam[i]) + " " + w + " " + vk::str(g) + " instead of " + vk::str(e); };
      double tol = .15;
      r.require(nums(a.getFluxes()[i], m.flux, 1e-3, tol), "aperture-flux", [&] { return tell("flux", a.getFluxes()[i], m.flux); });
      r.require(nums(a.getFluxErrors()[i], err, 1e-2, .02) || std::isnan(err) || err < .5, "aperture-flux-error", [&] { return tell("error", a.getFluxErrors()[i], err); });
      float f = a.getFluxes()[i], fe = a.getFluxErrors()[i];
      r.require(nums(a.getMags()[i], f > 0 ? -3 - 2.5 * std::log10(f) : NAN, 1e-4), "aperture-mag", [&] { return tell("magnitude", a.getMags()[i], mag); });
      r.require(nums(a.getMagErrors()[i], 1.0857 * fe / f, 1e-4), "aperture-mag-error", [&] { return tell("magnitude error", a.getMagErrors()[i], 1.0857 * err / m.flux); });
      auto mf = measureFlux(ap, w.m_x, w.m_y, s.mimg, s.mvar, LIMIT, s.symmetry).m_flags | dflags[i];
      if (c.shape == 2) mf |= Flags::BLENDED; if (c.place == 2) mf |= Flags::SATURATED;
      r.require(a.getFlags()[i] == mf, "aperture-flags", [&] { return "diameter " + vk::str(diam[i]) + " " + set(a.getFlags()[i]) + " instead of " + set(mf); });
      r.seeD(a.getFluxes()[i]);
    }
    if (check) {
      auto q = checkimages::aperture[1];
      for (int y = 0; y < s.MH; ++y) for (int x = 0; x < s.MW; ++x) { int v = q->getValue(x, y); bool in = false; for (auto& ap : aps) in = in || ap->drawArea(w.m_x, w.m_y, x, y) > 0; r.require(v == 0 || (v == 17 && in), "aperture-check-image", [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " is " + vk::str(v); }); }
    }
    o->setIndexedProperty<AperturePhotometry>(4, std::vector<SeFloat>{1, 2}, std::vector<SeFloat>{3, 4}, std::vector<SeFloat>{5, 6}, std::vector<SeFloat>{7, 8}, std::vector<Flags>{Flags::NONE, Flags::OUTSIDE});
    if (diam.size() == 2) {
      AperturePhotometryArrayTask({4, 1}, 3).computeProperties(*o);
      auto& arr = o->getProperty<AperturePhotometryArray>(3);
      auto same = [&](const Euclid::NdArray::NdArray<SeFloat>& n, float b, const std::vector<SeFloat>& v) { return n.shape() == std::vector<size_t>({2, 2}) && n.at(0, 0) == b && n.at(0, 1) == b + 1 && nums(n.at(1, 0), v[0]) && nums(n.at(1, 1), v[1]); };
      r.require(same(arr.getFluxes(), 1, a.getFluxes()) && same(arr.getFluxErrors(), 3, a.getFluxErrors()) && same(arr.getMags(), 5, a.getMags()) && same(arr.getMagErrors(), 7, a.getMagErrors()) && arr.getFlags().at(0, 1) == flags2long(Flags::OUTSIDE) && arr.getFlags().at(1, 0) == flags2long(a.getFlags()[0]), "aperture-array", [] { return std::string("the columns differ from the measurements"); });
    }
    r.nontrivial();
  }, 1);
}
VK_SUITE(growth_curve) {
  each(r, [&](const Case& c, const Scene& s) {
    auto o = source(s, false, false, 3);
    auto& pc = o->getProperty<PixelCentroid>(); auto& sh = o->getProperty<ShapeParameters>();
    float kron = c.place == 0 ? 9.f : 1.f;
    o->setProperty<KronRadius>(kron, 0);
    auto w = s.me->worldToImage(s.det->imageToWorld(ImageCoordinate(pc.getCentroidX(), pc.getCentroidY())));
    GrowthCurveTask(1, s.symmetry).computeProperties(*o);
    auto& g = o->getProperty<GrowthCurve>(1);
    // the radius of the largest step: that of the farther axis of a circle of six times the size of the source, in the frame
    double q = s.det->a * s.det->d - s.det->b * s.det->c, R = std::max(6. * sh.getEllipseA(), (double)kron);
    double ia = s.det->d / q, ib = -s.det->b / q, ic = -s.det->c / q, id = s.det->a / q;
    double u = std::hypot(s.me->a * ia + s.me->b * ic, s.me->c * ia + s.me->d * ic), v = std::hypot(s.me->a * ib + s.me->b * id, s.me->c * ib + s.me->d * id), rlim = R * std::max(u, v);
    r.require(vk::close(g.getMax(), rlim, 1e-4, 1e-4) && g.getCurve().size() == 64 && vk::close(g.getStepSize() * 64, g.getMax(), 1e-9, 1e-9), "growth-range", [&] { return "up to " + vk::str(g.getMax()) + " instead of " + vk::str(rlim); });
    double top = 1;
    std::vector<double> want(64);
    for (int k = 0; k < 64; ++k) {
      CircularAperture ap(g.getStepSize() * (k + 1));
      double f = 0;
      for (int y = 0; y < s.MH; ++y) for (int x = 0; x < s.MW; ++x) {
        double area = ap.getArea(w.m_x, w.m_y, x, y);
        if (area <= 0) continue;
        double val = 0;
        if (!bad(s.mask, x, y)) val = s.mimg->getValue(x, y);
        else if (s.symmetry) {
          double px = 2 * (float)w.m_x - x + .49999, py = 2 * (float)w.m_y - y + .49999;
          if (px >= 0 && py >= 0 && px < s.MW && py < s.MH && !bad(s.mask, (int)px, (int)py)) val = s.mimg->getValue((int)px, (int)py);
        }
        f += area * val;
      }
      want[k] = f; top = std::max(top, std::fabs(f));
    }
    for (int k = 0; k < 64; ++k) r.require(std::fabs(g.getCurve()[k] - want[k]) < .2 + 1e-4 * top, "growth-curve", [&] { return "step " + vk::str(k) + " is " + vk::str(g.getCurve()[k]) + " instead of " + vk::str(want[k]); });
    r.require(vk::close(g.getCurve()[63], want[63], 1e-3, .2), "growth-total", [&] { return vk::str(g.getCurve()[63]) + " instead of " + vk::str(want[63]); });
    // resampled
    o->setIndexedProperty<GrowthCurve>(2, std::vector<double>{1, 5, 6, 6.5}, 8.);
    for (size_t n : {1u, 3u, 4u, 8u, 70u}) {
      GrowthCurveResampledTask({2, 1}, n).computeProperties(*o);
      auto& p = o->getProperty<GrowthCurveResampled>();
      for (int i = 0; i < 2; ++i) for (size_t k = 0; k < n; ++k) {
        auto& cv = o->getProperty<GrowthCurve>(i ? 1 : 2); double x = (k + 1) * cv.getMax() / n / cv.getStepSize() - 1; int j = std::min<int>(std::max(0., std::floor(x)), cv.getCurve().size() - 2);
        double e = cv.getCurve()[j] + (x - j) * (cv.getCurve()[j + 1] - cv.getCurve()[j]);
        r.require(nums(p.getSamples().at(i, k), e, 1e-4, 1e-3), "growth-resampled", [&] { return "sample " + vk::str(k) + " of " + vk::str(n) + " is " + vk::str(p.getSamples().at(i, k)) + " instead of " + vk::str(e); });
      }
    }
    r.seeD(want[63]); r.nontrivial(want[63] != 0);
  }, 2);
}
VK_SUITE(flux_radius) {
  // every curve of four or five steps of these values
  const double val[] = {-2, 0, 1, 3, 4};
  for (int n = 1; n <= (r.thorough() ? 6 : 5); ++n) for (vk::Odo o(std::vector<int>(n, 5)); !o.done; o.inc()) {
    if (!r.next()) continue;
    std::vector<double> c; for (int k : o.v) c.push_back(val[k]);
    r.desc([&] { return "curve " + vk::strv(c); });
    r.guarded("radius", [&] {
      SimpleSource s; auto c2 = c; c2.back() += 1.5;
      s.setIndexedProperty<GrowthCurve>(3, std::vector<double>(c), n * 1.5); s.setIndexedProperty<GrowthCurve>(1, std::vector<double>(c2), n * .5);
      std::vector<SeFloat> frac{.5f, .25f, 1.f, .125f};
      FluxRadiusTask({1, 3}, frac).computeProperties(s);
      auto& rad = s.getProperty<FluxRadius>().getFluxRadius();
      for (int i = 0; i < 2; ++i) for (size_t j = 0; j < frac.size(); ++j) {
        auto& q = i ? c : c2; double st = i ? 1.5 : .5, t = q.back() * frac[j];
        if (!(q.back() > 0)) continue;
        int k = 0; while (q[k] < t) ++k;      // the first step with this flux
        double lo = k ? q[k - 1] : 0, want = std::min(st * n, st * (k + (t - lo) / (q[k] - lo)));
        r.require(nums(rad.at(i, j), want, 1e-4, 1e-4), "flux-radius", [&] { return "radius of " + vk::str(frac[j]) + " is " + vk::str(rad.at(i, j)) + " instead of " + vk::str(want); });
        r.seeD(want); r.transition();
      }
      r.nontrivial(c.back() > 0);
    });
  }
}
VK_SUITE(vignets) {
  each(r, [&](const Case& c, const Scene& s) {
    auto o = source(s, false, false, 3);
    o->setIndexedProperty<MeasurementFrameCoordinates>(1, s.me);
    auto& pc = o->getProperty<MeasurementFramePixelCentroid>(1);
    std::set<std::pair<int, int>> own; for (auto& p : s.pixels) own.insert({p.m_x, p.m_y});
    for (auto size : {std::array<int, 2>{1, 1}, std::array<int, 2>{4, 3}, std::array<int, 2>{9, 8}}) {
      VignetSourceTask(1, size, -77).computeProperties(*o);
      auto& v = o->getProperty<Vignet>(1).getVignet();
      r.require(v.getWidth() == size[0] && v.getHeight() == size[1], "vignet-size", [&] { return vk::str(v.getWidth()) + "x" + vk::str(v.getHeight()); });
      if (pc.getCentroidX() < -.5 || pc.getCentroidY() < -.5) continue;
      int x0 = (int)std::floor(pc.getCentroidX() + .5) - size[0] / 2, y0 = (int)std::floor(pc.getCentroidY() + .5) - size[1] / 2;
      for (int y = 0; y < size[1]; ++y) for (int x = 0; x < size[0]; ++x) {
        int ix = x0 + x, iy = y0 + y; double want = -77; bool skip = false;
        if (ix >= 0 && iy >= 0 && ix < s.MW && iy < s.MH && !bad(s.mask, ix, iy)) {
          auto d = s.det->worldToImage(s.me->imageToWorld(ImageCoordinate(ix, iy)));
          int px = (int)std::floor(d.m_x + .5), py = (int)std::floor(d.m_y + .5);
          skip = d.m_x < -.4 || d.m_y < -.4 || std::fabs(d.m_x + .5 - std::round(d.m_x + .5)) < 1e-6 || std::fabs(d.m_y + .5 - std::round(d.m_y + .5)) < 1e-6;   // (on the edge of a pixel)
          bool other = px >= 0 && py >= 0 && px < s.W && py < s.H && s.bright(px, py) && !bad(s.mask, px, py) && !own.count({px, py});
          if (!other) want = s.mimg->getValue(ix, iy);
        }
        if (!skip) r.require(v.getValue(x, y) == (float)want, "vignet", [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " of " + vk::str(size[0]) + "x" + vk::str(size[1]) + " is " + vk::str(v.getValue(x, y)) + " instead of " + vk::str(want); });
      }
      r.seeD(v.getValue(0, 0)); r.nontrivial();
    }
    o->setIndexedProperty<Vignet>(2, VectorImage<float>::create(9, 8, std::vector<float>(72, 5.f)));
    VignetArraySourceTask({2, 1}).computeProperties(*o);
    auto& a = o->getProperty<VignetArray>().getVignets();
    r.require(a.shape() == std::vector<size_t>({2, 9, 8}) && a.at(0, 3, 4) == 5 && a.at(1, 7, 2) == o->getProperty<Vignet>(1).getVignet().getValue(7, 2), "vignet-array", [] { return std::string("the array differs from the vignets"); });
  }, 2);
}
