// Measurement frames: rectangles, coordinates, Jacobians and flags of a source in frames with other coordinate systems.
#include "common/tilecheck.h"
#include "common/plugins.h"
#include "common/affine.h"
#include <cmath>
#include <sstream>
#include "SEFramework/Property/PropertyNotFoundException.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/Source/SourceFlags.h"
#include "SEImplementation/Plugin/BlendedFlag/BlendedFlag.h"
#include "SEImplementation/Plugin/BlendedFlag/BlendedFlagTaskFactory.h"
#include "SEImplementation/Plugin/BoundaryFlag/BoundaryFlag.h"
#include "SEImplementation/Plugin/BoundaryFlag/BoundaryFlagTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStamp.h"
#include "SEImplementation/Plugin/Jacobian/Jacobian.h"
#include "SEImplementation/Plugin/Jacobian/JacobianTask.h"
#include "SEImplementation/Plugin/Jacobian/JacobianTaskFactory.h"
#include "SEImplementation/Plugin/MeasurementFrame/MeasurementFrame.h"
#include "SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinates.h"
#include "SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinatesTaskFactory.h"
#include "SEImplementation/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangle.h"
#include "SEImplementation/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangleTask.h"
#include "SEImplementation/Plugin/MeasurementFrameImages/MeasurementFrameImages.h"
#include "SEImplementation/Plugin/MeasurementFrameImages/MeasurementFrameImagesTaskFactory.h"
#include "SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfo.h"
#include "SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfoTaskFactory.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroid.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroidTaskFactory.h"
#include "SEImplementation/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangle.h"
#include "SEImplementation/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTask.h"
#include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinates.h"
#include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinatesTask.h"
#include "SEImplementation/Plugin/SaturateFlag/SaturateFlag.h"
#include "SEImplementation/Plugin/SaturateFlag/SaturateFlagTaskFactory.h"
#include "SEImplementation/Plugin/SourceFlags/SourceFlags.h"
#include "SEImplementation/Plugin/SourceFlags/SourceFlagsSourceTask.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroid.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroidTaskFactory.h"
using namespace SourceXtractor;

struct RectFactory : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId& p) const override { return std::make_shared<MeasurementFrameRectangleTask>(p.getIndex()); } };
struct FlagsFactory : TaskFactory { static std::map<std::string, std::vector<unsigned>> groups; std::shared_ptr<Task> createTask(const PropertyId&) const override { return std::make_shared<SourceFlagsSourceTask>(groups); } };
std::map<std::string, std::vector<unsigned>> FlagsFactory::groups;
static std::shared_ptr<plugins::Factory> factory() {
  static std::shared_ptr<plugins::Factory> f;
  if (!f) {
    auto reg = plugins::registry();
    reg->registerTaskFactory<BlendedFlagTaskFactory, BlendedFlag>();
    reg->registerTaskFactory<BoundaryFlagTaskFactory, BoundaryFlag>();
    reg->registerTaskFactory<SaturateFlagTaskFactory, SaturateFlag>();
    reg->registerTaskFactory<JacobianTaskFactory, JacobianSource>();
    reg->registerTaskFactory<MeasurementFrameCoordinatesTaskFactory, MeasurementFrameCoordinates>();
    reg->registerTaskFactory<MeasurementFrameImagesTaskFactory, MeasurementFrameImages>();
    reg->registerTaskFactory<MeasurementFrameInfoTaskFactory, MeasurementFrameInfo>();
    reg->registerTaskFactory<MeasurementFramePixelCentroidTaskFactory, MeasurementFramePixelCentroid>();
    reg->registerTaskFactory<WorldCentroidTaskFactory, WorldCentroid>();
    reg->registerTaskFactory<FramesFactory, MeasurementFrame>();
    reg->registerTaskFactory<RectFactory, MeasurementFrameRectangle>();
    reg->registerTaskFactory<FlagsFactory, SourceFlags>();
    f = std::make_shared<plugins::Factory>(reg);
  }
  return f;
}
struct Rect { int x0 = -1, y0 = -1, x1 = -1, y1 = -1; bool bad = false, empty = true; };
static Rect project(const Affine& det, const Affine& me, double x, double y, double w, double h, int W, int H) {
  Rect q; double lx = 1e300, ly = 1e300, hx = -1e300, hy = -1e300;
  for (int k = 0; k < 4; ++k) {
    auto wc = det.imageToWorld(ImageCoordinate(x + (k & 1 ? w : 0), y + (k & 2 ? h : 0)));
    if (wc.m_alpha > me.limit) { q.bad = true; return q; }
    auto i = me.worldToImage(wc);
    lx = std::min(lx, i.m_x); hx = std::max(hx, i.m_x); ly = std::min(ly, i.m_y); hy = std::max(hy, i.m_y);
  }
  // the pixels the box touches, with the pixel after its end, within the frame
  q.x0 = (int)lx; q.y0 = (int)ly; q.x1 = (int)hx + 1; q.y1 = (int)hy + 1;
  if (q.x1 < 0 || q.y1 < 0 || q.x0 >= W || q.y0 >= H) return q;
  q.empty = false;
  q.x0 = std::max(0, q.x0); q.y0 = std::max(0, q.y0); q.x1 = std::min(W - 1, q.x1); q.y1 = std::min(H - 1, q.y1);
  return q;
}
template <typename R> static void rectIs(vk::Run& r, const char* key, const R& got, const Rect& want) {
  r.require(got.badProjection() == want.bad, key, [&] { return std::string(want.bad ? "a failed projection is not reported" : "a failed projection is reported"); });
  if (want.empty || want.bad) r.require(got.getWidth() == 0 && got.getHeight() == 0, key, [&] { return "not empty: " + vk::str(got.getWidth()) + "x" + vk::str(got.getHeight()); });
  else r.require(got.getWidth() == want.x1 - want.x0 + 1 && got.getHeight() == want.y1 - want.y0 + 1 && got.getTopLeft() == PixelCoordinate(want.x0, want.y0) && got.getBottomRight() == PixelCoordinate(want.x1, want.y1), key,
                 [&] { return "from " + vk::str(got.getTopLeft().m_x) + "," + vk::str(got.getTopLeft().m_y) + " to " + vk::str(got.getBottomRight().m_x) + "," + vk::str(got.getBottomRight().m_y) + " instead of " + vk::strv(std::vector<int>{want.x0, want.y0, want.x1, want.y1}); });
}
VK_SUITE(frames) {
  struct { double a, b, c, d; } lin[] = {{1, 0, 0, 1}, {0, 1, -1, 0}, {.5, 0, 0, .5}, {2, 0, 0, 2}, {.8, -.6, .6, .8}, {-1, 0, 0, 1}, {-1, 0, 0, -1}, {.6, .8, -.8, .6}, {-.8, .6, .6, .8}, {0, -1, 1, 0}, {-.6, -.8, -.8, .6}};
  const int W = 14, H = 11;
  int step = r.thorough() ? 3 : 7;
  const double detrot[][4] = {{1, 0, 0, 1}, {.6, .8, -.8, .6}};
  for (int dr = 0; dr < 2; ++dr) for (auto& l : lin) for (int tx = -25; tx <= 25; tx += step) for (int ty = -22; ty <= 22; ty += step) for (int size = 0; size < 4; ++size) for (int sat = 0; sat < 4; ++sat) for (int lim = 0; lim < 2; ++lim) {
    if ((sat + size + lim) % 2 && !r.thorough()) continue;
    if (!r.next()) continue;
    r.desc([=] { return "matrix " + vk::strv(std::vector<double>{l.a, l.b, l.c, l.d}) + " shift " + vk::str(tx) + "," + vk::str(ty) + ", source size " + vk::str(size) + ", saturation " + vk::str(sat) + (lim ? ", limited projection" : "") + (dr ? ", rotated detection frame" : ""); });
    r.guarded("frame", [&] {
      TileManager::getInstance()->flush();
      auto det = std::make_shared<Affine>(detrot[dr][0], detrot[dr][1], detrot[dr][2], detrot[dr][3], 3, -2);
      auto me = std::make_shared<Affine>(l.a, l.b, l.c, l.d, tx + .25, ty + .375, lim ? 6.5 : 1e9);
      auto im = [](int x, int y) { return (float)((x * 5 + y * 3) % 11); };
      Img mi(W, H, im), di(20, 16, [](int x, int y) { return 5.f + (x + y) % 3; }), v(W, H, [](int, int) { return 1.f; });
      double satv = sat == 0 ? 0 : sat == 1 ? 10 : sat == 2 ? 10.5 : -1;
      Frames::frames = {std::make_shared<MeasurementImageFrame>(v.img(), v.img(), 1e30f, std::make_shared<Affine>(1, 0, 0, 1, 0, 0), 1, 0, 0),
                        std::make_shared<MeasurementImageFrame>(mi.img(), v.img(), 77.f, me, 2.5, satv, 0)};
      FlagsFactory::groups = {{"all", {0, 1}}, {"first", {0}}, {"none", {}}, {"second", {1}}};
      auto df = std::make_shared<DetectionImageFrame>(di.img(), di.img(), 1e30f, det, 0, 0, 0);
      auto s = factory()->createSource();
      std::vector<PixelCoordinate> px; int ox = 8, oy = 5, ww = 1 + size * 2, hh = 1 + size;
      for (int y = 0; y < hh; ++y) for (int x = 0; x < ww; ++x) px.push_back(PixelCoordinate(ox + x, oy + y));
      s->setProperty<PixelCoordinateList>(px); s->setProperty<DetectionFrame>(df);
      bool blended = size % 2;
      if (blended) s->setProperty<SourceId>(0u); else s->setProperty<SourceId>();
      // flags
      Rect q = project(*det, *me, ox, oy, ww, hh, W, H), q0 = project(*det, Affine(1, 0, 0, 1, 0, 0), ox, oy, ww, hh, W, H);
      auto flagsOf = [&](const Rect& a, bool second) {
        Flags f = blended ? Flags::BLENDED : Flags::NONE;
        if (a.bad) f |= Flags::BAD_PROJECTION;
        if (!a.bad && !a.empty) {
          if (a.x0 <= 0 || a.y0 <= 0 || a.x1 >= W - 1 || a.y1 >= H - 1) f |= Flags::BOUNDARY;
          if (second && satv > 0) for (int y = a.y0; y <= a.y1; ++y) for (int x = a.x0; x <= a.x1; ++x) if (im(x, y) >= satv) f |= Flags::SATURATED;
        }
        return f;
      };
      auto got = s->getProperty<SourceFlags>().getSourceFlags();
      std::vector<Flags> want{flagsOf(q0, false) | flagsOf(q, true), flagsOf(q0, false), Flags::NONE, flagsOf(q, true)};   // in the order of the names
      auto str = [](const std::vector<Flags>& v) { std::ostringstream o; for (auto f : v) o << f << " "; return o.str(); };
      r.require(got == want, "flags", [&] { return str(got) + "instead of " + str(want); });
      for (auto f : got) r.see(flags2long(f));
      rectIs(r, "rectangle", s->getProperty<MeasurementFrameRectangle>(1), q);
      rectIs(r, "rectangle", s->getProperty<MeasurementFrameRectangle>(0), q0);
      r.require(s->getProperty<BlendedFlag>().getBlendedFlag() == blended, "blended", [] { return std::string("blended flag"); });
      r.require(s->getProperty<SaturateFlag>(1).getSaturateFlag() == ((flagsOf(q, true) & Flags::SATURATED) != Flags::NONE), "saturated", [] { return std::string("saturated flag"); });
      r.require(s->getProperty<BoundaryFlag>(1).getBoundaryFlag() == ((flagsOf(q, true) & Flags::BOUNDARY) != Flags::NONE), "boundary", [] { return std::string("boundary flag"); });
      auto& info = s->getProperty<MeasurementFrameInfo>(1);
      r.require(info.getWidth() == W && info.getHeight() == H && info.getGain() == 2.5 && info.getSaturation() == (float)satv && info.getVarianceThreshold() == 77, "info", [] { return std::string("information of the frame"); });
      auto& imgs = s->getProperty<MeasurementFrameImages>(1);
      auto ch = imgs.getImageChunk(LayerOriginalImage, 2, 3, 4, 5);
      for (int y = 0; y < 5; ++y) for (int x = 0; x < 4; ++x) r.require(ch->getValue(x, y) == im(x + 2, y + 3), "images", [] { return std::string("image of the frame"); });
      r.require(imgs.getWidth() == W && imgs.getHeight() == H, "images", [] { return std::string("size of the image"); });
      // centroid
      auto& c = s->getProperty<PixelCentroid>();
      auto wc = det->imageToWorld(ImageCoordinate(c.getCentroidX(), c.getCentroidY()));
      auto& w = s->getProperty<WorldCentroid>();
      r.require(vk::close(w.getCentroidAlpha(), wc.m_alpha, 1e-6, 1e-6) && vk::close(w.getCentroidDelta(), wc.m_delta, 1e-6, 1e-6), "world-centroid", [] { return std::string("world centroid"); });
      auto& pc = s->getProperty<MeasurementFramePixelCentroid>(1);
      bool bad = wc.m_alpha > me->limit;
      r.require(pc.badProjection() == bad, "pixel-centroid-projection", [&] { return std::string("failed projection of the centroid"); });
      if (!bad) { auto e = me->worldToImage(wc); r.require(vk::close(pc.getCentroidX(), e.m_x, 1e-5, 1e-4) && vk::close(pc.getCentroidY(), e.m_y, 1e-5, 1e-4), "pixel-centroid", [&] { return vk::str(pc.getCentroidX()) + "," + vk::str(pc.getCentroidY()) + " instead of " + vk::str(e.m_x) + "," + vk::str(e.m_y); }); }
      else r.require(pc.getCentroidX() == -1 && pc.getCentroidY() == -1, "pixel-centroid", [] { return std::string("centroid without projection"); });
      // reference coordinates: the detection frame's, else the given one, else those of the first measurement frame
      ReferenceCoordinatesTask(0, nullptr).computeProperties(*s);
      r.require(s->getProperty<ReferenceCoordinates>().getCoordinateSystem() == det, "reference-detection", [] { return std::string("not the coordinates of the detection frame"); });
      {
        auto n = factory()->createSource();
        auto other = std::make_shared<Affine>(1, 0, 0, 1, 9, 9);
        ReferenceCoordinatesTask(0, other).computeProperties(*n);
        r.require(n->getProperty<ReferenceCoordinates>().getCoordinateSystem() == other, "reference-given", [] { return std::string("not the given coordinates"); });
        auto m = factory()->createSource();
        ReferenceCoordinatesTask(0, nullptr).computeProperties(*m);
        r.require(m->getProperty<ReferenceCoordinates>().getCoordinateSystem() == Frames::frames[0]->getCoordinateSystem(), "reference-measurement", [] { return std::string("not the coordinates of the first measurement frame"); });
      }
      // Jacobian: images of the unit steps of the reference frame
      auto J = [&](const std::tuple<double, double, double, double>& t) {
        double ia = detrot[dr][3], ib = -detrot[dr][1], ic = -detrot[dr][2], id = detrot[dr][0];   // inverse of the rotation of the detection frame
        double w4[] = {l.a * ia + l.b * ic, l.c * ia + l.d * ic, l.a * ib + l.b * id, l.c * ib + l.d * id};
        double g4[] = {std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)};
        for (int k = 0; k < 4; ++k) r.require(vk::close(g4[k], w4[k], 1e-6, 1e-6), "jacobian", [&] { return "element " + vk::str(k) + " is " + vk::str(g4[k]) + " instead of " + vk::str(w4[k]); });
      };
      if (!lim) J(s->getProperty<JacobianSource>(1).asTuple());
      // the group
      SimpleSourceGroup g; g.addSource(std::move(s));
      int gx = ox - 3, gy = oy - 2, gw = ww + 7, gh = hh + 5;
      g.setProperty<DetectionFrameGroupStamp>(VectorImage<SeFloat>::create(gw, gh), VectorImage<SeFloat>::create(gw, gh), PixelCoordinate(gx, gy), VectorImage<SeFloat>::create(gw, gh));
      MeasurementFrameGroupRectangleTask(1).computeProperties(g);
      rectIs(r, "group-rectangle", g.getProperty<MeasurementFrameGroupRectangle>(1), project(*det, *me, gx, gy, gw, gh, W, H));
      if (!lim) { JacobianGroupTask(1).computeProperties(g); J(g.getProperty<JacobianGroup>(1).asTuple()); }
      r.nontrivial(!q.empty || q.bad); r.transition();
    });
  }
}
VK_SUITE(flag_values) {
  const char* names[] = {"BIASED", "BLENDED", "SATURATED", "BOUNDARY", "NEIGHBORS", "OUTSIDE", "PARTIAL_FIT", "INSUFFICIENT_DATA", 0, 0, "ERROR", "MEMORY", "BAD_PROJECTION", "DOWNSAMPLED"};
  for (int a = 0; a < (1 << 14); ++a) {
    if (a & 0x300) continue;   // bits without a meaning
    if (!r.next()) continue;
    r.desc([=] { return "flags " + vk::str(a); });
    r.guarded("flags", [&] {
      Flags f = static_cast<Flags>(a);
      std::string want;
      for (int b = 0; b < 14; ++b) if (a >> b & 1) want += (want.empty() ? "(" : " | ") + std::string(names[b]);
      want = want.empty() ? "NONE" : want + ")";
      std::ostringstream o; o << f;
      r.require(o.str() == want, "flags-printed", [&] { return o.str() + " instead of " + want; });
      r.require(flags2long(f) == a && flags2long(std::vector<Flags>{f, Flags::NONE}) == std::vector<int64_t>({a, 0}), "flags-number", [] { return std::string("number"); });
      for (int b = 0; b < 14; ++b) if (names[b]) {
        Flags e = static_cast<Flags>(1ll << b), g = f; g |= e;
        r.require(flags2long(f | e) == (a | 1 << b) && flags2long(f & e) == (a & 1 << b) && g == (f | e) && e * true == e && e * false == Flags::NONE, "flags-operators", [&] { return std::string("with ") + names[b]; });
      }
      r.nontrivial(a & (a - 1)); r.see(a); r.transition();
    });
  }
}
