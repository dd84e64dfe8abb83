// Frame: histories of setters, every layer against its definition.
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Image/FunctionalImage.h"
#include "SEFramework/Image/TileManager.h"
#include "common/tilecheck.h"
using namespace SourceXtractor;
static const int W = 5, H = 4;
static Img noise(int s, int range, float off) { return Img(W, H, [=](int x, int y) { return (float)(vk::mix(s * 1000003 + y * 1009 + x) % range) - off; }); }
// A filter that depends on all of its arguments, and can give negative values
struct Filter : DetectionImageFrame::ImageFilter {
  float k; explicit Filter(float k_) : k(k_) {}
  static float f(float i, float v, float t, float k) { return v < t ? i * k - 1.5f * v : -k; }
  std::shared_ptr<Image<SeFloat>> processImage(std::shared_ptr<Image<SeFloat>> i, std::shared_ptr<Image<SeFloat>> v, SeFloat t) const override {
    auto o = VectorImage<SeFloat>::create(i->getWidth(), i->getHeight());
    auto a = i->getChunk(0, 0, W, H), b = v->getChunk(0, 0, W, H);
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) o->setValue(x, y, f(a->getValue(x, y), b->getValue(x, y), t, k));
    return o;
  }
};
struct Model {
  Img image{W, H}, var{W, H}, bg{W, H};
  float thr = 0, det = 0, rms = 0, k = 0; int gap = 0; bool filter = false;
  std::string label;
};
static void layers(vk::Run& r, const DetectionImageFrame& f, const Model& m) {
  Img ii = interpolated(m.image, m.var, m.thr, m.gap), iv = interpolated(m.var, m.var, m.thr, m.gap);
  Img sub(W, H, [&](int x, int y) { return ii.at(x, y) - m.bg.at(x, y); });
  Img fi(W, H, [&](int x, int y) { return m.filter ? Filter::f(sub.at(x, y), iv.at(x, y), m.thr, m.k) : sub.at(x, y); });
  Img fv(W, H, [&](int x, int y) { return m.filter ? std::max(0.f, Filter::f(iv.at(x, y), iv.at(x, y), m.thr, m.k)) : iv.at(x, y); });
  Img th(W, H, [&](int x, int y) { return fi.at(x, y) - std::sqrt(fv.at(x, y)) * m.det; });
  Img snr(W, H, [&](int x, int y) { return fi.at(x, y) / std::sqrt(fv.at(x, y)); });
  Img dm(W, H, [&](int x, int y) { return std::sqrt(m.var.at(x, y)) * m.det; });
  struct { FrameImageLayer l; const Img* w; std::shared_ptr<Image<SeFloat>> g; const char* key; } all[] = {
    {LayerOriginalImage, &m.image, f.getOriginalImage(), "original"}, {LayerInterpolatedImage, &ii, f.getInterpolatedImage(), "interpolated"},
    {LayerSubtractedImage, &sub, f.getSubtractedImage(), "subtracted"}, {LayerFilteredImage, &fi, f.getFilteredImage(), "filtered"},
    {LayerThresholdedImage, &th, f.getThresholdedImage(), "thresholded"}, {LayerSignalToNoiseMap, nullptr, f.getSnrImage(), "snr"},
    {LayerOriginalVarianceMap, &m.var, f.getOriginalVarianceMap(), "original-variance"}, {LayerUnfilteredVarianceMap, &iv, f.getUnfilteredVarianceMap(), "unfiltered-variance"},
    {LayerVarianceMap, &fv, f.getVarianceMap(), "variance"}, {LayerDetectionThresholdMap, &dm, f.getDetectionThresholdMap(), "threshold-map"}};
  for (auto& a : all) {
    r.require(a.g && f.getImage(a.l), a.key, [] { return std::string("no image"); });
    if (a.w) { imageIs(r, a.key, *a.g, *a.w, 1e-5, 1e-4); imageIs(r, a.key, *f.getImage(a.l), *a.w, 1e-5, 1e-4); }
    else for (int i = 0; i < 2; ++i) {
      auto c = (i ? f.getImage(a.l) : a.g)->getChunk(0, 0, W, H);
      for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) if (fv.at(x, y) > 0) r.require(vk::close(c->getValue(x, y), snr.at(x, y), 1e-4, 1e-4), "snr", [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " is " + vk::str(c->getValue(x, y)) + " instead of " + vk::str(snr.at(x, y)); });
    }
  }
  imageIs(r, "background", *f.getBackgroundLevelMap(), m.bg, 0, 0);
  r.require(f.getVarianceThreshold() == m.thr && f.getLabel() == m.label && f.getBackgroundMedianRms() == m.rms, "settings", [&] { return std::string("threshold, label or background rms differ from what was set"); });
}
struct CS : CoordinateSystem {
  WorldCoordinate imageToWorld(ImageCoordinate i) const override { return WorldCoordinate(i.m_x, i.m_y); }
  ImageCoordinate worldToImage(WorldCoordinate w) const override { return ImageCoordinate(w.m_alpha, w.m_delta); }
};
VK_SUITE(frame_histories) {
  const char* names[] = {"weights A", "weights B", "variance threshold 3", "variance threshold 8", "background 7", "background map", "filter P", "filter Q", "no filter", "detection threshold 1.5", "detection threshold 0.5", "label", "read"};
  const int NOPS = 13;
  int len = r.thorough() ? 5 : 4;
  for (int gap = 0; gap < 3; ++gap) for (int ctor = 0; ctor < 3; ++ctor) for (int l = 0; l <= len; ++l) for (vk::Odo o(std::vector<int>(l, NOPS)); !o.done; o.inc()) {
    if (ctor && gap) continue;                                       // the short constructors do not interpolate
    if (!r.next()) continue;
    auto ops = o.v;
    r.desc([&, ops, gap, ctor] { std::string s = "constructor " + vk::str(ctor) + ", gap " + vk::str(gap) + ":"; for (int p : ops) s += std::string(" ") + names[p] + ";"; return s; });
    r.guarded("frame", [&] {
      TileManager::getInstance()->flush();
      Model m;
      m.image = noise(1, 300, 100); m.var = noise(2, 10, -1);
      auto cs = std::make_shared<CS>();
      std::shared_ptr<DetectionImageFrame> f;
      auto im = m.image.img(); auto vm = m.var.img();
      if (ctor == 0) {
        m.thr = ops.size() % 2 ? 6 : 5; m.gap = gap;
        f = std::make_shared<DetectionImageFrame>(im, vm, m.thr, cs, 3.5, 60000, gap);
        r.require(f->getGain() == 3.5f && f->getSaturation() == 60000, "settings", [] { return std::string("gain or saturation lost"); });
      } else {
        m.thr = 1e6;
        if (ctor == 1) { m.var = Img(W, H, [](int, int) { return .0001f; }); f = std::make_shared<DetectionImageFrame>(im, cs); }
        else f = std::make_shared<DetectionImageFrame>(im, cs, vm);
      }
      r.require(f->getCoordinateSystem() == cs && f->getHduIndex() == 0 && f->getMetadata().empty(), "settings", [] { return std::string("coordinate system, HDU or metadata differ"); });
      int i = 0;
      for (int p : ops) {
        ++i;
        switch (p) {
          case 0: case 1: m.var = noise(10 + p, 12, -0.5); f->setVarianceMap(m.var.img()); break;
          case 2: case 3: m.thr = p == 2 ? 3 : 8; f->setVarianceThreshold(m.thr); break;
          case 4: m.bg = Img(W, H, [](int, int) { return 7.f; }); m.rms = 0; f->setBackgroundLevel(7); break;
          case 5: m.bg = noise(20, 50, 10); m.rms = 2.5f + i; f->setBackgroundLevel(m.bg.img(), m.rms); break;
          case 6: case 7: m.filter = true; m.k = p == 6 ? 0.5 : -2; f->setFilter(std::make_shared<Filter>(m.k)); break;
          case 8: m.filter = false; f->setFilter(nullptr); break;
          case 9: case 10: m.det = p == 9 ? 1.5 : 0.5; f->setDetectionThreshold(m.det); break;
          case 11: m.label = "label" + vk::str(i); f->setLabel(m.label); break;
          case 12: layers(r, *f, m); break;
        }
        r.transition();
      }
      layers(r, *f, m);
      DetectionImageFrame copy(*f);                                  // a copy is an equal, independent frame
      copy.setBackgroundLevel(-3); copy.setDetectionThreshold(9); copy.setVarianceThreshold(1);
      layers(r, *f, m);
      if (l) r.nontrivial();
    });
  }
}
VK_SUITE(variance_threshold_off) {
  // the largest threshold means no threshold: it is not replaced
  for (int first = 0; first < 4; ++first) {
    if (!r.next()) continue;
    r.desc([=] { return "no variance threshold, case " + vk::str(first); });
    r.guarded("no-threshold", [&] {
      Model m;
      m.image = noise(1, 300, 100); m.var = noise(2, 10, -1); m.thr = std::numeric_limits<float>::max(); m.gap = 2;
      DetectionImageFrame f(m.image.img(), m.var.img(), m.thr, nullptr, 1, 1, 2);
      layers(r, f, m);
      f.setVarianceThreshold(first); layers(r, f, m);
      f.setHduIndex(first); r.require(f.getHduIndex() == (size_t)first, "settings", [] { return std::string("HDU index"); });
      r.nontrivial();
    });
  }
}
