// Segmentation: every binary image of the stated sizes, every tile height; the groups must be the 8-connected components.
#include "vkit.h"
#include <algorithm>
#include <memory>
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Pipeline/Segmentation.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Property/DetectionFrame.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceFactory.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEImplementation/Segmentation/BFSSegmentation.h"
#include "SEImplementation/Segmentation/Lutz.h"
#include "SEImplementation/Segmentation/LutzSegmentation.h"
#include "SEUtils/HilbertCurve.h"
#include "SEUtils/Misc.h"
using namespace SourceXtractor;
using Groups = std::vector<std::vector<int>>;  // pixels as y*w+x, sorted
using Mask = uint64_t;

static void components(Mask m, int w, int h, Groups& out) {
  out.clear();
  int st[64];
  for (int i = 0; i < w * h; ++i) {
    if (!(m >> i & 1)) continue;
    int n = 0;
    st[n++] = i; m &= ~(1ull << i);
    out.emplace_back();
    auto& c = out.back();
    while (n) {
      int p = st[--n], x = p % w, y = p / w;
      c.push_back(p);
      for (int yy = std::max(0, y - 1); yy <= std::min(h - 1, y + 1); ++yy)
        for (int xx = std::max(0, x - 1); xx <= std::min(w - 1, x + 1); ++xx) { int q = yy * w + xx; if (m >> q & 1) { m &= ~(1ull << q); st[n++] = q; } }
    }
    std::sort(c.begin(), c.end());
  }
}
static std::string pic(Mask m, int w, int h) {
  std::string s;
  for (int y = 0; y < h; ++y) { if (y) s += '/'; for (int x = 0; x < w; ++x) s += m >> (y * w + x) & 1 ? '#' : '.'; }
  return s;
}
static std::string show(const Groups& g) { std::string s; for (auto& x : g) s += vk::strv(x); return s; }
static bool pixels(const std::vector<PixelCoordinate>& l, int w, int h, PixelCoordinate off, std::vector<int>& v) {
  v.clear();
  for (auto& p : l) {
    int x = p.m_x - off.m_x, y = p.m_y - off.m_y;
    if (x < 0 || y < 0 || x >= w || y >= h) return false;
    v.push_back(y * w + x);
  }
  std::sort(v.begin(), v.end());
  return true;
}

// Values of the pixels: object pixels positive (a very small value too), the rest zero or negative.
static float val(Mask m, int i) { return m >> i & 1 ? (i % 3 == 0 ? 1e-30f : i % 3 == 1 ? 1.f : 3e8f) : (i % 2 ? 0.f : -2.f); }

struct LutzRun {
  int w, h;
  std::shared_ptr<VectorImage<SeFloat>> img;
  Groups want, got;
  std::vector<int> buf;
  LutzRun(int w_, int h_) : w(w_), h(h_), img(VectorImage<SeFloat>::create(w_, h_)) {}
  void one(vk::Run& r, Mask m, PixelCoordinate off) {
    for (int i = 0; i < w * h; ++i) img->at(i % w, i / w) = val(m, i);
    components(m, w, h, want);
    LutzList l;
    l.labelImage(*img, off);
    got.clear();
    bool in = true;
    for (auto& g : l.getGroups()) { in = pixels(g.pixel_list, w, h, off, buf) && in; got.push_back(buf); }
    std::sort(got.begin(), got.end());
    r.check(in, "lutz-pixel-position", [&] { return "a pixel outside of the image (offset " + vk::str(off.m_x) + "," + vk::str(off.m_y) + "): " + pic(m, w, h); });
    std::sort(want.begin(), want.end());
    r.check(got == want, "lutz-components", [&] { return pic(m, w, h) + ": groups " + show(got) + " instead of " + show(want); });
    r.transition(h * w);
    r.count("binary images");
  }
};

static void lutz(vk::Run& r, int w, int h, int tile_h) {
  Mask n = 1ull << (w * h), block = std::min<Mask>(n, 4096);
  LutzRun L(w, h);
  for (Mask b = 0; b < n; b += block) {
    if (!r.next()) continue;
    r.desc([=] { return "Lutz, " + vk::str(w) + "x" + vk::str(h) + ", chunks of " + vk::str(tile_h) + " lines, images " + vk::str(b) + ".." + vk::str(b + block - 1); });
    r.guarded("lutz", [&] {
      TileManager::getInstance()->setOptions(4, tile_h, 100);
      for (Mask m = b; m < b + block; ++m) L.one(r, m, m % 3 == 2 ? PixelCoordinate(-3, 7) : PixelCoordinate(0, 0));
      r.see(b); r.see(w * 100 + h); r.nontrivial();
    });
  }
}
VK_SUITE(lutz_all_images) {
  std::vector<std::pair<int, int>> small{{1, 1}, {1, 8}, {8, 1}, {2, 2}, {2, 6}, {6, 2}, {3, 3}, {3, 4}, {4, 3}, {4, 4}, {3, 5}, {5, 3}, {2, 8}, {8, 2}, {3, 6}, {6, 3}};
  for (auto& s : small) for (int t : {1, 2, 3, 256}) lutz(r, s.first, s.second, t);
  lutz(r, 5, 4, 256); lutz(r, 4, 5, 2); lutz(r, 7, 3, 256); lutz(r, 3, 7, 3);
  if (r.thorough()) { lutz(r, 5, 5, 256); lutz(r, 6, 4, 3); lutz(r, 4, 6, 256); lutz(r, 8, 3, 2); lutz(r, 3, 8, 256); lutz(r, 9, 3, 256); }
}
// Larger shapes: a frame or comb of segments in which all the interior lines are enumerated (spirals, nested rings).
VK_SUITE(lutz_wide_lines) {
  // three lines of width 7, placed between fixed lines: full, empty, or a comb
  const int W = 7;
  Mask fixed[] = {0, 0x7f, 0x55, 0x2a};
  for (int f = 0; f < 16; ++f) {
    if (!r.thorough() && f % 4 != (f / 4 + 1) % 4) continue;
    for (Mask a = 0; a < 128; ++a) {
      if (!r.next()) continue;
      r.desc([=] { return "Lutz, five lines of 7: fixed lines " + vk::str(f) + ", second line " + vk::str(a) + ", every third and fourth"; });
      r.guarded("lutz-wide", [&] {
        TileManager::getInstance()->setOptions(4, 3, 100);
        LutzRun L(W, 5);
        for (Mask b = 0; b < 128; ++b) for (Mask c = 0; c < 128; c += r.thorough() ? 1 : 3)
          L.one(r, fixed[f % 4] | a << W | b << 2 * W | c << 3 * W | fixed[f / 4] << 4 * W, {0, 0});
        r.see(a * 16 + f); r.nontrivial();
      });
    }
  }
}

struct Peek : DetectionFrame { static const void* of(const DetectionFrame& d) { return (d.*(&Peek::getFrame))().get(); } };
// The whole stage: labelling, sources, progress, processing requests.
struct Sink : PipelineReceiver<SourceInterface>, Observer<SourceInterface>, Observer<SegmentationProgress> {
  Groups got;
  std::vector<std::vector<PixelCoordinate>> lists;
  std::set<unsigned> ids;
  std::vector<const void*> seen, received;
  std::vector<std::pair<int, int>> progress;
  std::vector<std::pair<int, size_t>> signals;  // smallest line not asked for, -1: all; sources so far
  const DetectionImageFrame* frame = nullptr;
  bool same_frame = true;
  void receiveSource(std::unique_ptr<SourceInterface> s) override {
    received.push_back(s.get());
    lists.push_back(s->getProperty<PixelCoordinateList>().getCoordinateList());
    ids.insert(s->getProperty<SourceId>().getSourceId());
    if (Peek::of(s->getProperty<DetectionFrame>()) != frame) same_frame = false;
  }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override {
    auto& c = *e.m_selection_criteria;
    int line = 0;
    for (;; ++line) {
      SimpleSource s;
      s.setProperty<PixelCentroid>(1.0, line);
      if (!c.mustBeProcessed(s)) break;
      if (line > 100) { line = -1; break; }
    }
    signals.push_back({line, lists.size()});
  }
  void handleMessage(const SourceInterface& s) override { seen.push_back(&s); }
  void handleMessage(const SegmentationProgress& p) override { progress.push_back({p.position, p.total}); }
};
struct Doubler : DetectionImageFrame::ImageFilter {
  mutable int calls = 0;
  std::shared_ptr<Image<SeFloat>> processImage(std::shared_ptr<Image<SeFloat>> i, std::shared_ptr<Image<SeFloat>>, SeFloat) const override { ++calls; return i; }
};

// kind 0: Lutz with a window; 1: BFS with a maximal extent
static void stage(vk::Run& r, int kind, Mask m, int w, int h, int par, int tw, int th, bool threshold) {
  TileManager::getInstance()->setOptions(tw, th, 100);
  auto img = VectorImage<SeFloat>::create(w, h);
  for (int i = 0; i < w * h; ++i) img->at(i % w, i / w) = val(m, i);
  std::shared_ptr<WeightImage> var = VectorImage<WeightImage::PixelType>::create(w, h, std::vector<float>(w * h, 4.f));
  auto frame = std::make_shared<DetectionImageFrame>(img, nullptr, var);
  if (threshold) {  // object pixels: above 1.5 x sigma(=2) = 3
    for (int i = 0; i < w * h; ++i) img->at(i % w, i / w) = m >> i & 1 ? 3.25f : 3.f;
    frame = std::make_shared<DetectionImageFrame>(img, nullptr, var);
    frame->setDetectionThreshold(1.5f);
  }
  auto filter = std::make_shared<Doubler>();
  Segmentation seg(threshold ? filter : nullptr);
  if (kind == 0) seg.setLabelling<LutzSegmentation>(std::make_shared<SimpleSourceFactory>(), par);
  else seg.setLabelling<BFSSegmentation>(std::make_shared<SimpleSourceFactory>(), par);
  auto sink = std::make_shared<Sink>();
  sink->frame = frame.get();
  seg.Observable<SourceInterface>::addObserver(sink);
  seg.Observable<SegmentationProgress>::addObserver(sink);
  seg.setNextStage(sink);
  seg.processFrame(frame);
  Groups want, got;
  components(m, w, h, want);
  if (kind == 1)
    want.erase(std::remove_if(want.begin(), want.end(), [&](const std::vector<int>& c) {
      int x0 = 99, x1 = -1, y0 = 99, y1 = -1;
      for (int p : c) { x0 = std::min(x0, p % w); x1 = std::max(x1, p % w); y0 = std::min(y0, p / w); y1 = std::max(y1, p / w); }
      return x1 - x0 > par || y1 - y0 > par;
    }), want.end());
  std::sort(want.begin(), want.end());
  std::vector<int> buf;
  for (auto& l : sink->lists) { r.check(pixels(l, w, h, {0, 0}, buf), "pixel-position", "a pixel outside of the image"); got.push_back(buf); }
  auto order = got;
  std::sort(got.begin(), got.end());
  r.check(got == want, kind == 0 ? "stage-lutz-components" : "stage-bfs-components", [&] { return pic(m, w, h) + ": sources " + show(got) + " instead of " + show(want); });
  r.check(sink->ids.size() == got.size(), "source-ids", "two sources with one identifier");
  r.check(sink->seen == sink->received, "observers", "the observers did not see each source once, in order");
  r.check(sink->same_frame, "detection-frame", "a source without the detection frame");
  r.check(!threshold || filter->calls > 0, "filter", "the filter of the segmentation is not used");
  r.check(!sink->signals.empty() && sink->signals.back() == std::make_pair(-1, got.size()), "final-signal", [&] { return pic(m, w, h) + ": no request to process everything after the last source"; });
  if (kind == 0) {
    r.check((int)sink->progress.size() == h, "progress", [&] { return vk::str(sink->progress.size()) + " progress messages for " + vk::str(h) + " lines"; });
    for (size_t i = 0; i < sink->progress.size(); ++i)
      r.check(sink->progress[i] == std::make_pair((int)i + 1, h), "progress", [&] { return "progress " + vk::str(sink->progress[i].first) + "/" + vk::str(sink->progress[i].second); });
    // A source that arrives after a request for lines < L must not be touched by it: all its pixels are at or after L - 1 ... in other
    // words the requests may only concern lines at least the window behind, and they never go backwards.
    int last = 0;
    size_t n = 0;
    for (size_t i = 0; i + 1 < sink->signals.size(); ++i) {
      auto& s = sink->signals[i];
      r.check(s.first > 0 && s.first >= last, "window-order", "a request for fewer lines than before");
      last = s.first;
      ++n;
    }
    size_t expect = par > 0 && h > par ? h - par : 0;
    r.check(n == expect, "window-requests", [&] { return vk::str(n) + " requests for a window of " + vk::str(par) + " in " + vk::str(h) + " lines"; });
    for (size_t i = 0; i < n; ++i) r.check(sink->signals[i].first == (int)i + 1, "window-lines", [&] { return "request " + vk::str(i) + " asks for the lines below " + vk::str(sink->signals[i].first); });
    // sources not taller than the window are complete before any of their lines is asked for
    for (size_t k = 0; par > 0 && k < order.size(); ++k) {
      int y0 = 99, y1 = -1;
      for (int p : order[k]) { y0 = std::min(y0, p / w); y1 = std::max(y1, p / w); }
      if (y1 - y0 + 1 > par) continue;
      for (size_t i = 0; i < n; ++i)
        if (sink->signals[i].second <= k)
          r.check(sink->signals[i].first <= y0 + 1, "window-early", [&] { return pic(m, w, h) + ": lines below " + vk::str(sink->signals[i].first) + " asked for before the source of lines " + vk::str(y0) + ".." + vk::str(y1) + " arrived"; });
    }
  }
  for (auto& g : got) r.see(vk::hashBytes(g.data(), g.size() * sizeof(int)));
  r.nontrivial(want.size() > 0);
  r.transition(got.size());
}
static void stages(vk::Run& r, int kind, int w, int h, std::vector<int> pars, std::vector<std::pair<int, int>> tiles, bool threshold) {
  Mask n = 1ull << (w * h), block = 16;
  for (int p : pars) for (auto& t : tiles) for (Mask b = 0; b < n; b += block) {
    if (!r.next()) continue;
    r.desc([=] { return std::string(kind ? "BFS, maximal extent " : "Lutz, window ") + vk::str(p) + ", " + vk::str(w) + "x" + vk::str(h) + ", tiles " + vk::str(t.first) + "x" + vk::str(t.second) + ", images " + vk::str(b) + ".." + vk::str(b + block - 1); });
    r.guarded(kind ? "bfs-stage" : "lutz-stage", [&] { for (Mask m = b; m < std::min(n, b + block); ++m) stage(r, kind, m, w, h, p, t.first, t.second, threshold); });
  }
}
VK_SUITE(lutz_stage) {
  stages(r, 0, 3, 3, {0, 1, 2, 3, 5}, {{4, 1}, {4, 2}, {4, 256}}, false);
  stages(r, 0, 2, 5, {0, 1, 2, 4}, {{4, 3}}, true);
  stages(r, 0, 3, 4, {2, 1}, {{4, 2}}, true);
  if (r.thorough()) { stages(r, 0, 4, 4, {0, 1, 2}, {{4, 2}}, false); stages(r, 0, 2, 7, {0, 1, 2, 3, 6}, {{4, 2}}, true); }
}
VK_SUITE(bfs_stage) {
  stages(r, 1, 3, 3, {0, 1, 2, 5}, {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {4, 4}}, false);
  stages(r, 1, 4, 3, {1, 2, 3}, {{1, 1}, {2, 2}, {256, 256}}, true);
  stages(r, 1, 2, 5, {1, 2, 10}, {{2, 2}, {1, 3}}, false);
  stages(r, 1, 9, 1, {0, 1, 3, 10}, {{2, 2}}, false);
  if (r.thorough()) { stages(r, 1, 4, 4, {1, 2, 1000}, {{1, 1}, {2, 2}, {3, 3}}, true); stages(r, 1, 5, 3, {2, 3, 1000}, {{2, 2}}, false); }
}

VK_SUITE(hilbert) {
  unsigned N = r.thorough() ? 256 : 64;
  for (unsigned size = 1; size <= N; ++size) {
    if (!r.next()) continue;
    r.desc([=] { return "Hilbert curve for a square of " + vk::str(size); });
    r.guarded("hilbert", [&] {
      HilbertCurve c(size);
      auto v = c.getCurve();
      unsigned s = 1;
      while (s < size) s *= 2;
      r.check(nextPowerOfTwo(size) == s, "next-power", "next power of two");
      r.check(v.size() == (size_t)s * s, "hilbert-size", [&] { return vk::str(v.size()) + " points"; });
      std::set<std::pair<int, int>> seen;
      for (size_t i = 0; i < v.size(); ++i) {
        auto p = v[i];
        r.check(p.m_x >= 0 && p.m_y >= 0 && p.m_x < (int)s && p.m_y < (int)s && seen.insert({p.m_x, p.m_y}).second, "hilbert-once", "a cell twice, or one outside");
        if (i) r.check(std::abs(p.m_x - v[i - 1].m_x) + std::abs(p.m_y - v[i - 1].m_y) == 1, "hilbert-adjacent", "a jump in the curve");
        r.check(c.get2DCoordinate(i) == p, "hilbert-index", "position by index");
      }
      r.see(s); r.nontrivial(s > 1); r.transition(v.size());
    });
  }
}
