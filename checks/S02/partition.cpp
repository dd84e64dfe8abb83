// Partition steps on real frames: every image of the stated sizes and levels, every setting.
#include "common/tilecheck.h"
#include "common/plugins.h"
#include <cmath>
#include <map>
#include <set>
#include "SEImplementation/Partition/AttractorsPartitionStep.h"
#include "SEImplementation/Partition/MinAreaPartitionStep.h"
#include "SEImplementation/Partition/MultiThresholdPartitionStep.h"
#include "SEImplementation/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.h"
#include "SEFramework/Pipeline/Partition.h"
#include "SEFramework/Property/PropertyNotFoundException.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
using namespace SourceXtractor;
using plugins::show; using plugins::sorted; using plugins::pixelsOf;
using Pixels = std::vector<PixelCoordinate>;
using Sources = std::vector<std::unique_ptr<SourceInterface>>;

static std::shared_ptr<plugins::Factory> factory() { static auto f = std::make_shared<plugins::Factory>(); return f; }
// An object (w x h box at ox,oy, pixels of mask m) in a larger frame whose other pixels hold another value
struct Scene {
  int w, h, ox, oy, fw, fh;
  std::shared_ptr<DetectionImageFrame> frame;
  Img image, var;
  Pixels px;
  Scene(int w_, int h_, int ox_, int oy_, int fw_, int fh_, std::function<float(int, int)> f, uint32_t mask, float other, float variance = 1)
      : w(w_), h(h_), ox(ox_), oy(oy_), fw(fw_), fh(fh_), image(fw_, fh_), var(fw_, fh_) {
    for (auto& v : image.d) v = other;
    for (auto& v : var.d) v = variance;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { image.at(x + ox, y + oy) = f(x, y); if (mask >> (y * w + x) & 1) px.push_back(PixelCoordinate(x + ox, y + oy)); }
    frame = plugins::frame(image, var);
  }
  std::unique_ptr<SourceInterface> source() const {
    auto s = factory()->createSource();
    s->setProperty<PixelCoordinateList>(px);
    s->setProperty<DetectionFrame>(frame);
    s->setProperty<SourceId>();
    return s;
  }
  std::string str() const {
    std::string s = "object at " + vk::str(ox) + "," + vk::str(oy) + " of " + vk::str(fw) + "x" + vk::str(fh) + ":";
    std::set<std::pair<int, int>> in; for (auto& p : px) in.insert({p.m_x, p.m_y});
    for (int y = 0; y < h; ++y) { s += y ? " / " : " "; for (int x = 0; x < w; ++x) s += (x ? "," : "") + vk::str(image.at(x + ox, y + oy)) + (in.count({x + ox, y + oy}) ? "" : "!"); }
    return s;
  }
};
// The pixels of the results are those of the parent, each in one result, and every result can be used by what follows.
static void isPartition(vk::Run& r, const Scene& s, const Sources& out, bool ids) {
  Pixels all;
  for (auto& o : out) {
    r.require(o != nullptr, "null-source", [] { return std::string("no source"); });
    auto& l = pixelsOf(*o);
    r.require(!l.empty(), "empty-source", [] { return std::string("a source without pixels"); });
    all.insert(all.end(), l.begin(), l.end());
  }
  r.require(sorted(all) == sorted(s.px), "pixels-conserved", [&] { return "the parent has " + show(sorted(s.px)) + ", its parts " + show(sorted(all)); });
  for (auto& o : out) {
    auto& im = o->getProperty<DetectionFrameImages>();
    r.require(im.getWidth() == s.fw && im.getHeight() == s.fh && im.getImageChunk(LayerOriginalImage, s.ox, s.oy, 1, 1)->getValue(0, 0) == s.image.at(s.ox, s.oy), "frame-kept", [] { return std::string("a part is not attached to the frame of its parent"); });
    if (ids) o->getProperty<SourceId>();
  }
}
static void show(vk::Run& r, const Sources& out) { for (auto& o : out) { r.see(pixelsOf(*o).size()); for (auto& p : pixelsOf(*o)) r.see(p.m_x * 1000 + p.m_y); } }

VK_SUITE(minimum_area) {
  int n = r.thorough() ? 40 : 12;
  for (int c = 1; c <= n; ++c) for (int min = 0; min <= n + 1; ++min) {
    if (!r.next()) continue;
    r.desc([=] { return vk::str(c) + " pixels, at least " + vk::str(min); });
    r.guarded("min-area", [&] {
      Scene s(c, 1, 3, 2, c + 5, 4, [](int, int) { return 1.f; }, 0, 0);
      for (int i = 0; i < c; ++i) s.px.push_back(PixelCoordinate(3 + i, 2));
      auto src = s.source(); auto p = src.get();
      auto out = MinAreaPartitionStep(min).partition(std::move(src));
      r.require(out.size() == (c >= min ? 1u : 0u), "min-area", [&] { return vk::str((int)out.size()) + " sources"; });
      if (out.size()) { r.require(out[0].get() == p, "min-area-same", [] { return std::string("the source was replaced"); }); isPartition(r, s, out, true); }
      r.nontrivial(out.size() == 1); r.see(out.size()); r.transition();
    });
  }
}
VK_SUITE(core_threshold) {
  const float vals[] = {-1, 2.999f, 3, 3.5f, 100};
  for (vk::Odo o({5, 5, 5, 5}); !o.done; o.inc()) for (int var = 1; var <= 4; var *= 4) for (int min = 0; min <= 5; ++min) for (double level : {3.0, 1.4995, 0.0}) {
    if (!r.next()) continue;
    auto v = o.v;
    r.desc([&, v] { return "values " + vk::strv(v) + " variance " + vk::str(var) + " level " + vk::str(level) + " at least " + vk::str(min); });
    r.guarded("core", [&] {
      TileManager::getInstance()->flush();
      Scene s(4, 1, 1, 1, 6, 3, [&](int x, int) { return vals[v[x]]; }, 15, 1000, var);
      int n = 0;
      for (int i = 0; i < 4; ++i) n += (float)(vals[v[i]] / std::sqrt((float)var)) >= level;
      auto src = s.source(); auto p = src.get();
      auto out = CoreThresholdPartitionStep(level, min).partition(std::move(src));
      r.require(out.size() == (n >= min ? 1u : 0u), "core", [&] { return vk::str((int)out.size()) + " sources with " + vk::str(n) + " pixels above the level"; });
      if (out.size()) { r.require(out[0].get() == p, "core-same", [] { return std::string("the source was replaced"); }); isPartition(r, s, out, true); }
      r.nontrivial(n > 0 && n < 4); r.see(out.size() * 8 + n); r.transition();
    });
  }
}

// --- attractors ---
static void attractors(vk::Run& r, const Scene& s) {
  std::map<std::pair<int, int>, bool> in;
  int x0 = 1 << 30, y0 = 1 << 30, x1 = -1, y1 = -1;
  for (auto& p : s.px) { x0 = std::min(x0, p.m_x); x1 = std::max(x1, p.m_x); y0 = std::min(y0, p.m_y); y1 = std::max(y1, p.m_y); }
  auto val = [&](int x, int y) { return x < x0 || x > x1 || y < y0 || y > y1 ? -1e38f : s.image.at(x, y); };
  // climb: to the highest of the four neighbours; among equals a step right or down is taken, one left or up is not
  std::map<std::pair<int, int>, Pixels> at;
  for (auto& p : s.px) {
    int x = p.m_x, y = p.m_y;
    for (;;) {
      int bx = 0, by = 0; float b = val(x, y);
      if (val(x - 1, y) > b) { b = val(x - 1, y); bx = -1; by = 0; }
      if (val(x, y - 1) > b) { b = val(x, y - 1); bx = 0; by = -1; }
      if (val(x + 1, y) >= b) { b = val(x + 1, y); bx = 1; by = 0; }
      if (val(x, y + 1) >= b) { b = val(x, y + 1); bx = 0; by = 1; }
      if (!bx && !by) break;
      x += bx; y += by;
    }
    at[{x, y}].push_back(p);
  }
  // clusters of attractors: boxes that touch (closed under growth) may be together; lone ones and pairs of neighbours must be
  struct Box { int x0, y0, x1, y1; std::vector<std::pair<int, int>> m; };
  std::vector<Box> boxes;
  for (auto& a : at) boxes.push_back({a.first.first, a.first.second, a.first.first, a.first.second, {a.first}});
  for (bool again = true; again;) {
    again = false;
    for (size_t i = 0; i < boxes.size() && !again; ++i) for (size_t j = i + 1; j < boxes.size() && !again; ++j) {
      auto &a = boxes[i], &b = boxes[j];
      if (b.x0 > a.x1 + 1 || a.x0 > b.x1 + 1 || b.y0 > a.y1 + 1 || a.y0 > b.y1 + 1) continue;
      a.x0 = std::min(a.x0, b.x0); a.x1 = std::max(a.x1, b.x1); a.y0 = std::min(a.y0, b.y0); a.y1 = std::max(a.y1, b.y1);
      a.m.insert(a.m.end(), b.m.begin(), b.m.end());
      boxes.erase(boxes.begin() + j); again = true;
    }
  }
  auto src = s.source(); auto p = src.get();
  auto out = AttractorsPartitionStep(factory()).partition(std::move(src));
  isPartition(r, s, out, false);
  if (out.size() == 1) r.require(out[0].get() == p, "attractors-same", [] { return std::string("a source that is not split was replaced"); });
  std::map<std::pair<int, int>, int> owner;
  for (size_t i = 0; i < out.size(); ++i) for (auto& q : pixelsOf(*out[i])) owner[{q.m_x, q.m_y}] = (int)i;
  for (auto& a : at) for (auto& q : a.second) r.require(owner[{q.m_x, q.m_y}] == owner[{a.second[0].m_x, a.second[0].m_y}], "attractors-basin", [&] { return "pixels " + show({q, a.second[0]}) + " climb to the same maximum " + vk::str(a.first.first) + "," + vk::str(a.first.second) + " but are separated"; });
  auto own = [&](const std::pair<int, int>& a) { auto& q = at[a][0]; return owner[{q.m_x, q.m_y}]; };
  for (size_t i = 0; i < boxes.size(); ++i) {
    if (boxes[i].m.size() == 2) r.require(own(boxes[i].m[0]) == own(boxes[i].m[1]), "attractors-adjacent", [&] { return std::string("two neighbouring maxima are separated"); });
    for (size_t j = i + 1; j < boxes.size(); ++j) for (auto& a : boxes[i].m) for (auto& b : boxes[j].m) r.require(own(a) != own(b), "attractors-apart", [&] { return "maxima " + vk::str(a.first) + "," + vk::str(a.second) + " and " + vk::str(b.first) + "," + vk::str(b.second) + " do not touch but are in one source"; });
  }
  r.nontrivial(out.size() > 1);
  show(r, out); r.transition(s.px.size());
}
VK_SUITE(attractors_images) {
  struct { int w, h, l; } sizes[] = {{6, 1, 4}, {1, 6, 4}, {3, 3, 3}, {4, 2, 3}, {2, 4, 3}, {7, 1, 3}, {5, 2, 3}};
  for (auto& z : sizes) {
    if (z.w * z.h == 10 && !r.thorough()) continue;
    for (vk::Odo o(std::vector<int>(z.w * z.h, z.l)); !o.done; o.inc()) {
      if (!r.next()) continue;
      auto v = o.v;
      // three places in the frame: at the border (the stamp is clipped) and inside
      for (int place = 0; place < 3; ++place) {
        int k = place ? 3 : 0;
        Scene s(z.w, z.h, k, k, z.w + (place == 2 ? 3 : 2 * k + 4), z.h + (place == 2 ? 3 : 2 * k + 4), [&](int x, int y) { return (float)v[y * z.w + x] + 1; }, (1u << (z.w * z.h)) - 1, 50);
        r.desc([&] { return s.str(); });
        r.guarded("attractors", [&] { attractors(r, s); });
      }
    }
  }
}
VK_SUITE(attractors_shapes) {
  // objects that do not fill their box
  int top = r.thorough() ? 5 : 3;
  for (int m = 1; m < 512; ++m) for (int k = 0; k < top; ++k) {
    if (!r.next()) continue;
    Scene s(3, 3, 2, 1, 8, 6, [&](int x, int y) { return (float)(vk::mix(k * 64 + y * 8 + x) % 4); }, m, 50);
    r.desc([&] { return s.str(); });
    r.guarded("attractors", [&] { attractors(r, s); });
  }
}

VK_SUITE(attractors_ids) {
  // two objects far apart: the parts must have identifiers, as every stage that follows asks for them
  if (!r.next()) return;
  Scene s(5, 1, 1, 1, 8, 4, [&](int x, int) { return x == 0 || x == 4 ? 9.f : 1.f; }, 31, 0);
  r.desc([&] { return s.str(); });
  r.guarded("attractors-ids", [&] {
    auto out = AttractorsPartitionStep(factory()).partition(s.source());
    r.require(out.size() == 2, "attractors-apart", [&] { return vk::str((int)out.size()) + " sources"; });
    for (auto& o : out) {
      bool ok = true;
      try { o->getProperty<SourceId>(); } catch (const PropertyNotFoundException&) { ok = false; }
      r.require(ok, "attractors-source-id", [] { return std::string("a part made by the attractors partition has no source identifier"); });
    }
    r.nontrivial(true); r.see(2); r.transition();
  });
}
// --- multi-threshold ---
struct Node { Pixels px; std::vector<int> kids; int parent = -1; double thr = 0, total = 0; bool split = false; };
struct Tree { std::vector<Node> n; std::vector<int> cores; bool sure = true; };
static Tree tree(const Scene& s, float contrast, unsigned levels, unsigned area) {
  Tree t;
  int x0 = 1 << 30, y0 = 1 << 30, x1 = -1, y1 = -1;
  for (auto& p : s.px) { x0 = std::min(x0, p.m_x); x1 = std::max(x1, p.m_x); y0 = std::min(y0, p.m_y); y1 = std::max(y1, p.m_y); }
  int w = x1 - x0 + 1, h = y1 - y0 + 1;
  std::vector<float> v((size_t)w * h, 0.f);
  float lo = 1e30f, hi = -1e30f;
  for (auto& p : s.px) { float q = s.image.at(p.m_x, p.m_y); v[(p.m_y - y0) * w + p.m_x - x0] = q; lo = std::min(lo, q); hi = std::max(hi, q); }
  double min = lo * .8, peak = hi;
  t.n.push_back({s.px}); t.n[0].total = 0;
  for (auto& p : s.px) t.n[0].total += s.image.at(p.m_x, p.m_y);
  std::vector<int> active{0};
  for (unsigned i = 1; i < levels; ++i) {
    float thr = min * std::pow(peak / min, (double)i / levels);
    for (float q : v) if (q != 0 && std::fabs(q - thr) < 1e-5 * thr) t.sure = false;
    // 8-connected components above the threshold
    std::vector<Pixels> groups;
    std::vector<char> seen(v.size());
    for (int b = 0; b < w * h; ++b) {
      if (seen[b] || !(v[b] > thr)) continue;
      std::vector<int> st{b}; seen[b] = 1; Pixels g;
      while (st.size()) {
        int p = st.back(); st.pop_back(); g.push_back(PixelCoordinate(p % w + x0, p / w + y0));
        for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int x = p % w + dx, y = p / w + dy; if (x >= 0 && y >= 0 && x < w && y < h && !seen[y * w + x] && v[y * w + x] > thr) { seen[y * w + x] = 1; st.push_back(y * w + x); } }
      }
      if (g.size() >= area) groups.push_back(g);
    }
    std::vector<int> next;
    for (int a : active) {
      std::vector<Pixels*> in;
      for (auto& g : groups) if (std::find(t.n[a].px.begin(), t.n[a].px.end(), g[0]) != t.n[a].px.end()) in.push_back(&g);
      if (in.size() == 1) next.push_back(a);
      else if (in.size() > 1) for (auto* g : in) {
        Node k; k.px = *g; k.parent = a; k.thr = thr;
        for (auto& p : *g) k.total += (double)s.image.at(p.m_x, p.m_y) - thr;
        t.n[a].kids.push_back((int)t.n.size()); next.push_back((int)t.n.size());
        t.n.push_back(k);
      }
    }
    active = next;
  }
  double need = t.n[0].total * contrast;
  // deepest first: a node is split when two of its branches carry enough of the total; its unsplit branches are the cores
  for (int i = (int)t.n.size() - 1; i >= 0; --i) {
    int n = 0;
    for (int k : t.n[i].kids) { double d = t.n[k].total - need; if (std::fabs(d) < 1e-4 * std::max(1., need)) t.sure = false; n += d > 0; }
    if (n >= 2) {
      for (int k : t.n[i].kids) if (t.n[k].total > need && !t.n[k].split) t.cores.push_back(k);
      t.n[i].split = true;
    }
    if (t.n[i].split && t.n[i].parent >= 0) t.n[t.n[i].parent].split = true;
  }
  return t;
}
static void multi(vk::Run& r, const Scene& s, float contrast, unsigned levels, unsigned area, bool twice) {
  auto t = tree(s, contrast, levels, area);
  if (!t.sure) { r.see(1); return; }
  auto src = s.source(); auto p = src.get(); auto id = src->getProperty<SourceId>().getSourceId();
  MultiThresholdPartitionStep step(factory(), contrast, levels, area, 7);
  auto out = step.partition(std::move(src));
  isPartition(r, s, out, true);
  auto cores = [&] { std::string q; for (int c : t.cores) q += " " + show(sorted(t.n[c].px)); return q; };
  r.require(out.size() == std::max<size_t>(1, t.cores.size()), "split-count", [&] { return vk::str((int)out.size()) + " sources instead of the cores" + cores(); });
  if (t.cores.empty()) r.require(out[0].get() == p, "unsplit-same", [] { return std::string("a source that is not split was replaced"); });
  else {
    std::vector<SourceInterface*> of(t.cores.size());
    for (auto& o : out) {
      int n = 0;
      for (size_t c = 0; c < t.cores.size(); ++c) {
        size_t k = 0;
        for (auto& q : t.n[t.cores[c]].px) k += o->getProperty<PixelCoordinateList>().contains(q);
        if (k == t.n[t.cores[c]].px.size()) { ++n; of[c] = o.get(); }
        else r.require(k == 0, "core-divided", [&] { return "core " + show(sorted(t.n[t.cores[c]].px)) + " is divided"; });
      }
      r.require(n == 1, "core-per-source", [&] { return "a source has " + vk::str(n) + " cores"; });
      r.require(o->getProperty<SourceId>().getDetectionId() == id, "detection-id", [&] { return "detection id " + vk::str((int)o->getProperty<SourceId>().getDetectionId()) + " instead of the parent's id " + vk::str((int)id); });
    }
    std::set<unsigned> ids; for (auto& o : out) ids.insert(o->getProperty<SourceId>().getSourceId());
    r.require(ids.size() == out.size() && !ids.count(id), "source-id", [] { return std::string("source ids are not distinct"); });
    // the other pixels: where the profile of a core vanishes against the others the pixel cannot be its own
    struct Prof { double cx, cy, xx, yy, xy, amp; };
    std::vector<Prof> pr;
    for (int c : t.cores) {
      auto q = factory()->createSource();
      q->setProperty<PixelCoordinateList>(t.n[c].px); q->setProperty<DetectionFrame>(s.frame);
      auto& sh = q->getProperty<ShapeParameters>(); auto& pk = q->getProperty<PeakValue>(); auto& ce = q->getProperty<PixelCentroid>();
      double d = t.n[c].px.size() / (2.0 * M_PI * sh.getAbcor() * sh.getEllipseA() * sh.getEllipseB());
      double amp = d < 70 ? pk.getMinValue() * std::exp(d) : 4.0 * pk.getMaxValue();
      pr.push_back({ce.getCentroidX(), ce.getCentroidY(), sh.getEllipseCxx() / sh.getAbcor(), sh.getEllipseCyy() / sh.getAbcor(), sh.getEllipseCxy() / sh.getAbcor(), std::min(amp, 4.0 * pk.getMaxValue())});
    }
    for (auto& q : s.px) {
      bool core = false; for (int c : t.cores) core = core || std::find(t.n[c].px.begin(), t.n[c].px.end(), q) != t.n[c].px.end();
      if (core) continue;
      std::vector<double> dist, prob; double sum = 0, near = 1e300;
      for (auto& f : pr) { double dx = q.m_x - f.cx, dy = q.m_y - f.cy, d = .5 * (f.xx * dx * dx + f.yy * dy * dy + f.xy * dx * dy); dist.push_back(d); prob.push_back(d < 70 ? f.amp * std::exp(-d) : 0); sum += prob.back(); near = std::min(near, d); }
      if (!(sum == sum)) continue;
      for (size_t c = 0; c < of.size(); ++c) if (of[c]->getProperty<PixelCoordinateList>().contains(q)) {
        if (sum > 2e-31) r.require(prob[c] > 1e-7 * sum, "reassigned-to-likely", [&] { return "pixel " + show({q}) + " is given to a source with a share of " + vk::str(prob[c] / sum); });
        else if (sum < .5e-31) r.require(dist[c] <= near * 1.0001 + 1e-6, "reassigned-to-nearest", [&] { return "pixel " + show({q}) + " is given to a source at distance " + vk::str(dist[c]) + " although one is at " + vk::str(near); });
      }
    }
    if (twice) {  // the same step, made again, gives the same parts
      auto again = MultiThresholdPartitionStep(factory(), contrast, levels, area, 7).partition(s.source());
      bool same = again.size() == out.size();
      for (size_t i = 0; same && i < out.size(); ++i) same = pixelsOf(*again[i]) == pixelsOf(*out[i]);
      r.require(same, "seed", [] { return std::string("two runs with the same seed differ"); });
    }
  }
  r.nontrivial(t.cores.size() > 1);
  show(r, out); r.transition(s.px.size());
}
VK_SUITE(multi_threshold_images) {
  const float lv[] = {1, 3, 9, 27};
  struct { int w, h, l; } sizes[] = {{5, 1, 4}, {7, 1, 3}, {1, 6, 3}, {3, 3, 3}, {5, 2, 3}, {4, 3, 3}, {9, 1, 3}};
  for (auto& z : sizes) {
    int n = z.w * z.h;
    if (n >= 10 && !r.thorough()) continue;
    if (n == 12) z.l = 2;
    for (vk::Odo o(std::vector<int>(n, z.l)); !o.done; o.inc()) {
      if (!r.next()) continue;
      auto v = o.v;
      Scene s(z.w, z.h, 2, 1, z.w + 4, z.h + 3, [&](int x, int y) { return lv[v[y * z.w + x]] + .01f * (x + 2 * y); }, (1u << n) - 1, 400);
      r.desc([&] { return s.str(); });
      r.guarded("multi-threshold", [&] {
        TileManager::getInstance()->flush();
        for (unsigned levels : {2u, 5u, 16u}) for (float c : {0.f, .06f, .3f}) for (unsigned a : {1u, 2u}) multi(r, s, c, levels, a, a == 1 && levels == 16);
      });
    }
  }
}
VK_SUITE(multi_threshold_shapes) {
  // masks of objects over fixed values, wide distances (far away pixels), and hierarchies of splits
  const float f1[] = {27, 9, 30, 2, 28, 9, 26, 3, 25, 1, 40, 2};
  for (int m = 1; m < 4096; m += r.thorough() ? 1 : 3) {
    if (!r.next()) continue;
    Scene s(4, 3, 0, 2, 7, 6, [&](int x, int y) { return f1[y * 4 + x] + .01f * x; }, m, 400);
    r.desc([&] { return s.str(); });
    r.guarded("multi-threshold", [&] { TileManager::getInstance()->flush(); for (unsigned levels : {4u, 32u}) for (float c : {0.f, .005f, .1f}) multi(r, s, c, levels, 1, false); });
  }
  const float peaks[] = {25, 100, 103, 500}, valleys[] = {5, 20, 60};
  for (vk::Odo o({3, 3, 3, 3, 3, 3, r.thorough() ? 4 : 3}); !o.done; o.inc()) {
    if (!r.next()) continue;
    auto v = o.v;
    Scene s(7, 1, 1, 1, 9, 3, [&](int x, int) { return x % 2 ? valleys[v[x]] : peaks[v[x]]; }, 127, 400);
    r.desc([&] { return s.str(); });
    r.guarded("multi-threshold", [&] { TileManager::getInstance()->flush(); for (unsigned levels : {16u, 32u}) for (float c : {0.f, .02f, .06f}) multi(r, s, c, levels, 1, false); });
  }
  for (int d = 2; d <= 60; ++d) for (int k = 0; k < 8; ++k) {
    if (!r.next()) continue;
    // two or three peaks along a line, d pixels apart, on a plateau
    Scene s(2 * d + 3, 1, 1, 1, 2 * d + 5, 3, [&](int x, int) { return x == 1 ? 100.f : x == 1 + d ? (k & 1 ? 90.f : 1.f) : x == 1 + 2 * d ? 80.f : x < 1 + d && k & 2 ? 5.f : 1.f; }, 0, 400);
    for (int x = 0; x < s.w; ++x) if (!(k & 4) || x % 5 != 3 || x < 2) s.px.push_back(PixelCoordinate(1 + x, 1));
    r.desc([&] { return s.str(); });
    r.guarded("multi-threshold", [&] { TileManager::getInstance()->flush(); for (unsigned levels : {4u, 32u}) for (float c : {0.f, .005f, .1f}) multi(r, s, c, levels, 1, true); });
  }
}

// --- the stage: any chain of steps ---
struct Step : PartitionStep {
  int kind; explicit Step(int k) : kind(k) {}
  static std::vector<Pixels> apply(int kind, const Pixels& p) {
    std::vector<Pixels> o;
    if (kind == 0) o = {p};
    if (kind == 1) { if (p[0].m_x % 2 == 0) o = {p}; }                                        // drops some
    if (kind == 2) { if (p.size() < 2) o = {p}; else o = {Pixels(p.begin(), p.begin() + p.size() / 2), Pixels(p.begin() + p.size() / 2, p.end())}; }
    if (kind == 3) for (auto& q : p) o.push_back({q});
    return o;
  }
  Sources partition(std::unique_ptr<SourceInterface> s) const override {
    auto o = apply(kind, pixelsOf(*s));
    Sources out;
    if (o.size() == 1 && o[0] == pixelsOf(*s)) { out.push_back(std::move(s)); return out; }
    for (auto& p : o) { out.push_back(factory()->createSource()); out.back()->setProperty<PixelCoordinateList>(p); }
    return out;
  }
};
struct Sink : PipelineReceiver<SourceInterface> {
  std::vector<Pixels> got; int signals = 0; std::vector<std::string>* log;
  explicit Sink(std::vector<std::string>* l) : log(l) {}
  void receiveSource(std::unique_ptr<SourceInterface> s) override { log->push_back("next " + show(pixelsOf(*s))); got.push_back(pixelsOf(*s)); }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { log->push_back("signal"); ++signals; }
};
struct Watch : Observer<SourceInterface> {
  std::vector<std::string>* log; explicit Watch(std::vector<std::string>* l) : log(l) {}
  void handleMessage(const SourceInterface& s) override { log->push_back("seen " + show(pixelsOf(s))); }
};
VK_SUITE(partition_chains) {
  int len = r.thorough() ? 5 : 4;
  for (int l = 0; l <= len; ++l) for (vk::Odo o(std::vector<int>(l, 4)); !o.done; o.inc()) for (int n = 1; n <= 5; n += 2) for (int observed = 0; observed < 2; ++observed) {
    if (!r.next()) continue;
    auto ops = o.v;
    r.desc([=] { return "steps " + vk::strv(ops) + " on sources of " + vk::str(n) + " pixels"; });
    r.guarded("chain", [&] {
      std::vector<std::shared_ptr<PartitionStep>> steps;
      for (int k : ops) steps.push_back(std::make_shared<Step>(k));
      Partition part(steps);
      std::vector<std::string> log, want;
      auto sink = std::make_shared<Sink>(&log);
      part.setNextStage(sink);
      if (observed) part.addObserver(std::make_shared<Watch>(&log));
      for (int i = 0; i < 2; ++i) {
        Pixels p; for (int k = 0; k < n; ++k) p.push_back(PixelCoordinate(i + k, i));
        auto s = factory()->createSource(); s->setProperty<PixelCoordinateList>(p);
        part.receiveSource(std::move(s));
        std::vector<Pixels> cur{p};
        for (int k : ops) { std::vector<Pixels> nx; for (auto& q : cur) for (auto& z : Step::apply(k, q)) nx.push_back(z); cur = nx; }
        for (auto& q : cur) { if (observed) want.push_back("seen " + show(q)); want.push_back("next " + show(q)); }
        part.receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>()));
        want.push_back("signal");
      }
      auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + "; "; return s; };
      r.require(log == want, "chain", [&] { return join(log) + " instead of " + join(want); });
      r.nontrivial(want.size() > 2); r.see(vk::hashStr(join(log))); r.transition(log.size());
    });
  }
}
