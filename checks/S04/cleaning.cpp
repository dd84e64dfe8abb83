// Cleaning and the deblending stage: every combination of source kinds, against a definition.
#include "common/tilecheck.h"
#include "common/plugins.h"
#include <cmath>
#include <set>
#include "SEFramework/Pipeline/Deblending.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Deblending/Cleaning.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelEvaluator.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelFitting.h"
using namespace SourceXtractor;
using plugins::show; using plugins::sorted; using plugins::pixelsOf;
using Pixels = std::vector<PixelCoordinate>;
struct Kind { float amp; int npix; float value; float dx; };
struct Mark : Property { int n; explicit Mark(int n_) : n(n_) {} };
static std::shared_ptr<plugins::Factory> factory() { static auto f = std::make_shared<plugins::Factory>(); return f; }
struct Src { Pixels px; std::vector<float> values; std::shared_ptr<MoffatModelEvaluator> model; unsigned sid, did; SourceInterface* ptr; };
static double moffat(double x, double y, double i0, double index) { return i0 * std::pow(1 + x * x + y * y, -index); }

// spacing: distance of the sources; the frame of each carries its own size so that it can be told apart
static void one(vk::Run& r, const std::vector<Kind>& kinds, int spacing, unsigned min_area, bool simple) {
  int n = kinds.size();
  std::unique_ptr<SourceGroupInterface> g;
  if (simple) g.reset(new SimpleSourceGroup); else g.reset(new SourceGroupWithOnDemandProperties(factory()->provider));
  std::vector<Src> src;
  static std::vector<std::shared_ptr<DetectionImageFrame>> frames;
  while ((int)frames.size() < 5) { Img im(4 + frames.size(), 3, [](int, int) { return 1.f; }); frames.push_back(plugins::frame(im, im)); }
  for (int i = 0; i < n; ++i) {
    auto& k = kinds[i];
    Src s;
    for (int p = 0; p < k.npix; ++p) { s.px.push_back(PixelCoordinate(i * spacing + p % 2, p / 2 + 3)); s.values.push_back(k.value + 3 * (p % 3)); }
    auto q = factory()->createSource();
    q->setProperty<PixelCoordinateList>(s.px);
    q->setProperty<DetectionFrame>(frames[i]);
    if (i % 2) q->setProperty<SourceId>(77u + i); else q->setProperty<SourceId>();   // some were split off another one
    q->setProperty<DetectionFramePixelValues>(std::vector<float>(s.px.size(), -5.f), s.values, std::vector<float>(s.px.size(), 1.f));
    q->setProperty<Mark>(i);
    MoffatModelFitting fit(i * spacing + k.dx, 3, k.amp, 1, 2, 0, 400, 1, 1, 0, 1);
    q->setProperty<MoffatModelEvaluator>(fit);
    s.model = std::make_shared<MoffatModelEvaluator>(fit);
    s.sid = q->getProperty<SourceId>().getSourceId(); s.did = q->getProperty<SourceId>().getDetectionId();
    s.ptr = q.get();
    g->addSource(std::move(q));
    src.push_back(s);
  }
  // definition
  std::vector<bool> clean(n);
  bool sure = true;
  for (int i = 0; i < n && n > 1; ++i) {
    unsigned valid = 0;
    for (size_t p = 0; p < src[i].px.size(); ++p) {
      double sum = 0;
      for (int j = 0; j < n; ++j) if (j != i) sum += src[j].model->getValue(src[i].px[p].m_x, src[i].px[p].m_y);
      if (std::fabs(sum - src[i].values[p]) < 1e-9 * (1 + std::fabs(sum))) sure = false;
      valid += src[i].values[p] > sum;
    }
    clean[i] = valid < min_area;
  }
  std::vector<int> rest;
  for (int i = 0; i < n; ++i) if (!clean[i]) rest.push_back(i);
  std::vector<std::vector<int>> merged(n);
  std::vector<std::set<int>> choice(n);
  for (int i = 0; i < n; ++i) if (clean[i] && rest.size()) {
    std::vector<double> t; double best = 0;
    for (int j : rest) { double s = 0; for (auto& p : src[i].px) s += src[j].model->getValue(p.m_x, p.m_y); t.push_back(s); best = std::max(best, s); }
    for (size_t k = 0; k < rest.size(); ++k) if (t[k] >= best * (1 - 1e-9)) choice[i].insert(rest[k]);
  }
  if (!sure) { r.see(3); return; }

  Cleaning cleaning(factory(), min_area);
  cleaning.deblend(*g);

  r.require(g->size() == rest.size(), "count", [&] { return vk::str((int)g->size()) + " sources remain instead of " + vk::str((int)rest.size()); });
  std::vector<int> seen(n);
  Pixels all;
  for (auto& w : *g) {
    auto& s = static_cast<SourceInterface&>(w);
    auto px = sorted(pixelsOf(s));
    all.insert(all.end(), px.begin(), px.end());
    // which remaining source is it? The one whose pixels it has
    int who = -1;
    for (int i : rest) if (std::includes(px.begin(), px.end(), src[i].px.begin(), src[i].px.end(), [](const PixelCoordinate& a, const PixelCoordinate& b) { return a.m_y != b.m_y ? a.m_y < b.m_y : a.m_x < b.m_x; })) { r.require(who < 0, "merged-remaining", [] { return std::string("two sources that are both to be kept were merged"); }); who = i; }
    r.require(who >= 0 && !seen[who]++, "unknown-source", [&] { return "a source with pixels " + show(px); });
    // the cleaned ones it took
    Pixels want = src[who].px;
    bool took = false;
    for (int i = 0; i < n; ++i) if (clean[i]) {
      size_t k = 0; for (auto& p : src[i].px) k += std::find(px.begin(), px.end(), p) != px.end();
      r.require(k == 0 || k == src[i].px.size(), "cleaned-divided", [] { return std::string("a cleaned source was divided"); });
      if (k) { took = true; want.insert(want.end(), src[i].px.begin(), src[i].px.end()); r.require(choice[i].count(who), "most-influential", [&] { return "cleaned source " + vk::str(i) + " went to " + vk::str(who); }); }
    }
    r.require(sorted(want) == px, "pixels", [&] { return show(px) + " instead of " + show(sorted(want)); });
    if (!took) r.require(w.getProperty<Mark>().n == who, "kept-same", [] { return std::string("an untouched source lost its properties"); });
    else {
      bool has = true;
      try { s.getProperty<Mark>(); } catch (const std::exception&) { has = false; }
      r.require(!has, "merged-fresh", [] { return std::string("a merged source kept measurements from before"); });
    }
    auto& id = s.getProperty<SourceId>();
    r.require(id.getDetectionId() == src[who].did, "detection-id", [&] { return "detection identifier " + vk::str((int)id.getDetectionId()) + " instead of " + vk::str((int)src[who].did); });
    r.require(took ? id.getSourceId() != src[who].sid : id.getSourceId() == src[who].sid, "source-id", [] { return std::string("source identifier"); });
    r.require(s.getProperty<DetectionFrameImages>().getWidth() == 4 + who, "frame", [] { return std::string("the frame of the merged source is not the one of the source it extends"); });
  }
  Pixels total;
  if (rest.size()) for (auto& s : src) total.insert(total.end(), s.px.begin(), s.px.end());
  r.require(sorted(all) == sorted(total), "conserved", [&] { return "pixels " + show(sorted(all)) + " instead of " + show(sorted(total)); });
  r.nontrivial(rest.size() < (size_t)n && rest.size()); r.see(rest.size() * 100 + n); for (auto c : clean) r.see(c); r.transition(n);
}
static std::string show(const std::vector<Kind>& k, int spacing, int area) {
  std::string s = "spacing " + vk::str(spacing) + ", minimum area " + vk::str(area) + ":";
  for (auto& x : k) s += " [model " + vk::str(x.amp) + ", " + vk::str(x.npix) + " pixels from " + vk::str(x.value) + "]";
  return s;
}
VK_SUITE(cleaning) {
  const Kind kinds[] = {{1000, 4, 900, 0}, {1000, 1, 40, .5f}, {20, 3, 15, 0}, {20, 6, 40, -.5f}, {2, 2, 5, 0}, {0, 3, 2, 0}, {1e5f, 5, 200, 0}, {2, 4, 900, 1}};
  int max = r.thorough() ? 5 : 4;
  for (int n = 1; n <= max; ++n) for (vk::Odo o(std::vector<int>(n, n >= 5 ? 6 : 8)); !o.done; o.inc()) for (int spacing : {2, 7}) for (unsigned area : {1u, 3u, 4u}) {
    if (!r.next()) continue;
    std::vector<Kind> k; for (int i : o.v) k.push_back(kinds[i]);
    r.desc([&, k] { return show(k, spacing, area); });
    r.guarded("cleaning", [&] { one(r, k, spacing, area, o.v[0] % 2); });
  }
}
VK_SUITE(influence_model) {
  // what one source contributes to the pixels of another
  for (int x = -4; x <= 4; ++x) for (int y = -4; y <= 4; ++y) for (float i0 : {1.f, 250.f}) for (float index : {1.f, 2.5f}) for (float cx : {10.f, 10.25f}) {
    if (!r.next()) continue;
    r.desc([=] { return "model at " + vk::str(cx) + ",7 of " + vk::str(i0) + " index " + vk::str(index) + " at offset " + vk::str(x) + "," + vk::str(y); });
    r.guarded("model", [&] {
      MoffatModelEvaluator e(MoffatModelFitting(cx, 7, i0, index, 2, 0, 400, 1, 1, 0, 12));
      double want = moffat(10 + x - cx, y, i0, index), got = e.getValue(10 + x, 7 + y);
      r.require(vk::close(got, want, 1e-5, 1e-9), "model-value", [&] { return vk::str(got) + " instead of " + vk::str(want); });
      r.require(e.getIterations() == 12, "model-iterations", [] { return std::string("iterations"); });
      r.nontrivial(true); r.seeD(got); r.transition();
    });
  }
}
// --- the stage ---
struct Step : DeblendStep {
  int kind; std::vector<std::string>* log;
  Step(int k, std::vector<std::string>* l) : kind(k), log(l) {}
  static std::vector<int> apply(int k, std::vector<int> v) {
    if (k == 1 && v.size()) v.erase(v.begin());
    if (k == 2) v.push_back(100 + (int)v.size());
    if (k == 3) v.clear();
    return v;
  }
  void deblend(SourceGroupInterface& g) const override {
    if (kind == 1 && g.begin() != g.end()) g.removeSource(g.begin());
    if (kind == 2) { auto s = std::unique_ptr<SourceInterface>(new SimpleSource); s->setProperty<Mark>(100 + (int)g.size()); g.addSource(std::move(s)); }
    if (kind == 3) while (g.begin() != g.end()) g.removeSource(g.begin());
  }
  std::set<PropertyId> requiredProperties() const override { return {PropertyId::create<Mark>(kind)}; }
};
static std::string marks(const SourceGroupInterface& g) { std::string s; for (auto& x : g) s += vk::str(x.getProperty<Mark>().n) + ","; return s; }
struct Sink : PipelineReceiver<SourceGroupInterface> {
  std::vector<std::string>* log; explicit Sink(std::vector<std::string>* l) : log(l) {}
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { log->push_back("next " + marks(*g)); }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { log->push_back("signal"); }
};
struct Watch : Observer<SourceGroupInterface> {
  std::vector<std::string>* log; explicit Watch(std::vector<std::string>* l) : log(l) {}
  void handleMessage(const SourceGroupInterface& g) override { log->push_back("seen " + marks(g)); }
};
VK_SUITE(deblending_stage) {
  int len = r.thorough() ? 5 : 4;
  for (int l = 0; l <= len; ++l) for (vk::Odo o(std::vector<int>(l, 4)); !o.done; o.inc()) for (int n = 1; n <= 3; ++n) {
    if (!r.next()) continue;
    auto ops = o.v;
    r.desc([=] { return "steps " + vk::strv(ops) + " on groups of " + vk::str(n); });
    r.guarded("stage", [&] {
      std::vector<std::string> log, want;
      std::vector<std::shared_ptr<DeblendStep>> steps; std::set<PropertyId> need;
      for (int k : ops) { steps.push_back(std::make_shared<Step>(k, &log)); need.insert(PropertyId::create<Mark>(k)); }
      Deblending d(steps);
      d.setNextStage(std::make_shared<Sink>(&log)); d.addObserver(std::make_shared<Watch>(&log));
      r.require(d.requiredProperties() == need, "required", [] { return std::string("required properties are not those of the steps"); });
      for (int k = 0; k < 2; ++k) {
        auto g = std::unique_ptr<SourceGroupInterface>(new SimpleSourceGroup);
        std::vector<int> m;
        for (int i = 0; i < n; ++i) { auto s = std::unique_ptr<SourceInterface>(new SimpleSource); s->setProperty<Mark>(i + 10 * k); g->addSource(std::move(s)); m.push_back(i + 10 * k); }
        for (int op : ops) m = Step::apply(op, m);
        if (m.size()) { std::string t; for (int x : m) t += vk::str(x) + ","; want.push_back("seen " + t); want.push_back("next " + t); }
        d.receiveSource(std::move(g));
        d.receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>()));
        want.push_back("signal");
      }
      auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + "; "; return s; };
      r.require(log == want, "stage-order", [&] { return join(log) + " instead of " + join(want); });
      r.nontrivial(want.size() > 2); r.see(vk::hashStr(join(log))); r.transition(log.size());
    });
  }
}
