// Multithreaded measurement between the grouping and the output: every schedule up to the bound.
#include <csignal>
#include "mc.h"
#include "AlexandriaKernel/ThreadPool.h"
#include "ElementsKernel/Exception.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Measurement/MultithreadedMeasurement.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
using namespace SourceXtractor;
namespace {
Euclid::Table::Row noRow() {
  static auto info = std::make_shared<Euclid::Table::ColumnInfo>(std::vector<Euclid::Table::ColumnInfo::info_type>{Euclid::Table::ColumnInfo::info_type("a", typeid(int32_t))});
  return Euclid::Table::Row({int32_t(1)}, info);
}
struct World {
  std::vector<int> ids, got, measured;
  int signals = 0, alive = 0, terms = 0;
  bool delivering = false;
  int fail_at = -1;
};
World* W;
struct Src : SourceInterface {
  int group, id;
  bool bad;
  SourceID sid;
  Src(int g, int i, bool b) : group(g), id(i), bad(b), sid(i, i) { mc::Untracked u; ++W->alive; }
  ~Src() override { mc::Untracked u; --W->alive; }
  using SourceInterface::getProperty;
  const Property& getProperty(const PropertyId& p) const override {
    mc::Untracked u;
    if (p == PropertyId::create<SourceID>()) W->ids.push_back(id);
    return sid;
  }
  void setProperty(std::unique_ptr<Property>, const PropertyId&) override {}
};
struct Group : SimpleSourceGroup {
  int id;
  explicit Group(int i) : id(i) {}
};
struct Sink : PipelineReceiver<SourceGroupInterface> {
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override {
    { mc::Untracked u; if (W->delivering) mc::fail("re-entered", "the next stage is called by two threads at once"); W->delivering = true; }
    if (!g) mc::fail("null group", "the next stage got nothing");
    auto& gr = dynamic_cast<Group&>(*g);
    mc::point();
    for (auto& s : gr) { auto& src = dynamic_cast<Src&>(s.getRef()); mc::Untracked u; if (W->measured[src.id] != 1) mc::fail("not measured", "source " + std::to_string(src.id) + " was measured " + std::to_string(W->measured[src.id]) + " times before it is output"); }
    int id = gr.id;
    g.reset();
    mc::point();
    { mc::Untracked u; W->got.push_back(id); W->delivering = false; }
    if (id == W->fail_at) throw Elements::Exception() << "cannot write";
  }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { mc::Untracked u; ++W->signals; }
};
// script: '1','2' a group of that many sources, 'b' a group whose measurement fails, 'x' a group whose output fails, 'p' a signal, 'y' synchronize
void scene(vk::Run& r, const char* key, const std::string& script, int workers, int pre, bool reuse = false) {
  mc::Options o; o.preemptions = pre; o.reuse = reuse;
  mc::explore(r, key, "events '" + script + "' (1, 2 sources in a group, b failing measurement, x failing output, p signal, y synchronize), " + std::to_string(workers) + " workers", o, [=] {
    World w; W = &w; w.measured.assign(20, 0);
    bool bad = script.find('b') != std::string::npos, thrown = false;
    {
      auto pool = std::make_shared<Euclid::ThreadPool>(workers);
      MultithreadedMeasurement m([](const SourceInterface& s) {
        auto& wr = dynamic_cast<const SourceGroupInterface::SourceWrapper&>(s);
        auto& src = dynamic_cast<Src&>(wr.getRef());
        mc::point();
        if (src.bad) throw std::runtime_error("cannot measure");
        mc::Untracked u;
        ++W->measured[src.id];
        return noRow();
      }, pool, 10);
      m.setNextStage(std::make_shared<Sink>());
      int ng = 0, ns = 0, np = 0;
      std::vector<int> sent;
      ::signal(SIGTERM, [](int) { ++W->terms; });
      m.startThreads();
      try {
        for (char c : script) {
          mc::point();
          if (c == 'p') { m.receiveProcessSignal(ProcessSourcesEvent(nullptr)); ++np; mc::require(w.signals == np, "signal", "signal not passed on"); continue; }
          if (c == 'y') {
            m.synchronizeThreads();
            mc::Untracked u;
            std::vector<int> g = w.got; std::sort(g.begin(), g.end());
            if (!bad && (g != sent || w.delivering)) mc::fail("synchronize", "synchronizeThreads returned with groups " + vk::strv(g) + " output of " + vk::strv(sent));
            continue;
          }
          auto g = std::unique_ptr<SourceGroupInterface>(new Group(ng));
          if (c == 'x') { mc::Untracked u; w.fail_at = ng; }
          for (int i = 0; i < (c == '2' ? 2 : 1); ++i) g->addSource(std::unique_ptr<SourceInterface>(new Src(ng, ns++, c == 'b')));
          sent.push_back(ng++);
          m.receiveSource(std::move(g));
        }
        m.stopThreads();
      } catch (const std::exception& e) { thrown = true; }
      mc::require(thrown == bad, "exception", bad ? "the failure of a measurement was not reported" : "unexpected exception");
      mc::Untracked u;
      std::vector<int> g = w.got; std::sort(g.begin(), g.end());
      if (!bad && w.fail_at < 0 && (g != sent || w.delivering)) mc::fail("delivery", "after stopThreads groups " + vk::strv(g) + " were output of " + vk::strv(sent));
      for (size_t i = 1; i < g.size(); ++i) if (g[i] == g[i - 1]) mc::fail("delivery", "group " + std::to_string(g[i]) + " was output twice");
      std::vector<int> want;
      if (!bad) for (int i = 0; i < ns; ++i) want.push_back(i);
      if (!bad && w.ids != want) mc::fail("ids", "source identifiers were requested in the order " + vk::strv(w.ids));
      if (w.terms != (w.fail_at >= 0)) mc::fail("abort", "the output failure raised " + std::to_string(w.terms) + " signals");
    }
    mc::Untracked u;
    if (w.alive) mc::fail("leak", std::to_string(w.alive) + " sources are still alive at the end");
    uint64_t h = 0; for (int g : w.got) h = vk::mix(h, g + 100); mc::observe(vk::mix(h, thrown));
  });
}
}
VK_SUITE(one_worker) {
  int p = r.thorough() ? 3 : 2;
  scene(r, "measure/1", "1", 1, p);
  scene(r, "measure/11", "11", 1, p - 1);
  scene(r, "measure/2p1", "2p1", 1, p - 1, true);
  scene(r, "measure/1y1", "1y1", 1, p - 1);
  scene(r, "measure/none", "", 1, p);
}
VK_SUITE(two_workers) {
  int p = r.thorough() ? 2 : 1;
  scene(r, "measure/w2/11", "11", 2, p);
  scene(r, "measure/w2/1y2", "1y2", 2, p);
  scene(r, "measure/w2/211", "211", 2, p, true);
}
VK_SUITE(failures) {
  int p = r.thorough() ? 2 : 1;
  scene(r, "measure/b", "b", 1, p);
  scene(r, "measure/1b", "1b", 1, p);
  scene(r, "measure/by", "by", 2, p);
  scene(r, "measure/x", "x", 1, p);
}
VK_SUITE(never_started) {
  mc::Options o; o.preemptions = 1;
  mc::explore(r, "measure/never_started", "a measurement destroyed before its threads are started", o, [] {
    auto pool = std::make_shared<Euclid::ThreadPool>(1);
    { MultithreadedMeasurement m([](const SourceInterface&) { return noRow(); }, pool, 10); mc::point(); }
    mc::observe(1);
  });
}
