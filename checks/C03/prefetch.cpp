// The prefetcher between a producer and the next stage: every schedule up to the bound of producer, workers and output thread.
#include "mc.h"
#include "AlexandriaKernel/ThreadPool.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Property/Property.h"
#include "SEFramework/Source/SourceInterface.h"
#include "SEImplementation/Prefetcher/Prefetcher.h"
using namespace SourceXtractor;
namespace {
struct PropA : Property {};
struct PropB : Property {};
struct World {
  int n_props = 0, q = 0;
  int in_flight = 0;                 // accepted and not delivered
  std::vector<int> got;              // source number, or -1-k for the k-th signal
  std::vector<int> computed;         // bit per property, by source
  int alive = 0;
  bool delivering = false;
};
World* W;
struct Src : SourceInterface {
  int id;
  bool bad;
  PropA a;
  Src(int i, bool b) : id(i), bad(b) { mc::Untracked u; ++W->alive; }
  ~Src() override { mc::Untracked u; --W->alive; }
  using SourceInterface::getProperty;
  const Property& getProperty(const PropertyId& p) const override {
    mc::point();
    if (bad) throw std::runtime_error("cannot compute");
    mc::Untracked u;
    int bit = p == PropertyId::create<PropA>() ? 1 : p == PropertyId::create<PropB>() ? 2 : 4;
    if (W->computed[id] & bit) mc::fail("computed twice", "property of source " + std::to_string(id));
    W->computed[id] |= bit;
    return a;
  }
  void setProperty(std::unique_ptr<Property>, const PropertyId&) override {}
};
struct Crit : SelectionCriteria { int id; explicit Crit(int i) : id(i) {} bool mustBeProcessed(const SourceInterface&) const override { return true; } };
struct Sink : PipelineReceiver<SourceInterface> {
  void enter() { mc::Untracked u; if (W->delivering) mc::fail("re-entered", "the next stage is called by two threads at once"); W->delivering = true; }
  void leave() { mc::Untracked u; W->delivering = false; }
  void receiveSource(std::unique_ptr<SourceInterface> s) override {
    enter();
    if (!s) mc::fail("null source", "the next stage got no source");
    auto& src = dynamic_cast<Src&>(*s);
    { mc::Untracked u; if (W->computed[src.id] != (1 << W->n_props) - 1) mc::fail("not prefetched", "source " + std::to_string(src.id) + " arrives without its properties"); }
    mc::point();
    { mc::Untracked u; W->got.push_back(src.id); --W->in_flight; }
    s.reset();
    mc::point();
    leave();
  }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override {
    enter();
    mc::point();
    { mc::Untracked u; W->got.push_back(-1 - std::static_pointer_cast<Crit>(e.m_selection_criteria)->id); }
    mc::point();
    leave();
  }
};
// script: 's' a source, 'p' a process signal, 'y' synchronize, 'b' a source whose property computation fails
void scene(vk::Run& r, const char* key, const std::string& script, int workers, int q, int props, int pre, bool reuse) {
  mc::Options o; o.preemptions = pre; o.reuse = reuse;
  mc::explore(r, key, "events '" + script + "' (s source, p signal, y synchronize, b failing source), " + std::to_string(workers) + " workers, queue of " + std::to_string(q) + ", " + std::to_string(props) + " properties", o, [=] {
    World w; W = &w; w.n_props = props; w.q = q; w.computed.assign(script.size(), 0);
    bool thrown = false, bad = script.find('b') != std::string::npos;
    {
      auto pool = std::make_shared<Euclid::ThreadPool>(workers);
      auto pf = std::make_shared<Prefetcher>(pool, q);
      pf->setNextStage(std::make_shared<Sink>());
      std::vector<PropertyId> ids;
      if (props > 0) ids.push_back(PropertyId::create<PropA>());
      if (props > 1) ids.push_back(PropertyId::create<PropB>());
      pf->requestProperties(ids);
      std::vector<int> want;
      int ns = 0, np = 0;
      try {
        for (char c : script) {
          mc::point();
          if (c == 's' || c == 'b') {
            auto s = std::unique_ptr<SourceInterface>(new Src(ns, c == 'b'));
            want.push_back(ns++);
            pf->receiveSource(std::move(s));
            mc::Untracked u;
            if (++w.in_flight > q) mc::fail("queue limit", std::to_string(w.in_flight) + " sources are in flight, the limit is " + std::to_string(q));
          } else if (c == 'p') {
            want.push_back(-1 - np);
            pf->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<Crit>(np++)));
          } else if (c == 'y') {
            pf->synchronize();
            mc::Untracked u;
            if (!bad && (w.got != want || w.delivering)) mc::fail("synchronize", "synchronize returned before everything was delivered: " + vk::strv(w.got) + " of " + vk::strv(want));
          }
        }
        pf->synchronize();
      } catch (const std::exception&) { thrown = true; }
      mc::require(thrown == bad, "exception", bad ? "the failure of a worker was not reported" : "unexpected exception");
      pf->wait();
      mc::Untracked u;
      if (!bad && w.got != want) mc::fail("delivery", "delivered " + vk::strv(w.got) + " instead of " + vk::strv(want));
      if (bad) for (size_t i = 0; i < w.got.size(); ++i) if (w.got[i] != want[i]) mc::fail("delivery", "delivered " + vk::strv(w.got) + ", sent " + vk::strv(want));
    }
    mc::Untracked u;
    if (w.alive) mc::fail("leak", std::to_string(w.alive) + " sources are still alive at the end");
    uint64_t h = 0; for (int g : w.got) h = vk::mix(h, g + 100); mc::observe(vk::mix(h, thrown));
  });
}
}
VK_SUITE(one_worker) {
  int p = r.thorough() ? 3 : 2;
  scene(r, "prefetch/s", "s", 1, 2, 1, p, false);
  scene(r, "prefetch/p", "p", 1, 2, 1, p, false);
  scene(r, "prefetch/sp", "sp", 1, 2, 1, p - 1, false);
  scene(r, "prefetch/ps", "ps", 1, 2, 2, p - 1, false);
  scene(r, "prefetch/ss_q1", "ss", 1, 1, 1, p - 1, true);
  scene(r, "prefetch/sys", "sys", 1, 2, 1, p - 1, true);
}
VK_SUITE(two_workers) {
  int p = r.thorough() ? 2 : 1;
  scene(r, "prefetch/ss", "ss", 2, 2, 1, p, false);
  scene(r, "prefetch/sps", "sps", 2, 3, 1, p, true);
  scene(r, "prefetch/ss_reuse", "ss", 1, 2, 0, p + 1, true);
}
VK_SUITE(addresses_reused) {
  int p = r.thorough() ? 2 : 1;
  scene(r, "prefetch/sss_reuse", "sss", 1, 2, 0, p, true);
  scene(r, "prefetch/sss2_reuse", "sss", 2, 2, 1, p, true);
  scene(r, "prefetch/ssps_reuse", "ssps", 1, 2, 1, p, true);
}
VK_SUITE(worker_failure) {
  int p = r.thorough() ? 2 : 1;
  scene(r, "prefetch/b", "b", 1, 2, 1, p, false);
  scene(r, "prefetch/sb", "sb", 1, 2, 1, p, false);
  scene(r, "prefetch/bs", "bs", 2, 3, 1, p, false);
  scene(r, "prefetch/bs_q1", "bs", 1, 1, 1, 0, false);
}
