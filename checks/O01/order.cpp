// The sorter before the output, the stages' observers, and the flow of sources and signals through stages.
#include "vkit.h"
#include <algorithm>
#include <memory>
#include <numeric>
#include "SEFramework/Output/Output.h"
#include "SEFramework/Pipeline/Deblending.h"
#include "SEFramework/Pipeline/Partition.h"
#include "SEFramework/Pipeline/PipelineStage.h"
#include "SEFramework/Pipeline/Segmentation.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/CoordinateSystem/CoordinateSystem.h"
#include "SEFramework/Property/DetectionFrame.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Measurement/DummyMeasurement.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEMain/Sorter.h"
using namespace SourceXtractor;
static int alive = 0;
struct Src : SimpleSource { Src() { ++alive; } ~Src() override { --alive; } };
struct Num : Property { int v; explicit Num(int x) : v(x) {} };
struct Out : Output {
  std::vector<int> ids; int flushes = 0, parts = 0;
  void outputSource(const SourceInterface& s) override { ids.push_back(s.getProperty<SourceID>().getId()); }
  size_t flush() override { ++flushes; return ids.size(); }
  void nextPart() override { ++parts; }
};
struct Sink : PipelineReceiver<SourceGroupInterface> {
  std::vector<std::vector<int>> got; std::vector<int> signalsAt;
  std::shared_ptr<Out> out;
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override {
    std::vector<int> v; for (auto& s : *g) v.push_back(s.getProperty<SourceID>().getId());
    got.push_back(v);
    out->receiveSource(std::move(g));
  }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override { signalsAt.push_back(got.size()); out->receiveProcessSignal(e); }
};
struct Watch : Observer<SourceGroupInterface> {
  std::vector<int> first;
  void handleMessage(const SourceGroupInterface& g) override { int m = 1 << 30; for (auto& s : g) m = std::min<int>(m, s.getProperty<SourceID>().getId()); first.push_back(m); }
};
static std::string show(const std::vector<std::vector<int>>& g) { std::string s; for (auto& v : g) s += vk::strv(v); return s; }

// every way to cut sources 1..n into consecutive groups, every order in which these finish, frame after frame
VK_SUITE(sorter) {
  int maxn = r.thorough() ? 8 : 7;
  for (int n = 1; n <= maxn; ++n) for (unsigned cut = 0; cut < 1u << (n - 1); ++cut) {
    std::vector<std::vector<int>> groups{{1}};
    for (int i = 2; i <= n; ++i) { if (cut >> (i - 2) & 1) groups.push_back({}); groups.back().push_back(i); }
    std::vector<int> order(groups.size()); std::iota(order.begin(), order.end(), 0);
    do {
      for (int inner = 0; inner < 3; ++inner) {
        if (!r.next()) continue;
        r.desc([&] { return "groups " + show(groups) + " finished in the order " + vk::strv(order) + (inner == 1 ? ", sources reversed" : inner == 2 ? ", last source first" : ""); });
        r.guarded("sorter", [&] {
          int was = alive;
          {
            Sorter s; auto sink = std::make_shared<Sink>(); auto w = std::make_shared<Watch>(); sink->out = std::make_shared<Out>();
            s.setNextStage(sink); s.addObserver(w);
            std::vector<bool> in(groups.size()); size_t due = 0; std::vector<std::vector<int>> want; int k = 0;
            for (int g : order) {
              auto ids = groups[g];
              if (inner == 1) std::reverse(ids.begin(), ids.end());
              if (inner == 2) std::rotate(ids.begin(), ids.end() - 1, ids.end());
              auto q = std::unique_ptr<SourceGroupInterface>(new SimpleSourceGroup);
              for (int id : ids) { auto p = std::unique_ptr<SourceInterface>(new Src); p->setProperty<SourceID>(id, 100 - id); q->addSource(std::move(p)); }
              s.receiveSource(std::move(q));
              in[g] = true;
              while (due < groups.size() && in[due]) { auto v = groups[due++]; if (inner == 1) std::reverse(v.begin(), v.end()); if (inner == 2) std::rotate(v.begin(), v.end() - 1, v.end()); want.push_back(v); }
              r.require(sink->got == want, "sorter-order", [&] { return "passed on " + show(sink->got) + " instead of " + show(want); });
              r.transition();
              s.receiveProcessSignal(ProcessSourcesEvent(nullptr));
              r.require(sink->signalsAt.size() == (size_t)++k && sink->signalsAt.back() == (int)want.size(), "sorter-signal", [] { return std::string("a signal was not passed on at once"); });
            }
            std::vector<int> all(n); std::iota(all.begin(), all.end(), 1); std::vector<int> o = sink->out->ids;
            if (inner) { std::sort(o.begin(), o.end()); }
            r.require(o == all, "sorter-output", [&] { return "output " + vk::strv(sink->out->ids); });
            std::vector<int> f; for (auto& g : groups) f.push_back(g[0]);
            r.require(w->first == f, "sorter-observer", [&] { return "observed groups beginning with " + vk::strv(w->first); });
            r.require(alive == was, "sorter-kept", [&] { return vk::str(alive - was) + " sources are still held"; });
            uint64_t h = n; for (int g : order) h = vk::mix(h, g); r.see(vk::mix(h, cut)); r.nontrivial(!std::is_sorted(order.begin(), order.end()));
          }
          r.require(alive == was, "sorter-leak", [&] { return vk::str(alive - was) + " sources leaked"; });
        });
      }
    } while (std::next_permutation(order.begin(), order.end()));
  }
}
// every history of adding, removing and notifying
VK_SUITE(observers) {
  struct Obs : Observer<int> { std::vector<int>* log; int id; Obs(std::vector<int>* l, int i) : log(l), id(i) {} void handleMessage(const int& m) override { log->push_back(m * 10 + id); } };
  struct Sub : Observable<int> { void say(int m) const { notifyObservers(m); } };
  // operations: add 0..2, remove 0..2, notify
  int len = r.thorough() ? 7 : 6;
  for (vk::Odo o(std::vector<int>(len, 7)); !o.done; o.inc()) {
    if (!r.next()) continue;
    r.desc([&] { return "operations " + vk::strv(o.v) + " (0-2 add, 3-5 remove, 6 notify)"; });
    r.guarded("observers", [&] {
      std::vector<int> log, want, list; Sub s; std::vector<std::shared_ptr<Obs>> obs; for (int i = 0; i < 3; ++i) obs.push_back(std::make_shared<Obs>(&log, i));
      int n = 0;
      for (int op : o.v) {
        if (op < 3) { s.addObserver(obs[op]); list.push_back(op); }
        else if (op < 6) { s.removeObserver(obs[op - 3]); list.erase(std::remove(list.begin(), list.end(), op - 3), list.end()); }
        else { s.say(++n); for (int i : list) want.push_back(n * 10 + i); }
      }
      s.say(++n); for (int i : list) want.push_back(n * 10 + i);
      r.require(log == want, "observers", [&] { return "notified " + vk::strv(log) + " instead of " + vk::strv(want); });
      for (int i = 0; i < 3; ++i) r.require(obs[i].use_count() == 1 + std::count(list.begin(), list.end(), i), "observers-held", [&] { return "observer " + vk::str(i) + " is held " + vk::str(obs[i].use_count()) + " times"; });
      r.transition(len); r.see(vk::hashStr(vk::strv(log))); r.nontrivial(!want.empty());
    });
  }
}
// sources through labelling, partition steps that drop, keep, split and reorder, and deblending steps that remove
struct Labels : Segmentation::Labelling {
  std::string script; std::shared_ptr<const DetectionImageFrame>* seen;
  Labels(std::string s, std::shared_ptr<const DetectionImageFrame>* f) : script(s), seen(f) {}
  void labelImage(Segmentation::LabellingListener& l, std::shared_ptr<const DetectionImageFrame> f) override {
    *seen = f; int n = 0;
    for (char c : script) {
      if (c == 's') { auto p = std::unique_ptr<SourceInterface>(new Src); p->setProperty<Num>(++n); l.publishSource(std::move(p)); }
      if (c == 'p') l.requestProcessing(ProcessSourcesEvent(nullptr));
      if (c == 'g') l.notifyProgress(n, 9);
    }
    if (!script.empty() && script.back() == 'x') throw Elements::Exception() << "labelling failed";
  }
};
struct Splitter : PartitionStep {
  int how; explicit Splitter(int h) : how(h) {}
  std::vector<std::unique_ptr<SourceInterface>> partition(std::unique_ptr<SourceInterface> s) const override {
    std::vector<std::unique_ptr<SourceInterface>> v; int n = s->getProperty<Num>().v;
    if (how == 1 && n % 2) return v;                                     // drops some
    if (how == 2) for (int k = 1; k <= 2; ++k) { v.emplace_back(new Src); v.back()->setProperty<Num>(n * 10 + k); }   // splits
    else if (how == 3) { if (n % 3) { v.emplace_back(std::move(s)); v.emplace_back(new Src); v.back()->setProperty<Num>(n + 500); } }
    else v.emplace_back(std::move(s));
    return v;
  }
};
static std::vector<int> split(int how, int n) { if (how == 1) return n % 2 ? std::vector<int>{} : std::vector<int>{n}; if (how == 2) return {n * 10 + 1, n * 10 + 2}; if (how == 3) return n % 3 ? std::vector<int>{n, n + 500} : std::vector<int>{}; return {n}; }
struct Rec : PipelineReceiver<SourceInterface> {
  std::vector<int> log; std::shared_ptr<DetectionImageFrame> frame; bool frames = true;
  void receiveSource(std::unique_ptr<SourceInterface> s) override { log.push_back(s->getProperty<Num>().v); }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override { log.push_back(e.m_selection_criteria ? -1 : -2); }
};
struct Peek : DetectionFrame { static std::shared_ptr<DetectionImageFrame> get(const DetectionFrame& f) { return (f.*&Peek::getFrame)(); } };
struct Check : PipelineReceiver<SourceInterface>, PipelineEmitter<SourceInterface> {   // between segmentation and partition
  std::shared_ptr<DetectionImageFrame> frame; bool ok = true;
  void receiveSource(std::unique_ptr<SourceInterface> s) override {
    try { ok = ok && Peek::get(s->getProperty<DetectionFrame>()) == frame; } catch (...) { ok = ok && !frame; }
    sendSource(std::move(s));
  }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override { sendProcessSignal(e); }
};
VK_SUITE(stages) {
  struct Prog : Observer<SegmentationProgress> { std::vector<int> l; void handleMessage(const SegmentationProgress& p) override { l.push_back(p.position * 100 + p.total); } };
  struct Count : Observer<SourceInterface> { std::vector<int> l; void handleMessage(const SourceInterface& s) override { l.push_back(s.getProperty<Num>().v); } };
  int len = r.thorough() ? 6 : 5;
  for (int n = 0; n <= len; ++n) for (vk::Odo o(std::vector<int>(n, 3)); !o.done; o.inc()) for (int h1 = 0; h1 < 4; ++h1) for (int h2 = 0; h2 < 5; ++h2) for (int mode = 0; mode < 4; ++mode) {
    if (!r.next()) continue;
    std::string script; for (int v : o.v) script += "spg"[v]; if (mode == 3) script += 'x';
    r.desc([&] { return "script '" + script + "' (s source, p signal, g progress, x failure), steps " + vk::str(h1) + "," + vk::str(h2) + ", mode " + vk::str(mode); });
    r.guarded("stages", [&] {
      int was = alive;
      {
        auto frame = mode == 1 ? nullptr : std::make_shared<DetectionImageFrame>(VectorImage<float>::create(2, 2), VectorImage<float>::create(2, 2), 1e30f, nullptr, 0, 0, 0);
        std::shared_ptr<const DetectionImageFrame> seen;
        auto filter = mode == 2 ? nullptr : std::shared_ptr<DetectionImageFrame::ImageFilter>();
        Segmentation seg(filter);
        seg.setLabelling<Labels>(script, &seen);
        std::vector<std::shared_ptr<PartitionStep>> steps{std::make_shared<Splitter>(h1)}; if (h2 < 4) { steps.push_back(std::make_shared<Splitter>(h2)); steps.push_back(std::make_shared<Splitter>(h1)); }
        auto part = std::make_shared<Partition>(steps); auto rec = std::make_shared<Rec>(); auto chk = std::make_shared<Check>(); chk->frame = frame;
        auto prog = std::make_shared<Prog>(); auto c1 = std::make_shared<Count>(), c2 = std::make_shared<Count>();
        seg.setNextStage(chk); chk->setNextStage(part); part->setNextStage(rec);
        bool again = false; try { part->setNextStage(rec); } catch (const Elements::Exception&) { again = true; }
        r.require(again, "stage-twice", [] { return std::string("a second next stage was accepted"); });
        seg.Observable<SegmentationProgress>::addObserver(prog); seg.Observable<SourceInterface>::addObserver(c1); part->addObserver(c2);
        bool thrown = false;
        try { seg.processFrame(frame); } catch (const Elements::Exception&) { thrown = true; }
        r.require(thrown == (mode == 3), "stage-failure", [] { return std::string("a failure of the labelling is lost"); });
        std::vector<int> want, w1, w2, wp; int k = 0;
        for (char c : script) {
          if (c == 's') { w1.push_back(++k); for (int a : split(h1, k)) for (int b : h2 < 4 ? split(h2, a) : std::vector<int>{a}) for (int e : h2 < 4 ? split(h1, b) : std::vector<int>{b}) { want.push_back(e); w2.push_back(e); } }
          if (c == 'p') want.push_back(-2);
          if (c == 'g') wp.push_back(k * 100 + 9);
        }
        if (!thrown) want.push_back(-1);
        r.require(rec->log == want, "stages", [&] { return "received " + vk::strv(rec->log) + " instead of " + vk::strv(want) + " (-1: all, -2: signal of the labelling)"; });
        r.require(c1->l == w1 && c2->l == w2 && prog->l == wp, "stage-observers", [&] { return "observed " + vk::strv(c1->l) + " " + vk::strv(c2->l) + " " + vk::strv(prog->l) + " instead of " + vk::strv(w1) + " " + vk::strv(w2) + " " + vk::strv(wp); });
        r.require(chk->ok && seen == frame, "stage-frame", [] { return std::string("the sources do not have the frame that is processed"); });
        r.see(vk::hashStr(vk::strv(want))); r.nontrivial(!w2.empty()); r.transition(n);
      }
      r.require(alive == was, "stage-leak", [&] { return vk::str(alive - was) + " sources leaked"; });
    });
  }
}
struct Remover : DeblendStep {
  int how; explicit Remover(int h) : how(h) {}
  void deblend(SourceGroupInterface& g) const override {
    for (auto it = g.begin(); it != g.end();) { int n = it->getProperty<Num>().v; if (how == 3 || (how && n % (how + 1) == 0)) it = g.removeSource(it); else ++it; }
  }
  std::set<PropertyId> requiredProperties() const override { return {PropertyId::create<Num>(how)}; }
};
VK_SUITE(deblending_stage) {
  struct GSink : PipelineReceiver<SourceGroupInterface> { std::vector<std::vector<int>> got; int signals = 0; void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { got.push_back({}); for (auto& s : *g) got.back().push_back(s.getProperty<Num>().v); } void receiveProcessSignal(const ProcessSourcesEvent&) override { ++signals; } };
  for (int h1 = 0; h1 < 4; ++h1) for (int h2 = 0; h2 < 4; ++h2) for (vk::Odo o(std::vector<int>(3, 4)); !o.done; o.inc()) for (int dummy = 0; dummy < 2; ++dummy) {
    if (!r.next()) continue;
    r.desc([&] { return "groups of sizes " + vk::strv(o.v) + ", steps " + vk::str(h1) + "," + vk::str(h2); });
    r.guarded("deblending", [&] {
      auto d = std::make_shared<Deblending>(std::vector<std::shared_ptr<DeblendStep>>{std::make_shared<Remover>(h1), std::make_shared<Remover>(h2)});
      auto s = std::make_shared<GSink>(); auto m = std::make_shared<DummyMeasurement>();
      if (dummy) { d->setNextStage(m); m->setNextStage(s); m->startThreads(); } else d->setNextStage(s);
      r.require(d->requiredProperties() == std::set<PropertyId>({PropertyId::create<Num>(h1), PropertyId::create<Num>(h2)}), "deblend-required", [] { return std::string("required properties are not those of all the steps"); });
      std::vector<std::vector<int>> want; int n = 0;
      for (int k : o.v) {
        auto g = std::unique_ptr<SourceGroupInterface>(new SimpleSourceGroup); std::vector<int> w;
        for (int i = 0; i < k; ++i) { auto p = std::unique_ptr<SourceInterface>(new Src); p->setProperty<Num>(++n); g->addSource(std::move(p)); bool out = false; for (int h : {h1, h2}) out = out || h == 3 || (h && n % (h + 1) == 0); if (!out) w.push_back(n); }
        d->receiveSource(std::move(g)); if (!w.empty()) want.push_back(w);
        d->receiveProcessSignal(ProcessSourcesEvent(nullptr));
      }
      m->stopThreads();
      r.require(s->got == want && s->signals == 3, "deblending", [&] { return "passed on " + show(s->got) + " instead of " + show(want); });
      r.see(vk::hashStr(show(want))); r.nontrivial(!want.empty()); r.transition(3);
    });
  }
}
