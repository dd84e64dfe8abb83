// The whole pipeline, as the program puts it together, under every schedule: the catalogue is that of one thread.
#include "mc.h"
#include <algorithm>
#include "AlexandriaKernel/ThreadPool.h"
#include "SEFramework/Output/Output.h"
#include "SEFramework/Pipeline/Deblending.h"
#include "SEFramework/Pipeline/Partition.h"
#include "SEFramework/Pipeline/Segmentation.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Source/SourceFactory.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Source/SourceWithOnDemandProperties.h"
#include "SEFramework/Task/SourceTask.h"
#include "SEFramework/Task/GroupTask.h"
#include "SEFramework/Task/TaskFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Measurement/DummyMeasurement.h"
#include "SEImplementation/Measurement/MultithreadedMeasurement.h"
#include "SEImplementation/Output/FlushableOutput.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEImplementation/Plugin/SourceIDs/SourceIDTask.h"
#include "SEImplementation/Prefetcher/Prefetcher.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEMain/ProgressMediator.h"
#include "SEMain/Sorter.h"
using namespace SourceXtractor;
namespace {
struct Pos : Property { int v; explicit Pos(int x) : v(x) {} };          // given
struct Key : Property { int v; explicit Key(int x) : v(x) {} };          // computed, for grouping
struct Flux : Property { int v; explicit Flux(int x) : v(x) {} };        // from the key and the group
struct KeyTask : SourceTask { void computeProperties(SourceInterface& s) const override { mc::point(); s.setProperty<Key>(s.getProperty<Pos>().v / 10); } };
struct FluxTask : GroupTask { void computeProperties(SourceGroupInterface& g) const override { mc::point(); int n = 0; for (auto& s : g) n += s.getProperty<Pos>().v; for (auto& s : g) s.setProperty<Flux>(s.getProperty<Key>().v * 1000 + n); } };
template <typename T> struct Fac : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId&) const override { return std::make_shared<T>(); } };
struct IdFac : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId&) const override { return std::make_shared<SourceIDTask>(); } };
struct Labels : Segmentation::Labelling {   // numbers: sources; p: signal for what is complete
  std::vector<int> pos; SourceFactory* f; std::vector<int>* at;
  Labels(SourceFactory* sf, std::vector<int>* a) : f(sf), at(a) {}
  void labelImage(Segmentation::LabellingListener& l, std::shared_ptr<const DetectionImageFrame>) override {
    for (int p : *at) {
      if (p < 0) { l.requestProcessing(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); continue; }
      auto s = f->createSource(); s->setProperty<Pos>(p); s->setProperty<SourceId>(); l.publishSource(std::move(s)); l.notifyProgress(p, 100);
    }
  }
};
struct Same : GroupingCriteria {
  bool shouldGroup(const SourceInterface& a, const SourceInterface& b) const override { return a.getProperty<Key>().v == b.getProperty<Key>().v; }
  std::set<PropertyId> requiredProperties() const override { return {PropertyId::create<Key>()}; }
};
struct Drop : DeblendStep { void deblend(SourceGroupInterface& g) const override { for (auto it = g.begin(); it != g.end();) if (it->getProperty<Pos>().v == 13) it = g.removeSource(it); else ++it; } };
struct Split : PartitionStep {
  SourceFactory* f; explicit Split(SourceFactory* sf) : f(sf) {}
  std::vector<std::unique_ptr<SourceInterface>> partition(std::unique_ptr<SourceInterface> s) const override {
    std::vector<std::unique_ptr<SourceInterface>> v; int p = s->getProperty<Pos>().v;
    if (p % 10 == 5) { for (int k = 1; k < 3; ++k) { v.push_back(f->createSource()); v.back()->setProperty<Pos>(p + k); v.back()->setProperty<SourceId>(s->getProperty<SourceId>().getSourceId()); } } else v.push_back(std::move(s));
    return v;
  }
};
static Euclid::Table::Row row(const SourceInterface& s) {
  int f = s.getProperty<Flux>().v, p = s.getProperty<Pos>().v, id = s.getProperty<SourceID>().getId();
  mc::Untracked u;
  static auto info = std::make_shared<Euclid::Table::ColumnInfo>(std::vector<Euclid::Table::ColumnInfo::info_type>{Euclid::Table::ColumnInfo::info_type("id", typeid(int32_t)), Euclid::Table::ColumnInfo::info_type("pos", typeid(int32_t)), Euclid::Table::ColumnInfo::info_type("flux", typeid(int32_t))});
  return Euclid::Table::Row({int32_t(id), int32_t(p), int32_t(f)}, info);
}
struct Cat : FlushableOutput {
  std::vector<std::vector<int>> rows; std::vector<size_t> parts;
  explicit Cat(size_t fl) : FlushableOutput(row, fl) {}
  void writeRows(const std::vector<Euclid::Table::Row>& r) override { mc::Untracked u; for (auto& x : r) rows.push_back({boost::get<int32_t>(x[0]), boost::get<int32_t>(x[1]), boost::get<int32_t>(x[2])}); }
  void nextPart() override { mc::Untracked u; parts.push_back(rows.size()); }
};
struct Rep : Observer<std::list<ProgressInfo>> { std::vector<int> last; void handleMessage(const std::list<ProgressInfo>& l) override { mc::Untracked u; last.clear(); for (auto& i : l) last.push_back(i.m_done); } };
struct Fact : SourceFactory { std::shared_ptr<TaskProvider> p; std::unique_ptr<SourceInterface> createSource() const override { return std::unique_ptr<SourceInterface>(new SourceWithOnDemandProperties(p)); } };

struct Result { std::vector<std::vector<int>> rows; std::vector<size_t> parts, counts; std::vector<int> progress; };
// as in the main program
Result run(const std::vector<std::vector<int>>& frames, int workers, int queue, size_t flush, bool sorted, bool prefetch) {
  auto reg = std::make_shared<TaskFactoryRegistry>();
  reg->registerTaskFactory<Fac<KeyTask>, Key>(); reg->registerTaskFactory<Fac<FluxTask>, Flux>(); reg->registerTaskFactory<IdFac, SourceID>();
  auto provider = std::make_shared<TaskProvider>(reg);
  Fact fact; fact.p = provider;
  auto pool = workers ? std::make_shared<Euclid::ThreadPool>(workers) : nullptr;
  std::vector<int> at;
  Segmentation seg(nullptr); seg.setLabelling<Labels>(static_cast<SourceFactory*>(&fact), &at);
  auto part = std::make_shared<Partition>(std::vector<std::shared_ptr<PartitionStep>>{std::make_shared<Split>(&fact)});
  auto grouping = std::make_shared<SourceGrouping>(std::make_shared<Same>(), std::make_shared<SourceGroupWithOnDemandPropertiesFactory>(provider), 0);
  auto deb = std::make_shared<Deblending>(std::vector<std::shared_ptr<DeblendStep>>{std::make_shared<Drop>()});
  std::shared_ptr<Measurement> mea; if (workers) mea = std::make_shared<MultithreadedMeasurement>(row, pool, queue); else mea = std::make_shared<DummyMeasurement>();
  auto cat = std::make_shared<Cat>(flush); auto med = std::make_shared<ProgressMediator>(); auto rep = std::make_shared<Rep>(); med->ProgressObservable::addObserver(rep);
  std::shared_ptr<Prefetcher> pre;
  if (pool && prefetch) { pre = std::make_shared<Prefetcher>(pool, queue); pre->requestProperties(grouping->requiredProperties()); }
  seg.setNextStage(part); if (pre) { part->setNextStage(pre); pre->setNextStage(grouping); } else part->setNextStage(grouping);
  grouping->setNextStage(deb); deb->setNextStage(mea);
  if (sorted) { auto so = std::make_shared<Sorter>(); mea->setNextStage(so); so->setNextStage(cat); } else mea->setNextStage(cat);
  seg.Observable<SegmentationProgress>::addObserver(med->getSegmentationObserver()); seg.Observable<SourceInterface>::addObserver(med->getDetectionObserver());
  deb->Observable<SourceGroupInterface>::addObserver(med->getDeblendingObserver()); mea->Observable<SourceGroupInterface>::addObserver(med->getMeasurementObserver());
  Result res;
  mea->startThreads();
  for (auto& f : frames) { at = f; seg.processFrame(nullptr); if (pre) pre->synchronize(); mea->synchronizeThreads(); res.counts.push_back(cat->flush()); cat->nextPart(); }
  if (pre) pre->wait();
  mea->stopThreads();
  res.rows = cat->rows; res.parts = cat->parts; res.progress = rep->last;
  return res;
}
std::string show(const Result& x) { std::string s; for (auto& v : x.rows) s += vk::strv(v); return s + " parts " + vk::strv(x.parts) + " progress " + vk::strv(x.progress); }
// the same, by hand: groups by key in order of their first source, identifiers in order
Result expect(const std::vector<std::vector<int>>& frames) {
  Result r; int id = 0, det = 0, deb = 0, last = 0;
  for (auto f : frames) {
    std::vector<std::vector<int>> groups;
    auto emit = [&] { for (auto& g : groups) { g.erase(std::remove(g.begin(), g.end(), 13), g.end()); int sum = 0; for (int p : g) sum += p; for (int p : g) r.rows.push_back({++id, p, p / 10 * 1000 + sum}); deb += g.size(); } groups.clear(); };
    for (int p : f) {
      if (p < 0) { emit(); continue; }
      ++det; last = p;
      std::vector<int> q{p}; if (p % 10 == 5) q = {p + 1, p + 2};
      for (int s : q) { bool in = false; for (auto& g : groups) if (g[0] / 10 == s / 10) { g.push_back(s); in = true; } if (!in) groups.push_back({s}); }
    }
    emit(); r.parts.push_back(r.rows.size()); r.counts.push_back(r.rows.size());
  }
  r.progress = {last, det, deb, deb};
  return r;
}
void scene(vk::Run& r, const char* key, std::vector<std::vector<int>> frames, int workers, int queue, size_t flush, bool sorted, int pre, bool prefetch = true) {
  mc::Options o; o.preemptions = pre; o.max_steps = 60000;
  std::string d; for (auto& f : frames) d += vk::strv(f);
  mc::explore(r, key, "frames " + d + " (-1: signal), " + std::to_string(workers) + " workers, queue " + std::to_string(queue) + ", flush " + std::to_string(flush) + (sorted ? "" : ", unsorted") + (prefetch ? "" : ", no prefetching"), o, [=] {
    auto got = run(frames, workers, queue, flush, sorted, prefetch), want = expect(frames);
    mc::Untracked u;
    uint64_t h = vk::hashStr(show(got));
    if (!sorted) { std::sort(got.rows.begin(), got.rows.end()); std::sort(want.rows.begin(), want.rows.end()); }
    // (identifiers go on from frame to frame)
    if (got.rows != want.rows) mc::fail("catalogue", "the catalogue is " + show(got) + " instead of " + show(want));
    if (got.parts != want.parts || got.counts != want.counts) mc::fail("parts", "the parts are " + show(got) + " instead of " + show(want));
    if (got.progress != want.progress) mc::fail("progress", "progress " + vk::strv(got.progress) + " instead of " + vk::strv(want.progress));
    mc::observe(h);
  });
}
}
VK_SUITE(sequential) {
  // every frame of up to 4 entries, without threads
  const int al[] = {-1, 1, 2, 13, 15, 25, 11};
  int len = r.thorough() ? 5 : 4;
  for (int n = 0; n <= len; ++n) for (vk::Odo o(std::vector<int>(n, 7)); !o.done; o.inc()) {
    if (!r.next()) continue;
    std::vector<int> f; for (int k : o.v) f.push_back(al[k]);
    r.desc([&] { return "frames " + vk::strv(f) + " and 3, no threads"; });
    int rc = vk::isolated([&] { auto got = run({f, {3}}, 0, 0, n % 3, true, true), want = expect({f, {3}}); bool ok = got.rows == want.rows && got.parts == want.parts && got.counts == want.counts && got.progress == want.progress; if (!ok) fprintf(stderr, "%s instead of %s\n", show(got).c_str(), show(want).c_str()); return ok; });
    r.require(rc == 0, "sequential", [&] { return "the catalogue differs, or the program died (" + vk::str(rc) + ")"; });
    r.nontrivial(!f.empty()); r.see(vk::hashStr(vk::strv(f))); r.transition();
  }
}
VK_SUITE(one_worker) {
  int p = r.thorough() ? 2 : 1;
  scene(r, "pipeline/1", {{1, 2, 11}}, 1, 3, 2, true, p);
  scene(r, "pipeline/frames", {{1, -1}, {5}}, 1, 2, 0, true, p);
}
// two workers: every choice of who runs when one blocks; in the deeper tier also one preemption anywhere
VK_SUITE(two_workers) {
  int p = r.thorough() ? 1 : 0;
  scene(r, "pipeline/w2", {{1, 11}}, 2, 3, 0, true, p);
  scene(r, "pipeline/w2frames", {{1, 11}, {21}}, 2, 2, 2, true, p);
  scene(r, "pipeline/w2unsorted", {{1, 15}}, 2, 3, 0, false, p);
}
VK_SUITE(two_workers_direct) {
  int p = r.thorough() ? 2 : 1;
  scene(r, "pipeline/direct", {{1, 11}}, 2, 3, 0, true, p, false);
}
VK_SUITE(two_workers_direct_unsorted) {
  int p = r.thorough() ? 2 : 0;
  scene(r, "pipeline/directunsorted", {{1, 11}}, 2, 3, 1, false, p, false);
}
VK_SUITE(two_workers_long) {
  scene(r, "pipeline/w2drop", {{1, 13, 2}}, 2, 4, 1, true, 0);
  if (r.thorough()) { scene(r, "pipeline/w2drop4", {{1, 13, 11, 2}}, 2, 4, 1, true, 0); scene(r, "pipeline/w2signal", {{1, 11, -1, 5}}, 2, 2, 0, true, 0); }
}
