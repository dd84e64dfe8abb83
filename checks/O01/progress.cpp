// Progress counters fed by the pipeline's threads: every schedule.
#include "mc.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEMain/ProgressMediator.h"
#include <thread>
using namespace SourceXtractor;
namespace {
struct Shot { int seg, total, det, deb, mea, meaTotal; };
struct Rep : Observer<std::list<ProgressInfo>> {
  std::vector<Shot> shots; bool busy = false;
  void handleMessage(const std::list<ProgressInfo>& l) override {
    { mc::Untracked u; if (busy) mc::fail("overlap", "two reports at the same time"); busy = true; }
    mc::point();
    mc::Untracked u;
    if (l.size() != 4) mc::fail("report", "a report of " + std::to_string(l.size()) + " entries");
    auto it = l.begin(); Shot s{};
    const char* names[] = {"Segmentation", "Detected", "Deblended", "Measured"};
    for (int i = 0; i < 4; ++i, ++it) {
      if (it->m_label != names[i]) mc::fail("report", "label " + it->m_label);
      if (i == 0) s.seg = it->m_done, s.total = it->m_total; if (i == 1) s.det = it->m_done; if (i == 2) s.deb = it->m_done; if (i == 3) s.mea = it->m_done, s.meaTotal = it->m_total;
    }
    shots.push_back(s); busy = false;
  }
};
struct Done : Observer<bool> { int n = 0; void handleMessage(const bool& d) override { mc::Untracked u; n += d; } };
struct Group : SimpleSourceGroup { explicit Group(int n) { for (int i = 0; i < n; ++i) addSource(std::unique_ptr<SourceInterface>(new SimpleSource)); } };
// script of each thread: g progress of the segmentation, d a detected source, b (B) a deblended group of 1 (3), m (M) a measured one
void scene(vk::Run& r, const char* key, std::vector<std::string> scripts, int pre) {
  mc::Options o; o.preemptions = pre;
  std::string d; for (auto& s : scripts) d += "'" + s + "' ";
  mc::explore(r, key, "threads " + d + "(g segmentation progress, d detection, b/B deblended group, m/M measured group, x end)", o, [=] {
    auto med = std::make_shared<ProgressMediator>(); auto rep = std::make_shared<Rep>(); auto done = std::make_shared<Done>();
    med->ProgressObservable::addObserver(rep); med->DoneObservable::addObserver(done);
    int det = 0, deb = 0, mea = 0, pos = 0, ends = 0; for (auto& s : scripts) for (char c : s) { det += c == 'd'; deb += c == 'b' ? 1 : c == 'B' ? 3 : 0; mea += c == 'm' ? 1 : c == 'M' ? 3 : 0; pos += c == 'g'; ends += c == 'x'; }
    SimpleSource src; Group one(1), three(3);
    std::vector<std::thread> ts; int calls = 0;
    for (auto& s : scripts) calls += s.size();
    for (auto& s : scripts) ts.emplace_back([&, s] {
      int g = 0;
      for (char c : s) {
        if (c == 'g') { SegmentationProgress p{++g * 10, 50}; med->getSegmentationObserver()->handleMessage(p); }
        if (c == 'd') med->getDetectionObserver()->handleMessage(src);
        if (c == 'b' || c == 'B') med->getDeblendingObserver()->handleMessage(c == 'b' ? one : three);
        if (c == 'm' || c == 'M') med->getMeasurementObserver()->handleMessage(c == 'm' ? one : three);
        if (c == 'x') med->done();
      }
    });
    for (auto& t : ts) t.join();
    mc::Untracked u;
    if ((int)rep->shots.size() != calls - ends) mc::fail("reports", std::to_string(rep->shots.size()) + " reports of " + std::to_string(calls) + " events");
    if (done->n != ends) mc::fail("done", "the end was reported " + std::to_string(done->n) + " times");
    for (size_t i = 0; i < rep->shots.size(); ++i) {
      auto& s = rep->shots[i];
      if (i) { auto& p = rep->shots[i - 1]; if (s.det < p.det || s.deb < p.deb || s.mea < p.mea || s.seg < p.seg) mc::fail("backwards", "a counter goes backwards"); }
      if ((s.seg || s.total) && (s.seg % 10 || s.total != 50)) mc::fail("torn", "progress " + std::to_string(s.seg) + " of " + std::to_string(s.total));
    }
    auto& e = rep->shots.back();
    if (e.det != det || e.deb != deb || e.mea != mea || e.seg != pos * 10 || e.meaTotal != deb) mc::fail("totals", "the last report is " + std::to_string(e.seg) + " " + std::to_string(e.det) + " " + std::to_string(e.deb) + " " + std::to_string(e.mea) + "/" + std::to_string(e.meaTotal));
    uint64_t h = 0; for (auto& s : rep->shots) h = vk::mix(h, s.det + 10 * s.deb + 100 * s.mea + 1000 * s.seg); mc::observe(h);
  });
}
}
VK_SUITE(progress) {
  int p = r.thorough() ? 3 : 2;
  scene(r, "progress/dd", {"dd", "dd"}, p + 1);
  scene(r, "progress/g-d", {"gg", "dd"}, p);
  scene(r, "progress/b-m", {"bB", "mM"}, p);
  scene(r, "progress/gd-b-m", {"gd", "B", "M"}, p - 1);
  scene(r, "progress/m-m-x", {"mB", "Mx"}, p);
}
