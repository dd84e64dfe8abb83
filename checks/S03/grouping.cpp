// Grouping of sources: every relation between up to n sources, every hard limit, every moment and selection of processing.
#include "vkit.h"
#include <memory>
#include <algorithm>
#include <numeric>
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroupFactory.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Grouping/AssocCriteria.h"
#include "SEImplementation/Grouping/AssocGrouping.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
#include "SEImplementation/Grouping/MoffatGrouping.h"
#include "SEImplementation/Grouping/NoGroupingCriteria.h"
#include "SEImplementation/Grouping/OverlappingBoundariesCriteria.h"
#include "SEImplementation/Grouping/SplitSourcesCriteria.h"
#include "SEImplementation/Grouping/SplitSourcesGrouping.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Property/SourceId.h"
using namespace SourceXtractor;

struct Num : Property { int v; explicit Num(int x) : v(x) {} };
template <typename S> static int num(S& s) { return s.template getProperty<Num>().v; }
struct Relation : GroupingCriteria {
  std::vector<std::vector<bool>> m;
  bool shouldGroup(const SourceInterface& a, const SourceInterface& b) const override { return m[num(a)][num(b)]; }
};
struct Select : SelectionCriteria {
  unsigned mask;
  explicit Select(unsigned m) : mask(m) {}
  bool mustBeProcessed(const SourceInterface& s) const override { return mask >> num(s) & 1; }
};
struct Sink : PipelineReceiver<SourceGroupInterface> {
  std::vector<std::vector<int>> got;
  int signals = 0;
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override {
    std::vector<int> v;
    for (auto& s : *g) v.push_back(num(s));
    std::sort(v.begin(), v.end());
    got.push_back(v);
  }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { ++signals; }
};

static std::string groups(const std::vector<std::vector<int>>& g) { std::string s; for (auto& x : g) s += vk::strv(x); return s; }

// Components of the relation among the given sources.
static std::vector<std::vector<int>> components(const std::vector<std::vector<bool>>& m, const std::vector<int>& who) {
  std::vector<std::vector<int>> out;
  std::set<int> left(who.begin(), who.end());
  while (!left.empty()) {
    std::vector<int> c{*left.begin()};
    left.erase(left.begin());
    for (size_t i = 0; i < c.size(); ++i) for (auto it = left.begin(); it != left.end();) { if (m[c[i]][*it]) { c.push_back(*it); it = left.erase(it); } else ++it; }
    std::sort(c.begin(), c.end());
    out.push_back(c);
  }
  std::sort(out.begin(), out.end());
  return out;
}

// One run: sources 0..n-1 arrive in order; before source k the sources of `early` are asked for; at the end all.
template <typename Make, typename Model>
static void history(vk::Run& r, const std::vector<std::vector<bool>>& m, int n, unsigned limit, int k, unsigned early, Make make, Model checkGroups) {
  auto rel = std::make_shared<Relation>();
  rel->m = m;
  auto sink = std::make_shared<Sink>();
  std::shared_ptr<SourceGroupingInterface> g = make(rel, limit);
  g->setNextStage(sink);
  std::vector<int> present;
  std::vector<std::vector<int>> due;
  for (int i = 0; i < n; ++i) {
    if (i == k) {
      size_t before = sink->got.size();
      g->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<Select>(early)));
      if (limit == 0) {
        std::vector<int> stay;
        std::vector<std::vector<int>> want;
        for (auto& c : components(m, present)) {
          bool sel = false;
          for (int x : c) sel = sel || (early >> x & 1);
          if (sel) want.push_back(c); else stay.insert(stay.end(), c.begin(), c.end());
        }
        auto got = sink->got; std::sort(got.begin(), got.end());
        r.check(got == want, "early", [&] { return "asked for 0x" + vk::str(early) + " before source " + vk::str(k) + ": groups " + groups(sink->got) + ", expected " + groups(want); });
        present = stay; due = want;
      } else {
        for (auto& x : sink->got) if (&x - sink->got.data() >= (long)before) { bool sel = false; for (int y : x) sel = sel || (early >> y & 1); r.check(sel, "early-limit", "a group without any selected source was processed"); }
        for (int y = 0; y < i; ++y) if (early >> y & 1) { bool f = false; for (auto& x : sink->got) f = f || std::count(x.begin(), x.end(), y); r.check(f, "early-limit", [&] { return "selected source " + vk::str(y) + " was not processed"; }); }
      }
    }
    auto s = std::unique_ptr<SourceInterface>(new SimpleSource);
    s->setProperty<Num>(i);
    s->setProperty<PixelCentroid>(SeFloat(i * 1.5), SeFloat(i % 2));
    g->receiveSource(std::move(s));
    present.push_back(i);
    r.transition();
  }
  size_t before_end = sink->got.size();
  g->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>()));
  std::vector<int> all;
  for (auto& x : sink->got) all.insert(all.end(), x.begin(), x.end());
  std::sort(all.begin(), all.end());
  std::vector<int> every(n); std::iota(every.begin(), every.end(), 0);
  auto where = [&] { return "hard limit " + vk::str(limit) + (k < n ? ", 0x" + vk::str(early) + " asked for before source " + vk::str(k) : std::string()) + ": groups " + groups(sink->got); };
  r.check(all == every, "delivery", where);
  if (limit == 0) {
    auto want = components(m, present);
    want.insert(want.end(), due.begin(), due.end());
    std::sort(want.begin(), want.end());
    auto got = sink->got; std::sort(got.begin(), got.end());
    r.check(got == want, "components", [&] { return where() + ", expected " + groups(want); });
  } else {
    for (auto& x : sink->got) {
      r.check(x.size() <= limit, "limit", where);
      r.check(x.empty() || components(m, x).size() == 1, "limit-connected", where);
    }
    checkGroups(sink->got, before_end, where);
  }
  // nothing is left behind
  size_t n_end = sink->got.size();
  g->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>()));
  r.check(sink->got.size() == n_end, "delivery", "processed again");
  uint64_t st = limit; for (auto& x : sink->got) for (int y : x) st = vk::mix(st, y + 10 * x.size());
  r.state(st); r.see(st);
  r.nontrivial(sink->got.size() < (size_t)n);
}

template <typename Make>
static void relations(vk::Run& r, const char* name, int nmax, Make make, bool greedy) {
  for (int n = 1; n <= nmax; ++n) {
    int e = n * (n - 1) / 2;
    for (unsigned rel = 0; rel < 1u << e; ++rel) {
      if (!r.next()) continue;
      std::vector<std::vector<bool>> m(n, std::vector<bool>(n, false));
      for (int a = 0, b = 0, i = 0; i < e; ++i) { if (++b >= n) { ++a; b = a + 1; } m[a][b] = m[b][a] = rel >> i & 1; }
      r.desc([=] { return std::string(name) + ", " + vk::str(n) + " sources, relation 0x" + vk::str(rel) + ", every hard limit, every early processing"; });
      r.guarded("relations", [&] {
        for (unsigned limit = 0; limit <= (unsigned)n; ++limit) for (int k = n >= 5 && !r.thorough() && limit > 0 ? n : 1; k <= n; ++k)
          for (unsigned early = 0; early < (k < n ? 1u << k : 1u); ++early)
            history(r, m, n, limit, k, early, make, [&](const std::vector<std::vector<int>>& got, size_t before_end, const std::function<std::string()>& where) {
              if (!greedy || k < n) return;
              // groups are only kept apart when together they would be too large
              for (size_t x = before_end; x < got.size(); ++x) for (size_t y = x + 1; y < got.size(); ++y) {
                bool edge = false;
                for (int p : got[x]) for (int q : got[y]) edge = edge || m[p][q];
                r.check(!edge || got[x].size() + got[y].size() > limit, "limit-needless", where);
              }
            });
      });
    }
  }
}

VK_SUITE(criteria_grouping) {
  relations(r, "general grouping", 6, [](std::shared_ptr<Relation> c, unsigned limit) { return std::make_shared<SourceGrouping>(c, std::make_shared<SimpleSourceGroupFactory>(), limit); }, true);
}
VK_SUITE(criteria_grouping_on_demand) {
  relations(r, "general grouping, groups with computed properties", 4, [](std::shared_ptr<Relation> c, unsigned limit) { return std::make_shared<SourceGrouping>(c, std::make_shared<SourceGroupWithOnDemandPropertiesFactory>(std::make_shared<TaskProvider>(nullptr)), limit); }, true);
}
VK_SUITE(moffat_grouping) {
  relations(r, "Moffat grouping", 6, [](std::shared_ptr<Relation> c, unsigned limit) { return std::make_shared<MoffatGrouping>(c, std::make_shared<SimpleSourceGroupFactory>(), limit, 100.f); }, false);
}

// Grouping by identifier: every assignment of identifiers, every hard limit, early processing.
template <typename Make>
static void byId(vk::Run& r, const char* name, int n, int values, Make make, bool zero_alone, bool assoc) {
  vk::Odo o(std::vector<int>(n, values));
  for (; !o.done; o.inc()) {
    if (!r.next()) continue;
    auto id = o.v;
    r.desc([=] { return std::string(name) + ", identifiers " + vk::strv(id) + ", every hard limit, every early processing"; });
    r.guarded("by-id", [&] {
      for (unsigned limit = 0; limit <= 3; ++limit) for (int k = 1; k <= n; ++k) for (unsigned early = 0; early < (k < n ? 1u << k : 1u); ++early) {
        auto sink = std::make_shared<Sink>();
        auto g = make(limit);
        g->setNextStage(sink);
        std::map<int, std::vector<int>> open;
        std::vector<std::vector<int>> want;
        for (int i = 0; i < n; ++i) {
          if (i == k) {
            g->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<Select>(early)));
            for (auto it = open.begin(); it != open.end();) { bool sel = false; for (int x : it->second) sel = sel || (early >> x & 1); if (sel) { want.push_back(it->second); it = open.erase(it); } else ++it; }
          }
          auto s = std::unique_ptr<SourceInterface>(new SimpleSource);
          s->setProperty<Num>(i);
          if (assoc) s->setProperty<AssocMode>(true, std::vector<double>{}, 0., 0., (unsigned)id[i]);
          else s->setProperty<SourceId>((unsigned)id[i]);
          g->receiveSource(std::move(s));
          if (zero_alone && id[i] == 0) { open[-1 - i] = {i}; continue; }
          auto& q = open[id[i]];
          if (limit && q.size() >= limit) { want.push_back(q); q.clear(); }
          q.push_back(i);
          r.transition();
        }
        g->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>()));
        for (auto& q : open) want.push_back(q.second);
        auto got = sink->got;
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        r.check(got == want, "by-id", [&] { return "hard limit " + vk::str(limit) + (k < n ? ", 0x" + vk::str(early) + " asked for before source " + vk::str(k) : std::string()) + ": groups " + groups(got) + ", expected " + groups(want); });
        if ((int)got.size() < n) r.nontrivial();
        uint64_t st = limit; for (auto& x : got) for (int y : x) st = vk::mix(st, y + 10 * x.size());
        r.state(st); r.see(st);
      }
    });
  }
}
VK_SUITE(split_grouping) { byId(r, "split sources", r.thorough() ? 6 : 5, 3, [](unsigned l) { return std::make_shared<SplitSourcesGrouping>(std::make_shared<SimpleSourceGroupFactory>(), l); }, false, false); }
VK_SUITE(assoc_grouping) { byId(r, "association", r.thorough() ? 6 : 5, 3, [](unsigned l) { return std::make_shared<AssocGrouping>(std::make_shared<SimpleSourceGroupFactory>(), l); }, true, true); }

VK_SUITE(criteria) {
  int N = r.thorough() ? 5 : 4;
  // rectangles of every position and size, all pairs
  std::vector<std::array<int, 4>> rects;
  for (int x0 = 0; x0 < N; ++x0) for (int x1 = x0; x1 < N; ++x1) for (int y0 = 0; y0 < N; ++y0) for (int y1 = y0; y1 < N; ++y1) rects.push_back({x0, y0, x1, y1});
  OverlappingBoundariesCriteria ov; NoGroupingCriteria no; SplitSourcesCriteria sp; AssocCriteria as;
  for (size_t a = 0; a < rects.size(); ++a) {
    if (!r.next()) continue;
    auto A = rects[a];
    r.desc([=] { return "boundaries " + vk::str(A[0]) + "," + vk::str(A[1]) + ".." + vk::str(A[2]) + "," + vk::str(A[3]) + " and every other"; });
    r.guarded("criteria", [&] {
      SimpleSource s; s.setProperty<PixelBoundaries>(A[0], A[1], A[2], A[3]); s.setProperty<PixelCentroid>(SeFloat(A[0]), SeFloat(A[1] * .5 + .25));
      for (int line = -1; line <= 5; ++line) r.check(LineSelectionCriteria(line).mustBeProcessed(s) == (A[1] * .5 + .25 < line), "line-selection", "selection by line");
      s.setProperty<SourceId>((unsigned)(A[0])); s.setProperty<AssocMode>(true, std::vector<double>{}, 0., 0., (unsigned)A[0]);
      for (auto& B : rects) {
        SimpleSource t; t.setProperty<PixelBoundaries>(B[0], B[1], B[2], B[3]); t.setProperty<SourceId>((unsigned)(B[1])); t.setProperty<AssocMode>(true, std::vector<double>{}, 0., 0., (unsigned)B[1]);
        bool e = false;
        for (int y = A[1]; y <= A[3]; ++y) for (int x = A[0]; x <= A[2]; ++x) e = e || (x >= B[0] && x <= B[2] && y >= B[1] && y <= B[3]);
        r.check(ov.shouldGroup(s, t) == e && ov.shouldGroup(t, s) == e, "overlap", [&] { return "with " + vk::str(B[0]) + "," + vk::str(B[1]) + ".." + vk::str(B[2]) + "," + vk::str(B[3]); });
        r.check(!no.shouldGroup(s, t), "no-grouping", "sources are grouped");
        r.check(sp.shouldGroup(s, t) == (A[0] == B[1]), "split", "grouping by detection");
        r.check(as.shouldGroup(s, t) == (A[0] == B[1] && A[0] != 0), "assoc", "grouping by association");
        r.see(e); r.nontrivial(e); r.transition();
      }
    });
  }
}
