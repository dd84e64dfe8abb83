// Properties of sources and groups: every history of operations of the stated length against a model of what each
// object must answer, and how often anything may be computed.
#ifndef SHORTER
#define SHORTER 0   // the program with address checks runs histories one operation shorter
#endif
#include "vkit.h"
#include <map>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include "ElementsKernel/Exception.h"
#include "SEFramework/Property/PropertyHolder.h"
#include "SEFramework/Property/PropertyId.h"
#include "SEFramework/Property/PropertyNotFoundException.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/Source/SourceWithOnDemandProperties.h"
#include "SEFramework/Source/SourceGroupWithOnDemandProperties.h"
#include "SEFramework/Task/GroupTask.h"
#include "SEFramework/Task/SourceTask.h"
#include "SEFramework/Task/TaskFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
using namespace SourceXtractor;

static int g_live = 0;
template <int N> struct Prop : Property {
  int v;
  explicit Prop(int v_) : v(v_) { ++g_live; }
  Prop(const Prop& o) : v(o.v) { ++g_live; }
  ~Prop() override { --g_live; }
};
using A = Prop<0>; using B = Prop<1>; using C = Prop<2>; using D = Prop<3>; using E = Prop<4>; using Id = Prop<5>;
using G = Prop<6>; using GS = Prop<7>; using NoTask = Prop<8>; using NoSet = Prop<9>; using GE = Prop<10>;

VK_SUITE(ids) {
  std::vector<PropertyId> ids;
  std::vector<std::pair<int, unsigned>> def;
  for (unsigned i : {0u, 1u, 2u, 7u}) {
    ids.push_back(PropertyId::create<A>(i)); def.push_back({0, i});
    ids.push_back(PropertyId::create<B>(i)); def.push_back({1, i});
    ids.push_back(PropertyId::create<C>(i)); def.push_back({2, i});
  }
  size_t n = ids.size();
  for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) {
    if (!r.next()) continue;
    r.desc([=] { return "identifiers " + vk::str((int)a) + " and " + vk::str((int)b); });
    r.guarded("ids", [&] {
      bool same = def[a] == def[b];
      auto msg = [&] { return ids[a].getString() + " and " + ids[b].getString(); };
      r.check((ids[a] == ids[b]) == same, "id-equal", msg);
      r.check(int(ids[a] < ids[b]) + int(ids[b] < ids[a]) == (same ? 0 : 1), "id-order", msg);
      r.check(!same || std::hash<PropertyId>()(ids[a]) == std::hash<PropertyId>()(ids[b]), "id-hash", msg);
      r.check((ids[a].getString() == ids[b].getString()) == same, "id-string", msg);
      r.check(ids[a].getIndex() == def[a].second, "id-index", msg);
      r.check((ids[a].getTypeId() == ids[b].getTypeId()) == (def[a].first == def[b].first), "id-type", msg);
      for (size_t c = 0; c < n; ++c) r.check(!(ids[a] < ids[b] && ids[b] < ids[c]) || ids[a] < ids[c], "id-order", msg);
      std::set<PropertyId> s{ids[a], ids[b]};
      std::unordered_set<PropertyId> u{ids[a], ids[b]};
      std::unordered_map<PropertyId, int> m; m[ids[a]] = 1; m[ids[b]] = 2;
      size_t e = same ? 1 : 2;
      r.check(s.size() == e && u.size() == e && m.size() == e && m[ids[a]] == (same ? 2 : 1), "id-container", msg);
      r.nontrivial(a != b); r.see(same + 2 * (ids[a] < ids[b])); r.transition();
    });
  }
}

// Histories over a holder: set, get, isSet on three identifiers, clear.
VK_SUITE(holder) {
  int len = (r.thorough() ? 7 : 6) - SHORTER;
  vk::Odo o(std::vector<int>(len, 7));
  std::vector<PropertyId> ids{PropertyId::create<A>(), PropertyId::create<A>(1), PropertyId::create<B>()};
  do {
    if (!r.next()) continue;
    auto h = o.v;
    r.desc([=] { return "holder history (0-2 set, 3-5 get, 6 clear) " + vk::strv(h); });
    r.guarded("holder", [&] {
      g_live = 0;
      {
        PropertyHolder p;
        std::map<int, int> m;
        int step = 0;
        for (int op : h) {
          ++step;
          if (op < 3) {
            if (op == 2) p.setProperty(std::unique_ptr<Property>(new B(step)), ids[op]); else p.setProperty(std::unique_ptr<Property>(new A(step)), ids[op]);
            m[op] = step;
          } else if (op < 6) {
            int k = op - 3, got = -1;
            try { auto& q = p.getProperty(ids[k]); got = k == 2 ? dynamic_cast<const B&>(q).v : dynamic_cast<const A&>(q).v; } catch (PropertyNotFoundException&) {}
            r.check(got == (m.count(k) ? m[k] : -1), "holder-get", [&] { return "step " + vk::str(step) + " got " + vk::str(got); });
            r.see(got);
            if (got > 0) r.nontrivial();
          } else { p.clear(); m.clear(); }
          for (int k = 0; k < 3; ++k) r.check(p.isPropertySet(ids[k]) == (m.count(k) > 0), "holder-isset", [&] { return "after step " + vk::str(step); });
          r.check(g_live == (int)m.size(), "holder-lifetime", [&] { return vk::str(g_live) + " properties alive after step " + vk::str(step); });
          r.transition();
        }
        uint64_t s = 3; for (auto& x : m) s = vk::mix(s, x.first * 100 + x.second);
        r.state(s);
      }
      r.check(g_live == 0, "holder-lifetime", "properties outlive the holder");
    });
  } while ((o.inc(), !o.done));
}

// --- tasks -----------------------------------------------------------------------------------------------------------
static std::map<std::string, int> g_runs;
struct TA : SourceTask { unsigned i; explicit TA(unsigned i_) : i(i_) {} void computeProperties(SourceInterface& s) const override { ++g_runs["A" + std::to_string(i)]; s.setIndexedProperty<A>(i, 10 + (int)i); } };
// B is A + 1, and also sets C
struct TB : SourceTask { void computeProperties(SourceInterface& s) const override { ++g_runs["B"]; int a = s.getProperty<A>().v; s.setProperty<B>(a + 1); s.setProperty<C>(a + 2); } };
struct TD : SourceTask { void computeProperties(SourceInterface& s) const override { ++g_runs["D"]; int m = 1; try { m = s.getProperty<NoTask>().v; } catch (PropertyNotFoundException&) { m = -1; } s.setProperty<D>(s.getProperty<C>().v * 100 + m); } };
struct TE : SourceTask { void computeProperties(SourceInterface&) const override { ++g_runs["E"]; throw std::runtime_error("task failed"); } };
struct TNoSet : SourceTask { void computeProperties(SourceInterface&) const override { ++g_runs["NoSet"]; } };
// G: sum of the identifiers, GS: rank of the source times 1000 plus the sum; needs C of every source.
struct TG : GroupTask {
  void computeProperties(SourceGroupInterface& g) const override {
    ++g_runs["G"];
    int sum = 0, k = 0;
    for (auto& s : g) sum += s.getProperty<Id>().v + s.getProperty<C>().v;
    g.setProperty<G>(sum);
    for (auto& s : g) s.setProperty<GS>(1000 * ++k + sum);
  }
};
// only for the group as a whole
struct TGE : GroupTask { void computeProperties(SourceGroupInterface& g) const override { ++g_runs["GE"]; g.setProperty<GE>((int)g.size()); } };

struct FA : TaskFactory { static int conf, rep, inst; std::shared_ptr<Task> createTask(const PropertyId& id) const override {
    ++g_runs["createA"];
    if (id.getTypeId() == typeid(A)) return std::make_shared<TA>(id.getIndex());
    return std::make_shared<TB>();
  }
  void reportConfigDependencies(Euclid::Configuration::ConfigManager&) const override { ++rep; }
  void configure(Euclid::Configuration::ConfigManager&) override { ++conf; }
  void registerPropertyInstances(OutputRegistry&) override { ++inst; }
};
int FA::conf, FA::rep, FA::inst;
struct FD : FA { std::shared_ptr<Task> createTask(const PropertyId& id) const override {
    ++g_runs["createD"];
    if (id.getTypeId() == typeid(D)) return std::make_shared<TD>();
    if (id.getTypeId() == typeid(E)) return std::make_shared<TE>();
    if (id.getTypeId() == typeid(NoSet)) return std::make_shared<TNoSet>();
    return nullptr;
  } };
struct FG : FA { std::shared_ptr<Task> createTask(const PropertyId& id) const override { ++g_runs["createG"]; if (id.getTypeId() == typeid(GE)) return std::make_shared<TGE>(); return std::make_shared<TG>(); } };

static std::shared_ptr<TaskFactoryRegistry> registry() {
  auto reg = std::make_shared<TaskFactoryRegistry>();
  reg->registerTaskFactory<FA, A, B, C>();
  reg->registerTaskFactory<FD, D, E, NoSet>();
  reg->registerTaskFactory<FG, G, GS, GE>();
  return reg;
}

template <typename T, typename S> static int getv(S& s, unsigned i = 0) {
  try { return s.template getProperty<T>(i).v; } catch (PropertyNotFoundException&) { return -7; } catch (std::runtime_error&) { return -8; }
}

// Model of a source: what is set, and what each task adds.
struct SrcModel {
  std::map<std::string, int> p;
  std::map<std::string, int> runs;
  int get(const std::string& k) {
    auto i = p.find(k);
    if (i != p.end()) return i->second;
    if (k == "A0") { ++runs["A0"]; return p[k] = 10; }
    if (k == "A1") { ++runs["A1"]; return p[k] = 11; }
    if (k == "B" || k == "C") { ++runs["B"]; int a = get("A0"); p["B"] = a + 1; p["C"] = a + 2; return p[k]; }
    if (k == "D") { ++runs["D"]; int m = p.count("NoTask") ? p["NoTask"] : -1; return p[k] = get("C") * 100 + m; }
    if (k == "NoSet") { ++runs["NoSet"]; return -7; }
    if (k == "E") { ++runs["E"]; return -8; }
    return -7;
  }
};

VK_SUITE(source) {
  // get A0, A1, B, C, D, NoTask, NoSet, E; set A0, set C, set NoTask
  int len = (r.thorough() ? 6 : 5) - SHORTER;
  vk::Odo o(std::vector<int>(len, 11));
  do {
    if (!r.next()) continue;
    auto h = o.v;
    r.desc([=] { return "source history (get A,A[1],B,C,D,none,unset,failing; set A,C,none) " + vk::strv(h); });
    r.guarded("source", [&] {
      g_runs.clear(); g_live = 0;
      {
        auto prov = std::make_shared<TaskProvider>(registry());
        SourceWithOnDemandProperties s(prov);
        SrcModel m;
        int step = 0;
        for (int op : h) {
          ++step;
          static const char* K[] = {"A0", "A1", "B", "C", "D", "NoTask", "NoSet", "E"};
          if (op < 8) {
            int e = m.get(K[op]);
            int got = op == 0 ? getv<A>(s) : op == 1 ? getv<A>(s, 1) : op == 2 ? getv<B>(s) : op == 3 ? getv<C>(s) : op == 4 ? getv<D>(s) : op == 5 ? getv<NoTask>(s) : op == 6 ? getv<NoSet>(s) : getv<E>(s);
            r.check(got == e, "source-get", [&] { return "step " + vk::str(step) + " " + K[op] + ": got " + vk::str(got) + ", expected " + vk::str(e); });
            r.see(got);
          } else if (op == 8) { s.setProperty<A>(50 + step); m.p["A0"] = 50 + step; }
          else if (op == 9) { s.setProperty<C>(70 + step); m.p["C"] = 70 + step; }
          else { s.setProperty<NoTask>(90 + step); m.p["NoTask"] = 90 + step; }
          for (auto& x : m.runs) r.check(g_runs[x.first] == x.second, "source-runs", [&] { return "after step " + vk::str(step) + " task " + x.first + " ran " + vk::str(g_runs[x.first]) + " times, expected " + vk::str(x.second); });
          for (auto k : {"A0", "A1", "B", "D"}) r.check(g_runs[k] == m.runs[k], "source-runs", [&] { return std::string("task ") + k + " ran without being needed"; });
          r.nontrivial(!m.runs.empty()); r.transition();
        }
        uint64_t st = 3; for (auto& x : m.p) st = vk::mix(st, vk::hashStr(x.first) + x.second);
        r.state(st);
        r.check(g_runs["createA"] <= 4, "task-cache", [&] { return "a task was created " + vk::str(g_runs["createA"]) + " times"; });
      }
      r.check(g_live == 0, "source-lifetime", "properties outlive the source");
    });
  } while ((o.inc(), !o.done));
}

// --- groups ----------------------------------------------------------------------------------------------------------
struct GrpModel {
  struct S { int id; std::shared_ptr<SrcModel> src; std::map<std::string, int> own; };
  std::vector<S> s;
  std::map<std::string, int> own;
  int runs = 0, runsGE = 0;
  int srcget(S& x, const std::string& k) {
    auto i = x.own.find(k);
    if (i != x.own.end()) return i->second;
    auto j = own.find(k);
    if (j != own.end()) return j->second;
    if (k == "Id") return x.id;
    if (k == "G" || k == "GS") { compute(); auto q = x.own.find(k); return q != x.own.end() ? q->second : own[k]; }
    if (k == "GE") { ++runsGE; return own["GE"] = (int)s.size(); }
    return x.src->get(k);
  }
  void compute() {
    ++runs;
    int sum = 0, n = 0;
    for (auto& x : s) sum += srcget(x, "Id") + srcget(x, "C");
    own["G"] = sum;
    for (auto& x : s) x.own["GS"] = 1000 * ++n + sum;
  }
  void clear() { own.clear(); for (auto& x : s) x.own.clear(); }
  int get(const std::string& k) {
    auto j = own.find(k);
    if (j != own.end()) return j->second;
    if (k == "G" || k == "GS") { compute(); return own.count(k) ? own[k] : -7; }
    if (k == "GE") { ++runsGE; return own["GE"] = (int)s.size(); }
    return -7;
  }
};

VK_SUITE(group) {
  // 0 add, 1 remove first, 2 remove last, 3 merge a group of two with computed properties, 4 get G of the group, 5 get GS of the first, 6 get GS of the last,
  // 7 get C of the first, 8 set A of the first, 9 set G on the group, 10 get GE of the last, 11 merge an empty group, 12 get B of the last
  int len = (r.thorough() ? 7 : 6) - SHORTER;
  vk::Odo o(std::vector<int>(len - 1, 13));
  do {
    if (!r.next()) continue;
    std::vector<int> h{0}; h.insert(h.end(), o.v.begin(), o.v.end());
    r.desc([=] { return "group history " + vk::strv(h); });
    r.guarded("group", [&] {
      g_runs.clear(); g_live = 0;
      {
        auto prov = std::make_shared<TaskProvider>(registry());
        SourceGroupWithOnDemandProperties g(prov);
        GrpModel m;
        int next = 1, extra = 0, extraGE = 0;
        auto mk = [&](int id) { auto s = std::unique_ptr<SourceInterface>(new SourceWithOnDemandProperties(prov)); s->setProperty<Id>(id); return s; };
        int step = 0;
        for (int op : h) {
          ++step;
          int got = 0, e = 0;
          auto first = g.begin(), last = g.end();
          if (g.size()) --last;
          bool any = !m.s.empty();
          switch (op) {
            case 0: g.addSource(mk(next)); m.s.push_back({next, std::make_shared<SrcModel>(), {}}); m.clear(); ++next; break;
            case 1: if (any) { auto it = g.removeSource(first); m.s.erase(m.s.begin()); m.clear(); r.check(it == g.begin(), "group-iterator", "removing the first source does not return the one after it"); } break;
            case 2: if (any) { auto it = g.removeSource(last); m.s.pop_back(); m.clear(); r.check(it == g.end(), "group-iterator", "removing the last source does not return the end"); } break;
            case 3: {
              SourceGroupWithOnDemandProperties other(prov);
              GrpModel om;
              for (int k = 0; k < 2; ++k) { other.addSource(mk(next)); om.s.push_back({next, std::make_shared<SrcModel>(), {}}); ++next; }
              r.check(getv<G>(other) == om.get("G"), "group-get", "other group");
              extra += 1;
              other.begin()->setProperty<GS>(5);
              g.merge(std::move(other));
              r.check(other.size() == 0, "group-merge", "the merged group still has sources");
              for (auto& x : om.s) { x.own.clear(); m.s.push_back(x); }
              m.clear();
              break;
            }
            case 4: got = getv<G>(g); e = m.get("G"); break;
            case 5: if (any) { got = getv<GS>(*first); e = m.srcget(m.s.front(), "GS"); } break;
            case 6: if (any) { got = getv<GS>(*last); e = m.srcget(m.s.back(), "GS"); } break;
            case 7: if (any) { got = getv<C>(*first); e = m.srcget(m.s.front(), "C"); } break;
            case 8: if (any) { first->setProperty<A>(60 + step); m.s.front().own["A0"] = 60 + step; got = getv<A>(*first); e = 60 + step; } break;
            case 9: g.setProperty<G>(40 + step); m.own["G"] = 40 + step; break;
            case 10: if (any) { got = getv<GE>(*last); e = m.srcget(m.s.back(), "GE"); r.check(getv<GE>(g) == m.get("GE"), "group-get", "of the group"); } break;
            case 11: { SourceGroupWithOnDemandProperties other(prov); g.merge(std::move(other)); m.clear(); break; }
            case 12: if (any) { got = getv<B>(*last); e = m.srcget(m.s.back(), "B"); } break;
          }
          r.check(got == e, "group-get", [&] { return "step " + vk::str(step) + " operation " + vk::str(op) + ": got " + vk::str(got) + ", expected " + vk::str(e); });
          r.check(g.size() == m.s.size(), "group-size", [&] { return "after step " + vk::str(step) + " size " + vk::str((int)g.size()); });
          std::vector<int> idl, idm;
          for (auto& s : g) idl.push_back(s.getProperty<Id>().v);
          for (auto& s : m.s) idm.push_back(s.id);
          r.check(idl == idm, "group-members", [&] { return "after step " + vk::str(step) + " sources " + vk::strv(idl) + ", expected " + vk::strv(idm); });
          r.check(g_runs["G"] == m.runs + extra, "group-runs", [&] { return "after step " + vk::str(step) + " the group task ran " + vk::str(g_runs["G"]) + " times, expected " + vk::str(m.runs + extra); });
          r.check(g_runs["GE"] == m.runsGE, "group-runs", [&] { return "after step " + vk::str(step) + " the second group task ran " + vk::str(g_runs["GE"]) + " times, expected " + vk::str(m.runsGE); });
          r.nontrivial(m.runs + m.runsGE > 0); r.see(got); r.transition();
        }
        int b = 0;
        uint64_t st = m.s.size(); for (auto& x : m.own) st = vk::mix(st, vk::hashStr(x.first) + x.second);
        r.state(st); (void)b;
      }
      r.check(g_live == 0, "group-lifetime", [&] { return vk::str(g_live) + " properties outlive the group"; });
    });
  } while ((o.inc(), !o.done));
}

// Groups without computed properties
VK_SUITE(simple_group) {
  int len = (r.thorough() ? 8 : 6) - SHORTER;
  vk::Odo o(std::vector<int>(len, 6));  // add, remove k=0,1,last, merge 2, set/get
  do {
    if (!r.next()) continue;
    auto h = o.v;
    r.desc([=] { return "simple group history (add, remove first, second, last, merge two, set property) " + vk::strv(h); });
    r.guarded("simple_group", [&] {
      g_live = 0;
      {
        SimpleSourceGroup g;
        std::vector<int> m; int next = 1, prop = -7, step = 0;
        auto mk = [&](int id) { auto s = std::unique_ptr<SourceInterface>(new SimpleSource); s->setProperty<Id>(id); return s; };
        for (int op : h) {
          ++step;
          if (op == 0) { g.addSource(mk(next)); m.push_back(next++); }
          else if (op < 4) {
            size_t k = op == 3 ? m.size() - 1 : op - 1;
            if (k < m.size()) { auto it = g.begin(); std::advance(it, k); it = g.removeSource(it); m.erase(m.begin() + k); r.check(k < m.size() ? it != g.end() && it->getProperty<Id>().v == m[k] : it == g.end(), "group-iterator", "wrong position after removal"); }
          } else if (op == 4) {
            SimpleSourceGroup other; other.addSource(mk(next)); other.addSource(mk(next + 1)); other.setProperty<G>(3);
            g.merge(std::move(other)); m.push_back(next); m.push_back(next + 1); next += 2; prop = -7;
            r.check(other.size() == 0, "group-merge", "the merged group still has sources");
          } else { g.setProperty<G>(step); prop = step; }
          std::vector<int> l; for (auto& s : g) l.push_back(s.getProperty<Id>().v);
          r.check(l == m && g.size() == m.size(), "group-members", [&] { return "after step " + vk::str(step) + " sources " + vk::strv(l) + ", expected " + vk::strv(m); });
          r.check(getv<G>(g) == prop, "group-get", [&] { return "after step " + vk::str(step); });
          r.nontrivial(!m.empty()); r.transition(); for (int x : l) r.see(x);
        }
      }
      r.check(g_live == 0, "group-lifetime", "properties outlive the group");
    });
  } while ((o.inc(), !o.done));
}

VK_SUITE(registry) {
  for (int mode = 0; mode < 6; ++mode) {
    if (!r.next()) continue;
    r.desc([=] { return "registry, case " + vk::str(mode); });
    r.guarded("registry", [&] {
      auto reg = registry();
      r.nontrivial(); r.see(mode); r.transition();
      bool dup = false;
      if (mode == 0) { try { reg->registerTaskFactory<FD, D>(); } catch (TaskFactoryRegistry::DuplicateFactoryException&) { dup = true; } r.check(dup, "registry-duplicate", "a second factory for one property is accepted"); }
      if (mode == 1) { try { reg->registerTaskFactory<FD, NoTask, A>(); } catch (TaskFactoryRegistry::DuplicateFactoryException&) { dup = true; } r.check(dup, "registry-duplicate", "a second factory for one property is accepted (second of a list)"); }
      if (mode == 2) { FA::conf = FA::rep = FA::inst = 0; alignas(8) char mem[4096]; auto& cm = reinterpret_cast<Euclid::Configuration::ConfigManager&>(mem); reg->configure(cm); reg->reportConfigDependencies(cm);
        r.check(FA::conf == 3 && FA::rep == 3, "registry-configure", [&] { return "configured " + vk::str(FA::conf) + ", reported " + vk::str(FA::rep) + " of 3 factories"; }); }
      if (mode == 3) { int thrown = 0; try { reg->getFactory(typeid(NoTask)); } catch (std::out_of_range&) { thrown = 1; } r.check(thrown, "registry-missing", "a factory for an unknown property"); }
      if (mode == 4) { TaskProvider p(nullptr); r.check(!p.getTask<SourceTask>(PropertyId::create<A>()), "provider", "a task without a registry"); }
      if (mode == 5) {
        TaskProvider p(reg);
        auto t = p.getTask<SourceTask>(PropertyId::create<A>()), u = p.getTask<SourceTask>(PropertyId::create<A>()), v = p.getTask<SourceTask>(PropertyId::create<A>(1));
        r.check(t && t == u && v && v != t, "provider", "one task per property and index");
        r.check(!p.getTask<GroupTask>(PropertyId::create<A>()) && p.getTask<GroupTask>(PropertyId::create<G>()), "provider", "kinds of tasks");
      }
    });
  }
}
