// Shared services used from the measurement threads: transform plans, convolutions, tasks, identifiers. Every schedule.
#include <thread>
#include "mc.h"
#include "SEFramework/Convolution/DFT.h"
#include "SEFramework/FFT/FFT.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SourceWithOnDemandProperties.h"
#include "SEFramework/Task/SourceTask.h"
#include "SEFramework/Task/TaskFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEImplementation/Plugin/SourceIDs/SourceIDTask.h"
#include "SEImplementation/Plugin/GroupInfo/GroupInfo.h"
#include "SEImplementation/Plugin/GroupInfo/GroupInfoTask.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
using namespace SourceXtractor;

// Stand-ins for the planner: it may only be entered by one thread at a time (of one precision), and must be given room.
template <typename T> struct Planner {
  struct Plan { int h, w; bool inverse, alive; };
  static Plan plans[16];
  static int n, busy;
  static void reset() { n = 0; busy = 0; }
  static Plan* make(int h, int w, bool inverse, const void* in, const void* out) {
    mc::Untracked u;
    mc::require(!busy, "planner entered twice", "two threads are in the planner at the same time");
    busy = 1;
    mc::point();
    mc::require(in == out && in, "buffers", "the plan is not in place");
    for (int i = 0; i < n; ++i) mc::require(!(plans[i].h == h && plans[i].w == w && plans[i].inverse == inverse), "planned twice", "a plan for " + std::to_string(w) + "x" + std::to_string(h) + " made twice");
    plans[n] = {h, w, inverse, true};
    busy = 0;
    return &plans[n++];
  }
  static void destroy(void* p) { static_cast<Plan*>(p)->alive = false; }
};
template <typename T> typename Planner<T>::Plan Planner<T>::plans[16];
template <typename T> int Planner<T>::n;
template <typename T> int Planner<T>::busy;
static fftwf_plan ffwd(int h, int w, float* a, fftwf_complex* b, unsigned) { return (fftwf_plan)Planner<float>::make(h, w, false, a, b); }
static fftwf_plan finv(int h, int w, fftwf_complex* a, float* b, unsigned) { return (fftwf_plan)Planner<float>::make(h, w, true, a, b); }
static void fdel(fftwf_plan p) { Planner<float>::destroy(p); }
static fftw_plan dfwd(int h, int w, double* a, fftw_complex* b, unsigned) { return (fftw_plan)Planner<double>::make(h, w, false, a, b); }
static fftw_plan dinv(int h, int w, fftw_complex* a, double* b, unsigned) { return (fftw_plan)Planner<double>::make(h, w, true, a, b); }
static void ddel(fftw_plan p) { Planner<double>::destroy(p); }
static void standIns() {
  Planner<float>::reset(); Planner<double>::reset();
  FFTTraits<float>::func_plan_fwd = ffwd; FFTTraits<float>::func_plan_inv = finv; FFTTraits<float>::func_destroy_plan = fdel;
  FFTTraits<double>::func_plan_fwd = dfwd; FFTTraits<double>::func_plan_inv = dinv; FFTTraits<double>::func_destroy_plan = ddel;
}
template <typename T> static void plan(int w, int h, bool inverse) {
  std::vector<T> buf;
  auto p = inverse ? FFT<T>::createInversePlan(w, h, buf) : FFT<T>::createForwardPlan(w, h, buf);
  auto* q = reinterpret_cast<typename Planner<T>::Plan*>(p.get());
  mc::Untracked u;
  mc::require(buf.size() >= size_t(2 * (w / 2 + 1)) * h, "room", "work area too small");
  mc::require(q && q->alive && q->w == w && q->h == h && q->inverse == inverse, "wrong plan", "asked for " + std::to_string(w) + "x" + std::to_string(h) + ", got another plan");
}
using Step = std::function<void()>;
static void threads(vk::Run& r, const char* key, const char* what, int pre, std::vector<std::vector<Step>> th, std::function<void()> setup, std::function<uint64_t()> end) {
  mc::Options o; o.preemptions = pre;
  mc::explore(r, key, what, o, [=] {
    setup();
    std::vector<std::thread> ts;
    for (size_t i = 1; i < th.size(); ++i) ts.emplace_back([&th, i] { for (auto& s : th[i]) s(); });
    for (auto& s : th[0]) s();
    for (auto& t : ts) t.join();
    mc::observe(end());
  });
}
static uint64_t planOrder() {
  uint64_t h = 7;
  for (int i = 0; i < Planner<float>::n; ++i) { auto& p = Planner<float>::plans[i]; h = vk::mix(h, p.w * 100 + p.h * 2 + p.inverse); }
  for (int i = 0; i < Planner<double>::n; ++i) { auto& p = Planner<double>::plans[i]; h = vk::mix(h, 5000 + p.w * 100 + p.h * 2 + p.inverse); }
  return h;
}
VK_SUITE(plans) {
  int p = r.thorough() ? 4 : 3;
  auto F = [](int w, int h) -> Step { return [=] { plan<float>(w, h, false); }; };
  auto I = [](int w, int h) -> Step { return [=] { plan<float>(w, h, true); }; };
  auto D = [](int w, int h) -> Step { return [=] { plan<double>(w, h, false); }; };
  threads(r, "plans/same", "two threads ask for the same plan", p, {{F(4, 6), F(4, 6)}, {F(4, 6)}}, standIns, planOrder);
  threads(r, "plans/swapped", "two threads ask for transposed sizes in opposite order", p, {{F(4, 6), F(6, 4)}, {F(6, 4), F(4, 6)}}, standIns, planOrder);
  threads(r, "plans/directions", "forward and inverse plans at the same time", p, {{F(4, 6), I(4, 6)}, {I(4, 6), F(4, 6)}}, standIns, planOrder);
  threads(r, "plans/precisions", "both precisions at the same time", p, {{F(4, 6), D(4, 6)}, {D(4, 6), I(4, 6)}}, standIns, planOrder);
  threads(r, "plans/three", "three threads", p - 1, {{F(3, 5), I(3, 5)}, {F(3, 5)}, {I(3, 5), F(5, 3)}}, standIns, planOrder);
}

// Two threads convolve different images with one convolution object.
VK_SUITE(convolutions) {
  mc::Options o; o.preemptions = r.thorough() ? 3 : 2;
  mc::explore(r, "convolve", "two threads convolve with the same kernel, images of the same and different sizes", o, [] {
    auto ker = VectorImage<float>::create(3, 1, std::vector<float>{1, 2, 4});
    DFTConvolution<float, PaddedImage<float>> conv(ker);
    auto work = [&conv](int w, int v) {
      for (int k = 0; k < 2; ++k) {
        auto img = VectorImage<float>::create(w, 1);
        for (int i = 0; i < w; ++i) img->at(i, 0) = i * v + k;
        auto ctx = conv.prepare(img);
        conv.convolve(std::static_pointer_cast<WriteableImage<float>>(img), ctx);
        mc::Untracked u;
        for (int i = 0; i < w; ++i) {
          auto at = [&](int j) { return j < 0 || j >= w ? 0.0 : j * v + k; };
          double want = at(i + 1) + 2 * at(i) + 4 * at(i - 1);
          mc::require(std::abs(img->getValue(i, 0) - want) < 1e-3, "convolved", "pixel " + std::to_string(i) + " is " + std::to_string(img->getValue(i, 0)) + " instead of " + std::to_string(want));
        }
      }
    };
    std::thread t([&] { work(4, 3); });
    work(5, -1);
    t.join();
    mc::observe(1);
  });
}

// Tasks: one per property, made once and shared.
struct Prop1 : Property { int v; explicit Prop1(int x) : v(x) {} };
struct Prop2 : Property { int v; explicit Prop2(int x) : v(x) {} };
static int made;
struct Task2 : SourceTask { void computeProperties(SourceInterface& s) const override { s.setProperty<Prop2>(2); } };
struct Task1 : SourceTask { void computeProperties(SourceInterface& s) const override { s.setProperty<Prop1>(s.getProperty<Prop2>().v + 1); } };
template <typename T> struct Fact : TaskFactory {
  std::shared_ptr<Task> createTask(const PropertyId&) const override { ++made; mc::point(); return std::make_shared<T>(); }
};
struct OpenProvider : TaskProvider { using TaskProvider::TaskProvider; using TaskProvider::getTask; };
VK_SUITE(tasks) {
  mc::Options o; o.preemptions = r.thorough() ? 4 : 3;
  mc::explore(r, "tasks", "two threads measure a source each with one task provider", o, [] {
    made = 0;
    auto reg = std::make_shared<TaskFactoryRegistry>();
    reg->registerTaskFactory<Fact<Task1>, Prop1>();
    reg->registerTaskFactory<Fact<Task2>, Prop2>();
    auto prov = std::make_shared<OpenProvider>(reg);
    std::shared_ptr<const Task> got[2];
    auto work = [&](int i) {
      SourceWithOnDemandProperties s(prov);
      int a = s.getProperty<Prop1>().v, b = s.getProperty<Prop2>().v;
      got[i] = prov->getTask(PropertyId::create<Prop1>());
      mc::Untracked u;
      mc::require(a == 3 && b == 2, "property", "a property is wrong");
    };
    std::thread t([&] { work(1); });
    work(0);
    t.join();
    mc::require(got[0] && got[0] == got[1], "shared task", "two tasks for one property");
    mc::require(made == 2, "made", std::to_string(made) + " tasks made for two properties");
    mc::observe(made);
  });
}

// Identifiers: distinct whatever the schedule.
VK_SUITE(identifiers) {
  mc::Options o; o.preemptions = r.thorough() ? 3 : 2;
  mc::explore(r, "ids", "three threads take source, catalogue and group identifiers", o, [] {
    std::vector<unsigned> ids[3], cat[3], grp[3];
    auto work = [&](int i) {
      for (int k = 0; k < 2; ++k) {
        SourceId s;
        mc::require(s.getDetectionId() == s.getSourceId(), "detection id", "a new source has the identifier of another one");
        SourceId child(s.getSourceId());
        mc::require(child.getDetectionId() == s.getSourceId(), "detection id", "detection identifier lost");
        ids[i].push_back(s.getSourceId()); ids[i].push_back(child.getSourceId());
        SimpleSource src;
        src.setProperty<SourceId>(1000u + i);
        SourceIDTask().computeProperties(src);
        mc::require(src.getProperty<SourceID>().getDetectionId() == 1000u + i, "detection id", "catalogue entry with the wrong detection");
        cat[i].push_back(src.getProperty<SourceID>().getId());
        SimpleSourceGroup g;
        GroupInfoTask().computeProperties(g);
        grp[i].push_back(g.getProperty<GroupInfo>().getGroupId());
      }
    };
    std::thread t1([&] { work(1); }), t2([&] { work(2); });
    work(0);
    t1.join(); t2.join();
    std::set<unsigned> a, b, c;
    for (auto& v : cat) for (auto x : v) mc::require(c.insert(x).second, "unique catalogue", "catalogue identifier " + std::to_string(x) + " given twice");
    for (auto& v : ids) for (auto x : v) mc::require(a.insert(x).second, "unique", "source identifier " + std::to_string(x) + " given twice");
    for (auto& v : grp) for (auto x : v) mc::require(b.insert(x).second, "unique group", "group identifier " + std::to_string(x) + " given twice");
    uint64_t h = 1;
    for (auto& v : ids) for (auto x : v) h = vk::mix(h, x);
    mc::observe(h);
  });
}
