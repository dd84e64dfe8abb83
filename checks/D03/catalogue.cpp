// What is written to the catalogue: columns, rows, parts and headers.
#include "e2e/scenes.h"
#include "AlexandriaKernel/memory_tools.h"
#include "Configuration/ConfigManager.h"
#include "SEFramework/Image/ImageSource.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Output/OutputRegistry.h"
#include "SEFramework/Plugin/PluginManager.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEImplementation/Configuration/OutputConfig.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
#include "SEImplementation/Output/AsciiOutput.h"
#include "SEImplementation/Output/FitsOutput.h"
#include "SEImplementation/Output/LdacOutput.h"
#include "SEImplementation/Output/OutputFactory.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometry.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArray.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometry.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryArray.h"
#include "SEImplementation/Plugin/CoreThresholdPartition/NCorePixel.h"
#include "SEImplementation/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStamp.h"
#include "SEImplementation/Plugin/ErrorEllipse/ErrorEllipse.h"
#include "SEImplementation/Plugin/ExternalFlag/ExternalFlag.h"
#include "SEImplementation/Plugin/FlexibleModelFitting/FlexibleModelFitting.h"
#include "SEImplementation/Plugin/FluxRadius/FluxRadius.h"
#include "SEImplementation/Plugin/GroupInfo/GroupInfo.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurveResampled.h"
#include "SEImplementation/Plugin/HduNumber/HduNumber.h"
#include "SEImplementation/Plugin/IsophotalFlux/IsophotalFlux.h"
#include "SEImplementation/Plugin/KronRadius/KronRadius.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelFitting.h"
#include "SEImplementation/Plugin/NDetectedPixels/NDetectedPixels.h"
#include "SEImplementation/Plugin/PeakValue/PeakValue.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Plugin/SNRRatio/SNRRatio.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParameters.h"
#include "SEImplementation/Plugin/SourceFlags/SourceFlags.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEImplementation/Plugin/Vignet/Vignet.h"
#include "SEImplementation/Plugin/Vignet/VignetArray.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroid.h"
#include <regex>
#include <set>
#include <sstream>
using namespace e2e;
using namespace SourceXtractor;
namespace sink = Euclid::Table::shim;
using Euclid::Table::Row;
using NdF = Euclid::NdArray::NdArray<float>;
using NdI = Euclid::NdArray::NdArray<int64_t>;
namespace {
std::string show(const Row::cell_type& c) { return boost::apply_visitor(Print(), c); }
struct Cell { std::string name, type, unit, desc, value; };
bool operator==(const Cell& a, const Cell& b) { return a.name == b.name && a.type == b.type && a.unit == b.unit && a.desc == b.desc && a.value == b.value; }
std::string show(const std::vector<Cell>& v) { std::string s; for (auto& c : v) s += " " + c.name + ":" + c.type + "{" + c.unit + "," + c.desc + "}=" + c.value; return s; }
std::vector<Cell> cells(const Row& r) {
  std::vector<Cell> v;
  for (size_t i = 0; i < r.size(); ++i) { auto& d = r.getColumnInfo()->getDescription(i); v.push_back({d.name, d.type.name(), d.unit, d.description, show(r[i])}); }
  return v;
}
// ---- the registry, against a table of columns
template <int K> struct P : Property { explicit P(int v) : v(v) {} int v; };
struct ModelCol { std::string name, type; int fn, index; std::string unit, desc; };
struct Model {
  std::map<int, std::vector<ModelCol>> cols;
  std::set<int> registered;
  std::vector<std::pair<std::string, int>> aliases;
};
using Instances = std::vector<std::pair<std::string, unsigned>>;
struct Op { std::string text; std::function<void(OutputRegistry&)> real; std::function<bool(Model&)> model; };   // model: false when it must be refused
template <int K, typename T> Op reg(const std::string& name, int fn, const std::string& unit, const std::string& desc) {
  return {"register " + name + " of P" + std::to_string(K),
          [=](OutputRegistry& r) { r.registerColumnConverter<P<K>, T>(name, [fn](const P<K>& p) { return (T)(p.v * 10 + fn); }, unit, desc); },
          [=](Model& m) { m.cols[K].push_back({name, typeid(T).name(), fn, 0, unit, desc}); m.registered.insert(K); return true; }};
}
std::string show(const Instances& in) { std::string s; for (auto& i : in) s += i.first + "=" + std::to_string(i.second) + ","; return s; }
template <int K> Op postfix(const Instances& in) {
  return {"instances of P" + std::to_string(K) + ": " + show(in), [=](OutputRegistry& r) { r.registerPropertyInstances<P<K>>(in); },
          [=](Model& m) {
            std::vector<ModelCol> n;
            for (auto c : m.cols[K]) for (auto& i : in) { auto d = c; d.name += "_" + i.first; d.index = i.second; n.push_back(d); }
            m.cols[K] = n; m.registered.insert(K);
            return true;
          }};
}
template <int K> Op named(const std::string& name, const Instances& in) {
  return {"instances of column " + name + " of P" + std::to_string(K) + ": " + show(in), [=](OutputRegistry& r) { r.registerPropertyInstances<P<K>>(name, in); },
          [=](Model& m) {
            auto& v = m.cols[K];
            auto at = std::find_if(v.begin(), v.end(), [&](const ModelCol& c) { return c.name == name; });
            if (at == v.end()) return false;
            auto c = *at;
            v.erase(at);
            for (auto& i : in) { auto d = c; d.name = i.first; d.index = i.second; v.push_back(d); }
            return true;
          }};
}
template <int K> Op enable(const std::string& alias, bool conf) {
  return {"enable P" + std::to_string(K) + " as " + alias + (conf ? " (configurable)" : ""), [=](OutputRegistry& r) { r.enableOutput<P<K>>(alias, conf); },
          [=](Model& m) { if (!conf && !m.registered.count(K)) return false; m.aliases.push_back({alias, K}); return true; }};
}
int valueOf(int k, int index) { return 100 * k + 7 * index; }
const std::vector<Op>& ops() {
  static std::vector<Op> v{
    reg<1, int64_t>("a", 1, "count", "first"), reg<1, double>("b", 2, "", "second"), reg<2, float>("c", 3, "mag", ""), reg<2, double>("a", 4, "deg", "same name"),
    postfix<1>({{"0", 0}, {"1", 1}}), postfix<1>({}), postfix<2>({{"x", 2}}),
    named<1>("a", {{"p", 2}, {"q", 1}}), named<1>("b", {{"a", 1}}), named<2>("a", {{"a", 2}}), named<1>("a", {{"a", 1}, {"b", 2}}),
    enable<1>("A", false), enable<2>("A", false), enable<2>("B", false), enable<1>("C", true)};
  return v;
}
VK_SUITE(registry) {
  SimpleSource src;
  for (int i = 0; i < 3; ++i) { src.setIndexedProperty<P<1>>(i, valueOf(1, i)); src.setIndexedProperty<P<2>>(i, valueOf(2, i)); }
  std::vector<std::vector<std::string>> lists{{}, {"A"}, {"B"}, {"C"}, {"Z"}, {"A", "A"}, {"A", "B"}, {"B", "A"}, {"C", "B"}, {"B", "C"}, {"A", "Z"}, {"C", "B", "A"}};
  auto& O = ops();
  auto refused = [](std::function<void()> f) { try { f(); return false; } catch (const std::exception&) { return true; } };
  for (int len = 1; len <= (r.thorough() ? 5 : 4); ++len)
    for (vk::Odo o(std::vector<int>(len, O.size())); !o.done; o.inc()) {
      if (!r.next()) continue;
      auto text = [&] { std::string s; for (int k : o.v) s += O[k].text + "; "; return s; };
      r.desc(text);
      Model m;
      auto reg = std::make_shared<OutputRegistry>();
      bool stop = false;
      for (size_t i = 0; i < o.v.size() && !stop; ++i) {
        bool want = O[o.v[i]].model(m);
        bool no = refused([&] { O[o.v[i]].real(*reg); });
        r.transition();
        // a name used twice by one property cannot work; it may be refused at once or when the row is made
        bool dup = false;
        for (auto& p : m.cols) { std::set<std::string> s; for (auto& c : p.second) dup = dup || !s.insert(c.name).second; }
        if (dup) { stop = true; break; }
        r.require(no == !want, "registry.refusal", [&] { return text() + " operation " + std::to_string(i) + (want ? " is refused" : " is accepted"); });
        stop = no;
      }
      if (stop) continue;
      std::set<std::string> names;
      for (auto& a : m.aliases) names.insert(a.first);
      r.check(reg->getOutputPropertyNames() == names, "registry.names", text);
      for (auto& l : lists) {
        auto where = [&] { std::string s = text() + " output of"; for (auto& a : l) s += " " + a; return s; };
        bool unknown = false, missing = false;
        std::vector<int> types;
        for (auto& a : l) {
          bool any = false;
          for (auto& e : m.aliases) if (e.first == a) { any = true; if (std::find(types.begin(), types.end(), e.second) == types.end()) types.push_back(e.second); }
          unknown = unknown || !any;
        }
        OutputRegistry::SourceToRowConverter conv;
        bool no = refused([&] { conv = reg->getSourceToRowConverter(l); });
        r.check(no == unknown, "registry.unknown", [&] { return where() + (no ? " is refused" : " is accepted"); });
        if (no || unknown) continue;
        std::vector<Cell> want;
        std::set<std::string> seen;
        bool clash = false;
        for (int k : types) {
          missing = missing || !m.registered.count(k);
          for (auto& c : m.cols[k]) {
            int v = valueOf(k, c.index) * 10 + c.fn;
            clash = clash || !seen.insert(c.name).second;
            want.push_back({c.name, c.type, c.unit, c.desc, std::to_string(v)});
          }
        }
        std::vector<Cell> got;
        bool bad = refused([&] { got = cells(conv(src)); });
        bool expect = missing || clash || want.empty();
        r.check(bad == expect, "registry.row-refusal", [&] { return where() + (bad ? " makes no row" : " makes a row" + show(got)); });
        if (bad || expect) continue;
        r.nontrivial();
        r.check(got == want, "registry.row", [&] { return where() + ": expected" + show(want) + ", is" + show(got); });
      }
      r.state(vk::hashStr(text()));
    }
}
// ---- the columns of all plugins
NdF ndf(std::vector<size_t> shape, float v) { NdF a(shape); float k = v; for (auto& x : a) x = k++; return a; }
struct Values {   // the properties of a source, and the columns they must give
  SimpleSource s;
  std::map<std::string, std::vector<Cell>> want;
  Print p;
  template <typename T> void col(const char* prop, const char* name, const char* unit, const T& v) { want[prop].push_back({name, typeid(T).name(), unit, "", p(v)}); }
  explicit Values(float o, int flag) {
    auto F = [&](int i) { return o + i * 1.25f; };
    auto D = [&](int i) { return (double)F(i); };
    auto fl = static_cast<Flags>(flag), fl2 = static_cast<Flags>(flag << 1);
    s.setProperty<SourceID>(flag + 3u, flag + 5u);
    col("SourceIDs", "source_id", "", (int)(flag + 3)); col("SourceIDs", "detection_id", "", (int)(flag + 5));
    s.setProperty<PixelCentroid>(F(1), F(2));
    col("PixelCentroid", "pixel_centroid_x", "pixel", D(1) + 1); col("PixelCentroid", "pixel_centroid_y", "pixel", D(2) + 1);
    s.setProperty<WorldCentroid>(D(3) + 1e-11, D(4) + 1e-11);
    col("WorldCentroid", "world_centroid_alpha", "deg", D(3) + 1e-11); col("WorldCentroid", "world_centroid_delta", "deg", D(4) + 1e-11);
    s.setProperty<PixelBoundaries>(flag + 1, flag + 2, flag + 30, flag + 40);
    col("PixelBoundaries", "pixel_boundaries_min_x", "pixel", flag + 1); col("PixelBoundaries", "pixel_boundaries_min_y", "pixel", flag + 2);
    col("PixelBoundaries", "pixel_boundaries_max_x", "pixel", flag + 30); col("PixelBoundaries", "pixel_boundaries_max_y", "pixel", flag + 40);
    s.setProperty<PeakValue>(F(5), F(6), flag + 7, flag + 8);
    col("PeakValue", "peak_value", "count", D(6)); col("PeakValue", "peak_value_x", "pix", flag + 8); col("PeakValue", "peak_value_y", "pix", flag + 9);
    s.setProperty<IsophotalFlux>(F(7), F(8), F(9), F(10));
    col("IsophotalFlux", "isophotal_flux", "count", D(7)); col("IsophotalFlux", "isophotal_flux_err", "count", D(8)); col("IsophotalFlux", "isophotal_mag", "mag", D(9)); col("IsophotalFlux", "isophotal_mag_err", "mag", D(10));
    s.setProperty<KronRadius>(F(11), (long)flag);
    col("KronRadius", "kron_radius", "pixel", D(11)); col("KronRadius", "kron_flag", "", (int64_t)flag);
    s.setProperty<SNRRatio>(F(12));
    col("SNRRatio", "snrratio", "", F(12));
    float a = 5 + o * o, b = 2 + o * o / 2, th = 0.3f;
    s.setProperty<ShapeParameters>(a, b, th, 0.5f, F(13), F(14), F(15), F(16), F(17), true);
    col("ShapeParameters", "ellipse_a", "pixel", (double)a); col("ShapeParameters", "ellipse_b", "pixel", (double)b); col("ShapeParameters", "ellipse_theta", "deg", th * 180.0 / M_PI);
    col("ShapeParameters", "ellipse_cxx", "pixel^{-2}", D(13)); col("ShapeParameters", "ellipse_cyy", "pixel^{-2}", D(14)); col("ShapeParameters", "ellipse_cxy", "pixel^{-2}", D(15));
    col("ShapeParameters", "area", "pixel", D(16)); col("ShapeParameters", "elongation", "", (double)(a / b)); col("ShapeParameters", "ellipticity", "", (double)(1 - b / a));
    s.setProperty<ErrorEllipse>(F(18), F(19), th, F(20), F(21), F(22));
    col("ErrorEllipse", "error_ellipse_a", "pixel", D(18)); col("ErrorEllipse", "error_ellipse_b", "pixel", D(19)); col("ErrorEllipse", "error_ellipse_theta", "deg", th * 180.0 / M_PI);
    col("ErrorEllipse", "error_centroid_x2", "pixel^2", D(20)); col("ErrorEllipse", "error_centroid_y2", "pixel^2", D(21)); col("ErrorEllipse", "error_centroid_xy", "pixel^2", D(22));
    s.setIndexedProperty<ExternalFlag>(0, ((int64_t)flag << 33) + 1, flag + 2);
    col("ExternalFlags", "isophotal_image_flags", "", ((int64_t)flag << 33) + 1); col("ExternalFlags", "isophotal_image_flags_pixel_count", "", flag + 2);
    s.setProperty<SourceFlags>(std::vector<Flags>{fl, fl2});
    col("SourceFlags", "source_flags", "", std::vector<int64_t>{flag, flag << 1});
    s.setProperty<NDetectedPixels>((unsigned long)flag + 12); col("NDetectedPixels", "n_detected_pixels", "pixel", (int64_t)flag + 12);
    s.setProperty<NCorePixel>((unsigned long)flag + 13); col("NCorePixel", "n_core_pixel", "pixel", (int64_t)flag + 13);
    s.setProperty<GroupInfo>(flag + 14u); col("GroupInfo", "group_id", "", (int64_t)flag + 14);
    s.setProperty<HduNumber>(flag + 15u); col("HduNumber", "hdu_number", "", (int64_t)flag + 15);
    s.setProperty<AssocMode>(flag % 2 == 1, std::vector<double>{1, 2}); col("AssocMode", "assoc_match", "", (bool)(flag % 2));
    s.setProperty<FluxRadius>(ndf({2, 3}, F(23))); col("FluxRadius", "flux_radius", "pixel", ndf({2, 3}, F(23)));
    s.setProperty<GrowthCurveResampled>(ndf({2, 4}, F(24)), std::vector<double>{D(25), D(26)});
    col("GrowthCurve", "flux_growth_step", "pixel", std::vector<double>{D(25), D(26)}); col("GrowthCurve", "flux_growth", "count", ndf({2, 4}, F(24)));
    s.setProperty<DetectionFrameGroupStamp>(VectorImage<float>::create(flag + 3, flag + 4), VectorImage<float>::create(1, 1), PixelCoordinate(flag + 5, flag + 6), VectorImage<float>::create(2, 2));
    col("GroupStamp", "group_stamp_top", "pixel", flag + 6); col("GroupStamp", "group_stamp_left", "pixel", flag + 5); col("GroupStamp", "group_stamp_width", "pixel", flag + 3); col("GroupStamp", "group_stamp_height", "pixel", flag + 4);
    s.setProperty<AutoPhotometryArray>(std::vector<AutoPhotometry>{{F(27), F(28), F(29), F(30), fl}, {F(31), F(32), F(33), F(34), fl2}});
    using V = std::vector<float>;
    col("AutoPhotometry", "auto_flux", "count", V{F(27), F(31)}); col("AutoPhotometry", "auto_flux_err", "count", V{F(28), F(32)}); col("AutoPhotometry", "auto_mag", "mag", V{F(29), F(33)});
    col("AutoPhotometry", "auto_mag_err", "mag", V{F(30), F(34)}); col("AutoPhotometry", "auto_flags", "", std::vector<int64_t>{flag, flag << 1});
    std::vector<Flags> f0{fl, fl2, fl}, f1{fl2, fl, fl};
    auto three = [&](int i) { return V{F(i), F(i + 1), F(i + 2)}; };
    auto two = [&](int i, int j) { NdF n(std::vector<size_t>{2, 3}); auto q = n.begin(); for (float v : three(i)) *q++ = v; for (float v : three(j)) *q++ = v; return n; };
    s.setIndexedProperty<AperturePhotometryArray>(0, std::vector<AperturePhotometry>{{three(40), three(43), three(46), three(49), f0}, {three(52), three(55), three(58), three(61), f1}});
    col("AperturePhotometry", "aperture_flux", "count", two(40, 52)); col("AperturePhotometry", "aperture_flux_err", "count", two(43, 55)); col("AperturePhotometry", "aperture_mag", "mag", two(46, 58));
    col("AperturePhotometry", "aperture_mag_err", "mag", two(49, 61));
    NdI nf(std::vector<size_t>{2, 3}, std::vector<int64_t>{flag, flag << 1, flag, flag << 1, flag, flag});
    col("AperturePhotometry", "aperture_flags", "", nf);
    s.setProperty<MoffatModelFitting>(F(70), F(71), 1.f, 2.f, 3.f, 4.f, 5.f, 6.f, 7.f, 8.f, flag + 9u);
    col("MoffatModelFitting", "smf_x", "pixel", D(70) + 1); col("MoffatModelFitting", "smf_y", "pixel", D(71) + 1); col("MoffatModelFitting", "smf_iter", "", flag + 9);
    s.setProperty<FlexibleModelFitting>(flag + 10u, flag + 11u, F(72), F(73), fl, std::unordered_map<int, double>{{1, 2.}}, std::unordered_map<int, double>{{1, 3.}}, V{F(74), F(75)}, std::vector<int>{flag, flag + 1}, flag + 12, V{F(76)}, V{F(77), F(78)});
    const char* fm = "FlexibleModelFitting";
    col(fm, "fmf_reduced_chi_2", "", D(72)); col(fm, "fmf_iterations", "", flag + 10); col(fm, "fmf_stop_reason", "", flag + 11); col(fm, "fmf_duration", "seconds", F(73)); col(fm, "fmf_flags", "", (int64_t)flag);
    col(fm, "fmf_chi2_per_meta", "", V{F(74), F(75)}); col(fm, "fmf_iterations_per_meta", "", std::vector<int>{flag, flag + 1}); col(fm, "fmf_meta_iterations", "", flag + 12);
    col(fm, "fmf_fitting_areas_x", "", V{F(76)}); col(fm, "fmf_fitting_areas_y", "", V{F(77), F(78)});
    std::vector<std::unique_ptr<Vignet>> vs;
    std::vector<std::reference_wrapper<const Vignet>> refs;
    int nv = flag % 2 ? 2 : 1;
    NdF vig(nv == 1 ? std::vector<size_t>{2, 3} : std::vector<size_t>{2, 2, 3});
    auto q = vig.begin();
    for (int k = 0; k < nv; ++k) {
      auto img = VectorImage<float>::create(2, 3);
      for (int x = 0; x < 2; ++x) for (int y = 0; y < 3; ++y) { img->setValue(x, y, F(80 + 6 * k + 3 * x + y)); *q++ = F(80 + 6 * k + 3 * x + y); }
      vs.push_back(std::unique_ptr<Vignet>(new Vignet(img)));
      refs.push_back(*vs.back());
    }
    s.setProperty<VignetArray>(refs);
    col("Vignet", "vignet", "count", vig);
    for (auto& w : want) std::sort(w.second.begin(), w.second.end(), [](const Cell& a, const Cell& b) { return a.name < b.name; });
  }
};
VK_SUITE(columns) {
  auto tasks = std::make_shared<TaskFactoryRegistry>();
  auto reg = std::make_shared<OutputRegistry>();
  PluginManager pm(tasks, reg, "", {});
  pm.loadPlugins();
  Values one(10.5f, 5), other(-2.25f, 64);
  std::vector<std::string> all;
  for (auto& w : one.want) all.push_back(w.first);
  if (r.next()) {
    r.desc([] { return "the properties that can be asked for"; });
    std::set<std::string> want(all.begin(), all.end());
    auto got = reg->getOutputPropertyNames();
    for (auto& w : want) r.check(got.count(w), "columns.missing-property", [&] { return w; });
    std::ostringstream os;
    auto old = std::cout.rdbuf(os.rdbuf());
    try { reg->printPropertyColumnMap(); } catch (...) { std::cout.rdbuf(old); r.fail("columns.list", "listing the columns fails"); }
    std::cout.rdbuf(old);
    for (auto& w : one.want) for (auto& c : w.second) r.check(os.str().find("- " + c.name) != std::string::npos, "columns.list", [&] { return c.name + " is not listed"; });
    r.nontrivial();
  }
  auto run = [&](const std::vector<int>& pick) {
    if (!r.next()) return;
    std::vector<std::string> l;
    for (int i : pick) l.push_back(all[i]);
    auto where = [&] { std::string s = "output of"; for (auto& a : l) s += " " + a; return s; };
    r.desc(where);
    auto conv = reg->getSourceToRowConverter(l);
    for (auto* v : {&one, &other}) {
      auto got = cells(conv(v->s));
      for (auto& c : got) c.desc.clear();
      std::vector<Cell> want;
      std::set<std::string> done;
      size_t at = 0;
      for (auto& a : l) {   // the columns of one property come together
        if (!done.insert(a).second) continue;
        auto& w = v->want.at(a);
        size_t n = std::min(w.size(), got.size() - at);
        std::sort(got.begin() + at, got.begin() + at + n, [](const Cell& x, const Cell& y) { return x.name < y.name; });
        at += n;
        want.insert(want.end(), w.begin(), w.end());
      }
      r.check(got == want, "columns.row", [&] { return where() + ": expected" + show(want) + ", is" + show(got); });
    }
    r.nontrivial();
    r.state(vk::hashStr(where()));
  };
  int n = all.size();
  for (int i = 0; i < n; ++i) run({i});
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) run({i, j});
  if (r.thorough()) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) run({i, j, k});
}
// ---- rows, parts and buffers
struct Id : Property { explicit Id(int v) : v(v) {} int v; };
std::unique_ptr<SimpleSource> source(int id, double gain, float rms, const std::map<std::string, MetadataEntry>& meta) {
  auto s = std::unique_ptr<SimpleSource>(new SimpleSource);
  s->setProperty<Id>(id);
  s->setProperty<DetectionFrameInfo>(10, 10, gain, 1e6, 1e6, rms, meta);
  return s;
}
std::vector<std::string> cardsOf(const Row& row, std::string& error) {
  std::vector<std::string> c;
  if (row.size() != 1) { error = "not one column"; return c; }
  auto s = boost::get<std::string>(row[0]);
  if (s.size() % 80) error = "the length is " + std::to_string(s.size());
  for (size_t i = 0; i + 80 <= s.size(); i += 80) c.push_back(s.substr(i, 80));
  if (c.empty() || c.back() != "END" + std::string(77, ' ')) error = "END is missing";
  return c;
}
// a card as the FITS standard reads it
struct Card { std::string key, value, comment; bool string = false; };
Card parse(const std::string& c) {
  Card r;
  std::string rest;
  if (c.compare(0, 9, "HIERARCH ") == 0) { auto e = c.find('='); r.key = c.substr(9, e - 9); rest = c.substr(e + 1); }
  else if (c.size() > 9 && c[8] == '=') { r.key = c.substr(0, 8); rest = c.substr(9); }
  else { r.key = c.substr(0, 8); r.comment = c.substr(8); return r; }
  while (!r.key.empty() && r.key.back() == ' ') r.key.pop_back();
  size_t i = rest.find_first_not_of(' ');
  if (i != std::string::npos && rest[i] == '\'') {
    r.string = true;
    for (++i; i < rest.size(); ++i) { if (rest[i] == '\'') { if (i + 1 < rest.size() && rest[i + 1] == '\'') ++i; else break; } r.value += rest[i]; }
    if (i >= rest.size()) r.value += " (not closed)";
    while (!r.value.empty() && r.value.back() == ' ') r.value.pop_back();
    rest = i < rest.size() ? rest.substr(i + 1) : "";
  } else {
    size_t e = rest.find('/');
    r.value = rest.substr(0, e);
    r.value.erase(0, std::min(r.value.size(), r.value.find_first_not_of(' ')));
    while (!r.value.empty() && r.value.back() == ' ') r.value.pop_back();
    rest = e == std::string::npos ? "" : rest.substr(e);
  }
  auto s = rest.find('/');
  if (s != std::string::npos) { r.comment = rest.substr(s + 1); while (!r.comment.empty() && r.comment.back() == ' ') r.comment.pop_back(); r.comment.erase(0, std::min(r.comment.size(), r.comment.find_first_not_of(' '))); }
  else if (rest.find_first_not_of(' ') != std::string::npos) r.comment = rest;
  return r;
}
std::string part(const char* n, int p) { return p ? std::string(n) + "_" + std::to_string(p) : n; }
VK_SUITE(parts) {
  auto reg = std::make_shared<OutputRegistry>();
  reg->registerColumnConverter<Id, int>("id", [](const Id& i) { return i.v; });
  reg->enableOutput<Id>("Id");
  int depth = r.thorough() ? 10 : 8;
  for (int format = 0; format < 3; ++format)
    for (int size : {0, 1, 2, 3})
      for (int len = 1; len <= depth; ++len)
        for (vk::Odo o(std::vector<int>(len, 3)); !o.done; o.inc()) {   // 0: a source, 1: flush, 2: the next part
          if (!r.next()) continue;
          auto text = [&] { std::string s = std::string(format == 0 ? "ASCII" : format == 1 ? "FITS" : "LDAC") + " every " + std::to_string(size) + ": "; for (int k : o.v) s += "sfn"[k]; return s; };
          r.desc(text);
          auto& ev = sink::tableSink();
          ev.clear();
          auto conv = reg->getSourceToRowConverter({"Id"});
          std::shared_ptr<Output> out;
          if (format == 0) out = std::make_shared<AsciiOutput>("f", conv, size);
          if (format == 1) out = std::make_shared<FitsOutput>("f", conv, size);
          if (format == 2) out = std::make_shared<LdacOutput>("f", conv, size);
          struct E { std::string hdu; std::vector<int> ids; };
          std::vector<E> want;
          std::vector<int> buf;
          int id = 0, p = 0, total = 0;
          bool headed = false;
          auto hdu = [&] { return format == 0 ? "" : format == 1 ? part("CATALOG", p) : part("LDAC_OBJECTS", p); };
          auto flush = [&] { if (!buf.empty()) want.push_back({hdu(), buf}); total += buf.size(); buf.clear(); };
          auto doFlush = [&] {
            flush();
            size_t n = out->flush();
            r.check((int)n == total, "parts.total", [&] { return text() + ": flush returns " + std::to_string(n) + " instead of " + std::to_string(total); });
          };
          for (int k : o.v) {
            r.transition();
            if (k == 0) {
              ++id;
              std::map<std::string, MetadataEntry> meta{{"PART", {MetadataEntry::value_t((int64_t)p), {}}}};
              if (p % 2) meta["ODD"] = {MetadataEntry::value_t((int64_t)p), {}};
              auto s = source(id, 1.5 + p, 0.25f * (p + 1), meta);
              if (format == 2 && !headed) { want.push_back({part("LDAC_IMHEAD", p), {-1}}); headed = true; }
              out->outputSource(*s);
              buf.push_back(id);
              if (size && (int)buf.size() == size) flush();
            } else {
              doFlush();
              if (k == 2) { out->nextPart(); ++p; headed = false; }
            }
          }
          doFlush();
          auto where = [&] { std::string s = text() + ", written:"; for (auto& e : ev) s += " " + e.hdu + (e.override_file ? "!" : "") + "(" + std::to_string(e.rows.size()) + ")"; return s; };
          r.require(ev.size() == want.size(), "parts.writes", [&] { return where() + " instead of " + std::to_string(want.size()) + " writes"; });
          std::map<std::string, int> writer;
          std::map<int, std::string> by;
          for (size_t i = 0; i < ev.size(); ++i) {
            auto& e = ev[i];
            r.check(e.file == "f" && e.kind == (format ? "fits" : "ascii"), "parts.file", where);
            r.check(e.hdu == want[i].hdu, "parts.hdu", [&] { return where() + ", write " + std::to_string(i) + " instead of " + want[i].hdu; });
            r.check(e.override_file == (format && i == 0), "parts.override", [&] { return where() + ": write " + std::to_string(i) + (i ? " deletes the file" : " does not replace the file"); });
            // one writer per HDU: another one would begin a new HDU
            auto w = writer.emplace(e.hdu, e.writer);
            r.check(w.first->second == e.writer, "parts.writer", [&] { return where() + ": " + e.hdu + " is written twice"; });
            auto b = by.emplace(e.writer, e.hdu);
            r.check(b.first->second == e.hdu, "parts.writer", where);
            if (want[i].ids == std::vector<int>{-1}) {
              std::string err;
              auto cards = e.rows.size() == 1 ? cardsOf(e.rows[0], err) : std::vector<std::string>();
              r.require(e.rows.size() == 1 && err.empty(), "parts.header", [&] { return where() + " header: " + err; });
              int pp = e.hdu == "LDAC_IMHEAD" ? 0 : atoi(e.hdu.c_str() + 12), found = 0;
              for (auto& c : cards) {
                auto k = parse(c);
                if (k.key == "SPPGAIN" && strtod(k.value.c_str(), nullptr) == 1.5 + pp) ++found;
                if (k.key == "SPPBKDEV" && strtod(k.value.c_str(), nullptr) == 0.25 * (pp + 1)) ++found;
                if (k.key == "PART" && k.value == std::to_string(pp)) ++found;
                if (k.key == "ODD") found += pp % 2 && k.value == std::to_string(pp) ? 1 : -10;
              }
              r.check(found == 3 + pp % 2, "parts.header-values", where);
              continue;
            }
            std::vector<int> ids;
            for (auto& row : e.rows) ids.push_back(boost::get<int>(row[0]));
            r.check(ids == want[i].ids, "parts.rows", [&] { return where() + ": write " + std::to_string(i) + " has other rows"; });
          }
          if (ev.size() > 1) r.nontrivial();
          r.state(vk::hashStr(text()));
        }
}
// ---- the header of an LDAC catalogue
VK_SUITE(ldac) {
  using V = MetadataEntry::value_t;
  std::vector<V> values{V(true), V(false), V((int64_t)0), V((int64_t)-7), V((int64_t)123456789012345), V(0.0), V(1.5), V(150.12345678901234), V(-2.7777777777777778e-05), V(1.2345678901234567e+300), V(-1e-200), V(100000.0), V(8388609.0)};
  for (int n : {0, 1, 7, 8, 9, 17, 18, 19, 40, 63, 64, 65, 66, 67, 68}) { std::string s; for (int i = 0; i < n; ++i) s += char('a' + i % 26); values.push_back(V(s)); }
  for (const char* s : {"it's", "'", "''", "a / b", "/", "  lead", "x = 1", "M31 'core'", "T", "12"}) values.push_back(V(std::string(s)));
  std::vector<std::string> comments{"", "c", "a comment / with a slash", std::string(47, 'k'), std::string(60, 'z'), std::string(80, 'y'), "it's"};
  std::vector<std::string> keys{"A", "ABCDEFGH", "A-_1"};
  auto conv = [](const SourceInterface&) { return Row{std::vector<Row::cell_type>{1}, std::make_shared<Euclid::Table::ColumnInfo>(std::vector<Euclid::Table::ColumnInfo::info_type>{{"id", typeid(int)}})}; };
  auto run = [&](const std::map<std::string, MetadataEntry>& meta, double gain, float rms) {
    auto text = [&] { std::string s = "gain " + vk::str(gain) + " rms " + vk::str(rms); for (auto& m : meta) { std::ostringstream o; o.precision(17); o << m.second.m_value; s += " " + m.first + "=" + o.str() + " (type " + std::to_string(m.second.m_value.which()) + ") /" + (m.second.m_extra.count("comment") ? m.second.m_extra.at("comment") : "none"); } return s; };
    r.desc(text);
    auto& ev = sink::tableSink();
    ev.clear();
    auto s = source(1, gain, rms, meta);
    LdacOutput out("f", conv, 0);
    try { out.outputSource(*s); } catch (const std::exception& e) { r.fail("ldac.refused", text() + ": " + e.what()); return; }
    std::string err;
    r.require(ev.size() == 1 && ev[0].rows.size() == 1, "ldac.written", text);
    auto cards = cardsOf(ev[0].rows[0], err);
    r.require(err.empty(), "ldac.shape", [&] { return text() + ": " + err; });
    std::map<std::string, Card> got;
    int history = 0;
    for (auto& c : cards) {
      for (char x : c) r.check(x >= 32 && x < 127, "ldac.characters", text);
      auto k = parse(c);
      if (k.key == "HISTORY ") ++history;
      else if (c.compare(0, 3, "END")) r.check(got.emplace(k.key, k).second, "ldac.twice", [&] { return text() + ": " + k.key; });
    }
    r.check(history == 2, "ldac.history", text);
    auto number = [&](const std::string& key, double want) {
      auto& c = got[key];
      char* e = nullptr;
      double v = strtod(c.value.c_str(), &e);
      r.check(!c.string && e && !*e && !c.value.empty() && v == want, "ldac.number", [&] { return text() + ": " + key + " is written as " + c.value; });
    };
    number("SPPGAIN", gain);
    { auto& c = got["SPPBKDEV"]; r.check((float)strtod(c.value.c_str(), nullptr) == rms, "ldac.number", [&] { return text() + ": SPPBKDEV is written as " + c.value; }); }
    for (auto& m : meta) {
      auto& c = got[m.first];
      auto& v = m.second.m_value;
      auto where = [&] { return text() + ": " + m.first + " is written as " + (c.string ? "string " : "") + c.value; };
      if (auto* p = boost::get<bool>(&v)) r.check(!c.string && c.value == (*p ? "T" : "F"), "ldac.logical", where);
      else if (auto* p = boost::get<char>(&v)) r.check(c.value == std::string(1, *p), "ldac.char", where);
      else if (auto* p = boost::get<int64_t>(&v)) r.check(!c.string && c.value == std::to_string(*p), "ldac.integer", where);
      else if (auto* p = boost::get<double>(&v)) { number(m.first, *p); r.check(c.value.find_first_of(".E") != std::string::npos, "ldac.real", where); }
      else { auto w = boost::get<std::string>(v); while (!w.empty() && w.back() == ' ') w.pop_back(); r.check(c.string && c.value == w, "ldac.string", where); }
      auto want = m.second.m_extra.count("comment") ? m.second.m_extra.at("comment") : std::string();
      r.check(c.comment.size() <= want.size() && want.compare(0, c.comment.size(), c.comment) == 0, "ldac.comment", [&] { return where() + ", comment " + c.comment; });
      if (want.size() <= 40 && c.value.size() < 25) r.check(c.comment == want, "ldac.comment", [&] { return where() + ", comment " + c.comment; });
    }
    r.check(got.size() == meta.size() + 2, "ldac.extra", text);
    r.nontrivial();
  };
  for (auto& k : keys) for (auto& v : values) for (int c = -1; c < (int)comments.size(); ++c) {
    if (!r.next()) continue;
    MetadataEntry e{v, {}};
    if (c >= 0) e.m_extra["comment"] = comments[c];
    run({{k, e}}, 1.0, 1.f);
  }
  for (auto& v : values) for (auto& w : values) { if (!r.next()) continue; run({{"KEY1", {v, {}}}, {"KEY2", {w, {{"comment", "second"}}}}}, 1.0, 1.f); }
  for (double g : {0., 1., 3.3333333333333335, 1e-7, 12345.678901234567, 1e20}) for (float m : {0.f, 1.f, 0.1f, 3.3333333f, 1e-7f, 123456.79f}) { if (!r.next()) continue; run({}, g, m); }
}
// ---- the options
VK_SUITE(options) {
  namespace po = boost::program_options;
  using Euclid::Configuration::ConfigManager;
  static long id = 5000;
  const char* F[] = {nullptr, "", "ASCII", "FITS", "FITS_LDAC", "fits", "Ascii", "fits_ldac", "CSV"};
  const char* S[] = {nullptr, "0", "1", "2", "100", "-1", "-100"};
  const char* Q[] = {nullptr, "A", "A,B", "B,A", "B", "A,A", "Z", "A,Z"};
  const char* N[] = {nullptr, "", "cat.out", "no-such-directory/cat.out"};
  for (auto f : F) for (auto s : S) for (auto q : Q) for (auto n : N) for (int sorted = 0; sorted < 3; ++sorted) {
    if (!r.next()) continue;
    Dir d;
    std::vector<std::string> a;
    auto file = n && *n ? d(n) : std::string();
    if (f) a.insert(a.end(), {"--output-catalog-format", f});
    if (s) a.push_back(std::string("--output-flush-size=") + s);
    if (q) a.insert(a.end(), {"--output-properties", q});
    if (n) a.insert(a.end(), {"--output-catalog-filename", file});
    if (sorted) a.insert(a.end(), {"--output-flush-sorted", sorted == 1 ? "true" : "false"});
    auto text = [&] { return flat(a); };
    r.desc(text);
    auto& m = ConfigManager::getInstance(++id);
    auto reg = std::make_shared<OutputRegistry>();
    reg->registerColumnConverter<Id, int>("id", [](const Id& i) { return i.v; });
    reg->registerColumnConverter<P<1>, int>("p", [](const P<1>& i) { return i.v; });
    reg->registerColumnConverter<P<2>, int>("c", [](const P<2>& i) { return i.v; });
    reg->enableOutput<Id>("A"); reg->enableOutput<P<1>>("B"); reg->enableOutput<P<2>>("PixelCentroid");
    OutputFactory factory(reg);
    factory.reportConfigDependencies(m);
    auto od = m.closeRegistration();
    std::shared_ptr<Output> out;
    bool refused = false;
    sink::tableSink().clear();
    try {
      po::variables_map vm;
      po::store(po::command_line_parser(a).options(od).run(), vm);
      po::notify(vm);
      m.initialize(vm);
      factory.configure(m);
      out = factory.createOutput();
    } catch (const std::exception&) { refused = true; }
    bool badFormat = f && (!*f || std::string(f) == "CSV"), badProp = q && std::string(q).find('Z') != std::string::npos, badFile = file.find("no-such") != std::string::npos;
    r.require(refused == (badFormat || badProp || badFile), "options.refusal", [&] { return text() + (refused ? " is refused" : " is accepted"); });
    if (refused) continue;
    auto& oc = m.getConfiguration<OutputConfig>();
    r.check(oc.getOutputUnsorted() == (sorted == 2), "options.sorted", text);
    int size = s ? std::max(0, atoi(s)) : 100;
    std::string fmt = f ? f : "FITS";
    for (auto& c : fmt) c = toupper(c);
    for (int i = 0; i < 3; ++i) { auto x = source(i, 1, 1, {}); x->setProperty<P<1>>(10 + i); x->setProperty<P<2>>(20 + i); out->outputSource(*x); }
    size_t before = sink::tableSink().size();
    out->flush();
    std::vector<std::string> want;
    std::string list = q ? q : "PixelCentroid";
    std::vector<std::string> names;
    for (auto& e : std::vector<std::pair<std::string, std::string>>{{"A", "id"}, {"B", "p"}, {"PixelCentroid", "c"}}) { auto at = list.find(e.first); if (at != std::string::npos) names.push_back(std::string(1, (char)('0' + at)) + e.second); }
    std::sort(names.begin(), names.end());
    size_t rows = 0, heads = 0, writes = 0;
    for (auto& e : sink::tableSink()) {
      if (e.hdu == "LDAC_IMHEAD") { ++heads; continue; }
      ++writes;
      rows += e.rows.size();
      auto ci = e.rows[0].getColumnInfo();
      bool same = ci->size() == names.size();
      for (size_t i = 0; same && i < names.size(); ++i) same = ci->getDescription(i).name == names[i].substr(1);
      r.check(same, "options.properties", text);
      bool fits = !file.empty() && fmt != "ASCII";
      r.check(e.kind == (fits ? "fits" : "ascii") && e.file == file, "options.format", [&] { return text() + ": " + e.kind + " to " + e.file; });
      r.check(!fits || e.hdu == (fmt == "FITS" ? "CATALOG" : "LDAC_OBJECTS"), "options.format", text);
    }
    r.check(heads == (!file.empty() && fmt == "FITS_LDAC" ? 1u : 0u), "options.format", text);
    size_t w = size == 0 || size > 3 ? 1 : size == 1 ? 3 : 2;
    r.check(rows == 3 && writes == w && before == heads + (size == 1 ? 3 : size == 2 ? 1 : 0), "options.flush", [&] { return text() + ": " + std::to_string(writes) + " writes"; });
    r.nontrivial();
  }
}
// ---- columns named by the user, in the real program
const char* TOP =
"from sourcextractor.config import *\n"
"mg = MeasurementGroup(load_fits_images(['m1.fits', 'm2.fits', 'm3.fits'], psfs=['psf.fits'] * 3))\n"
"imgs = [i for i in mg]\n"
"a = []\n"
"for i, s in zip(imgs, [[4.], [3., 6.], [5., 2.]]):\n"
"    a.extend(add_aperture_photometry(i, s))\n"
"x, y = get_pos_parameters()\n"
"flux = get_flux_parameter()\n"
"d = DependentParameter(lambda f: f * 2., flux)\n"
"k = ConstantParameter(42.5)\n"
"add_model(mg, PointSourceModel(x, y, flux))\n"
"set_max_iterations(8)\n";
struct Item { const char* what; std::vector<int> ap; std::vector<const char*> par; };
const std::vector<Item> ITEMS{{"a[0]", {0}, {}}, {"a[1]", {1}, {}}, {"[a[1], a[2]]", {1, 2}, {}}, {"[a[2], a[1]]", {2, 1}, {}}, {"a", {0, 1, 2}, {}}, {"[a[2], a[0]]", {2, 0}, {}},
                              {"x", {}, {"x"}}, {"[x, flux]", {}, {"x", "flux"}}, {"d", {}, {"d"}}, {"k", {}, {"k"}}, {"[k, d, y]", {}, {"k", "d", "y"}}};
const std::vector<const char*> NAMES{"one", "two", "isophotal", "auto", "aperture", "pixel_centroid_x"};
void scenes(const Dir& d) {
  std::vector<Star> s{{9, 8, 900, 1.5}, {22, 14, 1500, 1.7}};
  d.fits("det.fits", {scene(32, 24, s)});
  for (int i = 0; i < 3; ++i) { auto t = s; for (auto& x : t) x.flux *= 1 + i; d.fits("m" + std::to_string(i + 1) + ".fits", {scene(32, 24, t, 5, 1, i + 3)}); }
  Hdu p(15, 15); add(p, {7, 7, 1, 1.5}); p.cards.push_back(card("SAMPLING", "1.0"));
  d.fits("psf.fits", {p});
}
Result runPy(const Dir& d, const std::string& config, const std::string& props) {
  d.text("c.py", config);
  return e2e::run(d, {"--detection-image", d("det.fits"), "--output-catalog-filename", d("o.cat"), "--rng-seed", "1", "--python-config-file", d("c.py"), "--output-properties", props});
}
VK_SUITE(named) {
  Dir d;
  static std::unique_ptr<Result> ref;
  auto reference = [&]() -> const Result& {
    if (!ref) { scenes(d); ref.reset(new Result(runPy(d, std::string(TOP) + "for i in range(3):\n    add_output_column('r%d' % i, a[i])\nadd_output_column('x', x)\nadd_output_column('y', y)\nadd_output_column('flux', flux)\nadd_output_column('d', d)\nadd_output_column('k', k)\n",
                                                  "SourceIDs,AperturePhotometry,FlexibleModelFitting,IsophotalFlux,AutoPhotometry,PixelCentroid"))); }
    return *ref;
  };
  const char* extras[] = {"", ",IsophotalFlux", ",AutoPhotometry,PixelCentroid"};
  auto run = [&](const std::vector<std::pair<int, int>>& use, int extra) {   // item, name
    if (!r.next()) return;
    std::string text;
    for (auto& u : use) text += std::string("add_output_column('") + NAMES[u.second] + "', " + ITEMS[u.first].what + ")\n";
    auto where = [&] { return text + " with" + extras[extra]; };
    r.desc(where);
    auto& R = reference();
    r.require(R.ok() && R.rows().size() == 2, "named.reference", [&] { return R.how() + R.output; });
    scenes(d);
    auto X = runPy(d, std::string(TOP) + text, std::string("SourceIDs,AperturePhotometry,FlexibleModelFitting") + extras[extra]);
    // the same name twice in the catalogue must be refused
    std::map<std::string, std::vector<std::string>> want;   // the column of the reference of each, or a list of them
    std::multiset<std::string> all;
    static const char* parts[] = {"_flux", "_flux_err", "_mag", "_mag_err", "_flags"};
    bool python = false;
    std::set<int> used;
    for (auto& u : use) {
      python = python || !used.insert(u.second).second;
      std::string n = NAMES[u.second];
      if (!ITEMS[u.first].ap.empty()) for (auto p : parts) { all.insert(n + p); for (int i : ITEMS[u.first].ap) want[n + p].push_back("r" + std::to_string(i) + p); }
      else for (auto p : {"", "_err"}) { all.insert(n + p); for (auto q : ITEMS[u.first].par) want[n + p].push_back(std::string(q) + p); }
    }
    if (extra == 1) for (auto c : {"isophotal_flux", "isophotal_flux_err", "isophotal_mag", "isophotal_mag_err"}) all.insert(c);
    if (extra == 2) for (auto c : {"auto_flux", "auto_flux_err", "auto_mag", "auto_mag_err", "auto_flags", "pixel_centroid_x", "pixel_centroid_y"}) all.insert(c);
    bool clash = python || std::set<std::string>(all.begin(), all.end()).size() != all.size();
    r.check(!X.crash && !X.timeout, "named.crash", [&] { return where() + ": " + X.how() + X.output; });
    if (clash) { r.check(!X.ok(), "named.duplicate", [&] { return where() + " is accepted"; }); return; }
    r.require(X.ok() && X.rows().size() == 2, "named.run", [&] { return where() + ": " + X.how() + X.output; });
    std::multiset<std::string> got;
    for (auto& c : X.cols()) if (c.compare(0, 4, "fmf_") && c != "source_id" && c != "detection_id") got.insert(c);
    r.check(got == all, "named.columns", [&] { std::string s = where() + ": columns"; for (auto& c : got) s += " " + c; return s; });
    int fit = X.col("fmf_iterations"), rfit = R.col("fmf_iterations");
    for (int row = 0; row < 2; ++row) {
      r.check(X.rows()[row][fit] == R.rows()[row][rfit], "named.fit", where);
      for (auto& w : want) {
        if (X.col(w.first) < 0) continue;
        std::string v = X.rows()[row][X.col(w.first)];
        auto num = numbers(v);
        std::vector<double> e;
        std::string shape;
        bool ap = w.second[0][0] == 'r';
        size_t width = 0;
        for (auto& c : w.second) width = std::max(width, R.values(c)[row].size());
        for (auto& c : w.second) { auto q = R.values(c)[row]; if (ap) q.resize(width, w.first.find("_flags") != std::string::npos ? 0 : NAN); e.insert(e.end(), q.begin(), q.end()); }
        bool same = e.size() == num.size();
        for (size_t i = 0; same && i < e.size(); ++i) same = e[i] == num[i] || (e[i] != e[i] && num[i] != num[i]);
        if (ap) { shape = "[" + std::to_string(w.second.size()) + "x" + std::to_string(width) + "x"; same = same && v.compare(0, shape.size(), shape) == 0; }
        r.check(same, "named.values", [&] { std::string s = where() + ": " + w.first + " is " + v + " instead of " + shape; for (double q : e) s += " " + vk::str(q); return s; });
      }
      for (auto& c : all) if (!want.count(c) && R.col(c) >= 0 && X.col(c) >= 0) r.check(X.rows()[row][X.col(c)] == R.rows()[row][R.col(c)], "named.others", [&] { return where() + ": " + c; });
    }
    r.nontrivial();
    r.state(vk::hashStr(where()));
  };
  int I = ITEMS.size(), N = NAMES.size();
  for (int e = 0; e < 3; ++e) for (int i = 0; i < I; ++i) for (int n = 0; n < N; ++n) run({{i, n}}, e);
  for (int i = 0; i < I; ++i) for (int j = 0; j < I; ++j) {
    run({{i, 0}, {j, 1}}, 0);
    run({{i, (i + j) % N}, {j, (i + 2 * j + 1) % N}}, 1 + (i + j) % 2);
    if (r.thorough()) for (int n = 0; n < N; ++n) for (int k = 0; k < N; ++k) run({{i, n}, {j, k}}, (n + k) % 3);
  }
}
}
