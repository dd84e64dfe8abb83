// The frames the program works on are what the images, their keywords, the weight maps and the options say.
#include "e2e/e2e.h"
#include "Configuration/ConfigManager.h"
#include "SEFramework/Background/BackgroundAnalyzer.h"
#include "SEFramework/CoordinateSystem/CoordinateSystem.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEImplementation/Background/SE/SEBackgroundLevelAnalyzer.h"
#include "SEImplementation/Configuration/BackgroundConfig.h"
#include "SEImplementation/Configuration/CleaningConfig.h"
#include "SEImplementation/Configuration/DeblendStepConfig.h"
#include "SEImplementation/Configuration/AttractorsPartitionConfig.h"
#include "SEImplementation/Configuration/DetectionFrameConfig.h"
#include "SEImplementation/Configuration/DetectionImageConfig.h"
#include "SEImplementation/Configuration/GroupingConfig.h"
#include "SEImplementation/Configuration/MagnitudeConfig.h"
#include "SEImplementation/Configuration/MeasurementFrameConfig.h"
#include "SEImplementation/Configuration/MeasurementImageConfig.h"
#include "SEImplementation/Configuration/MemoryConfig.h"
#include "SEImplementation/Configuration/MinAreaPartitionConfig.h"
#include "SEImplementation/Configuration/MultiThreadingConfig.h"
#include "SEImplementation/Configuration/MultiThresholdPartitionConfig.h"
#include "SEImplementation/Configuration/OutputConfig.h"
#include "SEImplementation/Configuration/PartitionStepConfig.h"
#include "SEImplementation/Configuration/RngConfig.h"
#include "SEImplementation/Configuration/SE2BackgroundConfig.h"
#include "SEImplementation/Configuration/SamplingConfig.h"
#include "SEImplementation/Configuration/SegmentationConfig.h"
#include "SEImplementation/Configuration/WeightImageConfig.h"
#include "SEFramework/Image/InterpolatedImageSource.h"
#include "SEImplementation/Plugin/AssocMode/AssocModeConfig.h"
#include "SEImplementation/Plugin/ExternalFlag/ExternalFlagConfig.h"
#include "SEImplementation/Segmentation/BackgroundConvolution.h"
#include "SEMain/PluginConfig.h"
#include <boost/program_options.hpp>
using namespace e2e;
using namespace SourceXtractor;
using Euclid::Configuration::ConfigManager;
namespace po = boost::program_options;
namespace {
using Args = std::vector<std::string>;
template <typename... T> std::string cat(const T&... v) { std::ostringstream s; s.precision(12); (s << ... << v); return s.str(); }
using WT = WeightImageConfig::WeightType;
const float MAXF = std::numeric_limits<float>::max(), INFF = std::numeric_limits<float>::infinity();
// ---- what a child process found
struct Found {
  std::string out;
  void fail(const std::string& key, const std::string& msg) { putS(out, key); putS(out, msg); }
  template <typename M> bool check(bool ok, const std::string& key, M m) { if (!ok && out.size() < 20000) fail(key, m()); return ok; }
};
std::vector<std::pair<std::string, std::string>> child(std::function<void(Found&)> f, std::string& how) {
  int p[2];
  if (pipe(p)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, SIG_DFL);
    struct rlimit nocore{0, 0}; setrlimit(RLIMIT_CORE, &nocore);
    alarm(60);
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
    Found x;
    f(x);
    size_t k = 0;
    while (k < x.out.size()) { ssize_t n = write(p[1], x.out.data() + k, x.out.size() - k); if (n <= 0) break; k += n; }
    _exit(42);
  }
  close(p[1]);
  std::string s; char b[4096]; ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n);
  close(p[0]);
  int st = 0; waitpid(pid, &st, 0);
  how = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) != 42 ? "exit status " + std::to_string(WEXITSTATUS(st)) : "";
  std::vector<std::pair<std::string, std::string>> v;
  In in{s};
  while (in.p < s.size() && in.ok) { auto k = in.get(); auto m = in.get(); v.emplace_back(k, m); }
  return v;
}
void report(vk::Run& r, std::function<void(Found&)> f) {
  std::string how;
  auto v = child(f, how);
  for (auto& p : v) r.check(false, p.first.c_str(), [&] { return p.second; });
  r.check(how.empty(), "crash", [&] { return how; });
}
// ---- a configured program
struct Conf {
  ConfigManager& m;
  std::string error;
  template <typename F> Conf(long id, F reg, const Args& args) : m(ConfigManager::getInstance(id)) {
    reg(m);
    auto d = m.closeRegistration();
    try {
      po::variables_map vm;
      po::store(po::command_line_parser(args).options(d).style(po::command_line_style::default_style & ~po::command_line_style::allow_guessing).run(), vm);
      po::notify(vm);
      m.initialize(vm);
    } catch (const std::exception& e) { error = std::string("x ") + e.what(); } catch (...) { error = "x"; }
  }
};
bool near(double a, double b, double tol = 2e-6) { if (std::isinf(b) || std::isinf(a)) return a == b; return std::abs(a - b) <= tol * std::max(1e-3, std::max(std::abs(a), std::abs(b))); }
std::vector<std::string> wcs(int i) {
  return {scard("CTYPE1", "RA---TAN"), scard("CTYPE2", "DEC--TAN"), card("CRPIX1", dstr(3 + i)), card("CRPIX2", dstr(2)), card("CRVAL1", dstr(30 + i)), card("CRVAL2", dstr(-10.5 + i)),
          card("CD1_1", "-1E-4"), card("CD1_2", "0."), card("CD2_1", "0."), card("CD2_2", "1E-4")};
}
// What one input image is, and what its frame must be.
struct Truth {
  Hdu image; std::vector<double> weight;   // pixels of the map as in the file
  int hdu = 0;                             // position in the file, from 0
  double gain = 0, sat = 0, fs = 1;        // in the units of the file
};
struct Weights { int type = 0; bool file = false, absolute = false; double scaling = 1; bool has_threshold = false; double threshold = 0; };   // type: none, background, rms, variance, weight
const char* TYPES[5] = {"none", "background", "rms", "variance", "weight"};
const WT WTS[5] = {WT::WEIGHT_TYPE_NONE, WT::WEIGHT_TYPE_FROM_BACKGROUND, WT::WEIGHT_TYPE_RMS, WT::WEIGHT_TYPE_VARIANCE, WT::WEIGHT_TYPE_WEIGHT};
bool valid(const Weights& w, bool detection) {
  if (w.file ? w.type < 2 : detection ? false : w.type >= 2) return false;
  return !(detection && w.absolute && !w.file);
}
double toVariance(int type, double v, double scaling) {
  v *= scaling;
  return type == 2 ? v * v : type == 3 ? v : v > 0 ? 1 / v : INFF;
}
Hdu pixels(int w, int h, int seed) { Hdu u(w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) u.at(x, y) = (float)(10 * (seed + 1) + ripple(x, y, seed) + .05 * x); return u; }
Hdu cubeOf(const std::vector<Hdu>& layers) { Hdu u; u.w = layers[0].w; u.h = layers[0].h; u.depth = layers.size(); for (auto& l : layers) u.d.insert(u.d.end(), l.d.begin(), l.d.end()); return u; }
Hdu weightOf(const Hdu& u, int type, int seed) {   // 1 px, 2 px and 3 px gaps of bad pixels
  Hdu w(u.w, u.h);
  for (int y = 0; y < u.h; ++y) for (int x = 0; x < u.w; ++x) {
    double v = 1. + .5 * ((x + 2 * y + seed) % 3);   // 1, 1.5, 2
    bool bad = (y == 2 && x == 3) || (y == 3 && x >= 2 && x < 4) || (y == 4 && x >= 3 && x < 6);
    if (bad) v = type == 4 ? (x == 3 ? 0 : .125) : 16;
    w.at(x, y) = v;
  }
  return w;
}
const double GOOD_LIMIT[5] = {0, 0, 4, 4, .5};   // a threshold in the units of the map that masks the bad ones
struct Extra { bool constant = false; double level = 0, dthreshold = 1.5; int gap = 0; };
template <typename F> void verify(Found& x, const std::string& name, F frame, const Truth& t, const Weights& w, const Extra& e, bool detection, const std::string& label) {
  int W = t.image.w, H = t.image.h;
  auto img = frame->getOriginalImage();
  if (!x.check(img->getWidth() == W && img->getHeight() == H, "size", [&] { return cat(name, ": the image is ", img->getWidth(), "x", img->getHeight(), " instead of ", W, "x", H); })) return;
  auto each = [&](auto f) { for (int y = 0; y < H; ++y) for (int xx = 0; xx < W; ++xx) if (!f(xx, y)) return; };
  auto at = [](const auto& im, int xx, int y) { return im->getChunk(xx, y, 1, 1)->getValue(0, 0); };
  each([&](int xx, int y) { double g = at(img, xx, y), q = t.image.at(xx, y) * t.fs; return x.check(near(g, q), "image", [&] { return cat(name, ": pixel ", xx, ",", y, " is ", g, " instead of ", q); }); });
  x.check(near(frame->getGain(), t.gain / t.fs), "gain", [&] { return cat(name, ": gain ", frame->getGain(), " instead of ", t.gain / t.fs); });
  x.check(near(frame->getSaturation(), t.sat * t.fs), "saturation", [&] { return cat(name, ": saturation ", frame->getSaturation(), " instead of ", t.sat * t.fs); });
  x.check(frame->getLabel() == label, "label", [&] { return cat(name, ": label '", frame->getLabel(), "' instead of '", label, "'"); });
  auto wc = frame->getCoordinateSystem()->imageToWorld({double(2 + t.hdu), 1.});
  x.check(near(wc.m_alpha, 30 + t.hdu, 1e-9) && near(wc.m_delta, -10.5 + t.hdu, 1e-9), "coordinates", [&] { return cat(name, ": the reference pixel is at ", wc.m_alpha, ",", wc.m_delta); });
  // the variance of every pixel, in units of the scaled image when the map is absolute
  double f2 = w.absolute ? t.fs * t.fs : 1;
  bool map = w.file;
  std::shared_ptr<VectorImage<SeFloat>> conv;
  if (map) { conv = VectorImage<SeFloat>::create(W, H); each([&](int xx, int y) { conv->setValue(xx, y, (float)(toVariance(w.type, t.weight[xx + y * W], w.scaling) * f2)); return true; }); }
  float thr = !w.has_threshold ? MAXF : (float)(w.type == 3 ? w.threshold * f2 : w.type == 4 ? (w.threshold > 0 ? 1 / w.threshold * f2 : MAXF) : w.threshold * w.threshold * f2);
  auto scaled = VectorImage<SeFloat>::create(W, H);
  each([&](int xx, int y) { scaled->setValue(xx, y, (float)(t.image.at(xx, y) * t.fs)); return true; });
  SEBackgroundLevelAnalyzer analyzer({64}, {3}, WTS[w.type]);
  auto model = analyzer.analyzeBackground(scaled, conv, ConstantImage<unsigned char>::create(W, H, false), thr);
  double k = map && !w.absolute ? model.getScalingFactor() : 1;
  auto variance = frame->getOriginalVarianceMap();
  auto expected = VectorImage<SeFloat>::create(W, H);
  each([&](int xx, int y) { double q = map ? conv->getValue(xx, y) * k : at(model.getVarianceMap(), xx, y); expected->setValue(xx, y, (float)q); return true; });
  each([&](int xx, int y) { double g = at(variance, xx, y), q = expected->getValue(xx, y); return x.check(near(g, q, 1e-5), "variance", [&] { return cat(name, ": the variance at ", xx, ",", y, " is ", g, " instead of ", q); }); });
  float ethr = thr < MAXF ? (float)(thr * k) : MAXF;
  double g = frame->getVarianceThreshold();
  x.check(thr < MAXF ? near(g, ethr, 1e-5) : g > 1e30, "variance-threshold", [&] { return cat(name, ": the limit of the variance is ", g, " instead of ", ethr); });
  each([&](int xx, int y) { double lv = at(frame->getBackgroundLevelMap(), xx, y), q = e.constant ? e.level : at(model.getLevelMap(), xx, y);
    return x.check(near(lv, q, 1e-5), "background", [&] { return cat(name, ": the background at ", xx, ",", y, " is ", lv, " instead of ", q); }); });
  double rms = !detection && e.constant ? 0 : model.getMedianRms();
  x.check(near(frame->getBackgroundMedianRms(), rms, 1e-5), "rms", [&] { return cat(name, ": the background RMS is ", frame->getBackgroundMedianRms(), " instead of ", rms); });
  // bad pixels are bridged up to the gap
  auto filled = BufferedImage<SeFloat>::create(std::make_shared<InterpolatedImageSource<SeFloat>>(scaled, expected, ethr, e.gap));
  auto bridged = frame->getInterpolatedImage();
  each([&](int xx, int y) { double gg = at(bridged, xx, y), q = at(filled, xx, y); return x.check(near(gg, q, 1e-5), "interpolation", [&] { return cat(name, ": the interpolated image at ", xx, ",", y, " is ", gg, " instead of ", q); }); });
  if (detection) each([&](int xx, int y) { double gg = at(frame->getDetectionThresholdMap(), xx, y), q = std::sqrt(expected->getValue(xx, y)) * e.dthreshold;
    return x.check(near(gg, q, 1e-5), "detection-threshold", [&] { return cat(name, ": the detection threshold at ", xx, ",", y, " is ", gg, " instead of ", q); }); });
}
// ---- layouts of the files
// 0: primary image; 1: empty primary, two images; 2: primary image and another; 3, 4: as 1 but the file name picks the extension; 5: three images
std::vector<int> hdusOf(int layout) { switch (layout) { case 0: return {0}; case 1: return {1, 2}; case 2: return {0, 1}; case 3: return {1}; case 4: return {2}; default: return {0, 1, 2}; } }
int countOf(int layout) { return layout == 0 ? 1 : layout == 2 ? 2 : 3; }
std::string pick(int layout) { return layout == 3 ? "[1]" : layout == 4 ? "[2]" : ""; }
bool emptyPrimary(int layout) { return layout == 1 || layout == 3 || layout == 4; }
// keyword: 0 absent, 1 integer, 2 real
struct Key { int kind = 0; double v(int hdu) const { return kind == 1 ? 3 + hdu : 2.5 + hdu; } std::string s(int hdu) const { return kind == 1 ? std::to_string(3 + hdu) : dstr(v(hdu)); } };
struct Case {
  int layout = 0;
  Key gain, sat, fs;
  bool ogain = false, osat = false; double ofs = 0;   // options, ofs 0: not given
  Weights w; int wlayout = 0;                          // 0: as the image; 1: only one map
  int gap = -1;                                        // -1 default, -2 off
  bool level = false; double dthr = 0;
  std::string print() const {
    return cat("layout ", layout, ", gain keyword ", gain.kind, ogain ? " and option" : "", ", saturation ", sat.kind, osat ? " and option" : "", ", flux scale ", fs.kind, " option ", ofs, ", weight ", TYPES[w.type], w.file ? " with" : " without", " a map, ",
                   w.absolute ? "absolute" : "relative", ", scaling ", w.scaling, ", threshold ", w.has_threshold ? cat(w.threshold) : "none", wlayout ? ", one map only" : "", ", gap ", gap, level ? ", constant background" : "", ", detection threshold ", dthr);
  }
};
std::vector<Hdu> fileOf(int layout, const Case* c, std::vector<Hdu>* w, int type) {
  std::vector<Hdu> f;
  if (w) w->clear();
  for (int i = 0; i < countOf(layout); ++i) {
    if (i == 0 && emptyPrimary(layout)) { f.emplace_back(); if (w) w->emplace_back(); continue; }
    Hdu u = pixels(9 + i, 7 + i, i);
    u.cards = wcs(i);
    u.cards.push_back(card("HDUTAG", std::to_string(100 + i)));
    if (c && c->gain.kind) u.cards.push_back(card("GAIN", c->gain.s(i)));
    if (c && c->sat.kind) u.cards.push_back(card("SATURATE", c->sat.s(i + 1)));
    if (c && c->fs.kind) u.cards.push_back(card("FLXSCALE", c->fs.s(i + 2)));
    if (w) w->push_back(weightOf(u, type, i));
    f.push_back(u);
  }
  return f;
}
void detection(vk::Run& r, const Case& c) {
  r.desc([&] { return c.print(); });
  Dir d;
  std::vector<Hdu> wf;
  auto f = fileOf(c.layout, &c, &wf, c.w.type);
  d.fits("det.fits", f);
  d.fits("w.fits", c.wlayout ? std::vector<Hdu>(wf.begin(), wf.begin() + (emptyPrimary(c.layout) ? 2 : 1)) : wf);
  Args a{"--detection-image", d("det.fits") + pick(c.layout), "--weight-type", TYPES[c.w.type], "--weight-absolute", c.w.absolute ? "1" : "0", "--weight-scaling", dstr(c.w.scaling)};
  if (c.w.file) a.insert(a.end(), {"--weight-image", d("w.fits") + pick(c.layout)});
  if (c.w.has_threshold) a.insert(a.end(), {"--weight-threshold", dstr(c.w.threshold)});
  if (c.ogain) a.insert(a.end(), {"--detection-image-gain", "7.25"});
  if (c.osat) a.insert(a.end(), {"--detection-image-saturation", "900.5"});
  if (c.ofs) a.insert(a.end(), {"--detection-image-flux-scale", dstr(c.ofs)});
  if (c.gap == -2) a.insert(a.end(), {"--detection-image-interpolation", "0"});
  if (c.gap >= 0) a.insert(a.end(), {"--detection-image-interpolation-gap", std::to_string(c.gap)});
  if (c.level) a.insert(a.end(), {"--background-value", "4.5"});
  if (c.dthr) a.insert(a.end(), {"--detection-threshold", dstr(c.dthr)});
  report(r, [&](Found& x) {
    Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<DetectionFrameConfig>(); }, a);
    if (!valid(c.w, true)) { x.check(!cf.error.empty(), "invalid-accepted", [&] { return "a meaningless combination of weight options was accepted"; }); return; }
    if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
    auto& frames = cf.m.getConfiguration<DetectionFrameConfig>().getDetectionFrames();
    auto hdus = hdusOf(c.layout);
    if (!x.check(frames.size() == hdus.size(), "count", [&] { return cat(frames.size(), " frames instead of ", hdus.size()); })) return;
    for (size_t i = 0; i < hdus.size(); ++i) {
      int h = hdus[i];
      Truth t;
      t.image = f[h]; t.hdu = h;
      t.gain = c.ogain ? 7.25 : c.gain.kind ? c.gain.v(h) : 0;
      t.sat = c.osat ? 900.5 : c.sat.kind ? c.sat.v(h + 1) : 0;
      t.fs = c.ofs ? c.ofs : c.fs.kind ? c.fs.v(h + 2) : 1;
      Weights w = c.w;
      if (c.wlayout && i > 0) { w.file = false; w.absolute = false; }
      if (w.file) t.weight = wf[h].d;
      Extra e; e.constant = c.level; e.level = 4.5; e.dthreshold = c.dthr ? c.dthr : 1.5; e.gap = c.gap == -2 ? 0 : c.gap < 0 ? 5 : c.gap;
      if (c.wlayout && i > 0) { x.check(frames[i]->getHduIndex() == i, "index", [&] { return cat("frame ", i); }); continue; }   // frames without a map of their own: see the background check
      verify(x, cat("frame ", i), frames[i], t, w, e, true, "det");
      x.check(frames[i]->getHduIndex() == i, "index", [&] { return cat("frame ", i, " says it is ", frames[i]->getHduIndex()); });
      auto& meta = frames[i]->getMetadata();
      auto it = meta.find("HDUTAG");
      x.check(it != meta.end() && boost::get<int64_t>(&it->second.m_value) && boost::get<int64_t>(it->second.m_value) == 100 + h, "metadata", [&] { return cat("frame ", i, " does not have the keywords of HDU ", h); });
    }
  });
  r.nontrivial(valid(c.w, true));
}
}
VK_SUITE(detection_images) {
  for (vk::Odo o(std::vector<int>{5, 3, 2, 3, 2, 3, 3}); !o.done; o.inc()) {
    if (!r.next()) continue;
    Case c; c.layout = o.v[0]; c.gain.kind = o.v[1]; c.ogain = o.v[2]; c.sat.kind = o.v[3]; c.osat = o.v[4]; c.fs.kind = o.v[5]; c.ofs = o.v[6] == 0 ? 0 : o.v[6] == 1 ? 1 : 2.5;
    detection(r, c);
  }
}
VK_SUITE(detection_weights) {
  for (vk::Odo o(std::vector<int>{6, 5, 2, 2, 2, 3, 3, 2}); !o.done; o.inc()) {
    Case c; c.layout = o.v[0]; c.w.type = o.v[1]; c.w.file = o.v[2]; c.w.absolute = o.v[3]; c.w.scaling = o.v[4] ? .5 : 1; c.ofs = o.v[6] == 0 ? 0 : o.v[6] == 1 ? .25 : 3; c.wlayout = o.v[7];
    if (o.v[5] && (!c.w.file || c.w.type < 2)) continue;
    if (c.wlayout && (!c.w.file || hdusOf(c.layout).size() < 2)) continue;
    c.w.has_threshold = o.v[5] > 0;
    c.w.threshold = o.v[5] == 2 && c.w.type == 4 ? 0 : o.v[5] == 2 ? GOOD_LIMIT[c.w.type] * 8 : GOOD_LIMIT[c.w.type];
    if (!r.next()) continue;
    detection(r, c);
  }
  for (vk::Odo o(std::vector<int>{3, 5, 2, 3, 3}); !o.done; o.inc()) {   // gaps, background and thresholds
    if (!r.next()) continue;
    Case c; c.layout = o.v[0]; c.gap = o.v[1] == 4 ? -2 : o.v[1] == 3 ? -1 : o.v[1]; c.level = o.v[2]; c.dthr = o.v[3] == 0 ? 0 : o.v[3] == 1 ? 1 : 3.25;
    c.w.type = 2 + o.v[4]; c.w.file = true; c.w.has_threshold = true; c.w.threshold = GOOD_LIMIT[c.w.type];
    detection(r, c);
  }
}
VK_SUITE(detection_refusals) {
  struct No { const char* what; std::function<void(Dir&, Args&)> f; };
  auto good = [](Dir& d, const char* n, std::vector<std::string> extra = {}) { Hdu u = pixels(9, 7, 0); u.cards = wcs(0); for (auto& e : extra) u.cards.push_back(e); d.fits(n, {u}); return d(n); };
  std::vector<No> all{
    {"missing detection image", [&](Dir& d, Args& a) { a = {"--detection-image", d("none.fits")}; }},
    {"missing weight image", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits"), "--weight-image", d("none.fits"), "--weight-type", "rms"}; }},
    {"detection and reference image", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits"), "--reference-image", good(d, "b.fits")}; }},
    {"unknown weight type", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits"), "--weight-type", "sigma"}; }},
    {"GAIN is a string", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits", {scard("GAIN", "high")})}; }},
    {"SATURATE is a string", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits", {scard("SATURATE", "high")})}; }},
    {"FLXSCALE is a string", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits", {scard("FLXSCALE", "high")})}; }},
    {"an extension that is not there", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits") + "[3]"}; }},
    {"a background cell of nothing", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits"), "--background-cell-size", "0"}; }},
    {"a negative smoothing box", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits"), "--smoothing-box-size", "-1"}; }},
    {"unknown option", [&](Dir& d, Args& a) { a = {"--detection-image", good(d, "a.fits"), "--detection-images", "x"}; }},
  };
  for (auto& n : all) {
    if (!r.next()) continue;
    r.desc([&] { return std::string(n.what); });
    Dir d; Args a;
    n.f(d, a);
    report(r, [&](Found& x) {
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<DetectionFrameConfig>(); }, a);
      x.check(!cf.error.empty(), "invalid-accepted", [&] { return std::string(n.what) + " was accepted"; });
    });
    r.nontrivial(true);
  }
  // of a cube, the first layer is the detection image
  for (int depth : {1, 3}) {
    if (!r.next()) continue;
    r.desc([&] { return cat("cube of ", depth, " layers"); });
    Dir d;
    std::vector<Hdu> l; for (int i = 0; i < depth; ++i) l.push_back(pixels(9, 7, i));
    auto q = cubeOf(l); q.cards = wcs(0); d.fits("det.fits", {q});
    report(r, [&](Found& x) {
      std::vector<void*> dirt; for (int i = 1; i < 200; ++i) { auto m = malloc(i * 8); memset(m, 7, i * 8); dirt.push_back(m); }
      for (auto m : dirt) free(m);
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<DetectionFrameConfig>(); }, {"--detection-image", d("det.fits")});
      if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
      auto& frames = cf.m.getConfiguration<DetectionFrameConfig>().getDetectionFrames();
      if (!x.check(frames.size() == 1, "count", [&] { return cat(frames.size(), " frames"); })) return;
      Truth t; t.image = l[0]; Extra e; e.gap = 5;
      verify(x, "frame", frames[0], t, Weights(), e, true, "det");
    });
    r.nontrivial(true);
  }
  // a reference image gives coordinates and no frame
  for (int i = 0; i < 2; ++i) {
    if (!r.next()) continue;
    Dir d; good(d, "a.fits");
    report(r, [&](Found& x) {
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<DetectionImageConfig>(); }, i ? Args{"--reference-image", d("a.fits")} : Args{});
      if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
      auto& c = cf.m.getConfiguration<DetectionImageConfig>();
      x.check(c.getExtensionsNb() == 0, "count", [&] { return cat(c.getExtensionsNb(), " extensions"); });
      if (i) {
        auto w = c.getCoordinateSystem(0)->imageToWorld({2., 1.});
        x.check(near(w.m_alpha, 30, 1e-9) && near(w.m_delta, -10.5, 1e-9), "coordinates", [&] { return cat(w.m_alpha, ",", w.m_delta); });
        bool thrown = false;
        try { c.getDetectionImage(0); } catch (...) { thrown = true; }
        x.check(thrown, "reference-image", [&] { return "a reference image was used as detection image"; });
      }
    });
    r.nontrivial(true);
  }
}
namespace {
// ---- measurement images, given in a Python configuration
struct MCase {
  int layout = 0;              // 0, 1, 2, 5 as above; 6: a cube of three layers; 7: a cube in the second HDU
  int wkind = 0;               // 0 one file like the image, 1 a list of files (for cubes also 2: an MEF)
  Key gain, sat, fs; bool ogain = false, osat = false; double ofs = 0;
  Weights w;
  bool level = false, keywords = false, pick = false, psf = false, renormalize = true, images = false;
  std::string print() const {
    return cat("layout ", layout, pick ? " HDU 1 only" : "", images ? " in a list" : "", keywords ? ", other keywords" : "", ", gain keyword ", gain.kind, ogain ? " and given" : "", ", saturation ", sat.kind, osat ? " and given" : "", ", flux scale ", fs.kind, " given ", ofs, ", weight ", TYPES[w.type],
                   w.file ? " with" : " without", " a map of kind ", wkind, ", ", w.absolute ? "absolute" : "relative", ", scaling ", w.scaling, ", threshold ", w.has_threshold ? cat(w.threshold) : "none", level ? ", constant background" : "", psf ? ", PSF" : "", renormalize ? "" : ", PSF as it is");
  }
  bool cube() const { return layout >= 6; }
};
const char* pyBool(bool b) { return b ? "True" : "False"; }
Args pythonFile(Dir& d, const std::string& code) { d.text("c.py", "from sourcextractor.config import *\n" + code); return {"--python-config-file", d("c.py")}; }
void measurement(vk::Run& r, const MCase& c) {
  r.desc([&] { return c.print(); });
  Dir d;
  std::vector<Hdu> f, wf;
  std::vector<int> hdus;
  std::vector<Truth> truth;
  std::vector<int> whdu, wlayer;
  Case k; k.gain = c.gain; k.sat = c.sat; k.fs = c.fs;
  if (!c.cube()) { f = fileOf(c.layout, &k, &wf, c.w.type); hdus = hdusOf(c.layout); if (c.pick) hdus = {1}; }
  else for (int i = 0; i < 3; ++i) { f.push_back(pixels(9, 7, i)); wf.push_back(weightOf(f[i], c.w.type, i)); hdus.push_back(i); }
  for (size_t i = 0; i < hdus.size(); ++i) {
    Truth t; int h = hdus[i], key = c.cube() ? (c.layout == 7) : h;
    t.image = f[h]; t.weight = wf[h].d; t.hdu = c.cube() ? key : h;
    t.gain = c.ogain ? 7.25 : c.gain.kind ? c.gain.v(key) : 0;
    t.sat = c.osat ? 900.5 : c.sat.kind ? c.sat.v(key + 1) : 0;
    t.fs = c.ofs ? c.ofs : c.fs.kind ? c.fs.v(key + 2) : 1;
    truth.push_back(t);
  }
  auto rename = [&](Hdu& u) { if (c.keywords) for (auto& s : u.cards) for (auto p : {std::make_pair("GAIN    ", "MYGAIN  "), std::make_pair("SATURATE", "MYSAT   "), std::make_pair("FLXSCALE", "MYSCALE ")}) if (s.compare(0, 8, p.first) == 0) s.replace(0, 8, p.second); };
  std::string weight = "'w.fits'";
  if (!c.cube()) {
    for (auto& u : f) rename(u);
    d.fits("m.fits", f);
    if (c.wkind == 1) { weight = "["; for (size_t i = 0; i < hdus.size(); ++i) { std::string n = cat("w", i, ".fits"); d.fits(n, {wf[hdus[i]]}); weight += "'" + n + "',"; whdu.push_back(1); } weight += "]"; }
    else { d.fits("w.fits", wf); for (int h : hdus) whdu.push_back(h + 1); }
    wlayer.assign(hdus.size(), 0);
  } else {
    auto u = cubeOf(f); int p = c.layout == 7;
    u.cards = wcs(p);
    if (c.gain.kind) u.cards.push_back(card("GAIN", c.gain.s(p)));
    if (c.sat.kind) u.cards.push_back(card("SATURATE", c.sat.s(p + 1)));
    if (c.fs.kind) u.cards.push_back(card("FLXSCALE", c.fs.s(p + 2)));
    rename(u);
    d.fits("m.fits", p ? std::vector<Hdu>{Hdu(), u} : std::vector<Hdu>{u});
    if (c.wkind == 0) { d.fits("w.fits", {cubeOf(wf)}); whdu = {1, 1, 1}; wlayer = {0, 1, 2}; }
    else if (c.wkind == 1) { weight = "["; for (int i = 0; i < 3; ++i) { std::string n = cat("w", i, ".fits"); d.fits(n, {wf[i]}); weight += "'" + n + "',"; } weight += "]"; whdu = {1, 1, 1}; wlayer = {0, 0, 0}; }
    else { d.fits("w.fits", wf); whdu = {1, 2, 3}; wlayer = {0, 0, 0}; }
  }
  Hdu psf(3, 3, 1. / 9);
  for (int i = 0; i < 3; ++i) d.fits(cat("p", i, ".fits"), {psf, psf, psf});
  std::string kw;
  if (c.ogain) kw += ", gain=7.25";
  if (c.osat) kw += ", saturation=900.5";
  if (c.ofs) kw += ", flux_scale=" + dstr(c.ofs);
  if (c.keywords) kw += ", gain_keyword='MYGAIN', saturation_keyword='MYSAT', flux_scale_keyword='MYSCALE'";
  if (c.w.file) kw += (c.images ? ", weights=[" : ", weight=") + weight + (c.images ? "]" : "");
  if (c.w.type) kw += std::string(", weight_type='") + TYPES[c.w.type] + "'";
  if (c.w.absolute) kw += ", weight_absolute=True";
  if (c.w.scaling != 1) kw += ", weight_scaling=" + dstr(c.w.scaling);
  if (c.w.has_threshold) kw += ", weight_threshold=" + dstr(c.w.threshold);
  if (c.level) kw += ", constant_background=4.5";
  if (!c.renormalize) kw += ", psf_renormalize=False";
  if (c.pick) kw += c.w.file ? ", image_hdu=1, weight_hdu=1" : ", image_hdu=1";
  if (c.psf) { std::string l = "["; for (size_t i = 0; i < hdus.size(); ++i) l += cat("'p", i, ".fits',"); kw += (c.images ? ", psfs=['p0.fits']" : ", psf=" + l + "]"); }
  std::string code = c.cube() ? "load_fits_data_cube('m.fits'" : c.images ? "load_fits_images(['m.fits']" : "load_fits_image('m.fits'";
  auto a = pythonFile(d, "top = " + code + kw + ")\n");
  report(r, [&](Found& x) {
    if (chdir(d.path.c_str())) return;
    PyImport_AppendInittab("_SourceXtractorPy", PyInit__SourceXtractorPy);
    Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<MeasurementFrameConfig>(); }, a);
    if (!valid(c.w, false)) { x.check(!cf.error.empty(), "invalid-accepted", [&] { return "a meaningless combination of weight settings was accepted"; }); return; }
    if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
    auto& frames = cf.m.getConfiguration<MeasurementFrameConfig>().getFrames();
    auto& infos = cf.m.getConfiguration<MeasurementImageConfig>().getImageInfos();
    if (!x.check(frames.size() == hdus.size() && infos.size() == hdus.size(), "count", [&] { return cat(frames.size(), " frames instead of ", hdus.size()); })) return;
    size_t i = 0;
    for (auto& p : frames) {
      std::string name = cat("image ", i);
      auto& t = truth[i];
      Weights w = c.w;
      if (w.threshold == 0 && w.type == 4) {}
      Extra e; e.constant = c.level; e.level = 4.5; e.gap = 0;
      int hdu = c.cube() ? (c.layout == 7 ? 2 : 1) : hdus[i] + 1;
      verify(x, name, p.second, t, w, e, false, cat("m_", hdu));
      auto& info = infos[i];
      x.check(info.m_id == p.first, "id", [&] { return cat(name, ": ids ", info.m_id, " and ", p.first); });
      x.check(info.m_image_hdu == hdu && info.m_is_data_cube == c.cube() && (!c.cube() || info.m_image_layer == (int)i), "hdu", [&] { return cat(name, ": HDU ", info.m_image_hdu, " layer ", info.m_image_layer); });
      if (c.w.file) x.check(info.m_weight_hdu == whdu[i] && (!c.cube() || info.m_weight_layer == wlayer[i]), "weight-hdu", [&] { return cat(name, ": weight HDU ", info.m_weight_hdu, " layer ", info.m_weight_layer); });
      if (c.psf) {
        int ph = c.images ? (int)i + 1 : 1;
        x.check(info.m_psf_path == d(c.images ? "p0.fits" : cat("p", i, ".fits")) && info.m_psf_hdu == ph, "psf", [&] { return cat(name, ": PSF ", info.m_psf_path, " HDU ", info.m_psf_hdu); });
      } else x.check(info.m_psf_path.empty(), "psf", [&] { return cat(name, ": PSF ", info.m_psf_path); });
      x.check(info.m_psf_renormalize == c.renormalize, "psf-renormalize", [&] { return cat(name, ": ", info.m_psf_renormalize); });
      x.check(info.m_path == d("m.fits"), "path", [&] { return cat(name, ": ", info.m_path); });
      ++i;
    }
  });
  r.nontrivial(valid(c.w, false));
}
}
VK_SUITE(measurement_images) {
  const int LAYOUTS[6] = {0, 1, 2, 5, 6, 7};
  for (vk::Odo o(std::vector<int>{6, 3, 2, 3, 2, 3, 3, 2}); !o.done; o.inc()) {
    MCase c; c.layout = LAYOUTS[o.v[0]]; c.gain.kind = o.v[1]; c.ogain = o.v[2]; c.sat.kind = o.v[3]; c.osat = o.v[4]; c.fs.kind = o.v[5]; c.ofs = o.v[6] == 0 ? 0 : o.v[6] == 1 ? 1 : 2.5; c.keywords = o.v[7];
    if (!r.thorough() && (o.v[0] * 5 + o.v[1] * 3 + o.v[3] + o.v[5] * 2 + o.v[6] + o.v[2] * 4 + o.v[4] * 3 + o.v[7]) % 5) continue;
    if (!r.next()) continue;
    measurement(r, c);
  }
  for (vk::Odo o(std::vector<int>{6, 2, 2, 2, 2, 2}); !o.done; o.inc()) {
    MCase c; c.layout = LAYOUTS[o.v[0]]; c.psf = o.v[1]; c.renormalize = !o.v[2]; c.images = o.v[3]; c.pick = o.v[4]; c.level = o.v[5];
    if (c.cube() ? c.images || c.pick : c.pick && c.layout == 0) continue;
    if (!r.next()) continue;
    measurement(r, c);
  }
}
VK_SUITE(measurement_weights) {
  const int LAYOUTS[6] = {0, 1, 2, 5, 6, 7};
  for (vk::Odo o(std::vector<int>{6, 5, 4, 2, 2, 3, 3, 2}); !o.done; o.inc()) {
    MCase c; c.layout = LAYOUTS[o.v[0]]; c.w.type = o.v[1]; c.w.file = o.v[2] > 0; c.wkind = o.v[2] - 1; c.w.absolute = o.v[3]; c.w.scaling = o.v[4] ? .5 : 1; c.ofs = o.v[6] == 0 ? 0 : o.v[6] == 1 ? .25 : 3; c.level = o.v[7];
    if (!r.thorough() && (o.v[0] + o.v[1] + o.v[2] + o.v[3] + o.v[4] * 2 + o.v[5] + o.v[6] * 2 + o.v[7]) % 4) continue;
    if (c.wkind == 2 && !c.cube()) continue;
    if (o.v[5] && (!c.w.file || c.w.type < 2)) continue;
    c.w.has_threshold = o.v[5] > 0;
    c.w.threshold = o.v[5] == 2 && c.w.type == 4 ? 0 : o.v[5] == 2 ? GOOD_LIMIT[c.w.type] * 8 : GOOD_LIMIT[c.w.type];
    if (!r.next()) continue;
    measurement(r, c);
  }
}
VK_SUITE(measurement_refusals) {
  std::vector<std::pair<const char*, const char*>> all{
    {"a list of weights that is too short", "load_fits_image('m.fits', weight=['w0.fits'], weight_type='rms')"},
    {"a list of PSFs that is too long", "load_fits_image('m.fits', psf=['p.fits', 'p.fits', 'p.fits'])"},
    {"unequal lists of images and weights", "load_fits_images(['m.fits', 'm.fits'], weights=['w.fits'], weight_type='rms')"},
    {"unequal lists of images and PSFs", "load_fits_images(['m.fits', 'm.fits'], psfs=['p.fits'])"},
    {"no images", "load_fits_images([])"},
    {"missing image", "load_fits_image('none.fits')"},
    {"missing weight", "load_fits_image('m.fits', weight='none.fits', weight_type='rms')"},
    {"missing PSF", "load_fits_image('m.fits', psf='none.fits')"},
    {"unknown weight type", "load_fits_image('m.fits', weight='w.fits', weight_type='sigma')"},
    {"gain that is not a number", "load_fits_image('m.fits', gain='high')"},
    {"negative HDU", "load_fits_image('m.fits', image_hdu=-1)"},
    {"HDU that is not there", "load_fits_image('m.fits', image_hdu=7)"},
    {"a cube that is none", "load_fits_data_cube('m.fits')"},
    {"a cube of weights with fewer layers", "load_fits_data_cube('c.fits', weight='c2.fits', weight_type='rms')"},
    {"a cube of weights with more layers", "load_fits_data_cube('c.fits', weight='c4.fits', weight_type='rms')"},
    {"a list of weights for a cube that is too short", "load_fits_data_cube('c.fits', weight=['w0.fits'], weight_type='rms')"},
    {"a list of PSFs for a cube that is too short", "load_fits_data_cube('c.fits', psf=['p.fits'])"},
    {"a Python error", "no_such_function()"},
    {"a Python syntax error", "load_fits_image('m.fits'"},
  };
  for (auto& n : all) {
    if (!r.next()) continue;
    r.desc([&] { return std::string(n.first); });
    Dir d;
    Hdu u = pixels(9, 7, 0); u.cards = wcs(0);
    d.fits("m.fits", {u, u}); d.fits("w.fits", {u, u}); d.fits("w0.fits", {u}); d.fits("p.fits", {Hdu(3, 3, 1. / 9)});
    for (auto p : {std::make_pair("c.fits", 3), std::make_pair("c2.fits", 2), std::make_pair("c4.fits", 4)}) { auto q = cubeOf(std::vector<Hdu>(p.second, u)); q.cards = wcs(0); d.fits(p.first, {q}); }
    auto a = pythonFile(d, std::string("top = ") + n.second + "\n");
    report(r, [&](Found& x) {
      if (chdir(d.path.c_str())) return;
      PyImport_AppendInittab("_SourceXtractorPy", PyInit__SourceXtractorPy);
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<MeasurementFrameConfig>(); }, a);
      x.check(!cf.error.empty(), "invalid-accepted", [&] { return std::string(n.first) + " was accepted"; });
    });
    r.nontrivial(true);
  }
  // without measurement images, the detection image is measured
  for (vk::Odo o(std::vector<int>{3, 2, 3}); !o.done; o.inc()) {
    if (!r.next()) continue;
    Weights w; w.file = o.v[0] > 0; w.type = o.v[0] == 0 ? 0 : 1 + o.v[0]; w.absolute = o.v[1] && w.file; w.has_threshold = w.file && o.v[2] == 1; w.threshold = w.file ? GOOD_LIMIT[w.type] : 0;
    double fs = o.v[2] == 2 ? 3 : 1;
    r.desc([&] { return cat("measures the detection image, weight ", TYPES[w.type], w.absolute ? " absolute" : "", " flux scale ", fs); });
    Dir d;
    Truth t; t.image = pixels(9, 7, 0); t.image.cards = wcs(0); t.weight = weightOf(t.image, w.type, 0).d; t.gain = 2; t.sat = 500; t.fs = fs;
    d.fits("det.fits", {t.image}); d.fits("w.fits", {weightOf(t.image, w.type, 0)});
    Args a{"--detection-image", d("det.fits"), "--detection-image-gain", "2", "--detection-image-saturation", "500", "--detection-image-flux-scale", dstr(fs), "--weight-type", TYPES[w.type], "--weight-absolute", w.absolute ? "1" : "0"};
    if (w.file) a.insert(a.end(), {"--weight-image", d("w.fits")});
    if (w.has_threshold) a.insert(a.end(), {"--weight-threshold", dstr(w.threshold)});
    report(r, [&](Found& x) {
      PyImport_AppendInittab("_SourceXtractorPy", PyInit__SourceXtractorPy);
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<MeasurementFrameConfig>(); }, a);
      if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
      auto& frames = cf.m.getConfiguration<MeasurementFrameConfig>().getFrames();
      if (!x.check(frames.size() == 1 && frames.count(0), "count", [&] { return cat(frames.size(), " frames"); })) return;
      Extra e;
      verify(x, "frame", frames.at(0), t, w, e, false, "det_1");
    });
    r.nontrivial(true);
  }
}
namespace {
template <typename C> void setting(vk::Run& r, const Args& a, bool ok, std::function<std::string(C&)> wrong, const std::string& python = "") {
  if (!r.next()) return;
  r.desc([&] { std::string s = "options"; for (auto& v : a) s += " " + v; return s; });
  report(r, [&](Found& x) {
    Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<C>(); }, a);
    if (!ok) { x.check(!cf.error.empty(), "invalid-accepted", [&] { return std::string("accepted"); }); return; }
    if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
    auto w = wrong(cf.m.getConfiguration<C>());
    x.check(w.empty(), "setting", [&] { return w; });
  });
  r.nontrivial(true);
}
std::string want(bool ok, const std::string& what) { return ok ? "" : what; }
}
VK_SUITE(settings) {
  using std::to_string;
  for (int m : {0, 1, 2, 3}) for (int t : {0, 1, 2, 3}) {
    int mv[4] = {512, 1, 0, 37}, tv[4] = {256, 7, -1, 1};
    Args a; if (m) a.insert(a.end(), {"--tile-memory-limit", to_string(mv[m])}); if (t) a.insert(a.end(), {cat("--tile-size=", tv[t])});
    setting<MemoryConfig>(r, a, mv[m] > 0 && tv[t] > 0, [=](MemoryConfig& c) { return want(c.getTileMaxMemory() == mv[m] && c.getTileSize() == tv[t], cat(c.getTileMaxMemory(), " ", c.getTileSize())); });
  }
  for (int n : {-3, -2, -1, 0, 1, 3}) for (int q : {-1, 0, 1, 1000}) {
    setting<MultiThreadingConfig>(r, {cat("--thread-count=", n), cat("--thread-max-queue-size=", q)}, n >= -1 && q > 0, [=](MultiThreadingConfig& c) {
      int e = n == -1 ? (int)std::thread::hardware_concurrency() : n;
      return want(c.getThreadsNb() == e && (c.getThreadPool() != nullptr) == (e > 0) && c.getMaxQueueSize() == (unsigned)q, cat(c.getThreadsNb(), " threads, queue ", c.getMaxQueueSize())); });
  }
  setting<MultiThreadingConfig>(r, {}, true, [](MultiThreadingConfig& c) { return want(c.getThreadsNb() == (int)std::thread::hardware_concurrency() && c.getMaxQueueSize() == 1000, "defaults"); });
  for (double z : {0., 25.5, -3.}) setting<MagnitudeConfig>(r, {cat("--magnitude-zero-point=", z)}, true, [=](MagnitudeConfig& c) { return want(c.getMagnitudeZeroPoint() == (float)z, cat(c.getMagnitudeZeroPoint())); });
  setting<MagnitudeConfig>(r, {}, true, [](MagnitudeConfig& c) { return want(c.getMagnitudeZeroPoint() == 0, "default"); });
  for (unsigned s : {0u, 1u, 4000000000u}) setting<RngConfig>(r, {cat("--rng-seed=", s)}, true, [=](RngConfig& c) { return want(c.getSeed() == s, cat(c.getSeed())); });
  for (double s : {.5, 1., 2.}) for (int z : {5, 1000}) setting<SamplingConfig>(r, {cat("--sampling-scale-factor=", s), cat("--sampling-max-fit-size=", z)}, true, [=](SamplingConfig& c) { return want(c.getScaleFactor() == s && c.getMaxFitSize() == (size_t)z, cat(c.getScaleFactor(), " ", c.getMaxFitSize())); });
  const std::vector<std::pair<std::string, GroupingConfig::Algorithm>> G{{"none", GroupingConfig::Algorithm::NO_GROUPING}, {"Overlap", GroupingConfig::Algorithm::OVERLAPPING}, {"SPLIT", GroupingConfig::Algorithm::SPLIT_SOURCES}, {"moffat", GroupingConfig::Algorithm::MOFFAT}, {"assoc", GroupingConfig::Algorithm::ASSOC}, {"other", GroupingConfig::Algorithm::NO_GROUPING}, {"", GroupingConfig::Algorithm::SPLIT_SOURCES}};
  for (auto& g : G) for (int l : {0, 4}) {
    Args a{cat("--grouping-hard-limit=", l), "--grouping-moffat-threshold=0.25", "--grouping-moffat-max-distance=12.5"};
    if (!g.first.empty()) a.push_back("--grouping-algorithm=" + g.first);
    setting<GroupingConfig>(r, a, g.first != "other", [=](GroupingConfig& c) { return want(c.getAlgorithmOption() == g.second && c.getHardLimit() == (unsigned)l && c.getMoffatThreshold() == .25 && c.getMoffatMaxDistance() == 12.5, cat((int)c.getAlgorithmOption(), " ", c.getHardLimit(), " ", c.getMoffatThreshold())); });
  }
  const std::vector<std::pair<std::string, SegmentationConfig::Algorithm>> S{{"lutz", SegmentationConfig::Algorithm::LUTZ}, {"BFS", SegmentationConfig::Algorithm::BFS}, {"Assoc", SegmentationConfig::Algorithm::ASSOC}, {"ml", SegmentationConfig::Algorithm::ML}, {"tiles?", SegmentationConfig::Algorithm::ML}, {"", SegmentationConfig::Algorithm::LUTZ}};
  for (auto& g : S) for (int w : {0, 40}) {
    Args a{cat("--segmentation-lutz-window-size=", w), cat("--segmentation-bfs-max-delta=", w + 7)};
    if (!g.first.empty()) a.push_back("--segmentation-algorithm=" + g.first);
    setting<SegmentationConfig>(r, a, g.second != SegmentationConfig::Algorithm::ML, [=](SegmentationConfig& c) { return want(c.getAlgorithmOption() == g.second && c.getLutzWindowSize() == w && c.getBfsMaxDelta() == w + 7 && c.isFilteringEnabled(), cat((int)c.getAlgorithmOption(), " ", c.getLutzWindowSize(), " ", c.getBfsMaxDelta())); });
  }
  for (auto cell : {"64", "32,16", "7", "0", "-5", "3,0"}) for (auto box : {"3", "0", "5,1", "-1"}) {
    auto list = [](std::string s) { std::vector<int> v; std::istringstream i(s); std::string p; while (std::getline(i, p, ',')) v.push_back(atoi(p.c_str())); return v; };
    auto cv = list(cell), bv = list(box);
    bool ok = true; for (int v : cv) ok = ok && v > 0; for (int v : bv) ok = ok && v >= 0;
    setting<SE2BackgroundConfig>(r, {cat("--background-cell-size=", cell), cat("--smoothing-box-size=", box)}, ok, [=](SE2BackgroundConfig& c) { return want(c.getCellSize() == cv && c.getSmoothingBox() == bv, "other sizes"); });
  }
  for (int lv : {0, 1}) for (int th : {0, 1}) {
    Args a; if (lv) a.push_back("--background-value=-2.5"); if (th) a.push_back("--detection-threshold=3.5");
    setting<BackgroundConfig>(r, a, true, [=](BackgroundConfig& c) { return want(c.isBackgroundLevelAbsolute() == (lv == 1) && (!lv || c.getBackgroundLevel() == -2.5f) && c.isDetectionThresholdAbsolute() && c.getDetectionThreshold() == (th ? 3.5f : 1.5f), cat(c.getBackgroundLevel(), " ", c.getDetectionThreshold())); });
  }
  const std::vector<std::pair<std::string, OutputConfig::OutputFileFormat>> F{{"fits", OutputConfig::OutputFileFormat::FITS}, {"ASCII", OutputConfig::OutputFileFormat::ASCII}, {"Fits_Ldac", OutputConfig::OutputFileFormat::FITS_LDAC}, {"csv", OutputConfig::OutputFileFormat::ASCII}, {"", OutputConfig::OutputFileFormat::FITS}};
  for (auto& g : F) for (int fl : {-4, 0, 1, 100}) for (int s : {0, 1}) {
    Args a{cat("--output-flush-size=", fl), cat("--output-flush-sorted=", s), "--output-properties=A,B,,CD", "--output-catalog-filename=some file.cat"};
    if (!g.first.empty()) a.push_back("--output-catalog-format=" + g.first);
    setting<OutputConfig>(r, a, g.first != "csv", [=](OutputConfig& c) { return want(c.getOutputFileFormat() == g.second && c.getFlushSize() == (size_t)std::max(0, fl) && c.getOutputUnsorted() == !s && c.getOutputFile() == "some file.cat" && c.getOutputProperties() == std::vector<std::string>({"A", "B", "", "CD"}), cat((int)c.getOutputFileFormat(), " ", c.getFlushSize())); });
  }
}

VK_SUITE(filters) {
  struct F { const char* text; int w, h; std::vector<float> k; bool norm, ok; };
  const std::vector<float> P{1, 2, 1, 2, 4, 2, 1, 2, 1};
  std::vector<F> all{
    {"CONV NORM\n1 2 1\n2 4 2\n1 2 1\n", 3, 3, P, true, true}, {"CONV NONORM\n1 2 1\n2 4 2\n1 2 1\n", 3, 3, P, false, true},
    {"# a comment\nCONV NORM  # why\n\n1 2 1 \n\t2 4 2\n# in between\n1 2 1", 3, 3, P, true, true}, {"CONV NONORM\n2\n", 1, 1, {2}, false, true}, {"CONV NORM\n2\n", 1, 1, {2}, true, true},
    {"CONV NONORM\n0.1 0.25 0.5 0.25 0.1\n", 5, 1, {.1f, .25f, .5f, .25f, .1f}, false, true}, {"CONV NONORM\n.5\n1\n2\n", 1, 3, {.5, 1, 2}, false, true}, {"CONV NORM\n1 0 -0.5\n3 1 2\n0 0 1\n1e0 2.5E-1 0\n2 2 2\n", 3, 5, {1, 0, -.5, 3, 1, 2, 0, 0, 1, 1, .25, 0, 2, 2, 2}, true, true},
    {"NORM\n1 2 1\n", 0, 0, {}, false, false}, {"CONV SUM\n1 2 1\n", 0, 0, {}, false, false}, {"", 0, 0, {}, false, false}, {"CONV NORM\n", 0, 0, {}, false, false}, {nullptr, 0, 0, {}, false, false},
    {"default", 3, 3, P, true, true}, {"fits", 3, 5, {1, 0, .5, 3, 1, 2, 0, 0, 1, 1, .25, 0, 2, 2, 2}, true, true}, {"off", 0, 0, {}, false, true},
  };
  for (auto& f : all) {
    if (!r.next()) continue;
    r.desc([&] { return cat("filter ", f.text ? f.text : "that is missing"); });
    Dir d; Args a;
    std::string t = f.text ? f.text : "none";
    if (t == "off") a = {"--segmentation-use-filtering=0"};
    else if (t == "fits") { Hdu u(f.w, f.h); for (size_t i = 0; i < f.k.size(); ++i) u.d[i] = f.k[i]; d.fits("k.fits", {u}); a = {"--segmentation-filter", d("k.fits")}; }
    else if (t != "default") { if (f.text) d.text("k.conv", t); a = {"--segmentation-filter", d("k.conv")}; }
    report(r, [&](Found& x) {
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<SegmentationConfig>(); }, a);
      if (!f.ok) { x.check(!cf.error.empty(), "invalid-accepted", [&] { return std::string("accepted"); }); return; }
      if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
      auto filter = cf.m.getConfiguration<SegmentationConfig>().getFilter();
      if (!x.check((filter == nullptr) == (t == "off"), "filter", [&] { return std::string("filtering is ") + (filter ? "on" : "off"); }) || !filter) return;
      auto im = VectorImage<SeFloat>::create(11, 9); for (int i = 0; i < 99; ++i) im->setValue(i % 11, i / 11, (float)(ripple(i % 11, i / 11) + 3));
      auto var = VectorImage<SeFloat>::create(11, 9); for (int i = 0; i < 99; ++i) var->setValue(i % 11, i / 11, i % 13 == 5 ? 50 : 1);
      auto got = filter->processImage(im, var, 10);
      // the definition: the mean of the good pixels weighted with the mirrored kernel, whatever its normalisation
      for (int y = 0; y < 9; ++y) for (int xx = 0; xx < 11; ++xx) {
        if (var->getValue(xx, y) >= 10) continue;
        double s = 0, w = 0;
        for (int j = 0; j < f.h; ++j) for (int i = 0; i < f.w; ++i) {
          double k = f.k[f.w - 1 - i + (f.h - 1 - j) * f.w];
          int px = xx + i - f.w / 2, py = y + j - f.h / 2;
          if (px < 0 || py < 0 || px >= 11 || py >= 9 || var->getValue(px, py) >= 10) continue;
          s += k * im->getValue(px, py); w += k;
        }
        if (w == 0) continue;
        double q = s / w;
        double g = got->getChunk(xx, y, 1, 1)->getValue(0, 0);
        if (!x.check(near(g, q, 1e-4), "filter", [&] { return cat("filtered pixel ", xx, ",", y, " is ", g, " instead of ", q); })) return;
      }
    });
    r.nontrivial(f.ok);
  }
}
VK_SUITE(steps) {
  // which partition and deblending steps run, in what order
  for (vk::Odo o(std::vector<int>{2, 3, 2, 2, 3, 2}); !o.done; o.inc()) {
    if (!r.next()) continue;
    bool multi = o.v[0], attractors = o.v[2], image = o.v[3], cleaning = o.v[5]; int filter = o.v[4], min = o.v[1] == 0 ? 3 : o.v[1] == 1 ? 1 : 6;
    r.desc([&] { return cat("multithreshold ", multi, " minimum area ", min, " attractors ", attractors, image ? "" : " no image", " assoc filter ", filter, " cleaning ", cleaning); });
    Dir d; Hdu u = pixels(9, 7, 0); u.cards = wcs(0); d.fits("det.fits", {u}); d.text("cat.txt", "3 3 1\n");
    Args a{cat("--partition-multithreshold=", multi), cat("--use-attractors-partition=", attractors), cat("--use-cleaning=", cleaning), cat("--assoc-filter=", filter == 0 ? "all" : filter == 1 ? "Matched" : "UNMATCHED")};
    if (o.v[1]) a.push_back(cat("--detection-minimum-area=", min));
    if (image) a.insert(a.end(), {"--detection-image", d("det.fits"), "--assoc-catalog", d("cat.txt")});
    report(r, [&](Found& x) {
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<MinAreaPartitionConfig>(); m.registerConfiguration<AttractorsPartitionConfig>(); m.registerConfiguration<MultiThresholdPartitionConfig>(); m.registerConfiguration<CleaningConfig>(); m.registerConfiguration<AssocModeConfig>(); }, a);
      if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
      auto steps = cf.m.getConfiguration<PartitionStepConfig>().getSteps(nullptr);
      std::string names; std::vector<std::string> v;
      for (auto& s : steps) { auto& q = *s; std::string n = typeid(q).name(); v.push_back(n.find("MinArea") != n.npos ? "area" : n.find("MultiThreshold") != n.npos ? "multi" : n.find("Attractors") != n.npos ? "attractors" : n.find("Assoc") != n.npos ? "assoc" : n); names += v.back() + " "; }
      auto at = [&](const char* n) { auto i = std::find(v.begin(), v.end(), n); return i == v.end() ? -1 : int(i - v.begin()); };
      size_t n = (image ? 1 + multi + attractors : 0) + (filter > 0);
      x.check(v.size() == n && (at("area") >= 0) == image && (at("multi") >= 0) == (image && multi) && (at("attractors") >= 0) == (image && attractors) && (at("assoc") >= 0) == (filter > 0), "steps", [&] { return "partition steps " + names; });
      x.check((at("multi") < 0 || at("area") < at("multi")) && (at("attractors") < 0 || at("area") < at("attractors")) && (at("assoc") < 0 || at("assoc") > at("multi")), "order", [&] { return "partition steps " + names; });
      auto deb = cf.m.getConfiguration<DeblendStepConfig>().getSteps(nullptr);
      x.check(deb.size() == (size_t)cleaning, "cleaning", [&] { return cat(deb.size(), " deblending steps"); });
    });
    r.nontrivial(image);
  }
  for (auto opt : {"--partition-threshold-count=0", "--partition-threshold-count=-3", "--partition-minimum-area=0", "--use-cleaning=1 --cleaning-minimum-area=0", "--assoc-filter=some", "--assoc-mode=best", "--assoc-coord-type=sky", "--assoc-columns=1,x", "--assoc-copy=a", "--assoc-catalog=/nonexistent/c.txt", "--assoc-columns=1", "--assoc-columns=1,2,3,4", "--assoc-copy=9", "--assoc-config=/nonexistent/c.txt"}) {
    if (!r.next()) continue;
    r.desc([&] { return std::string(opt); });
    Dir d; Hdu u = pixels(9, 7, 0); u.cards = wcs(0); d.fits("det.fits", {u}); d.text("cat.txt", "3 3 1\n");
    Args a{"--detection-image", d("det.fits")};
    std::istringstream i(opt); std::string s; bool cat_ = false;
    while (i >> s) { a.push_back(s); cat_ |= s.find("assoc-catalog") != s.npos; }
    if (!cat_) a.insert(a.end(), {"--assoc-catalog", d("cat.txt")});
    report(r, [&](Found& x) {
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<MultiThresholdPartitionConfig>(); m.registerConfiguration<CleaningConfig>(); m.registerConfiguration<AssocModeConfig>(); }, a);
      x.check(!cf.error.empty(), "invalid-accepted", [&] { return std::string(opt) + " was accepted"; });
    });
    r.nontrivial(true);
  }
}
namespace {
// A catalogue of three rows and eight columns; the value of row i, column c (from 0).
double cell(int i, int c) { switch (c) { case 0: return 2.5 + i; case 1: return 4. - i; case 2: return 29.9999 + 1e-4 * i; case 3: return -10.5001 - 1e-4 * i; case 4: return 1.5 + i; case 5: return 3 + i % 2; case 6: return 6.5 - i; default: return 10 * i + .25; } }
std::string catalogue() { std::ostringstream s; s.precision(12); s << "# a catalogue\n"; for (int i = 0; i < 3; ++i) { for (int c = 0; c < 8; ++c) s << cell(i, c) << " "; s << "\n"; } return s.str(); }
struct Assoc { bool world = false; int x = 0, y = 1, weight = -1, group = -1, width = -1, height = -1; std::vector<int> copy; double size = 5; };
void assocCheck(Found& x, ConfigManager& m, const Assoc& t, int frames, const std::vector<std::string>& names) {
  auto& c = m.getConfiguration<AssocModeConfig>();
  auto& cats = c.getCatalogs();
  if (!x.check(cats.size() == (size_t)std::max(1, frames), "catalogues", [&] { return cat(cats.size(), " catalogues"); })) return;
  for (size_t f = 0; f < cats.size(); ++f) {
    if (!x.check(cats[f].size() == 3, "rows", [&] { return cat(cats[f].size(), " rows"); })) return;
    for (int i = 0; i < 3; ++i) {
      auto& e = cats[f][i];
      std::string w = cat("catalogue ", f, " row ", i, ": ");
      double px, py, ra, de, d2r = M_PI / 180, a0 = (30 + (int)f) * d2r, d0 = (-10.5 + (int)f) * d2r, cx = 2 + (int)f, cy = 1;
      if (t.world) {   // gnomonic projection
        ra = cell(i, t.x); de = cell(i, t.y);
        double a = ra * d2r, d = de * d2r, q = sin(d) * sin(d0) + cos(d) * cos(d0) * cos(a - a0);
        px = cx + cos(d) * sin(a - a0) / q / d2r / -1e-4; py = cy + (sin(d) * cos(d0) - cos(d) * sin(d0) * cos(a - a0)) / q / d2r / 1e-4;
      } else {
        px = cell(i, t.x) - 1; py = cell(i, t.y) - 1;
        double u = (px - cx) * -1e-4 * d2r, v = (py - cy) * 1e-4 * d2r;
        ra = (a0 + atan2(u, cos(d0) - v * sin(d0))) / d2r; de = atan2((sin(d0) + v * cos(d0)) * cos(ra * d2r - a0), cos(d0) - v * sin(d0)) / d2r;
      }
      if (frames) x.check(std::abs(e.coord.m_x - px) < 1e-5 && std::abs(e.coord.m_y - py) < 1e-5, "position", [&] { return cat(w, "at ", e.coord.m_x, ",", e.coord.m_y, " instead of ", px, ",", py); });
      x.check(std::abs(e.world_coord.m_alpha - ra) < 1e-8 && std::abs(e.world_coord.m_delta - de) < 1e-8, "world-position", [&] { return cat(w, "at ", e.world_coord.m_alpha, ",", e.world_coord.m_delta, " instead of ", ra, ",", de); });
      x.check(e.weight == (t.weight < 0 ? 1 : cell(i, t.weight)), "weight", [&] { return cat(w, "weight ", e.weight); });
      x.check(e.group_id == (t.group < 0 ? 0u : (unsigned)cell(i, t.group)), "group", [&] { return cat(w, "group ", e.group_id); });
      double sw = t.width < 0 ? t.size : cell(i, t.width), sh = t.height < 0 ? t.size : cell(i, t.height);
      x.check(e.source_pixel_width == sw && e.source_pixel_height == sh, "size", [&] { return cat(w, "size ", e.source_pixel_width, "x", e.source_pixel_height, " instead of ", sw, "x", sh); });
      bool same = e.assoc_columns.size() == t.copy.size();
      for (size_t k = 0; same && k < t.copy.size(); ++k) same = e.assoc_columns[k] == cell(i, t.copy[k]);
      x.check(same, "columns", [&] { std::string s = w + "values"; for (double v : e.assoc_columns) s += cat(" ", v); return s; });
    }
  }
  x.check(c.getColumnsIdx() == t.copy, "columns", [&] { return cat(c.getColumnsIdx().size(), " columns"); });
  x.check(c.getColumnsNames() == names, "names", [&] { std::string s; for (auto& n : c.getColumnsNames()) s += n + " "; return s; });
}
}
VK_SUITE(association) {
  auto setup = [](Dir& d, int frames) { std::vector<Hdu> f; for (int i = 0; i < frames; ++i) { f.push_back(pixels(9, 7, i)); f.back().cards = wcs(i); } if (frames) d.fits("det.fits", f); d.text("cat.txt", catalogue()); Args a{"--assoc-catalog", d("cat.txt")}; if (frames) a.insert(a.end(), {"--detection-image", d("det.fits")}); return a; };
  // options: coordinates, weight, columns to copy, sizes, group, frames
  for (vk::Odo o(std::vector<int>{2, 2, 3, 5, 2, 3}); !o.done; o.inc()) {
    if (!o.v[0] && o.v[5] == 0) continue;   // pixel coordinates need an image
    if (!r.next()) continue;
    Assoc t; t.world = o.v[0]; if (t.world) { t.x = 2; t.y = 3; }
    Dir d; auto a = setup(d, o.v[5]);
    std::string cols = t.world ? "3,4" : "1,2";
    if (o.v[1]) { cols += ",5"; t.weight = 4; }
    if (o.v[1] || t.world) a.insert(a.end(), {"--assoc-columns", cols});
    if (t.world) a.insert(a.end(), {"--assoc-coord-type", "World"});
    if (o.v[2] == 1) { a.insert(a.end(), {"--assoc-copy", "8"}); t.copy = {7}; }
    if (o.v[2] == 2) { a.insert(a.end(), {"--assoc-copy", "7,1,8"}); t.copy = {6, 0, 7}; }
    if (o.v[3] == 1) { a.push_back("--assoc-source-sizes=7"); t.width = t.height = 6; }
    if (o.v[3] == 2) { a.insert(a.end(), {"--assoc-source-half-widths=7", "--assoc-source-half-heights=5"}); t.width = 6; t.height = 4; }
    if (o.v[3] == 3) { a.insert(a.end(), {"--assoc-source-sizes=7", "--assoc-source-half-heights=5"}); t.width = 6; t.height = 4; }
    if (o.v[3] == 4) { a.push_back("--assoc-default-pixel-size=8.5"); t.size = 8.5; }
    if (o.v[4]) { a.push_back("--assoc-group-id=6"); t.group = 5; }
    r.desc([&] { std::string s = "options"; for (auto& v : a) s += " " + v; return s; });
    report(r, [&](Found& x) {
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<AssocModeConfig>(); }, a);
      if (x.check(cf.error.empty(), "refused", [&] { return cf.error; })) assocCheck(x, cf.m, t, o.v[5], {});
    });
    r.nontrivial(true);
  }
  // a file that describes the columns: numbered, unnumbered or mixed, in every order of the blocks
  struct B { const char* text; const char* name; int col; };   // col from 0
  for (vk::Odo o(std::vector<int>{2, 4, 2, 4, 3, 2}); !o.done; o.inc()) {
    if (!r.next()) continue;
    Assoc t; t.world = o.v[0];
    std::string f = "# columns\n\n";
    std::vector<std::string> names;
    if (o.v[1] == 0) {          // all eight in order, without numbers
      f += t.world ? "a\nb\nRA\nDec\nweight\ngroup_id\npixel_size\nextra\n" : "x\nY\n c \nd\nweight\ngroup_id\n pixel_size\nextra\n";
      t.weight = 4; t.group = 5; t.width = t.height = 6;
      if (t.world) { t.x = 2; t.y = 3; names = {"a", "b", "extra"}; t.copy = {0, 1, 7}; } else { names = {"c", "d", "extra"}; t.copy = {2, 3, 7}; }
    } else {
      if (t.world) { t.x = 2; t.y = 3; f += "ra = 3\ndec=4\n"; } else f += "x = 1\n  y=2\n";
      if (o.v[1] == 2) { f += "weight = 5\nGROUP_ID=6\n"; t.weight = 4; t.group = 5; }
      if (o.v[1] == 3) { f += "weight = 5\ngroup_id\n"; t.weight = 4; t.group = 5; }   // goes on counting
      if (o.v[3] == 1) { f += "pixel_size = 7\n"; t.width = t.height = 6; }
      if (o.v[3] == 2) { f += "pixel_half_width = 7\nPixel_Half_Height = 5\n"; t.width = 6; t.height = 4; }
      if (o.v[3] == 3) { f += "pixel_size = 7\npixel_half_height = 5\n"; t.width = 6; t.height = 4; }
      if (o.v[4] == 1) { f += "Mag = 8\n"; names = {"Mag"}; t.copy = {7}; }
      if (o.v[4] == 2) { f += "zz = 7\nnext\naa = 2\n"; names = {"aa", "next", "zz"}; t.copy = {1, 7, 6}; }
    }
    int frames = 1 + o.v[5];
    r.desc([&] { return cat("assoc config of ", frames, " frames:\n", f); });
    Dir d; auto a = setup(d, frames);
    d.text("assoc.cfg", f);
    a.insert(a.end(), {"--assoc-config", d("assoc.cfg")});
    if (o.v[2]) a.insert(a.end(), {"--assoc-mode", "mean", "--assoc-radius", "3.5"});
    report(r, [&](Found& x) {
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<AssocModeConfig>(); }, a);
      if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
      assocCheck(x, cf.m, t, frames, names);
      auto& c = cf.m.getConfiguration<AssocModeConfig>();
      x.check(c.getAssocMode() == (o.v[2] ? AssocModeConfig::AssocMode::MEAN : AssocModeConfig::AssocMode::NEAREST) && c.getAssocRadius() == (o.v[2] ? 3.5 : 2.), "mode", [&] { return cat("mode ", (int)c.getAssocMode(), " radius ", c.getAssocRadius()); });
    });
    r.nontrivial(true);
  }
  using M = AssocModeConfig::AssocMode;
  const std::vector<std::pair<const char*, M>> modes{{"first", M::FIRST}, {"Nearest", M::NEAREST}, {"MIN", M::MIN}, {"max", M::MAX}, {"mean", M::MEAN}, {"mag_mean", M::MAG_MEAN}, {"sum", M::SUM}, {"Mag_Sum", M::MAG_SUM}};
  for (auto& m : modes) setting<AssocModeConfig>(r, {"--assoc-mode", m.first}, true, [=](AssocModeConfig& c) { return want(c.getAssocMode() == m.second && c.getCatalogs().empty(), cat("mode ", (int)c.getAssocMode())); });
  for (auto f : {"x=1\n", "ra=1\n", "x=1\ny=2\nra=3\n", "ra=3\ndec=4\nx=1\n", "weight=1\n", ""}) {
    if (!r.next()) continue;
    r.desc([&] { return cat("assoc config ", f); });
    Dir d; auto a = setup(d, 1); d.text("assoc.cfg", f); a.insert(a.end(), {"--assoc-config", d("assoc.cfg")});
    report(r, [&](Found& x) { Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<AssocModeConfig>(); }, a); x.check(!cf.error.empty(), "invalid-accepted", [&] { return std::string("accepted"); }); });
    r.nontrivial(true);
  }
}
VK_SUITE(flag_images) {
  using T = ExternalFlagConfig::Type;
  const std::vector<std::pair<const char*, T>> types{{"", T::OR}, {"or", T::OR}, {"AND", T::AND}, {"Min", T::MIN}, {"max", T::MAX}, {"most", T::MOST}, {"xor", T::OR}};
  for (vk::Odo o(std::vector<int>{6, 7, 3}); !o.done; o.inc()) {
    if (!r.next()) continue;
    int layout = o.v[0], n = o.v[2];   // n other flag images
    r.desc([&] { return cat("layout ", layout, " type '", types[o.v[1]].first, "' and ", n, " more"); });
    Dir d;
    std::vector<Hdu> f;
    for (int i = 0; i < countOf(layout); ++i) {
      if (i == 0 && emptyPrimary(layout)) { f.emplace_back(); continue; }
      Hdu u(9 + i, 7 + i); u.bitpix = i % 2 ? 32 : 16; for (size_t k = 0; k < u.d.size(); ++k) u.d[k] = (k * 7 + i) % 64 * (i % 2 ? 100000 : 1); f.push_back(u);
    }
    d.fits("f.fits", f);
    Args a{"--flag-image-one", d("f.fits") + pick(layout)};
    if (*types[o.v[1]].first) a.insert(a.end(), {"--flag-type-one", types[o.v[1]].first});
    for (int k = 0; k < n; ++k) { Hdu u(3, 2, k + 5); u.bitpix = 16; d.fits(cat("g", k, ".fits"), {u}); a.insert(a.end(), {k ? "--flag-image-2" : "--flag-image-zed", d(cat("g", k, ".fits"))}); if (k) a.insert(a.end(), {"--flag-type-2", "and"}); }
    report(r, [&](Found& x) {
      Conf cf(5, [](ConfigManager& m) { m.registerConfiguration<ExternalFlagConfig>(); }, a);
      if (std::string(types[o.v[1]].first) == "xor") { x.check(!cf.error.empty(), "invalid-accepted", [&] { return std::string("an unknown type was accepted"); }); return; }
      if (!x.check(cf.error.empty(), "refused", [&] { return cf.error; })) return;
      auto& l = cf.m.getConfiguration<ExternalFlagConfig>().getFlagInfoList();
      if (!x.check(l.size() == (size_t)n + 1, "flags", [&] { return cat(l.size(), " flags"); })) return;
      for (auto& p : l) {
        auto hdus = p.first == "one" ? hdusOf(layout) : std::vector<int>{0};
        T want = p.first == "one" ? types[o.v[1]].second : p.first == "2" ? T::AND : T::OR;
        if (!x.check((p.first == "one" || p.first == "2" || p.first == "zed") && p.second.second == want && p.second.first.size() == hdus.size(), "flags", [&] { return cat("flag ", p.first, " type ", (int)p.second.second, " with ", p.second.first.size(), " images"); })) return;
        for (size_t i = 0; i < hdus.size(); ++i) {
          Hdu u = p.first == "one" ? f[hdus[i]] : Hdu(3, 2, p.first == "2" ? 6 : 5);
          auto& im = p.second.first[i];
          bool same = im->getWidth() == u.w && im->getHeight() == u.h;
          for (int k = 0; same && k < u.w * u.h; ++k) same = im->getChunk(k % u.w, k / u.w, 1, 1)->getValue(0, 0) == (int64_t)u.d[k];
          x.check(same, "flag-pixels", [&] { return cat("image ", i, " of flag ", p.first); });
        }
      }
    });
    r.nontrivial(true);
  }
  setting<ExternalFlagConfig>(r, {"--flag-type-a", "or"}, false, [](ExternalFlagConfig&) { return std::string(); });
  setting<ExternalFlagConfig>(r, {}, true, [](ExternalFlagConfig& c) { return want(c.getFlagInfoList().empty(), "flags"); });
}
