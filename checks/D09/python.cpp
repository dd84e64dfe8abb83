// The Python configuration means what it says: groups, arguments, apertures, parameters, models, priors and settings.
#include "e2e/e2e.h"
#include "Configuration/ConfigManager.h"
#include "ModelFitting/Engine/EngineParameterManager.h"
#include "ModelFitting/Engine/ResidualEstimator.h"
#include "ModelFitting/Models/ConstantModel.h"
#include "ModelFitting/Models/ExtendedModel.h"
#include "ModelFitting/Models/PointModel.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "SEFramework/CoordinateSystem/CoordinateSystem.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEImplementation/Configuration/ModelFittingConfig.h"
#include "SEImplementation/Configuration/PythonConfig.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryConfig.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/AssocMode/AssocModeConfig.h"
#include "SEImplementation/Plugin/FlexibleModelFitting/FlexibleModelFittingFrame.h"
#include "SEImplementation/Plugin/FlexibleModelFitting/FlexibleModelFittingModel.h"
#include "SEImplementation/Plugin/FlexibleModelFitting/FlexibleModelFittingParameter.h"
#include "SEImplementation/Plugin/FlexibleModelFitting/FlexibleModelFittingParameterManager.h"
#include "SEImplementation/Plugin/FlexibleModelFitting/FlexibleModelFittingPrior.h"
#include "SEImplementation/Plugin/IsophotalFlux/IsophotalFlux.h"
#include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinates.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParameters.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroid.h"
#include <boost/program_options.hpp>
#include <map>
using namespace e2e;
using namespace SourceXtractor;
using Euclid::Configuration::ConfigManager;
namespace po = boost::program_options;
namespace {
using Args = std::vector<std::string>;
template <typename... T> std::string cat(const T&... v) { std::ostringstream s; s.precision(12); (s << ... << v); return s.str(); }
// ---- what a child process found
struct Found {
  std::string out; unsigned compared = 0;
  void fail(const std::string& key, const std::string& msg) { putS(out, key); putS(out, msg); }
  template <typename M> bool check(bool ok, const std::string& key, M m) { ++compared; if (!ok && out.size() < 20000) fail(key, m()); return ok; }
};
std::vector<std::pair<std::string, std::string>> child(std::function<void(Found&)> f, std::string& how, int limit) {
  int p[2];
  if (pipe(p)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, SIG_DFL);
    struct rlimit nocore{0, 0}; setrlimit(RLIMIT_CORE, &nocore);
    alarm(limit);
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
    PyImport_AppendInittab("_SourceXtractorPy", PyInit__SourceXtractorPy);
    Found x;
    try { f(x); } catch (const std::exception& e) { x.fail("exception", e.what()); } catch (...) { x.fail("exception", "of an unknown type"); }
    putS(x.out, "#"); putS(x.out, std::to_string(x.compared));
    size_t k = 0;
    while (k < x.out.size()) { ssize_t n = write(p[1], x.out.data() + k, x.out.size() - k); if (n <= 0) break; k += n; }
    _exit(42);
  }
  close(p[1]);
  std::string s; char b[4096]; ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n);
  close(p[0]);
  int st = 0; waitpid(pid, &st, 0);
  how = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) != 42 ? "exit status " + std::to_string(WEXITSTATUS(st)) : "";
  std::vector<std::pair<std::string, std::string>> v;
  In in{s};
  while (in.p < s.size() && in.ok) { auto k = in.get(); auto m = in.get(); v.emplace_back(k, m); }
  return v;
}
void report(vk::Run& r, std::function<void(Found&)> f, int limit = 120) {
  std::string how;
  auto v = child(f, how, limit);
  for (auto& p : v) { if (p.first == "#") { r.state(std::stoul(p.second)); if (p.second != "0") r.nontrivial(); } else r.check(false, p.first.c_str(), [&] { return p.second; }); }
  r.check(how.empty(), "crash", [&] { return how; });
}
// ---- a configured program
struct Conf {
  ConfigManager& m;
  std::string error;
  template <typename F> Conf(long id, F reg, const Args& args) : m(ConfigManager::getInstance(id)) {
    reg(m);
    auto d = m.closeRegistration();
    try {
      po::variables_map vm;
      po::store(po::command_line_parser(args).options(d).style(po::command_line_style::default_style & ~po::command_line_style::allow_guessing).run(), vm);
      po::notify(vm);
      m.initialize(vm);
    } catch (const std::exception& e) { error = std::string("x ") + e.what(); } catch (...) { error = "x"; }
  }
};
bool near(double a, double b, double rel = 1e-9, double abs = 1e-12) { return std::isnan(b) ? std::isnan(a) : std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b)); }
std::vector<std::string> words(const std::string& path) { std::ifstream f(path); std::vector<std::string> v; std::string w; while (f >> w) v.push_back(w); return v; }
std::vector<std::string> lines(const std::string& path) { std::ifstream f(path); std::vector<std::string> v; std::string w; while (std::getline(f, w)) v.push_back(w); return v; }
// ---- groups: groups.py explores every sequence of operations
void image(const Dir& d, const std::string& name, const char* F, int N) {
  Hdu u(4, 4, 1);
  if (F) u.cards.push_back(scard("F", F));
  u.cards.push_back(card("N", std::to_string(N)));
  d.fits(name, {u});
}
VK_SUITE(groups) {
  // four kinds of image: filters R1, R2, G1 and none at all
  static const char* F[4] = {"R1", "R2", "G1", nullptr};
  for (int n = 0; n <= 3; ++n)
    for (vk::Odo o(std::vector<int>(n, 4)); !o.done; o.inc()) {
      if (!r.next()) continue;
      auto text = [&] { std::string s = "images"; for (int i = 0; i < n; ++i) s += std::string(" ") + (F[o.v[i]] ? F[o.v[i]] : "-"); return s; };
      r.desc(text);
      Dir d;
      Args a{"--python-config-file", std::string(getenv("D09_DIR")) + "/groups.py", "--python-arg", d("out"), r.thorough() ? "5" : n == 3 ? "3" : "4"};
      for (int i = 0; i < n; ++i) { std::string f = "i" + std::to_string(i) + ".fits"; image(d, f, F[o.v[i]], 1 + o.v[i] / 2); a.push_back(d(f)); }
      image(d, "m0.fits", "B1", 7); image(d, "m1.fits", "R1", 1);
      a.insert(a.end(), {"+", d("m0.fits"), d("m1.fits")});
      report(r, [&](Found& x) {
        Conf c(5, [](ConfigManager& m) { m.registerConfiguration<PythonConfig>(); }, a);
        x.check(c.error.empty(), "groups.script", [&] { return c.error; });
      }, 800);
      bool complete = false;
      for (auto& l : lines(d("out"))) {
        if (l.compare(0, 6, "COUNT\t") == 0) { complete = true; unsigned long s, t, e; sscanf(l.c_str() + 6, "%lu\t%lu\t%lu", &s, &t, &e); r.trace(s); r.state(t); r.count("refused operations", e); r.nontrivial(); continue; }
        auto k = l.substr(5, l.find('\t', 5) - 5), m = l.substr(l.find('\t', 5) + 1);
        r.check(false, ("groups." + k).c_str(), [&] { return text() + ": " + m; });
      }
      r.check(complete, "groups.incomplete", text);
    }
}
// ---- arguments of the script
struct Spec { const char* code; int kind; };   // 0 value, 1 type, 2 callable
const char* ARGS_TOP =
"import sys\n"
"from sourcextractor.config import *\n"
"from sourcextractor.config.argv import Arguments, FileList\n"
"out = open('args.out', 'w')\n"
"def twice(v=None):\n"
"    return 'none' if v is None else v + v\n"
"try:\n"
"    out.write(sys.argv[0] + '\\n')\n";
VK_SUITE(arguments) {
  // what is declared, and for each what the words of the command line make of it
  struct Form { const char* word; const char* result; };   // result: null when it is an error
  struct Decl { const char* name; const char* code; const char* none; std::vector<Form> f; };
  static const std::vector<Decl> decls{
    {"real", "3.5", "3.5", {{"real=4.25", "4.25"}, {"real=7", "7.0"}, {"real=x", nullptr}, {"real=", nullptr}}},
    {"whole", "int", "None", {{"whole=12", "12"}, {"whole=1.5", nullptr}, {"whole=-3", "-3"}}},
    {"text", "'old'", "'old'", {{"text=new", "'new'"}, {"text=", "''"}, {"text=a=b", "'a=b'"}}},
    {"call", "twice", "'none'", {{"call=ab", "'abab'"}}},
    {"files", "FileList", "None", {{"files=f*.dat", "['f1.dat', 'f10.dat', 'f2.dat']"}, {"files=nothing*", "[]"}, {"files=f?.dat", "['f1.dat', 'f2.dat']"}}},
    {"flag", "False", "False", {{"flag", "True"}}}};
  static const std::vector<const char*> unknown{"", "other=1", "other"};
  auto run = [&](const std::vector<std::pair<int, int>>& use, const char* more, bool reversed) {   // declared, form (-1: not given)
    if (!r.next()) return;
    std::vector<std::string> w;
    for (auto& u : use) if (u.second >= 0) w.push_back(decls[u.first].f[u.second].word);
    if (*more) w.push_back(more);
    if (reversed) std::reverse(w.begin(), w.end());
    r.desc([&] { std::string s; for (auto& u : use) s += std::string(decls[u.first].name) + "=" + decls[u.first].code + " "; s += "given"; for (auto& x : w) s += " " + x; return s; });
    Dir d;
    for (auto f : {"f1.dat", "f2.dat", "f10.dat", "g1.dat"}) d.text(f, "x");
    std::string s = ARGS_TOP, list, error, expect;
    for (auto& u : use) { list += (list.empty() ? "" : ", ") + std::string(decls[u.first].name) + "=" + decls[u.first].code; if (u.second >= 0 && !decls[u.first].f[u.second].result) error = "ValueError"; }
    if (error.empty() && *more) error = "KeyError";
    s += "    a = Arguments(" + list + ")\n";
    for (auto& u : use) s += std::string("    out.write(repr(") + (std::string(decls[u.first].name) == "files" ? "a.files if a.files is None else [f for f in a.files]" : std::string("a.") + decls[u.first].name) + ") + '\\n')\n";
    s += "    try:\n        a.missing\n        out.write('a value for a name that was not declared\\n')\n    except AttributeError:\n        pass\n";
    s += "except Exception as e:\n    out.write('!' + type(e).__name__ + '\\n')\nout.close()\n";
    d.text("c.py", s);
    std::vector<std::string> want{d("c.py")};
    if (!error.empty()) want.push_back("!" + error);
    else for (auto& u : use) want.push_back(u.second < 0 ? decls[u.first].none : decls[u.first].f[u.second].result);
    report(r, [&](Found& x) {
      if (chdir(d("").c_str())) return;
      Args a{"--python-config-file", d("c.py")};
      if (!w.empty()) { a.push_back("--python-arg"); a.insert(a.end(), w.begin(), w.end()); }
      Conf c(5, [](ConfigManager& m) { m.registerConfiguration<PythonConfig>(); }, a);
      auto got = lines("args.out");
      x.check(c.error.empty() && got == want, "arguments", [&] { return c.error + " got " + vk::strv(got) + " instead of " + vk::strv(want); });
    });
  };
  int n = decls.size();
  for (int i = 0; i < n; ++i)
    for (int f = -1; f < (int)decls[i].f.size(); ++f)
      for (auto u : unknown)
        for (int j = -1; j < n; ++j) {
          if (j == i) continue;
          if (j < 0) { run({{i, f}}, u, false); if (f >= 0 && *u) run({{i, f}}, u, true); continue; }
          if (j < i || *u) continue;
          for (int g = -1; g < (int)decls[j].f.size(); ++g) { run({{i, f}, {j, g}}, u, false); if (f >= 0 && g >= 0) run({{i, f}, {j, g}}, u, true); }
        }
  run({}, "", false); run({}, "other=1", false);
}
// ---- lists of files for the images
VK_SUITE(lists) {
  static const char* forms[] = {"%s", "list(%s)", "FileList(%g)"};
  for (int im = 0; im < 3; ++im) for (int ps = -1; ps < 3; ++ps) for (int we = -1; we < 3; ++we) for (int count = 1; count <= 3; ++count) for (int wrong = 0; wrong < 3; ++wrong) {
    if (wrong == 1 && ps < 0) continue;
    if (wrong == 2 && we < 0) continue;
    if (!r.next()) continue;
    r.desc([&] { return cat("images ", im, " psfs ", ps, " weights ", we, " of ", count, " wrong ", wrong); });
    Dir d;
    Hdu p(5, 5, 1); p.cards.push_back(card("SAMPLING", "1.0"));
    auto files = [&](const char* stem, int n) { std::string s = "['"; for (int i = 0; i < n; ++i) { std::string f = std::string(stem) + std::to_string(i) + ".fits"; d.fits(f, {*stem == 'p' ? p : Hdu(4, 4, 1)}); s += (i ? "', '" : "") + f; } return s + "']"; };
    auto put = [&](int form, const char* stem, int n) { auto l = files(stem, n); return form == 2 ? std::string("FileList('") + stem + "*.fits')" : form == 1 ? "sorted(" + l + ")" : l; };
    (void)forms;
    std::string s = "from sourcextractor.config import *\nfrom sourcextractor.config.argv import FileList\n"
      "def base(p):\n    return p.split('/')[-1] or '-'\n"
      "out = open('lists.out', 'w')\ntry:\n    g = load_fits_images(" + put(im, "i", count);
    if (ps >= 0) s += ", psfs=" + put(ps, "p", wrong == 1 ? count + 1 : count);
    if (we >= 0) s += ", weights=" + put(we, "w", wrong == 2 ? count + 1 : count) + ", weight_type='rms'";
    s += ")\n    for i in g:\n        out.write('%s %s %s\\n' % (base(i.file), base(i.psf_file), base(i.weight_file)))\nexcept ValueError as e:\n    out.write('!')\nout.close()\n";
    d.text("c.py", s);
    std::vector<std::string> want;
    if (wrong) want = {"!"};
    else for (int i = 0; i < count; ++i) { std::string k = std::to_string(i) + ".fits"; want.push_back("i" + k + " " + (ps < 0 ? "-" : "p" + k) + " " + (we < 0 ? "-" : "w" + k)); }
    report(r, [&](Found& x) {
      if (chdir(d("").c_str())) return;
      Conf c(5, [](ConfigManager& m) { m.registerConfiguration<PythonConfig>(); }, {"--python-config-file", d("c.py")});
      auto got = lines("lists.out");
      x.check(c.error.empty() && got == want, "lists", [&] { return c.error + " got " + vk::strv(got) + " instead of " + vk::strv(want); });
    });
  }
}
// ---- apertures
struct Target { const char* code; std::vector<int> images; bool ok; };
const std::vector<Target> TARGETS{
  {"im[0]", {0}, true}, {"im[2]", {2}, true}, {"one", {1}, true}, {"two", {}, false}, {"tree", {}, false}, {"loaded", {}, false}, {"tree['a']", {0}, true},
  {"[im[0], im[1]]", {0, 1}, true}, {"[im[2], one]", {2, 1}, true}, {"[one, im[0], im[2]]", {1, 0, 2}, true}, {"[im[0], two]", {}, false}, {"[im[1], im[1]]", {}, false}, {"'im'", {}, false}, {"[]", {}, true}};
struct Diam { const char* code; std::vector<float> d; bool ok; };
const std::vector<Diam> DIAMS{{"5", {5}, true}, {"[10, 2.5]", {10, 2.5f}, true}, {"7.25", {7.25f}, true}, {"[3., 'x']", {}, false}, {"'4'", {4}, true}};
VK_SUITE(apertures) {
  // two calls, then columns made of what they returned
  static const std::vector<const char*> cols{"a", "b", "a + b", "b + a", "a[:1]", "a[-1]", "a + [k]", "[k] + b", "k", "7", "[]"};
  auto run = [&](const std::vector<std::pair<int, int>>& calls, const std::vector<std::pair<int, int>>& columns) {   // columns: which, name
    if (!r.next()) return;
    std::string body;
    for (size_t i = 0; i < 2; ++i) body += std::string(1, 'a' + i) + " = " + (i < calls.size() ? std::string("add_aperture_photometry(") + TARGETS[calls[i].first].code + ", " + DIAMS[calls[i].second].code + ")" : "[]") + "\n";
    for (auto& c : columns) body += "add_output_column('c" + std::to_string(c.second) + "', " + cols[c.first] + ")\n";
    r.desc([&] { return body; });
    Dir d;
    for (int i = 0; i < 3; ++i) d.fits("i" + std::to_string(i) + ".fits", {Hdu(4, 4, 1)});
    d.text("c.py", "from sourcextractor.config import *\nloaded = load_fits_images(['i0.fits', 'i1.fits', 'i2.fits'])\n"
                   "im = [i for i in loaded]\none = MeasurementGroup(ImageGroup(images=[im[1]]))\ntwo = MeasurementGroup(ImageGroup(images=[im[0], im[1]]))\n"
                   "g = ImageGroup(images=list(im))\ng.split(lambda l: [('a', l[:1]), ('b', l[1:])])\ntree = MeasurementGroup(g)\nk = ConstantParameter(1)\n"
                   "open('ids', 'w').write(' '.join(str(i.id) for i in im))\n" + body);
    // what it must be
    std::map<int, std::vector<float>> want;
    std::vector<std::vector<int>> ret(2);
    bool ok = true;
    for (size_t i = 0; i < calls.size() && ok; ++i) {
      auto& t = TARGETS[calls[i].first]; auto& q = DIAMS[calls[i].second];
      ok = t.ok && q.ok;
      for (int k : t.images) if (ok) { ok = want.emplace(k, q.d).second; ret[i].push_back(k); }
    }
    std::map<std::string, std::vector<int>> out;
    std::set<int> names;
    for (auto& c : columns) {
      if (!ok) break;
      ok = names.insert(c.second).second;
      std::vector<int> v;
      bool list = true;
      auto &a = ret[0], &b = ret[1];
      switch (c.first) {
      case 0: v = a; break;
      case 1: v = b; break;
      case 2: v = a; v.insert(v.end(), b.begin(), b.end()); break;
      case 3: v = b; v.insert(v.end(), a.begin(), a.end()); break;
      case 4: if (!a.empty()) v = {a[0]}; break;
      case 5: if (!a.empty()) v = {a.back()}; break;
      case 6: list = a.empty(); break;
      case 7: list = b.empty(); break;
      case 8: break;
      default: list = false;
      }
      if (c.first >= 9 || !list) { ok = false; break; }
      bool parameter = c.first == 8 || c.first == 6 || c.first == 7;
      if (!parameter && v.empty()) { ok = false; break; }
      if (!parameter) out["c" + std::to_string(c.second)] = v;
    }
    report(r, [&](Found& x) {
      if (chdir(d("").c_str())) return;
      Conf c(5, [](ConfigManager& m) { m.registerConfiguration<AperturePhotometryConfig>(); }, {"--python-config-file", d("c.py")});
      if (!ok) { x.check(!c.error.empty(), "apertures.accepted", [&] { return "accepted"; }); return; }
      if (!x.check(c.error.empty(), "apertures.refused", [&] { return c.error; })) return;
      std::vector<unsigned> id;
      for (auto& w : words("ids")) id.push_back(std::stoul(w));
      if (id.size() != 3) { x.fail("apertures.refused", "the script did not run"); return; }
      auto& ac = c.m.getConfiguration<AperturePhotometryConfig>();
      for (int i = 0; i < 3; ++i) x.check(ac.getAperturesForImage(id[i]) == want[i], "apertures.diameters", [&] { return cat("image ", i, ": ") + vk::strv(ac.getAperturesForImage(id[i])) + " instead of " + vk::strv(want[i]); });
      std::map<std::string, std::vector<unsigned>> w;
      for (auto& p : out) for (int k : p.second) w[p.first].push_back(id[k]);
      x.check(ac.getImagesToOutput() == w, "apertures.columns", [&] { std::string s; for (auto& p : ac.getImagesToOutput()) s += p.first + vk::strv(p.second) + " "; s += "instead of "; for (auto& p : w) s += p.first + vk::strv(p.second) + " "; return s; });
      auto images = c.m.getConfiguration<PythonConfig>().getInterpreter().getMeasurementImages();
      bool all = images.size() == 3;
      for (int i = 0; i < 3 && all; ++i) all = images.count(id[i]) && images.at(id[i]).id == (int)id[i] && images.at(id[i]).file.find(cat("/i", i, ".fits")) != std::string::npos;
      x.check(all, "apertures.images", [&] { return cat(images.size(), " measurement images"); });
    });
  };
  int T = TARGETS.size(), D = DIAMS.size(), C = cols.size();
  for (int t = 0; t < T; ++t) for (int q = 0; q < D; ++q) run({{t, q}}, {{0, 0}});
  for (int t = 0; t < T; ++t) for (int u = 0; u < T; ++u) if (TARGETS[t].ok && (TARGETS[u].ok || t == 0)) {
    run({{t, 0}, {u, 1}}, {{2, 0}});
    if (r.thorough()) run({{t, 1}, {u, 2}}, {{0, 0}, {3, 1}});
  }
  for (int c = 0; c < C; ++c) for (int e = 0; e < C; ++e) for (int same = 0; same < 2; ++same) {
    run({{7, 1}, {1, 0}}, {{c, 0}, {e, same ? 0 : 1}});
    if (r.thorough()) { run({{9, 1}}, {{c, 0}, {e, same ? 0 : 1}}); run({{2, 1}, {1, 2}}, {{c, 1}, {e, same ? 1 : 0}}); }
  }
}
// ---- sources and parameters
struct Affine : CoordinateSystem {
  double dx, dy;
  explicit Affine(double dx_ = 0, double dy_ = 0) : dx(dx_), dy(dy_) {}
  WorldCoordinate imageToWorld(ImageCoordinate c) const override { return {40 + 3e-4 * (c.m_x + dx), -20 + .5e-4 * (c.m_x + dx) + 1e-4 * (c.m_y + dy)}; }
  ImageCoordinate worldToImage(WorldCoordinate w) const override { double x = (w.m_alpha - 40) / 3e-4, y = (w.m_delta + 20 - .5e-4 * x) / 1e-4; return {x - dx, y - dy}; }
};
struct Attr { double cx, cy, flux, radius, angle, ratio, match, size, v0, v1; };
struct Input { bool flux, shape, match, names; int k; };
Attr attributes(const Input& in) {
  Attr a{};
  a.cx = 12.5 + in.k; a.cy = 7.25 - in.k;
  float f = in.k == 2 ? -4.f : 130.5f + in.k, A = in.k == 1 ? .004f : 3.25f, B = in.k == 1 ? .00001f : 1.5f, th = .4f - .6f * in.k;
  a.flux = std::max<double>(f, .0001);
  a.radius = std::max<double>(A / 2., .01); a.ratio = std::max<double>(B / A, .01); a.angle = th;
  a.match = in.match; a.size = 2; a.v0 = .75 + in.k; a.v1 = 21.5;
  return a;
}
std::unique_ptr<SimpleSource> makeSource(const Input& in, double shift = 0) {
  auto a = attributes(in);
  std::unique_ptr<SimpleSource> s(new SimpleSource);
  auto cs = std::make_shared<Affine>(shift, -2 * shift);
  auto w = cs->imageToWorld({a.cx - 1, a.cy - 1});
  s->setProperty<WorldCentroid>(w.m_alpha, w.m_delta);
  s->setProperty<ReferenceCoordinates>(cs);
  if (in.flux) s->setProperty<IsophotalFlux>(in.k == 2 ? -4.f : 130.5f + in.k, 2.f, 20.f, .1f);
  if (in.shape) s->setProperty<ShapeParameters>(in.k == 1 ? .004f : 3.25f, in.k == 1 ? .00001f : 1.5f, .4f - .6f * in.k, 1.f, 1.f, 1.f, 0.f, 9.f, 3.f, false);
  s->setProperty<AssocMode>(in.match, in.match ? std::vector<double>{a.v0, a.v1} : std::vector<double>{0, 0});
  return s;
}
struct Expr { const char* name; const char* code; std::function<double(const Attr&)> v; int needs; };   // needs: 1 flux, 2 shape, 4 match, 8 names
const std::vector<Expr> EXPRS{
  {"real", "2.75", [](const Attr&) { return 2.75; }, 0},
  {"whole", "3", [](const Attr&) { return 3.; }, 0},
  {"small", "1e-3", [](const Attr&) { return 1e-3; }, 0},
  {"cx", "lambda o: o.centroid_x", [](const Attr& a) { return a.cx; }, 0},
  {"cy", "lambda o: o.centroid_y", [](const Attr& a) { return a.cy; }, 0},
  {"flux", "lambda o: o.isophotal_flux", [](const Attr& a) { return a.flux; }, 1},
  {"radius", "lambda o: o.radius", [](const Attr& a) { return a.radius; }, 2},
  {"angle", "lambda o: o.angle", [](const Attr& a) { return a.angle; }, 2},
  {"ratio", "lambda o: o.aspect_ratio", [](const Attr& a) { return a.ratio; }, 2},
  {"mixed", "lambda o: 2. * o.radius - o.aspect_ratio + o.isophotal_flux", [](const Attr& a) { return 2 * a.radius - a.ratio + a.flux; }, 3},
  {"match", "lambda o: 5. if o.assoc_match else 4.", [](const Attr& a) { return a.match ? 5 : 4; }, 0},
  {"size", "lambda o: o.assoc_size", [](const Attr& a) { return a.size; }, 4},
  {"v0", "lambda o: o.assoc_value_0", [](const Attr& a) { return a.v0; }, 4},
  {"v1", "lambda o: o.assoc_value_1", [](const Attr& a) { return a.v1; }, 4},
  {"n0", "lambda o: o.assoc_alpha", [](const Attr& a) { return a.v0; }, 12},
  {"n1", "lambda o: o.assoc_redshift", [](const Attr& a) { return a.v1; }, 12}};
struct RangeOf { const char* name; const char* code; int type; std::function<double(double, const Attr&)> lo, hi; };   // type: 0 factor (lo), 1 linear, 2 exponential
const std::vector<RangeOf> RANGES{
  {"default", "", 0, [](double, const Attr&) { return 1.; }, nullptr},
  {"factor", ", Unbounded(4)", 0, [](double, const Attr&) { return 4.; }, nullptr},
  {"factorof", ", Unbounded(lambda v, o: 2. * v + o.centroid_x)", 0, [](double v, const Attr& a) { return 2 * v + a.cx; }, nullptr},
  {"linear", ", Range((-1000, 2000.), RangeType.LINEAR)", 1, [](double, const Attr&) { return -1000.; }, [](double, const Attr&) { return 2000.; }},
  {"linearof", ", Range(lambda v, o: (v - o.centroid_y, v + 2 * o.centroid_x), RangeType.LINEAR)", 1, [](double v, const Attr& a) { return v - a.cy; }, [](double v, const Attr& a) { return v + 2 * a.cx; }},
  {"exponential", ", Range((1e-5, 1e5), RangeType.EXPONENTIAL)", 2, [](double, const Attr&) { return 1e-5; }, [](double, const Attr&) { return 1e5; }},
  {"exponentialof", ", Range(lambda v, o: (v * .01, v * 10. * o.centroid_x), RangeType.EXPONENTIAL)", 2, [](double v, const Attr&) { return v * .01; }, [](double v, const Attr& a) { return v * 10 * a.cx; }}};
double world(const RangeOf& g, double e, double v, const Attr& a) {
  double lo = g.lo(v, a);
  if (g.type == 0) return e * lo;
  double hi = g.hi(v, a);
  return g.type == 1 ? lo + (hi - lo) / (1 + std::exp(-e)) : lo * std::exp(std::log(hi / lo) / (1 + std::exp(-e)));
}
struct Fit {   // the parameters of one source
  FlexibleModelFittingParameterManager pm; ModelFitting::EngineParameterManager em;
  std::map<int, std::shared_ptr<ModelFitting::BasicParameter>> p;
  Fit(const ModelFittingConfig& c, const SourceInterface& s) { for (auto& q : c.getParameters()) { auto b = q.second->create(pm, em, s); p[q.first] = b; pm.addParameter(s, q.second, b); } }
  double value(int id) const { return p.at(id)->getValue(); }
};
// names of the script to ids
std::map<std::string, int> idsOf(const std::string& f) { std::map<std::string, int> m; auto w = words(f); for (size_t i = 0; i + 1 < w.size(); i += 2) m[w[i]] = std::stoi(w[i + 1]); return m; }
const char* IDS = "open('ids', 'w').write(' '.join('%s %d' % (n, p.id) for n, p in P.items()))\n";
Args assoc(const Dir& d, const Input& in) { Args a{"--python-config-file", d("c.py")}; if (in.names) { d.text("assoc.cfg", "x\ny\nredshift\nalpha\n"); a.insert(a.end(), {"--assoc-config", d("assoc.cfg")}); } return a; }
struct Angles { double sep, pa; };
Angles sky(const Affine& cs, double x1, double y1, double x2, double y2) {   // pixels counted from 1
  const double R = M_PI / 180;
  auto v = [&](double x, double y, double* o, double* east, double* north) { auto w = cs.imageToWorld({x - 1, y - 1}); double a = w.m_alpha * R, q = w.m_delta * R;
    o[0] = std::cos(q) * std::cos(a); o[1] = std::cos(q) * std::sin(a); o[2] = std::sin(q);
    if (east) { east[0] = -std::sin(a); east[1] = std::cos(a); east[2] = 0; north[0] = -std::sin(q) * std::cos(a); north[1] = -std::sin(q) * std::sin(a); north[2] = std::cos(q); } };
  double p[3], q[3], e[3], n[3];
  v(x1, y1, p, e, n); v(x2, y2, q, nullptr, nullptr);
  double de = 0, dn = 0, dd = 0;
  for (int i = 0; i < 3; ++i) { de += (q[i] - p[i]) * e[i]; dn += (q[i] - p[i]) * n[i]; dd += q[i] * p[i]; }
  double pa = std::atan2(de, dn) / R;
  pa = std::fmod(std::fmod(pa + 90, 180) + 180, 180) - 90;
  return {std::atan2(std::hypot(de, dn), dd) / R, pa};
}
double angleApart(double a, double b) { double d = std::fmod(std::abs(a - b), 180); return std::min(d, 180 - d); }
VK_SUITE(parameters) {
  // every expression, alone, with every range; as constants; as priors; for every kind of source
  for (int flux = 0; flux < 2; ++flux) for (int shape = 0; shape < 2; ++shape) for (int match = 0; match < 2; ++match) for (int names = 0; names < 2; ++names) for (int k = 0; k < 3; ++k) for (int order = 0; order < 2; ++order) {
    if (!r.next()) continue;
    Input in{flux == 1, shape == 1, match == 1, names == 1, k};
    r.desc([&] { return cat("source ", k, flux ? " with" : " without", " flux,", shape ? " with" : " without", " shape,", match ? " matched" : " unmatched", names ? ", named columns" : "", order ? ", reversed" : ""); });
    int have = flux + 2 * shape + 4 * match + 8 * names;
    Dir d;
    std::string s = "from sourcextractor.config import *\nP = {}\n", tail;
    std::vector<const Expr*> ex;
    for (auto& e : EXPRS) if ((e.needs & ~have) == 0) ex.push_back(&e);
    if (order) std::reverse(ex.begin(), ex.end());
    // a second source, elsewhere on the sky, has the same configuration
    Input in2 = in; in2.k = (k + 1) % 3;
    const Attr attr[2] = {attributes(in), attributes(in2)};
    auto usable = [&](const Expr& e, const RangeOf& g) { return g.type != 2 || (e.v(attr[0]) > 0 && e.v(attr[1]) > 0); };
    for (auto e : ex) {
      s += cat("P['c_", e->name, "'] = ConstantParameter(", e->code, ")\n");
      for (auto& g : RANGES) if (usable(*e, g)) s += cat("P['f_", e->name, "_", g.name, "'] = FreeParameter(", e->code, g.code, ")\n");
    }
    s += std::string(shape ? "X, Y = get_pos_parameters()" : "X, Y = FreeParameter(lambda o: o.centroid_x, Unbounded(1)), FreeParameter(lambda o: o.centroid_y, Unbounded(1))") + "\nP['x'] = X\nP['y'] = Y\nP['ra'], P['dec'] = get_world_position_parameters(X, Y)\n";
    if (flux) s += "P['flux'] = get_flux_parameter()\nP['flux3'] = get_flux_parameter(FluxParameterType.ISO, 3)\nP['double'] = DependentParameter(lambda f: 2 * f, P['flux'])\nP['again'] = DependentParameter(lambda f, g: f - 7 * g, P['double'], P['flux3'])\n";
    for (int q = 0; q < 2; ++q) s += cat("W = get_world_parameters(X, Y, ConstantParameter(6.), ConstantParameter(", q ? "-2.5" : ".7", "), ConstantParameter(", q ? "1.75" : ".4", "))\nfor n, w in zip(['ra', 'dec', 'rad', 'angle', 'ratio'], W):\n    P['w", q, "' + n] = w\n");
    // dependent parameters of every number of arguments
    for (int n = 1; n <= 10; ++n) { s += cat("P['d", n, "'] = DependentParameter(lambda *p: sum((i + 1.) * v * v for i, v in enumerate(p))"); for (int i = 0; i < n; ++i) s += i % 2 ? cat(", P['c_", ex[i % ex.size()]->name, "']") : cat(", P['f_", ex[(i + 2) % ex.size()]->name, "_linear']"); s += ")\n"; }
    s += std::string("for n in ") + (order ? "reversed(list(P))" : "P") + ":\n    add_output_column(n, P[n])\n";
    for (auto e : ex) s += cat("add_prior(P['c_", e->name, "'], ", e->code, ", 2.)\nadd_prior(P['f_", e->name, "_default'], 1.5, ", e->code, ")\n");
    d.text("c.py", s + IDS);
    report(r, [&](Found& x) {
      if (chdir(d("").c_str())) return;
      Conf c(5, [](ConfigManager& m) { m.registerConfiguration<ModelFittingConfig>(); }, assoc(d, in));
      if (!x.check(c.error.empty(), "parameters.refused", [&] { return c.error; })) return;
      auto& mc = c.m.getConfiguration<ModelFittingConfig>();
      auto id = idsOf("ids");
      std::shared_ptr<SimpleSource> sources[2] = {makeSource(in), makeSource(in2, 3)};
      std::shared_ptr<Fit> fits[2] = {std::make_shared<Fit>(mc, *sources[0]), std::make_shared<Fit>(mc, *sources[1])};
      for (int which = 0; which < 2; ++which) {
      auto source = sources[which]; auto fit = fits[which]; auto& a = attr[which];
      Affine cs(which ? 3 : 0, which ? -6 : 0);
      auto is = [&](const std::string& n, double want, const char* key, double rel = 1e-9) { double g = fit->value(id.at(n)); x.check(near(g, want, rel), key, [&] { return cat(n, " is ", g, " instead of ", want); }); };
      std::map<std::string, double> val;
      for (auto e : ex) {
        is(cat("c_", e->name), e->v(a), "parameters.constant");
        for (auto& g : RANGES) if (usable(*e, g)) {
          auto n = cat("f_", e->name, "_", g.name);
          is(n, e->v(a), "parameters.initial", 1e-7);
          auto p = std::dynamic_pointer_cast<ModelFitting::EngineParameter>(fit->p.at(id.at(n)));
          if (!x.check(!!p, "parameters.free", [&] { return n + " is not fitted"; })) continue;
          double was = p->getEngineValue();
          x.check(near(world(g, was, e->v(a), a), e->v(a), 1e-7), "parameters.range", [&] { return cat(n, ": engine value ", was); });
          for (double q : {-1.5, 0., .5, 3.}) { p->setEngineValue(q); double w = world(g, q, e->v(a), a); x.check(near(p->getValue(), w, 1e-9), "parameters.range", [&] { return cat(n, " at ", q, " is ", p->getValue(), " instead of ", w); }); }
          p->setEngineValue(was);
        }
      }
      is("x", a.cx, "parameters.position", 1e-7); is("y", a.cy, "parameters.position", 1e-7);
      auto w = cs.imageToWorld({a.cx - 1, a.cy - 1});
      is("ra", w.m_alpha, "parameters.world"); is("dec", w.m_delta, "parameters.world");
      if (shape) for (auto n : {"x", "y"}) { auto p = std::dynamic_pointer_cast<ModelFitting::EngineParameter>(fit->p.at(id.at(n))); double was = p->getEngineValue(), v = *n == 'x' ? a.cx : a.cy; p->setEngineValue(1.);
        double e = v - a.radius + 2 * a.radius / (1 + std::exp(-1.)); x.check(near(p->getValue(), e), "parameters.position", [&] { return cat(n, " at 1 is ", p->getValue(), " instead of ", e); }); p->setEngineValue(was); }
      if (flux) {
        is("flux", a.flux, "parameters.flux"); is("flux3", 3 * a.flux, "parameters.flux"); is("double", 2 * a.flux, "parameters.dependent"); is("again", -19 * a.flux, "parameters.dependent");
        auto p = std::dynamic_pointer_cast<ModelFitting::EngineParameter>(fit->p.at(id.at("flux")));
        p->setEngineValue(1.);
        double e = a.flux * 1e-3 * std::exp(std::log(1e6) / (1 + std::exp(-1.)));
        is("flux", e, "parameters.flux"); is("double", 2 * e, "parameters.follows"); is("again", 2 * e - 21 * a.flux, "parameters.follows");
      }
      for (int q = 0; q < 2; ++q) {
        double R = 6, t = q ? -2.5 : .7, ratio = q ? 1.75 : .4, X1 = a.cx + R * std::cos(t), Y1 = a.cy + R * std::sin(t), X2 = a.cx - R * ratio * std::sin(t), Y2 = a.cy + R * ratio * std::cos(t);
        auto A = sky(cs, a.cx, a.cy, X1, Y1), B = sky(cs, a.cx, a.cy, X2, Y2);
        if (ratio > 1) std::swap(A, B);
        std::string n = cat("w", q);
        is(n + "ra", w.m_alpha, "parameters.world"); is(n + "dec", w.m_delta, "parameters.world");
        is(n + "rad", A.sep, "parameters.world", 1e-6); is(n + "ratio", B.sep / A.sep, "parameters.world", 1e-6);
        double g = fit->value(id.at(n + "angle"));
        x.check(g >= -90 && g <= 90 && angleApart(g, A.pa) < 1e-3, "parameters.world", [&] { return cat(n, "angle is ", g, " instead of ", A.pa); });
      }
      for (int n = 1; n <= 10; ++n) { double want = 0; for (int i = 0; i < n; ++i) { double v = ex[(i % 2 ? i : i + 2) % ex.size()]->v(a); want += (i + 1) * v * v; } is(cat("d", n), want, "parameters.dependent", 1e-6); }
      // uncertainties: those of the free ones, none of a constant, the derivatives for a dependent one
      std::vector<double> sig;
      for (auto& q : mc.getParameters()) if (std::dynamic_pointer_cast<FlexibleModelFittingFreeParameter>(q.second)) sig.push_back(.01 * (1 + q.first % 7));
      auto sigma = [&](const std::string& n) { return mc.getParameters().at(id.at(n))->getSigma(fit->pm, *source, sig); };
      for (auto e : ex) { x.check(sigma(cat("c_", e->name)) == 0, "parameters.sigma", [&] { return cat("constant ", e->name); }); double want = .01 * (1 + id.at(cat("f_", e->name, "_linear")) % 7), g = sigma(cat("f_", e->name, "_linear")); x.check(near(g, want), "parameters.sigma", [&] { return cat("free ", e->name, ": ", g, " instead of ", want); }); }
      for (int n = 1; n <= 10; ++n) { double q2 = 0; for (int i = 0; i < n; i += 2) { auto e = ex[(i + 2) % ex.size()]; double dv = 2 * (i + 1) * e->v(a) * .01 * (1 + id.at(cat("f_", e->name, "_linear")) % 7); q2 += dv * dv; } double g = sigma(cat("d", n)); x.check(near(g, std::sqrt(q2), 1e-3, 1e-6), "parameters.sigma", [&] { return cat("dependent ", n, ": ", g, " instead of ", std::sqrt(q2)); }); }
      // priors
      x.check(mc.getPriors().size() == 2 * ex.size(), "parameters.priors", [&] { return cat(mc.getPriors().size(), " priors"); });
      size_t i = 0;
      for (auto& q : mc.getPriors()) {
        if (i >= 2 * ex.size()) break;
        auto e = ex[i / 2];
        ModelFitting::ResidualEstimator re;
        q.second->setupPrior(fit->pm, *source, re);
        std::vector<double> res(re.numberOfResiduals(), 99.);
        re.populateResiduals(res.begin());
        auto p = std::dynamic_pointer_cast<ModelFitting::EngineParameter>(fit->p.at(id.at(i % 2 ? cat("f_", e->name, "_default") : cat("c_", e->name))));
        double v = e->v(a), want = i % 2 ? (v - 1.5) / v : 0;
        x.check(res.size() == 1 && near(res[0], want, 1e-6, 1e-7), "parameters.priors", [&] { return cat(i % 2 ? "deviation " : "mean ", e->name, ": ") + vk::strv(res) + cat(" instead of ", want); });
        if (p && !res.empty()) { p->setEngineValue(v + 2); re.populateResiduals(res.begin()); x.check(near(res[0], (v + .5) / v, 1e-6, 1e-7), "parameters.priors", [&] { return cat("after a step ", res[0]); }); }
        ++i;
      }
      }
      // columns
      auto& o = mc.getOutputs();
      x.check(o.size() == id.size(), "parameters.outputs", [&] { return cat(o.size(), " columns instead of ", id.size()); });
      for (auto& q : o) x.check(id.count(q.first) && q.second == std::vector<int>{id.at(q.first)}, "parameters.outputs", [&] { return q.first + vk::strv(q.second); });
    });
  }
}
// ---- models and frames
struct Kind { const char* name; const char* code; double n; };
const std::vector<Kind> KINDS{{"constant", "ConstantModel(%v)", 0}, {"point", "PointSourceModel(%x, %y, %f)", 0}, {"exponential", "ExponentialModel(%x, %y, %f, %r, %q, %t)", 1},
                              {"devaucouleurs", "DeVaucouleursModel(%x, %y, %f, %r, %q, %t)", 4}, {"sersic", "SersicModel(%x, %y, %f, %r, %q, %t, %n)", 2.5}};
struct Numbers { double x, y, f, r, q, t, n, v; };
Numbers numbers(int i) { return {5.25 + i, 9.5 - i, 100. * (i + 1), 2. + .5 * i, .8 - .1 * i, .3 + .2 * i, 2.5, 3.125 + i}; }
std::string code(const Kind& k, int i, int how) {   // how: 0 numbers, 1 parameters, 2 functions
  auto v = numbers(i);
  std::string s = k.code, o;
  for (size_t j = 0; j < s.size(); ++j) {
    if (s[j] != '%') { o += s[j]; continue; }
    char w = s[++j];
    double q = w == 'x' ? v.x : w == 'y' ? v.y : w == 'f' ? v.f : w == 'r' ? v.r : w == 'q' ? v.q : w == 't' ? v.t : w == 'n' ? v.n : v.v;
    std::string n = dstr(q);
    o += how == 0 ? n : how == 1 ? "FreeParameter(" + n + ")" : w == 'x' || w == 'f' ? "DependentParameter(lambda a, b: a + b, ConstantParameter(" + dstr(q - 1) + "), FreeParameter(1.))" : "ConstantParameter(lambda o: " + n + ")";
  }
  return o;
}
double profile(const Kind& k, const Numbers& v, double dx, double dy) {
  double n = k.n, b = 2 * n - 1. / 3 + 4 / (405 * n) + 46 / (25515 * n * n) + 131 / (1148175 * n * n * n) - 2194697 / (30690717750. * n * n * n * n);
  double i0 = v.f / (2 * M_PI * std::pow(b, -2 * n) * n * std::tgamma(2 * n) * v.r * v.r * v.q);
  double X = dx * std::cos(v.t) + dy * std::sin(v.t), Y = (-dx * std::sin(v.t) + dy * std::cos(v.t)) / v.q;
  return i0 * std::exp(-b * std::pow(std::hypot(X, Y) / v.r, 1 / n));
}
VK_SUITE(models) {
  // additions of models to groups, each model with a kind and numbers of its own
  static const std::vector<std::pair<const char*, std::vector<int>>> groups{{"top", {0, 1, 2}}, {"top['a']", {0}}, {"top['b']", {1, 2}}, {"other", {2, 0}}, {"empty", {}}};
  auto run = [&](const std::vector<std::array<int, 3>>& adds) {   // group, kind, how; a kind of -1 repeats the model added before
    if (!r.next()) return;
    std::string body;
    std::vector<std::vector<int>> frames(3);
    std::vector<std::pair<int, int>> models;   // kind, numbers
    for (size_t i = 0; i < adds.size(); ++i) {
      auto& a = adds[i];
      if (a[1] >= 0) { body += cat("m = ", code(KINDS[a[1]], models.size(), a[2]), "\n"); models.push_back({a[1], (int)models.size()}); }
      body += cat("add_model(", groups[a[0]].first, ", m)\n");
      for (int g : groups[a[0]].second) frames[g].push_back(models.size() - 1);
    }
    r.desc([&] { return body; });
    Dir d;
    for (int i = 0; i < 3; ++i) d.fits("i" + std::to_string(i) + ".fits", {Hdu(4, 4, 1)});
    d.text("c.py", "import io\nfrom sourcextractor.config import *\nim = [i for i in load_fits_images(['i0.fits', 'i1.fits', 'i2.fits'])]\ng = ImageGroup(images=list(im))\ng.split(lambda l: [('a', l[:1]), ('b', l[1:])])\n"
                   "top = MeasurementGroup(g)\nother = MeasurementGroup(ImageGroup(images=[im[2], im[0]]))\nempty = MeasurementGroup(ImageGroup(images=[]))\n"
                   "open('ids', 'w').write(' '.join(str(i.id) for i in im))\n" + body +
                   "for g in [top, other, empty]:\n    for p in [False, True]:\n        print_model_fitting_info(g, p, '', io.StringIO())\nprint_measurement_images(io.StringIO())\nprint_output_columns(io.StringIO())\n");
    report(r, [&](Found& x) {
      if (chdir(d("").c_str())) return;
      Conf c(5, [](ConfigManager& m) { m.registerConfiguration<ModelFittingConfig>(); }, {"--python-config-file", d("c.py")});
      if (!x.check(c.error.empty(), "models.refused", [&] { return c.error; })) return;
      auto& mc = c.m.getConfiguration<ModelFittingConfig>();
      std::vector<unsigned> id;
      for (auto& w : words("ids")) id.push_back(std::stoul(w));
      Input in{true, true, false, false, 0};
      auto source = makeSource(in);
      Fit fit(mc, *source);
      x.check(mc.getModels().size() == models.size(), "models.count", [&] { return cat(mc.getModels().size(), " models instead of ", models.size()); });
      size_t with = 0;
      for (auto& f : frames) with += !f.empty();
      x.check(mc.getFrames().size() == with, "models.frames", [&] { return cat(mc.getFrames().size(), " frames instead of ", with); });
      for (auto& f : mc.getFrames()) {
        size_t k = std::find(id.begin(), id.end(), f->getFrameNb()) - id.begin();
        if (!x.check(k < 3 && f->getModels().size() == frames[k].size(), "models.frames", [&] { return cat("image ", k, " has ", f->getModels().size(), " models"); })) continue;
        for (size_t i = 0; i < frames[k].size(); ++i) {
          auto& m = models[frames[k][i]];
          auto& kind = KINDS[m.first];
          auto v = numbers(m.second);
          std::vector<ModelFitting::ConstantModel> cm; std::vector<ModelFitting::PointModel> pt; std::vector<std::shared_ptr<ModelFitting::ExtendedModel<ImageInterfaceTypePtr>>> ext;
          auto mod = f->getModels()[i];
          if (!x.check(!!mod, "models.frames", [&] { return cat("image ", k, " has no model ", i); })) continue;
          mod->addForSource(fit.pm, *source, cm, pt, ext, 20, std::make_tuple(1., 0., 0., 1.), std::make_shared<Affine>(), std::make_shared<Affine>(2.5, -1.25), PixelCoordinate(1, 3));
          auto what = [&] { return cat("image ", k, ", model ", i, " (", kind.name, " ", m.second, ")"); };
          bool point = m.first == 1, constant = m.first == 0;
          if (!x.check(cm.size() == (constant ? 1u : 0u) && pt.size() == (point ? 1u : 0u) && ext.size() == (!constant && !point ? 1u : 0u), "models.kind", [&] { return what(); })) continue;
          if (constant) { x.check(near(cm[0].getValue(), v.v), "models.value", [&] { return what() + cat(" is ", cm[0].getValue(), " instead of ", v.v); }); continue; }
          const ModelFitting::PositionedModel& pos = point ? static_cast<const ModelFitting::PositionedModel&>(pt[0]) : *ext[0];
          double X = v.x - 1 - 2.5 - 1 + .5, Y = v.y - 1 + 1.25 - 3 + .5;
          x.check(near(pos.getX(), X, 1e-7, 1e-6) && near(pos.getY(), Y, 1e-7, 1e-6), "models.position", [&] { return what() + cat(" is at ", pos.getX(), ",", pos.getY(), " instead of ", X, ",", Y); });
          if (point) { x.check(near(pt[0].getValue(), v.f), "models.flux", [&] { return what() + cat(" has ", pt[0].getValue()); }); continue; }
          for (auto p : {std::pair<double, double>{0, 0}, {1.5, 0}, {0, 1.5}, {2, 1}, {-1, 2.5}, {3, -3}}) { double g = ext[0]->getValue(p.first, p.second), w = profile(kind, v, p.first, p.second);
            x.check(near(g, w, 2e-3), "models.profile", [&] { return what() + cat(" at ", p.first, ",", p.second, " is ", g, " instead of ", w); }); }
        }
      }
    });
  };
  int G = groups.size(), K = KINDS.size();
  for (int g = 0; g < G; ++g) for (int k = 0; k < K; ++k) for (int h = 0; h < 3; ++h) {
    run({{g, k, h}});
    for (int e = 0; e < G; ++e) {
      if (h == 0 || r.thorough()) run({{g, k, h}, {e, -1, 0}});
      for (int l = 0; l < K; ++l) if (r.thorough() || (k + l + g + e + h) % 6 == 0) run({{g, k, h}, {e, l, (h + 1) % 3}});
    }
  }
  for (int k = 0; k < K; ++k) for (int l = 0; l < K; ++l) for (int g = 0; g < 3; ++g) run({{0, k, 1}, {g, l, 2}, {3, -1, 0}, {1, k, 0}});
}
// ---- settings of the fit, and what has to be refused
VK_SUITE(settings) {
  struct S { const char* code; int what; double v; };
  static const std::vector<std::vector<S>> all{
    {{"", -1, 0}, {"set_max_iterations(17)", 0, 17}, {"set_max_iterations(1)", 0, 1}},
    {{"", -1, 0}, {"set_modified_chi_squared_scale(3.5)", 1, 3.5}, {"set_modified_chi_squared_scale(4)", 1, 4}},
    {{"", -1, 0}, {"use_iterative_fitting(False)", 2, 0}, {"use_iterative_fitting(True)", 2, 1}},
    {{"", -1, 0}, {"set_meta_iterations(9)", 3, 9}},
    {{"", -1, 0}, {"set_deblend_factor(0.25)", 4, .25}, {"set_deblend_factor(1)", 4, 1}},
    {{"", -1, 0}, {"set_meta_iteration_stop(0.125)", 5, .125}},
    {{"", -1, 0}, {"set_window_type(WindowType.RECTANGLE)", 6, 1}, {"set_window_type(WindowType.SQUARE_MIN)", 6, 2}, {"set_window_type(WindowType.SQUARE_MAX)", 6, 3}, {"set_window_type(WindowType.SQUARE_AREA)", 6, 4}, {"set_window_type(WindowType.DISK_MIN)", 6, 5}, {"set_window_type(WindowType.DISK_MAX)", 6, 6},
     {"set_window_type(WindowType.DISK_AREA)", 6, 7}, {"set_window_type(WindowType.ALIGNED_ELLIPSE)", 6, 8}, {"set_window_type(WindowType.ROTATED_ELLIPSE)", 6, 9}},
    {{"", -1, 0}, {"set_ellipse_scale(2.5)", 7, 2.5}},
    {{"", -1, 0}, {"set_engine('gsl')", 8, 0}, {"set_engine('levmar')", 8, 1}}};
  using W = FlexibleModelFittingIterativeTask::WindowType;
  auto run = [&](const std::vector<S>& s) {
    if (!r.next()) return;
    std::string body;
    for (auto& x : s) if (x.what >= 0) body += std::string(x.code) + "\n";
    r.desc([&] { return body; });
    Dir d;
    d.text("c.py", "from sourcextractor.config import *\n" + body);
    double v[9] = {200, 10, 1, 5, .95, .0001, 1, 3, -1};
    for (auto& x : s) if (x.what >= 0) v[x.what] = x.v;
    report(r, [&](Found& x) {
      if (chdir(d("").c_str())) return;
      Conf c(5, [](ConfigManager& m) { m.registerConfiguration<ModelFittingConfig>(); }, {"--python-config-file", d("c.py")});
      if (!x.check(c.error.empty(), "settings.refused", [&] { return c.error; })) return;
      auto& mc = c.m.getConfiguration<ModelFittingConfig>();
      static const W w[] = {W::RECTANGLE, W::SQUARE_MIN, W::SQUARE_MAX, W::SQUARE_AREA, W::DISK_MIN, W::DISK_MAX, W::DISK_AREA, W::ALIGNED_ELLIPSE, W::ROTATED_ELLIPSE};
      double g[9] = {(double)mc.getMaxIterations(), mc.getModifiedChiSquaredScale(), (double)mc.getUseIterativeFitting(), (double)mc.getMetaIterations(), mc.getDeblendFactor(), mc.getMetaIterationStop(),
                     (double)(std::find(w, w + 9, mc.getWindowType()) - w + 1), mc.getEllipseScale(), v[8]};
      for (int i = 0; i < 8; ++i) x.check(g[i] == v[i], "settings", [&] { return cat("setting ", i, " is ", g[i], " instead of ", v[i]); });
      auto e = mc.getLeastSquaresEngine();
      x.check(v[8] < 0 ? !e.empty() : e == (v[8] == 0 ? "gsl" : "levmar"), "settings", [&] { return "engine " + e; });
    });
  };
  for (size_t i = 0; i < all.size(); ++i) for (auto& a : all[i]) { if (a.what < 0) { if (i == 0) run({}); continue; } run({a});
    for (auto& b : all[i]) if (b.what >= 0) run({a, b});   // the last one counts
    for (size_t j = 0; j < all.size(); ++j) if (j != i) for (auto& b : all[j]) if (b.what >= 0 && (r.thorough() || i < j)) run({a, b}); }
  { std::vector<S> every; for (auto& s : all) every.push_back(s.back()); run(every); }
  // refusals: code that must fail with the exception given, leaving a configuration that works
  static const std::vector<std::pair<const char*, const char*>> bad{
    {"set_window_type(3)", "TypeError"}, {"set_window_type('DISK_MIN')", "TypeError"},
    {"add_model(ImageGroup(images=[]), ConstantModel(1))", "Exception"}, {"add_model(loaded, ConstantModel(1))", "Exception"},
    {"ImageGroup()", "ValueError"}, {"ImageGroup(images=[], subgroups=[])", "ValueError"}, {"ImageGroup(other=[])", "ValueError"},
    {"load_fits_images([])", "ValueError"}, {"loaded['a']", "ValueError"}, {"loaded.add_subgroup('a', ImageGroup(images=[]))", "Exception"},
    {"add_output_column('n', 3)", "TypeError"}, {"add_output_column('n', None)", "TypeError"}, {"add_output_column('n', 'x')", "TypeError"},
    {"add_output_column('used', ConstantParameter(1))", "ValueError"}, {"MeasurementImage('i0.fits', image_hdu=-1)", "ValueError"}, {"MeasurementImage('i0.fits', gain='x')", "TypeError"},
    {"MeasurementImage('i0.fits', weight_hdu=-2)", "ValueError"}, {"MeasurementImage('i0.fits', saturation='x')", "TypeError"}, {"loaded.split(ByKeyword('ABSENT'))", "KeyError"}, {"loaded.split(ByPattern('ABSENT', '(.)'))", "KeyError"},
    {"load_fits_images(['i0.fits'], psfs=['a', 'b'])", "ValueError"}, {"load_fits_images(['i0.fits'], weights=['a', 'b'])", "ValueError"}, {"load_fits_data_cube('i0.fits')", "ValueError"}};
  for (auto& b : bad) {
    if (!r.next()) continue;
    r.desc([&] { return b.first; });
    Dir d;
    d.fits("i0.fits", {Hdu(4, 4, 1)});
    d.text("c.py", std::string("from sourcextractor.config import *\nloaded = load_fits_images(['i0.fits'])\nadd_output_column('used', ConstantParameter(2))\nopen('r', 'w').write('started')\ntry:\n    ") + b.first +
           "\n    open('r', 'w').write('accepted')\nexcept " + b.second + ":\n    open('r', 'w').write('refused')\nadd_model(MeasurementGroup(loaded), ConstantModel(4.5))\n");
    report(r, [&](Found& x) {
      if (chdir(d("").c_str())) return;
      Conf c(5, [](ConfigManager& m) { m.registerConfiguration<ModelFittingConfig>(); }, {"--python-config-file", d("c.py")});
      auto w = words("r");
      x.check(w == std::vector<std::string>{"refused"} && c.error.empty(), "settings.refusal", [&] { return vk::strv(w) + c.error; });
      auto& mc = c.m.getConfiguration<ModelFittingConfig>();
      x.check(mc.getOutputs().size() == 1 && mc.getFrames().size() == 1 && mc.getModels().size() == 1, "settings.after-refusal", [&] { return cat(mc.getOutputs().size(), " columns, ", mc.getFrames().size(), " frames"); });
    });
  }
  // an error of the script stops the program
  for (auto e : {"raise ValueError('x')", "1 / 0", "this is no Python", "import no_such_module"}) {
    if (!r.next()) continue;
    r.desc([&] { return e; });
    Dir d;
    d.text("c.py", std::string("from sourcextractor.config import *\n") + e + "\n");
    report(r, [&](Found& x) { Conf c(5, [](ConfigManager& m) { m.registerConfiguration<ModelFittingConfig>(); }, {"--python-config-file", d("c.py")}); x.check(!c.error.empty(), "settings.error-ignored", [&] { return "the program went on"; }); });
  }
  if (r.next()) { r.desc([&] { return "missing file"; }); report(r, [&](Found& x) { Conf c(5, [](ConfigManager& m) { m.registerConfiguration<ModelFittingConfig>(); }, {"--python-config-file", "/nonexistent/c.py"}); x.check(!c.error.empty(), "settings.error-ignored", [&] { return "the program went on"; }); }); }
  if (r.next()) { r.desc([&] { return "no file"; }); report(r, [&](Found& x) { Conf c(5, [](ConfigManager& m) { m.registerConfiguration<ModelFittingConfig>(); }, {}); x.check(c.error.empty() && c.m.getConfiguration<ModelFittingConfig>().getParameters().empty(), "settings.no-script", [&] { return c.error; }); }); }
  // a compute graph model describes itself and leaves its arguments alone
  if (r.next()) {
    r.desc([&] { return "compute graph model"; });
    Dir d;
    d.text("c.py", "from sourcextractor.config import *\np = {'a': 3., '_scale': ConstantParameter(2.)}\nm = ComputeGraphModel('f.onnx', 1., 2., 3., p)\nn = ComputeGraphModel('f.onnx', 1., 2., 3.)\n"
                   "assert p['a'] == 3. and len(p) == 2\nassert m.models == ['f.onnx'] and sorted(m.params) == ['a'] and m.scale.get_value(None) == 2. and n.params == {}\nassert 'scale' in m.to_string() and str(m.scale) in m.to_string(True)\n"
                   "assert len(m.get_params()) == 7 and len(n.get_params()) == 6\nopen('r', 'w').write('ok')\n");
    report(r, [&](Found& x) { if (chdir(d("").c_str())) return; Conf c(5, [](ConfigManager& m) { m.registerConfiguration<PythonConfig>(); }, {"--python-config-file", d("c.py")}); x.check(words("r") == std::vector<std::string>{"ok"}, "settings.compute-graph", [&] { return c.error; }); });
  }
}
}
