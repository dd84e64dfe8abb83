// PSF models: polynomials, readers, stacks and the tasks that evaluate them at a source.
#include "vkit.h"
#include "common/scratch.h"
#include "common/checkimages.h"
#include <cmath>
#include <fitsio.h>
#include <numeric>
#include "Configuration/ConfigManager.h"
#include "SEFramework/Psf/VariablePsf.h"
#include "SEFramework/Psf/VariablePsfStack.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangle.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroid.h"
#include "SEImplementation/Plugin/Psf/PsfPluginConfig.h"
#include "SEImplementation/Plugin/Psf/PsfProperty.h"
#include "SEImplementation/Plugin/Psf/PsfTask.h"
#include "SEImplementation/Plugin/SourcePsf/SourcePsfProperty.h"
#include "SEImplementation/Plugin/SourcePsf/SourcePsfTask.h"
using namespace SourceXtractor;
typedef VectorImage<SeFloat> Im;
typedef std::shared_ptr<Im> ImP;

struct Model { std::vector<int> group, degree; std::vector<double> off, scale; std::vector<std::string> names; };
// the exponents of the terms, the first component varying fastest
static std::vector<std::vector<int>> terms(const Model& m) {
  std::vector<std::vector<int>> out;
  std::vector<int> e(m.group.size());
  for (;;) {
    std::vector<int> used(m.degree.size());
    for (size_t i = 0; i < e.size(); ++i) used[m.group[i]] += e[i];
    bool ok = true;
    for (size_t g = 0; g < used.size(); ++g) if (used[g] > m.degree[g]) ok = false;
    if (ok) out.push_back(e);
    size_t k = 0;
    while (k < e.size() && ++e[k] > m.degree[m.group[k]]) e[k++] = 0;
    if (k == e.size()) return out;
  }
}
static std::vector<ImP> coefficients(size_t n, int size) {
  std::vector<ImP> c;
  for (size_t i = 0; i < n; ++i) { auto im = Im::create(size, size); for (int y = 0; y < size; ++y) for (int x = 0; x < size; ++x) im->setValue(x, y, (float)(((i + 2) * (x + 3) * 7 + (y + 1) * (i + 5) * 3) % 17) * .25f + (i == 0) * 20.f); c.push_back(im); }
  return c;
}
static std::vector<double> expected(const Model& m, const std::vector<ImP>& c, const std::vector<double>& at, bool magnitude = false) {
  auto t = terms(m);
  std::vector<double> out(c[0]->getWidth() * c[0]->getHeight());
  for (size_t k = 0; k < t.size(); ++k) {
    double f = 1;
    for (size_t i = 0; i < at.size(); ++i) for (int p = 0; p < t[k][i]; ++p) f *= (at[i] - m.off[i]) / m.scale[i];
    if (magnitude) f = std::fabs(f);
    for (size_t p = 0; p < out.size(); ++p) out[p] += f * c[k]->getData()[p];
  }
  return out;
}
static void same(vk::Run& r, const char* key, const Im& got, const std::vector<double>& want, const std::vector<double>& mag = {}) {
  r.require(got.getData().size() == want.size(), key, [&] { return "size " + vk::str(got.getData().size()) + " instead of " + vk::str(want.size()); });
  double top = 0, rel = 1e-5; for (auto w : mag.empty() ? want : mag) top = std::max(top, std::fabs(w));
  for (size_t p = 0; p < want.size(); ++p) r.require(std::fabs(got.getData()[p] - want[p]) <= rel * top + 1e-30, key, [&] { return "pixel " + vk::str(p % got.getWidth()) + "," + vk::str(p / got.getWidth()) + " is " + vk::str(got.getData()[p]) + " instead of " + vk::str(want[p]); });
}
static const char* NAMES[] = {"X_IMAGE", "Y_IMAGE", "XWIN_IMAGE", "YPEAK_IMAGE"};
static std::vector<Model> models(int maxc, int maxd) {
  std::vector<Model> out;
  for (int n = 0; n <= maxc; ++n) for (int g = 0; g <= std::max(1, n); ++g) {
    std::vector<int> b(n, std::max(1, g)); std::vector<int> bd(g, maxd + 1);
    if (!g && n) continue;
    for (vk::Odo o(b); !o.done; o.inc()) for (vk::Odo d(bd); !d.done; d.inc()) {
      Model m; m.group.assign(o.v.begin(), o.v.end()); m.degree.assign(d.v.begin(), d.v.end());
      for (int i = 0; i < n; ++i) { m.off.push_back(3 + i * 4); m.scale.push_back(2.5 - i * 1.75); m.names.push_back(NAMES[i]); }
      out.push_back(m);
    }
  }
  return out;
}
static std::string text(const Model& m) { return "groups " + vk::strv(m.group) + " degrees " + vk::strv(m.degree); }
VK_SUITE(polynomial) {
  for (auto& m : models(r.thorough() ? 4 : 3, 3)) for (int delta = -1; delta <= 1; ++delta) {
    // groups without components are of no consequence; each has one term
    auto t = terms(m);
    if (!r.next()) continue;
    r.desc([&] { return text(m) + ", " + vk::str((int)t.size() + delta) + " coefficients"; });
    r.guarded("psf", [&] {
      auto c = coefficients(t.size() + delta, 3);
      std::vector<VariablePsf::Component> comp;
      for (size_t i = 0; i < m.group.size(); ++i) comp.push_back({m.names[i], m.group[i], m.off[i], m.scale[i]});
      std::unique_ptr<VariablePsf> p;
      try { p.reset(new VariablePsf(.5, comp, m.degree, c)); } catch (const Elements::Exception&) {}
      r.require(bool(p) == (delta == 0), "coefficients", [&] { return std::string(p ? "a wrong number of coefficients is accepted" : "refused"); });
      if (!p) return;
      r.require(p->getComponents() == m.names && p->getWidth() == 3 && p->getHeight() == 3 && p->getPixelSampling() == .5, "description", [] { return std::string("description of the model"); });
      std::vector<int> b(m.group.size(), r.thorough() ? 4 : 3);
      for (vk::Odo o(b); !o.done; o.inc()) {
        std::vector<double> at; for (size_t i = 0; i < o.v.size(); ++i) at.push_back(m.off[i] + (o.v[i] == 0 ? 0 : o.v[i] == 1 ? 1.25 : o.v[i] == 2 ? -3 : 7));
        same(r, "value", *p->getPsf(at), expected(m, c, at), expected(m, c, at, true)); r.transition();
        same(r, "value-again", *p->getPsf(at), expected(m, c, at), expected(m, c, at, true));
      }
      for (int d = -1; d <= 1; d += 2) if ((int)m.group.size() + d >= 0) {
        bool refused = false; try { p->getPsf(std::vector<double>(m.group.size() + d, 1.)); } catch (const Elements::Exception&) { refused = true; }
        r.require(refused, "values", [] { return std::string("a wrong number of values is accepted"); });
      }
      r.nontrivial(t.size() > 1); r.see(vk::hashStr(text(m)));
    });
  }
}
VK_SUITE(refused) {   // models that make no sense
  for (int g = -2; g < 4; ++g) for (int which = 0; which < 2; ++which) {
    if (!r.next()) continue;
    r.desc([=] { return "component " + vk::str(which) + " in group " + vk::str(g) + " of 2"; });
    r.guarded("psf", [&] {
      std::vector<VariablePsf::Component> comp{{"X_IMAGE", 0, 0, 1}, {"Y_IMAGE", 1, 0, 1}};
      comp[which].group_id = g;
      bool ok = g == 0 || g == 1, made = true;
      Model m; m.group = {comp[0].group_id, comp[1].group_id}; m.degree = {1, 1};
      try { VariablePsf(1, comp, {1, 1}, coefficients(ok ? terms(m).size() : 4, 3)); } catch (const Elements::Exception&) { made = false; }
      r.require(made == ok, "group", [&] { return std::string(made ? "accepted" : "refused"); });
      r.transition(); r.nontrivial(!ok);
    });
  }
  for (int w = 1; w < 4; ++w) for (int h = 1; h < 4; ++h) for (int k = 0; k < 3; ++k) {
    if (!r.next()) continue;
    r.desc([=] { return "coefficient " + vk::str(k) + " of " + vk::str(w) + "x" + vk::str(h); });
    r.guarded("psf", [&] {
      auto c = coefficients(3, 2); c[k] = Im::create(w, h);
      bool made = true;
      try { VariablePsf(1, {{"X_IMAGE", 0, 0, 1}}, {2}, c); } catch (const Elements::Exception&) { made = false; }
      r.require(made == (w == 2 && h == 2), "dimensions", [&] { return std::string(made ? "accepted" : "refused"); });
      r.transition();
    });
  }
  bool made = true;
  if (r.next()) r.guarded("psf", [&] { try { VariablePsf(1, {}, {}, {}); } catch (const Elements::Exception&) { made = false; } r.require(!made, "empty", [] { return std::string("a model without coefficients is accepted"); }); });
}

// ---- files
struct Fits {
  fitsfile* f = nullptr; int s = 0;
  explicit Fits(const std::string& n) { fits_create_file(&f, ("!" + n).c_str(), &s); }
  ~Fits() { int e = 0; fits_close_file(f, &e); if (s || e) { fprintf(stderr, "cannot write a FITS file: %d %d\n", s, e); abort(); } }
  void image(int w, int h, const std::vector<float>& d) { long n[2] = {w, h}; fits_create_img(f, FLOAT_IMG, 2, n, &s); std::vector<float> c(d); fits_write_img(f, TFLOAT, 1, c.size(), c.data(), &s); }
  void none() { fits_create_img(f, BYTE_IMG, 0, nullptr, &s); }
  void table(const char* name, const std::vector<std::pair<std::string, std::string>>& cols, long rows) {
    std::vector<char*> n, t; for (auto& c : cols) { n.push_back(const_cast<char*>(c.first.c_str())); t.push_back(const_cast<char*>(c.second.c_str())); }
    fits_create_tbl(f, BINARY_TBL, rows, cols.size(), n.data(), t.data(), nullptr, name, &s);
  }
  void key(const std::string& k, int v) { fits_write_key(f, TINT, k.c_str(), &v, nullptr, &s); }
  void key(const std::string& k, double v) { fits_write_key(f, TDOUBLE, k.c_str(), &v, nullptr, &s); }
  void key(const std::string& k, const std::string& v) { fits_write_key(f, TSTRING, k.c_str(), const_cast<char*>(v.c_str()), nullptr, &s); }
  void column(int c, std::vector<float> d) { fits_write_col(f, TFLOAT, c, 1, 1, d.size(), d.data(), &s); }
};
struct PsfEx { Model m; int size = 3, height = 3, axis3 = -1, stored = -1, rows = 1; std::string drop; std::string table = "PSF_DATA"; double samp = .75; };
static std::vector<ImP> writePsfEx(const std::string& fn, const PsfEx& p) {
  auto n = terms(p.m).size();
  auto c = coefficients(n, p.size);
  Fits f(fn); f.none();
  std::vector<float> d; for (auto& i : c) d.insert(d.end(), i->getData().begin(), i->getData().end());
  if (p.stored >= 0) d.resize(p.stored, 5.f);
  f.table(p.table.c_str(), {{"PSF_MASK", vk::str(d.size()) + "E"}}, p.rows);
  auto key = [&](const std::string& k, auto v) { if (k != p.drop) f.key(k, v); };
  key("POLNAXIS", (int)p.m.group.size());
  for (size_t i = 0; i < p.m.group.size(); ++i) { auto s = vk::str(i + 1); key("POLGRP" + s, p.m.group[i] + 1); key("POLNAME" + s, p.m.names[i]); key("POLZERO" + s, p.m.off[i]); key("POLSCAL" + s, p.m.scale[i]); }
  key("POLNGRP", (int)p.m.degree.size());
  for (size_t i = 0; i < p.m.degree.size(); ++i) key("POLDEG" + vk::str(i + 1), p.m.degree[i]);
  key("PSF_SAMP", p.samp); key("PSFNAXIS", 3); key("PSFAXIS1", p.size); key("PSFAXIS2", p.height); key("PSFAXIS3", p.axis3 < 0 ? (int)n : p.axis3);
  if (p.rows) f.column(1, d);
  return c;
}
static std::shared_ptr<Psf> read(const std::string& f, bool* refused, int hdu = 1) {
  *refused = false;
  try { return PsfPluginConfig::readPsf(f, hdu); } catch (const std::exception&) { *refused = true; return nullptr; }
}
VK_SUITE(psfex) {
  Scratch dir;
  for (auto& m : models(2, r.thorough() ? 3 : 2)) for (int size = 1; size <= 5; size += 2) {
    if (m.degree.size() == 0 && m.group.size()) continue;
    if (size == 1 && terms(m).size() == 1) continue;   // a scalar column
    if (!r.next()) continue;
    r.desc([&] { return text(m) + " size " + vk::str(size); });
    r.guarded("psfex", [&] {
      PsfEx p; p.m = m; p.size = p.height = size;
      auto c = writePsfEx(dir("p.psf"), p);
      bool bad; auto got = read(dir("p.psf"), &bad);
      r.require(!bad && got, "psfex-read", [] { return std::string("not read"); });
      r.require(got->getPixelSampling() == .75 && got->getWidth() == size && got->getHeight() == size && got->getComponents() == m.names, "psfex-description", [] { return std::string("description"); });
      for (double a : {1., 5., 11.}) { std::vector<double> at; for (size_t i = 0; i < m.group.size(); ++i) at.push_back(a + i * 2); same(r, "psfex-value", *got->getPsf(at), expected(m, c, at), expected(m, c, at, true)); }
      r.transition(); r.nontrivial(c.size() > 1); r.see(vk::hashStr(text(m)) + size);
    });
  }
  // faulty files are refused
  PsfEx base; base.m.group = {0, 0}; base.m.degree = {1}; base.m.off = {1, 2}; base.m.scale = {1, 2}; base.m.names = {"X_IMAGE", "Y_IMAGE"};
  std::vector<std::pair<std::string, PsfEx>> faults;
  auto add = [&](const std::string& n, std::function<void(PsfEx&)> f) { PsfEx p = base; f(p); faults.push_back({n, p}); };
  for (auto k : {"POLNAXIS", "POLGRP1", "POLGRP2", "POLNAME1", "POLZERO2", "POLSCAL1", "POLNGRP", "POLDEG1", "PSF_SAMP", "PSFAXIS1", "PSFAXIS2", "PSFAXIS3"}) add(std::string("without ") + k, [=](PsfEx& p) { p.drop = k; });
  for (int n : {0, 1, 2, 4, 5}) add(vk::str(n) + " terms announced", [=](PsfEx& p) { p.axis3 = n; });
  for (int n : {1, 9, 18, 26}) add(vk::str(n) + " values stored", [=](PsfEx& p) { p.stored = n; });
  add("no rows", [](PsfEx& p) { p.rows = 0; });
  for (int g : {-3, -2, -1, 1, 5}) add("group " + vk::str(g + 1), [=](PsfEx& p) { p.m.group = {0, 0}; p.drop = ""; p.m.group[1] = g; });
  add("even", [](PsfEx& p) { p.size = p.height = 4; });
  add("not square", [](PsfEx& p) { p.height = 5; });
  add("unknown component", [](PsfEx& p) { p.m.names[1] = "FLUX"; });
  for (auto& f : faults) {
    if (!r.next()) continue;
    r.desc([&] { return f.first; });
    r.guarded("psfex", [&] {
      // the group numbers are written as given but the terms are those of the sound model
      PsfEx p = f.second; auto g = p.m.group; if (g[1] != 0) { p.axis3 = 3; p.stored = 27; }
      {
        PsfEx q = p; q.m.group = {0, 0};
        if (g[1] != 0) q.drop = "POLGRP2";
        writePsfEx(dir("f.psf"), q);
        if (g[1] != 0) { fitsfile* ff; int s = 0, h, v = g[1] + 1; fits_open_file(&ff, dir("f.psf").c_str(), READWRITE, &s); fits_movabs_hdu(ff, 2, &h, &s); fits_write_key(ff, TINT, "POLGRP2", &v, nullptr, &s); fits_close_file(ff, &s); if (s) abort(); }
      }
      bool bad; read(dir("f.psf"), &bad);
      r.require(bad, "psfex-faulty", [] { return std::string("accepted"); });
      r.transition(); r.nontrivial(); r.see(vk::hashStr(f.first));
    });
  }
}
VK_SUITE(images) {
  Scratch dir;
  for (int w = 1; w <= 5; ++w) for (int h = 1; h <= 5; ++h) for (int samp = 0; samp < 3; ++samp) for (int hdu = 1; hdu <= 4; ++hdu) {
    if (!r.next()) continue;
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + (samp ? " sampling " + vk::str(samp * .5) : std::string()) + " in HDU " + vk::str(hdu); });
    r.guarded("image", [&] {
      {
        Fits f(dir("i.fits"));
        for (int k = 1; k <= 3; ++k) { std::vector<float> d; int W = k == hdu ? w : 3, H = k == hdu ? h : 3; for (int p = 0; p < W * H; ++p) d.push_back(k * 100 + p * p + 1); f.image(W, H, d); if (k == hdu && samp) f.key("SAMPLING", samp * .5); }
      }
      bool bad; auto got = read(dir("i.fits"), &bad, hdu);
      r.require(bad == (w != h || hdu > 3), "image-read", [&] { return std::string(bad ? "refused" : "accepted"); });
      if (bad) return;
      r.require(got->getPixelSampling() == (samp ? samp * .5 : 1.) && got->getWidth() == w && got->getHeight() == h && got->getComponents().empty(), "image-description", [] { return std::string("description"); });
      std::vector<double> want; for (int p = 0; p < w * h; ++p) want.push_back(hdu * 100 + p * p + 1);
      same(r, "image-value", *got->getPsf({}), want);
      r.transition(); r.nontrivial(w > 1); r.see(w * 100 + hdu * 10 + samp);
    });
  }
  for (int k = 0; k < 6; ++k) {
    if (!r.next()) continue;
    r.guarded("none", [&] {
      const char* n[] = {"NOPSF", "nopsf", "/some/where/NoPsf", "", "absent.fits", "NOPSF.fits"};
      bool bad; auto p = read(n[k], &bad);
      r.require(!p && bad == (k > 2), "no-psf", [&] { return std::string(n[k]) + (bad ? " refused" : " accepted"); });
    });
  }
}
VK_SUITE(stack) {
  Scratch dir;
  for (int size = 1; size <= 5; size += 2) for (int cols = 1; cols <= 3; ++cols) for (int rows = 1; rows <= 2; ++rows) for (int perm = 0; perm < 3; ++perm) for (int old = 0; old < 2; ++old) for (int fault = 0; fault < 12; ++fault) {
    if (!r.next()) continue;
    r.desc([=] { return vk::str(cols) + "x" + vk::str(rows) + " PSFs of " + vk::str(size) + ", order " + vk::str(perm) + (old ? ", old names" : "") + ", fault " + vk::str(fault); });
    r.guarded("stack", [&] {
      int W = cols * (size + 1), H = rows * (size + 2), n = cols * rows, step = perm == 0 ? 1 : perm == 1 ? n - 1 : n % 5 ? 5 : 1;
      if (step == 0) step = 1;
      std::vector<float> d; for (int p = 0; p < W * H; ++p) d.push_back(1 + (p * 37) % 1009);
      std::vector<float> gx, gy, x, y;
      for (int k = 0; k < n; ++k) { int j = perm == 1 ? n - 1 - k : k * step % n; int c = j % cols, w = j / cols; gx.push_back(c * (size + 1) + size / 2 + 1); gy.push_back(w * (size + 2) + size / 2 + 2); x.push_back(10 + c * 7 + w); y.push_back(20 + w * 9 - c * 2); }
      if (perm == 2 && n > 1) std::set<float>(gx.begin(), gx.end());
      auto wgx = gx, wgy = gy;
      if (fault == 1) wgx[0] = size / 2; if (fault == 2) wgy[n - 1] = size / 2; if (fault == 3) wgx[n - 1] = W - size / 2 + 1; if (fault == 4) wgy[0] = H - size / 2 + 1;
      {
        Fits f(dir("s.fits"));
        if (fault == 5) f.none(), f.image(W, H, d); else if (fault == 6) f.none(); else { f.none(); f.image(W, H, d); }
        if (fault != 6) { if (fault != 7) f.key("STMPSIZE", fault == 8 ? size + 1 : size); if (perm != 1) f.key("SAMPLING", .25); }
        if (fault != 9) {
          f.table("POS", {{old ? "X_CENTER" : fault == 10 ? "GRIDQ" : "GRIDX", "1E"}, {old ? "Y_CENTER" : "GRIDY", "1E"}, {"RA", "1E"}, {"DEC", "1E"}, {fault == 11 ? "XX" : "X", "1E"}, {"Y", "1E"}}, n);
          f.column(1, wgx); f.column(2, wgy); f.column(3, x); f.column(4, y); f.column(5, x); f.column(6, y);
        }
      }
      bool sound = fault == 0 || fault == 5 || (fault == 10 && old);
      bool bad; auto got = read(dir("s.fits"), &bad);
      r.require(bad == !sound, "stack-read", [&] { return std::string(bad ? "refused" : "accepted"); });
      r.see(fault * 2 + bad);
      if (bad) return;
      r.require(got->getWidth() == size && got->getHeight() == size && got->getPixelSampling() == (perm != 1 ? .25 : 1) && got->getComponents() == std::vector<std::string>({"X_IMAGE", "Y_IMAGE"}), "stack-description", [] { return std::string("description"); });
      for (int qx = 0; qx < 36; qx += r.thorough() ? 2 : 5) for (int qy = 8; qy < 36; qy += r.thorough() ? 3 : 7) {
        int best = 0; double bd = 1e30;
        for (int k = 0; k < n; ++k) { double dd = (qx - x[k]) * (qx - x[k]) + (qy - y[k]) * (qy - y[k]); if (dd < bd) { bd = dd; best = k; } }
        std::vector<double> want;
        for (int j = 0; j < size; ++j) for (int i = 0; i < size; ++i) want.push_back(d[(int)(gy[best] - 1 - size / 2 + j) * W + (int)(gx[best] - 1 - size / 2 + i)]);
        same(r, "stack-value", *got->getPsf({(double)qx, (double)qy}), want); r.transition();
      }
      r.nontrivial(n > 1);
    });
  }
}
VK_SUITE(gaussian) {
  for (double fwhm : {.5, 1., 1.7, 2., 3.5, 6.}) for (double ps : {.25, .4, .5, 1., 2.}) {
    if (!r.next()) continue;
    r.desc([=] { return "FWHM " + vk::str(fwhm) + " sampling " + vk::str(ps); });
    r.guarded("gaussian", [&] {
      auto p = PsfPluginConfig::generateGaussianPsf(fwhm, ps);
      auto im = p->getPsf({});
      int n = p->getWidth(), c = n / 2;
      r.require(p->getPixelSampling() == (float)ps && n % 2 == 1 && p->getHeight() == n && c * ps >= 3 * fwhm, "gaussian-size", [&] { return "size " + vk::str(n); });
      double sum = 0; for (auto v : im->getData()) sum += v;
      r.require(std::fabs(sum - 1) < 1e-4, "gaussian-sum", [&] { return "sum " + vk::str(sum); });
      double s2 = std::pow(fwhm / 2.355 / ps, 2), top = im->getValue(c, c);
      for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) { double w = top * std::exp(-((x - c) * (x - c) + (y - c) * (y - c)) / (2 * s2)); r.require(std::fabs(im->getValue(x, y) - w) < 1e-4 * top, "gaussian-profile", [&] { return vk::str(im->getValue(x, y)) + " instead of " + vk::str(w); }); }
      r.transition(); r.nontrivial(); r.see(n);
    });
  }
  Scratch dir; { Fits f(dir("i.fits")); f.image(1, 1, {4.f}); }
  static long id = 500;
  for (int file = 0; file < 4; ++file) for (int fwhm = 0; fwhm < 2; ++fwhm) for (int samp = 0; samp < 2; ++samp) {
    if (!r.next()) continue;
    r.desc([=] { return "options file " + vk::str(file) + " fwhm " + vk::str(fwhm) + " sampling " + vk::str(samp); });
    r.guarded("options", [&] {
      auto& m = Euclid::Configuration::ConfigManager::getInstance(++id);
      m.registerConfiguration<PsfPluginConfig>(); m.closeRegistration();
      std::map<std::string, boost::program_options::variable_value> v;
      if (file) v["psf-filename"] = boost::program_options::variable_value(boost::any(std::string(file == 1 ? dir("i.fits") : file == 2 ? "nopsf" : dir("none.fits"))), false);
      if (fwhm) v["psf-fwhm"] = boost::program_options::variable_value(boost::any(2.), false);
      if (samp) v["psf-pixel-sampling"] = boost::program_options::variable_value(boost::any(.5), false);
      bool bad = false; try { m.initialize(v); } catch (const std::exception&) { bad = true; }
      r.require(bad == (file == 3 || (!file && fwhm && !samp)), "options", [&] { return std::string(bad ? "refused" : "accepted"); });
      if (bad) return;
      auto p = m.getConfiguration<PsfPluginConfig>().getPsf();
      int want = file == 1 ? 1 : file == 0 && fwhm ? int(2. / .5 + 1) * 6 + 1 : 0;
      r.require((p ? p->getWidth() : 0) == want, "options-psf", [&] { return "size " + vk::str(p ? p->getWidth() : 0); });
      r.transition();
    });
  }
}
VK_SUITE(tasks) {
  struct Model m; 
  auto comps = [&](int sel) { Model q; static const char* all[] = {"X_IMAGE", "Y_IMAGE", "XWIN_IMAGE", "YWIN_IMAGE", "XPEAK_IMAGE", "YPEAK_IMAGE", "XMODEL_IMAGE", "YMODEL_IMAGE"}; q.names = {all[sel % 8], all[sel / 8]}; q.group = {0, 0}; q.degree = {1}; q.off = {3, -4}; q.scale = {5, 8}; return q; };
  for (int sel = 0; sel < 64; ++sel) for (int inst = 0; inst < 2; ++inst) for (int pos = 0; pos < 3; ++pos) for (int norm = 0; norm < 2; ++norm) for (int check = 0; check < 2; ++check) {
    if (!r.next()) continue;
    r.desc([=] { return "components " + vk::str(sel) + " frame " + vk::str(inst) + " position " + vk::str(pos) + (norm ? " normalised" : "") + (check ? " with check image" : ""); });
    r.guarded("task", [&] {
      m = comps(sel);
      auto c = coefficients(3, 9);
      std::vector<VariablePsf::Component> comp; for (int i = 0; i < 2; ++i) comp.push_back({m.names[i], 0, m.off[i], m.scale[i]});
      auto p = std::make_shared<VariablePsf>(.5, comp, m.degree, c);
      checkimages::psf.clear(); if (check) checkimages::psf[inst] = Im::create(60, 50);
      int lx[] = {0, 7, 20}, ly[] = {4, 11, 0}, w[] = {5, 8, 11}, h[] = {4, 9, 2};
      SimpleSourceGroup g; auto s = std::make_unique<SimpleSource>();
      s->setIndexedProperty<MeasurementFramePixelCentroid>(inst, 12.5 + pos, 30. - pos * 3); s->setIndexedProperty<MeasurementFramePixelCentroid>(1 - inst, 1., 2.);
      g.setIndexedProperty<MeasurementFrameGroupRectangle>(inst, PixelCoordinate(lx[pos], ly[pos]), PixelCoordinate(lx[pos] + w[pos] - 1, ly[pos] + h[pos] - 1));
      g.setIndexedProperty<MeasurementFrameGroupRectangle>(1 - inst, PixelCoordinate(1, 1), PixelCoordinate(2, 2));
      auto val = [&](bool group) { std::vector<double> at; for (auto& n : m.names) at.push_back(n[0] == 'X' ? group ? lx[pos] + w[pos] / 2. : 12.5 + pos : group ? ly[pos] + h[pos] / 2. : 30. - pos * 3); return at; };
      auto want = [&](bool group, bool nrm) { auto e = expected(m, c, val(group)); double sum = 0; for (auto v : e) sum += v; if (nrm) for (auto& v : e) v /= sum; return e; };
      SourcePsfTask(inst, p, norm).computeProperties(*s);
      auto& sp = s->getProperty<SourcePsfProperty>(inst);
      r.require(sp.getPixelSampling() == .5, "source-sampling", [] { return std::string("sampling"); });
      same(r, "source-psf", *sp.getPsf(), want(false, norm));
      if (check) { double sum = 0; for (auto v : checkimages::psf[inst]->getData()) sum += v; double all = 0; for (auto v : want(false, norm)) all += v; (void) all; r.require(sum != 0, "source-check-image", [] { return std::string("nothing in the check image"); }); checkimages::psf[inst] = Im::create(60, 50); }
      PsfTask(inst, p).computeProperties(g);
      same(r, "group-psf", *g.getProperty<PsfProperty>(inst).getPsf(), want(true, true));
      r.require(g.getProperty<PsfProperty>(inst).getPixelSampling() == .5, "group-sampling", [] { return std::string("sampling"); });
      g.addSource(std::move(s));
      PsfTask(inst, p).computeProperties(g);
      same(r, "group-psf", *g.getProperty<PsfProperty>(inst).getPsf(), want(true, true));
      if (check) { double sum = 0; for (auto v : checkimages::psf[inst]->getData()) sum += v; r.require(sum != 0, "group-check-image", [] { return std::string("nothing in the check image"); }); }
      SimpleSource n; SimpleSourceGroup gn;
      SourcePsfTask(inst, nullptr, norm).computeProperties(n); PsfTask(inst, nullptr).computeProperties(gn);
      r.require(n.getProperty<SourcePsfProperty>(inst).getPixelSampling() == 1 && !n.getProperty<SourcePsfProperty>(inst).getPsf() && gn.getProperty<PsfProperty>(inst).getPixelSampling() == 1 && !gn.getProperty<PsfProperty>(inst).getPsf(), "without-psf", [] { return std::string("a PSF out of nothing"); });
      r.transition(); r.nontrivial(); r.see(sel * 3 + pos);
    });
  }
}
