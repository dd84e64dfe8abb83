// Coordinates of an image against the definition of the FITS world coordinate system, computed directly.
#include "vkit.h"
#include "common/fitsbytes.h"
#include "common/scratch.h"
#include "SEFramework/CoordinateSystem/WCS.h"
#include "SEFramework/FITS/FitsImageSource.h"
#include <boost/filesystem.hpp>
#include <sanitizer/asan_interface.h>
#include <wcslib/wcs.h>
using namespace SourceXtractor;
using vk::str;
// The library is not instrumented: what it is given has to be large enough for the axes of the coordinate system.
static std::string g_short;
extern "C" {
int __real_wcsp2s(struct wcsprm*, int, int, const double*, double*, double*, double*, double*, int*);
int __real_wcss2p(struct wcsprm*, int, int, const double*, double*, double*, double*, double*, int*);
static bool tooShort(struct wcsprm* w, int ncoord, int nelem, const void* a, const void* b, const void* c) {
  size_t n = sizeof(double) * ((ncoord - 1) * nelem + w->naxis);
  for (const void* p : {a, b, c}) if (__asan_region_is_poisoned(const_cast<void*>(p), n)) { g_short = "arrays of less than " + std::to_string(w->naxis) + " elements for " + std::to_string(w->naxis) + " axes"; return true; }
  return false;
}
int __wrap_wcsp2s(struct wcsprm* w, int n, int e, const double* p, double* i, double* phi, double* th, double* wo, int* st) {
  if (tooShort(w, n, e, p, i, wo)) return WCSERR_BAD_PIX;
  return __real_wcsp2s(w, n, e, p, i, phi, th, wo, st);
}
int __wrap_wcss2p(struct wcsprm* w, int n, int e, const double* wo, double* phi, double* th, double* i, double* p, int* st) {
  if (tooShort(w, n, e, p, i, wo)) return WCSERR_BAD_WORLD;
  return __real_wcss2p(w, n, e, wo, phi, th, i, p, st);
}
}
namespace {
typedef long double L;
const L D = 3.14159265358979323846264338327950288L / 180;
Scratch& dir() { static Scratch s; return s; }
struct Header {
  std::string proj;      // TAN SIN ZEA STG ARC TPV SIP, or LIN
  int matrix, ref, pix; bool swapped, cube;
  double cd[2][2];
  double crval[2], crpix[2];
  std::vector<std::string> cards;
  std::string what() const { return proj + ", matrix " + str(matrix) + ", CRVAL " + str(crval[0]) + "," + str(crval[1]) + ", CRPIX " + str(crpix[0]) + "," + str(crpix[1]) + (swapped ? ", declination first" : "") + (cube ? ", data cube" : ""); }
};
std::string n(const char* k, double v) { char b[40]; snprintf(b, 40, "%.14G", v); std::string s = b; if (s.find_first_of(".E") == std::string::npos) s += "."; return fb::num(k, s); }
std::string s(const char* k, const std::string& v) { return fb::key(k) + "'" + v + "'"; }
const double PV[2][8] = {{0.001, 1.02, 0.01, 0, 0.02, -0.01, 0.03, 0.005}, {-0.002, 0.99, -0.02, 0, 0.01, 0.03, -0.02, 0.004}};   // 0 1 2 3 4 5 6 7: 1 x y r xx xy yy xxx
const double SA[3] = {1e-4, -2e-4, 3e-6}, SB[3] = {-1e-4, 5e-5, -2e-6};   // u^2, uv, v^3
Header make(const std::string& proj, int matrix, int ref, int pix, bool swapped, bool cube) {
  Header h;
  h.proj = proj; h.matrix = matrix; h.ref = ref; h.pix = pix; h.swapped = swapped; h.cube = cube;
  static const double rv[6][2] = {{150.25, 2.5}, {0.001, -45}, {359.999, 89.9}, {10, -90}, {180, 90}, {0, 0}}, px[3][2] = {{1, 1}, {5.5, -3.25}, {1000.5, 2000.25}};
  for (int i = 0; i < 2; ++i) { h.crval[i] = rv[ref][i]; h.crpix[i] = px[pix][i]; }
  double sc = 0.125;
  auto& c = h.cards;
  bool lin = proj == "LIN";
  std::string suffix = proj == "SIP" ? "TAN-SIP" : proj;
  std::string t[2] = {lin ? "LINEAR" : "RA---" + suffix, lin ? "LINEAR" : "DEC--" + suffix};
  // axis i of the pixels, world coordinate w(i)
  auto w = [&](int i) { return swapped ? 1 - i : i; };
  for (int i = 0; i < 2; ++i) {
    std::string k = std::to_string(i + 1);
    c.push_back(s(("CTYPE" + k).c_str(), t[w(i)]));
    c.push_back(s(("CUNIT" + k).c_str(), "deg"));
    c.push_back(n(("CRVAL" + k).c_str(), h.crval[w(i)]));
    c.push_back(n(("CRPIX" + k).c_str(), h.crpix[i]));
  }
  // rows: longitude and latitude
  double a = 30 * (double)D;
  double m[5][2][2] = {{{-sc, 0}, {0, sc}}, {{sc * 0.8, -sc * 0.6}, {sc * 0.6, sc * 0.8}}, {{-sc, 0.25 * sc}, {0.125 * sc, 2 * sc}}, {{-sc * std::cos(a), -sc * std::sin(a)}, {-sc * std::sin(a), sc * std::cos(a)}}, {{0, sc}, {sc, 0}}};
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) h.cd[i][j] = m[matrix][i][j];
  // wcslib applies sequent distortions in front of CDELT: TPV is defined with a CD matrix
  bool cd = matrix == 1 || matrix == 4 || proj == "TPV";
  if (proj == "TPV") matrix = 1;
  auto wr = [&](int i) -> double* { return h.cd[w(i)]; };   // row of world axis i in the file
  if (matrix == 0) { c.push_back(n("CDELT1", wr(0)[0] ? wr(0)[0] : 1)); c.push_back(n("CDELT2", wr(1)[1] ? wr(1)[1] : 1)); }
  if (cd) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) c.push_back(n(("CD" + std::to_string(i + 1) + "_" + std::to_string(j + 1)).c_str(), wr(i)[j]));
  if (matrix == 2) { c.push_back(n("CDELT1", 0.5)); c.push_back(n("CDELT2", -0.25)); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) c.push_back(n(("PC" + std::to_string(i + 1) + "_" + std::to_string(j + 1)).c_str(), wr(i)[j] / (i ? -0.25 : 0.5))); }
  if (matrix == 3) { c.push_back(n("CDELT1", -sc)); c.push_back(n("CDELT2", sc)); c.push_back(n("CROTA2", 30)); }
  if (proj == "TPV") for (int i = 0; i < 2; ++i) for (int k = 0; k < 8; ++k) if (PV[w(i)][k] != 0) c.push_back(n(("PV" + std::to_string(i + 1) + "_" + std::to_string(k)).c_str(), PV[w(i)][k]));
  if (proj == "SIP") {
    c.push_back(fb::num("A_ORDER", "3")); c.push_back(fb::num("B_ORDER", "3"));
    c.push_back(n("A_2_0", SA[0])); c.push_back(n("A_1_1", SA[1])); c.push_back(n("A_0_3", SA[2]));
    c.push_back(n("B_2_0", SB[0])); c.push_back(n("B_1_1", SB[1])); c.push_back(n("B_0_3", SB[2]));
  }
  if (cube) { c.push_back(s("CTYPE3", "WAVE")); c.push_back(n("CRVAL3", 5e-7)); c.push_back(n("CRPIX3", 1)); c.push_back(n(cd ? "CD3_3" : "CDELT3", 1e-9)); }
  return h;
}
WorldCoordinate world(const Header& h, double px, double py) {
  L u = px + 1 - h.crpix[0], v = py + 1 - h.crpix[1];
  if (h.proj == "SIP") { L a = u + SA[0] * u * u + SA[1] * u * v + SA[2] * v * v * v, b = v + SB[0] * u * u + SB[1] * u * v + SB[2] * v * v * v; u = a; v = b; }
  L x = h.cd[0][0] * u + h.cd[0][1] * v, y = h.cd[1][0] * u + h.cd[1][1] * v;
  if (h.proj == "LIN") return {(double)(h.crval[0] + x), (double)(h.crval[1] + y)};
  if (h.proj == "TPV") {
    auto p = [](const double* k, L a, L b) { return k[0] + k[1] * a + k[2] * b + k[3] * std::sqrt(a * a + b * b) + k[4] * a * a + k[5] * a * b + k[6] * b * b + k[7] * a * a * a; };
    L a = p(PV[0], x, y), b = p(PV[1], y, x);
    x = a; y = b;
  }
  L R = std::sqrt(x * x + y * y), phi = std::atan2(x, -y), th;
  if (h.proj == "SIN") th = std::acos(R * D); else if (h.proj == "ZEA") th = 90 * D - 2 * std::asin(R * D / 2); else if (h.proj == "STG") th = 90 * D - 2 * std::atan(R * D / 2); else if (h.proj == "ARC") th = (90 - R) * D;
  else th = std::atan2((L)1, R * D);
  L a0 = h.crval[0] * D, d0 = h.crval[1] * D, pp = h.crval[1] >= 90 ? 0 : 180 * D;
  L al = a0 + std::atan2(-std::cos(th) * std::sin(phi - pp), std::sin(th) * std::cos(d0) - std::cos(th) * std::sin(d0) * std::cos(phi - pp));
  L de = std::asin(std::max((L)-1, std::min((L)1, std::sin(th) * std::sin(d0) + std::cos(th) * std::cos(d0) * std::cos(phi - pp))));
  return {(double)(al / D), (double)(de / D)};
}
double apart(const Header& h, WorldCoordinate a, WorldCoordinate b) {
  double da = a.m_alpha - b.m_alpha;
  if (h.proj == "LIN") return std::hypot(da, a.m_delta - b.m_delta);
  L x = std::cos(a.m_delta * D) * std::cos(a.m_alpha * D) - std::cos(b.m_delta * D) * std::cos(b.m_alpha * D), y = std::cos(a.m_delta * D) * std::sin(a.m_alpha * D) - std::cos(b.m_delta * D) * std::sin(b.m_alpha * D), z = std::sin(a.m_delta * D) - std::sin(b.m_delta * D);
  return std::sqrt(x * x + y * y + z * z) / D;
}
struct Shifted { int dx, dy; };
void compare(vk::Run& r, const Header& h, const CoordinateSystem& w, const char* key, double tol, int dx = 0, int dy = 0) {
  for (int j = -2; j <= 2; ++j) for (int i = -2; i <= 2; ++i) {
    double x = h.crpix[0] - 1 + i * 3.75, y = h.crpix[1] - 1 + j * 2.5;
    r.transition();
    auto e = world(h, x, y);
    WorldCoordinate g;
    try { g = w.imageToWorld({x - dx, y - dy}); } catch (InvalidCoordinatesException& ex) { r.fail(std::string(key) + ".refused", "at " + str(x) + "," + str(y) + ": " + ex.what() + " " + g_short); return; }
    double d = apart(h, g, e);
    r.require(d < tol, (std::string(key) + ".world").c_str(), [&] { return "pixel " + str(x) + "," + str(y) + " is at " + str(g.m_alpha) + "," + str(g.m_delta) + " instead of " + str(e.m_alpha) + "," + str(e.m_delta); });
    auto b = w.worldToImage(e);
    // declination close to a pole: the right ascension of the reference point is not needed to be exact
    r.require(std::hypot(b.m_x + dx - x, b.m_y + dy - y) < std::max(1e-6, tol * 50), (std::string(key) + ".image").c_str(), [&] { return "position " + str(e.m_alpha) + "," + str(e.m_delta) + " is at pixel " + str(b.m_x) + "," + str(b.m_y) + " instead of " + str(x - dx) + "," + str(y - dy) + " " + g_short; });
  }
}
}
VK_SUITE(wcs) {
  int file = 0;
  for (std::string proj : {"TAN", "SIN", "ZEA", "STG", "ARC", "TPV", "SIP", "LIN"}) for (int m = 0; m < 5; ++m) for (int ref = 0; ref < 6; ++ref) for (int pix = 0; pix < 3; ++pix) for (int swapped = 0; swapped < 2; ++swapped) for (int cube = 0; cube < 2; ++cube) {
    if (swapped && (m == 0 || m == 3)) continue;
    if ((swapped || m == 3) && proj == "LIN") continue;   // a rotation angle belongs to the latitude
    if (swapped && proj == "TPV") continue;   // the convention does not say which axis is the first
    if (cube && (proj == "TPV" || proj == "SIP")) continue;   // wcslib 8.2.2 itself dereferences a null pointer
    if (!r.next()) continue;
    Header h = make(proj, m, ref, pix, swapped, cube);
    r.desc([&] { return h.what(); });
    r.guarded("wcs.crash", [&] {
      g_short.clear();
      fb::Unit u;
      u.dims = {2, 2};
      if (cube) u.dims.push_back(2);
      u.v.assign(u.count(), 1);
      u.cards = h.cards;
      std::string f = dir()("w" + std::to_string(file++) + ".fits"), g = dir()("o" + std::to_string(file) + ".fits");
      fb::write(f, {u});
      auto src = std::make_shared<FitsImageSource>(f, 1, ImageTile::FloatImage);
      auto w = std::make_shared<WCS>(*src);
      compare(r, h, *w, "wcs", 1e-9);
      r.require(g_short.empty(), "wcs.arrays", [&] { return g_short; });
      WCS copy(*w);
      compare(r, h, copy, "copy", 1e-8);
      { WCS moved(*w); moved.addOffset(PixelCoordinate(7, -3)); if (proj != "SIP") compare(r, h, moved, "offset", 1e-8, 7, -3); }
      if (proj != "LIN") {
        // the opposite side of the sky has no pixel
        auto b = w->worldToImage({h.crval[0] + 180, -h.crval[1]});
        bool finite = std::isfinite(b.m_x) && std::isfinite(b.m_y);
        r.require(!finite || proj == "ZEA" || proj == "STG" || proj == "ARC", "wcs.opposite", [&] { return "the opposite side is at pixel " + str(b.m_x) + "," + str(b.m_y); });
      }
      r.nontrivial();
      if (!cube && !(swapped && proj == "SIP")) {   // wcslib turns that into records that share one keyword
        { FitsImageSource out(g, 2, 2, ImageTile::FloatImage, w); }
        auto again = std::make_shared<FitsImageSource>(g, 1, ImageTile::FloatImage);
        WCS back(*again);
        compare(r, h, back, "written", 1e-8);
        boost::filesystem::remove(g);
      }
      boost::filesystem::remove(f);
    });
  }
}
