// The real program fits models to images rendered from known parameters by independent code.
#include "e2e/scenes.h"
using namespace e2e;
namespace {
const double PSF_S = 1.4;
struct Src { double x, y, flux, R, q, th, n, bt; };   // n = 0: a point; bt: part of the flux in a point at the same position
struct Frame { int w, h; double a[4], t[2], scale; };    // image = a * reference + t (pixels from 0); its values are multiplied by scale
const Frame REF{52, 44, {1, 0, 0, 1}, {0, 0}, 1};
double sersicK(double n) { return 2 * n - 1. / 3 + 4 / (405 * n) + 46 / (25515 * n * n) + 131 / (1148175 * n * n * n); }
Hdu psf(double sum = 1) { Hdu p(21, 21); add(p, {10, 10, 1, PSF_S}); double s = 0; for (double v : p.d) s += v; for (double& v : p.d) v *= sum / s; p.cards.push_back(card("SAMPLING", "1.0")); return p; }
// flux inside of every pixel, convolved with the psf
Hdu render(const Frame& f, const std::vector<Src>& src, double pedestal = 0) {
  Hdu u(f.w, f.h), p = psf();
  double det = f.a[0] * f.a[3] - f.a[1] * f.a[2];
  for (auto& s : src) {
    double cx = f.a[0] * s.x + f.a[1] * s.y + f.t[0], cy = f.a[2] * s.x + f.a[3] * s.y + f.t[1];
    double point = s.n == 0 ? 1 : s.bt;
    if (point > 0) {
      Hdu g(f.w, f.h);
      add(g, {cx, cy, s.flux * point, PSF_S});
      for (size_t i = 0; i < u.d.size(); ++i) u.d[i] += g.d[i];
    }
    if (s.n == 0) continue;
    double k = sersicK(s.n), i0 = s.flux * (1 - s.bt) / (2 * M_PI * s.n * std::pow(k, -2 * s.n) * std::tgamma(2 * s.n) * s.R * s.R * s.q) / std::fabs(det);
    Hdu e(f.w + 24, f.h + 24);
    for (int y = 0; y < e.h; ++y) for (int x = 0; x < e.w; ++x) {
      double d = std::hypot(x - 12 - cx, y - 12 - cy);
      if (d > 30) continue;
      int m = d < 2 ? 31 : d < 6 ? 9 : 3;
      double v = 0;
      for (int j = 0; j < m; ++j) for (int i = 0; i < m; ++i) {
        double px = x - 12 + (i + .5) / m - .5 - f.t[0], py = y - 12 + (j + .5) / m - .5 - f.t[1];
        double rx = (f.a[3] * px - f.a[1] * py) / det - s.x, ry = (-f.a[2] * px + f.a[0] * py) / det - s.y;
        double c = cos(s.th), sn = sin(s.th), X = c * rx + sn * ry, Y = (-sn * rx + c * ry) / s.q;
        v += exp(-k * std::pow(std::hypot(X, Y) / s.R, 1 / s.n));
      }
      e.at(x, y) = i0 * v / (m * m);
    }
    for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) {
      double v = 0;
      for (int j = 0; j < 21; ++j) for (int i = 0; i < 21; ++i) v += p.at(i, j) * e.at(x + 2 + i, y + 2 + j);
      u.at(x, y) += v;
    }
  }
  for (auto& v : u.d) v = (float)((v + pedestal) * f.scale);
  return u;
}
// reference: crpix (24, 20) counted from 0
const double CDS[2][4] = {{-1e-4, 0, 0, 1e-4}, {-1e-4, 3e-5, 2e-5, 8e-5}};
std::vector<std::string> wcs(const Frame& f, const double* cd = CDS[0]) {
  double det = f.a[0] * f.a[3] - f.a[1] * f.a[2];
  double i00 = f.a[3] / det, i01 = -f.a[1] / det, i10 = -f.a[2] / det, i11 = f.a[0] / det;
  double cx = f.a[0] * 24 + f.a[1] * 20 + f.t[0], cy = f.a[2] * 24 + f.a[3] * 20 + f.t[1];
  return {scard("CTYPE1", "RA---TAN"), scard("CTYPE2", "DEC--TAN"), card("CRPIX1", dstr(cx + 1)), card("CRPIX2", dstr(cy + 1)), card("CRVAL1", "150.25"), card("CRVAL2", "20.5"),
          card("CD1_1", dstr(cd[0] * i00 + cd[1] * i10)), card("CD1_2", dstr(cd[0] * i01 + cd[1] * i11)), card("CD2_1", dstr(cd[2] * i00 + cd[3] * i10)), card("CD2_2", dstr(cd[2] * i01 + cd[3] * i11))};
}
struct Sky {
  double ra, dec;   // degrees
  Sky(const double* cd, double x, double y) {   // pixels counted from 1
    double xi = (cd[0] * (x - 25) + cd[1] * (y - 21)) * M_PI / 180, eta = (cd[2] * (x - 25) + cd[3] * (y - 21)) * M_PI / 180, d0 = 20.5 * M_PI / 180;
    ra = 150.25 + atan2(xi, cos(d0) - eta * sin(d0)) * 180 / M_PI;
    dec = atan2(sin(d0) + eta * cos(d0), std::hypot(xi, cos(d0) - eta * sin(d0))) * 180 / M_PI;
  }
};
// towards east and north on the tangent plane at the first point, degrees
void offset(const Sky& a, const Sky& b, double& e, double& n) {
  double d1 = a.dec * M_PI / 180, d2 = b.dec * M_PI / 180, da = (b.ra - a.ra) * M_PI / 180, c = sin(d1) * sin(d2) + cos(d1) * cos(d2) * cos(da);
  e = cos(d2) * sin(da) / c * 180 / M_PI;
  n = (cos(d1) * sin(d2) - sin(d1) * cos(d2) * cos(da)) / c * 180 / M_PI;
}
struct Kind { const char* name; double n, R, q, th, bt, pedestal; const char* py; double flux_tol, radius_tol, shape_tol; };
const char* POS = "x, y = get_pos_parameters()\nflux = get_flux_parameter()\n";
const char* SHAPE = "radius = FreeParameter(lambda o: o.radius, Range(lambda v, o: (.01 * v, 100 * v), RangeType.EXPONENTIAL))\nangle = FreeParameter(lambda o: o.angle, Range((-6.3, 6.3), RangeType.LINEAR))\nratio = FreeParameter(lambda o: 0.8, Range((0.05, 1.), RangeType.LINEAR))\n";
const Kind KINDS[] = {
  {"point", 0, 0, 1, 0, 0, 0, "add_model(G, PointSourceModel(x, y, flux))\n", 0.004, 0, 0},
  {"exponential", 1, 3, 0.6, 0.5, 0, 0, "add_model(G, ExponentialModel(x, y, flux, radius, ratio, angle))\n", 0.03, 0.04, 0.03},
  {"sersic with fixed index", 1, 3.5, 0.5, -0.7, 0, 0, "add_model(G, SersicModel(x, y, flux, radius, ratio, angle, 1.0))\n", 0.03, 0.04, 0.03},
  {"sersic with free index", 1.5, 3, 0.7, 1.2, 0, 0, "n = FreeParameter(2.0, Range((0.6, 6.), RangeType.LINEAR))\nadd_model(G, SersicModel(x, y, flux, radius, ratio, angle, n))\nadd_output_column('mf_n', n)\n", 0.06, 0.08, 0.04},
  {"de Vaucouleurs", 4, 4, 0.6, 0.3, 0, 0, "add_model(G, DeVaucouleursModel(x, y, flux, radius, ratio, angle))\n", 0.12, 0.25, 0.06},
  {"point and exponential", 1, 4, 0.6, 0.5, 0.4, 0, "bt = FreeParameter(0.5, Range((0.01, 0.99), RangeType.LINEAR))\nfp = DependentParameter(lambda f, b: f * b, flux, bt)\nfe = DependentParameter(lambda f, b: f * (1 - b), flux, bt)\nadd_model(G, ExponentialModel(x, y, fe, radius, ratio, angle))\nadd_model(G, PointSourceModel(x, y, fp))\nadd_output_column('mf_bt', bt)\nadd_output_column('mf_fp', [fp, fe])\n", 0.05, 0.08, 0.06},
  {"point and constant", 0, 0, 1, 0, 0, 3, "add_model(G, PointSourceModel(x, y, flux))\nlevel = FreeParameter(1.0)\nadd_model(G, ConstantModel(level))\nadd_output_column('mf_level', level)\n", 0.02, 0, 0},
};
const char* WINDOWS[] = {"RECTANGLE", "SQUARE_MIN", "SQUARE_MAX", "SQUARE_AREA", "DISK_MIN", "DISK_MAX", "DISK_AREA", "ALIGNED_ELLIPSE", "ROTATED_ELLIPSE"};
const Frame FRAMES[] = {REF, {60, 50, {1, 0, 0, 1}, {6, 4}, 1}, {44, 52, {0, 1, -1, 0}, {0, 51}, 1}, {104, 88, {2, 0, 0, 2}, {.5, .5}, 1}, {64, 60, {.98, .2, -.25, .95}, {6, 14}, 1}, {52, 44, {1, 0, 0, 1}, {0, 0}, .25}};
const char* FNAME[] = {"the reference frame", "a shifted frame", "a frame turned by a quarter", "a frame with half the pixel size", "a sheared frame", "a frame with flux scale 4"};
struct Case { int kind; std::vector<int> frames; bool iterative; int window; int scene; };
void one(vk::Run& r, const Case& c) {
  const Kind& K = KINDS[c.kind];
  std::string what = std::string(K.name) + (c.iterative ? ", iterative" : ", classic") + ", window " + WINDOWS[c.window] + (c.scene == 0 ? ", one source" : c.scene == 1 ? ", one source off the pixel grid" : c.scene == 2 ? ", two sources" : ", a blend");
  for (int f : c.frames) what += std::string(", ") + FNAME[f];
  r.desc([&] { return what; });
  std::vector<Src> src;
  auto put = [&](double x, double y, double flux) { src.push_back({x, y, flux, K.R, K.q, K.th, K.n, K.bt}); };
  if (c.scene == 0) put(25, 21, 20000);
  if (c.scene == 1) put(24.37, 21.81, 20000);
  if (c.scene == 2) { put(13.2, 12.4, 20000); put(38.6, 31.3, 12000); }
  if (c.scene == 3) { put(22, 21, 20000); put(K.n ? 33.3 : 29.3, 22.4, 15000); }
  Dir d;
  Hdu det = render(REF, src);
  for (int y = 0; y < det.h; ++y) for (int x = 0; x < det.w; ++x) det.at(x, y) = (float)(det.at(x, y) + 10 + 0.5 * ripple(x, y));
  const double* cd = CDS[c.scene == 1];
  det.cards = wcs(REF, cd);
  d.fits("det.fits", {det});
  std::ostringstream py;
  py << "from sourcextractor.config import *\nimport math\nimgs = []\n";
  for (size_t i = 0; i < c.frames.size(); ++i) {
    const Frame& f = FRAMES[c.frames[i]];
    Hdu u = render(f, src, K.pedestal);
    u.cards = wcs(f, cd);
    std::string n = "m" + std::to_string(i);
    d.fits(n + ".fits", {u});
    d.fits(n + "w.fits", {Hdu(f.w, f.h, 1 * f.scale)});   // rms
    py << "imgs.append(MeasurementImage('" << n << ".fits', psf_file='psf.fits', weight_file='" << n << "w.fits', weight_type='rms', weight_absolute=True, constant_background=0., flux_scale=" << 1 / f.scale << "))\n";
  }
  d.fits("psf.fits", {psf(c.scene == 1 ? 1 : 7)});
  py << "G = MeasurementGroup(ImageGroup(images=imgs))\n" << POS << (K.n ? SHAPE : "") << K.py
     << "ra, dec = get_world_position_parameters(x, y)\nmag = DependentParameter(lambda f: -2.5 * math.log10(f) + 25, flux)\n"
     << "add_output_column('mf_x', x)\nadd_output_column('mf_y', y)\nadd_output_column('mf_flux', flux)\nadd_output_column('mf_mag', mag)\nadd_output_column('mf_ra', [ra, dec])\n";
  if (K.n) py << "add_output_column('mf_shape', [radius, ratio, angle])\nadd_output_column('mf_world', list(get_world_parameters(x, y, radius, angle, ratio)))\n";
  py << "use_iterative_fitting(" << (c.iterative ? "True" : "False") << ")\nset_max_iterations(150)\nset_deblend_factor(1.0)\nset_window_type(WindowType." << WINDOWS[c.window] << ")\n";
  d.text("c.py", py.str());
  auto x = run(d, {"--detection-image", d("det.fits"), "--python-config-file", d("c.py"), "--output-catalog-filename", d("o.cat"), "--thread-count", "0", "--detection-threshold", "20", "--rng-seed", "1", "--partition-multithreshold", "1",
    "--output-properties", "SourceIDs,PixelCentroid,FlexibleModelFitting,SourceFlags", "--check-image-residual", d("res.fits"), "--check-image-model-fitting", d("mod.fits"), "--check-image-fitting-window", d("win.fits")});
  r.require(x.ok(), "runs", [&] { return x.how() + ": " + x.output.substr(0, 600); });
  auto rows = x.rows();
  r.require(rows.size() == src.size(), "sources", [&] { return std::to_string(rows.size()) + " sources instead of " + std::to_string(src.size()); });
  auto num = [&](const std::vector<std::string>& row, const char* n, size_t i = 0) { int k = x.col(n); auto v = k < 0 ? std::vector<double>{} : numbers(row[k]); return i < v.size() ? v[i] : NAN; };
  double tol = c.scene == 3 ? 2.5 : 1;
  bool shape = K.n > 0;
  for (auto& row : rows) {
    const Src* s = &src[0];
    for (auto& t : src) if (std::hypot(t.x + 1 - num(row, "mf_x"), t.y + 1 - num(row, "mf_y")) < std::hypot(s->x + 1 - num(row, "mf_x"), s->y + 1 - num(row, "mf_y"))) s = &t;
    auto all = [&] { std::ostringstream o; o.precision(8); o << "; fitted x " << num(row, "mf_x") << " y " << num(row, "mf_y") << " flux " << num(row, "mf_flux"); if (shape) o << " radius " << num(row, "mf_shape") << " ratio " << num(row, "mf_shape", 1) << " angle " << num(row, "mf_shape", 2); o << ", true " << s->x + 1 << " " << s->y + 1 << " " << s->flux << " " << s->R << " " << s->q << " " << s->th << ", chi2 " << num(row, "fmf_reduced_chi_2") << " iterations " << num(row, "fmf_iterations"); return o.str(); };
    r.require((long)num(row, "fmf_flags") == 0, "fit-flags", [&] { return "flags " + vk::str(num(row, "fmf_flags")) + all(); });
    r.require(std::hypot(num(row, "mf_x") - s->x - 1, num(row, "mf_y") - s->y - 1) < (K.n == 4 ? 0.1 : shape ? 0.06 : 0.02) * tol, "position", [&] { return "position" + all(); });
    r.require(std::fabs(num(row, "mf_flux") / s->flux - 1) < K.flux_tol * tol, "flux", [&] { return "flux" + all(); });
    if (shape) {
      double R = num(row, "mf_shape"), q = num(row, "mf_shape", 1), th = num(row, "mf_shape", 2);
      if (q > 1) { R *= q; q = 1 / q; th += M_PI / 2; }
      r.require(std::fabs(R / s->R - 1) < K.radius_tol * tol, "radius", [&] { return "radius " + vk::str(R) + all(); });
      r.require(std::fabs(q - s->q) < K.shape_tol * tol, "ratio", [&] { return "ratio " + vk::str(q) + all(); });
      r.require(std::fabs(std::remainder(th - s->th, M_PI)) < 0.05 * tol, "angle", [&] { return "angle " + vk::str(th) + all(); });
    }
    if (K.n && x.col("mf_n") >= 0) r.require(std::fabs(num(row, "mf_n") - K.n) < 0.12 * tol, "index", [&] { return "index " + vk::str(num(row, "mf_n")) + all(); });
    // every source of a group has a level of its own: only their sum is defined
    double level = 0;
    for (auto& o : rows) if (c.scene == 3 || &o == &row) level += num(o, "mf_level");
    if (x.col("mf_level") >= 0 && c.window != 8) r.require(std::fabs(level - K.pedestal) < 0.1 * tol, "level", [&] { return "level " + vk::str(num(row, "mf_level")) + all(); });
    if (x.col("mf_bt") >= 0) {
      double b = num(row, "mf_bt"), f = num(row, "mf_flux");
      r.require(std::fabs(b - K.bt) < 0.05 * tol, "bulge", [&] { return "part in the point " + vk::str(b) + all(); });
      r.require(vk::close(num(row, "mf_fp"), f * b, 1e-12) && vk::close(num(row, "mf_fp", 1), f * (1 - b), 1e-12), "dependent", [&] { return "dependent fluxes " + vk::str(num(row, "mf_fp")) + " and " + vk::str(num(row, "mf_fp", 1)) + " of flux " + vk::str(f) + " and part " + vk::str(b); });
    }
    r.require(vk::close(num(row, "mf_mag"), -2.5 * log10(num(row, "mf_flux")) + 25, 1e-12), "dependent", [&] { return "magnitude " + vk::str(num(row, "mf_mag")) + all(); });
    Sky at(cd, num(row, "mf_x"), num(row, "mf_y"));
    r.require(std::fabs(num(row, "mf_ra") - at.ra) < 1e-8 && std::fabs(num(row, "mf_ra", 1) - at.dec) < 1e-8, "dependent", [&] { std::ostringstream o; o.precision(12); o << "world position " << num(row, "mf_ra") << "," << num(row, "mf_ra", 1) << " instead of " << at.ra << "," << at.dec << all(); return o.str(); });
    if (shape) {
      double R = num(row, "mf_shape"), q = num(row, "mf_shape", 1), th = num(row, "mf_shape", 2), A = R, B = R * q, tA = th, e, n, e2, n2;
      if (q > 1) { A = R * q; B = R; tA = th + M_PI / 2; }
      auto end = [&](double l, double t) { return Sky(cd, num(row, "mf_x") + l * cos(t), num(row, "mf_y") + l * sin(t)); };
      offset(at, end(A, tA), e, n);
      offset(at, end(B, tA + M_PI / 2), e2, n2);
      double wr = std::hypot(e, n), wa = atan2(e, n) * 180 / M_PI, wq = std::hypot(e2, n2) / wr;
      r.require(std::fabs(num(row, "mf_world", 2) / wr - 1) < 1e-5 && std::fabs(std::remainder(num(row, "mf_world", 3) - wa, 180)) < 1e-3 && num(row, "mf_world", 3) >= -90 && num(row, "mf_world", 3) < 90 && std::fabs(num(row, "mf_world", 4) - wq) < 1e-5, "world-shape",
                [&] { std::ostringstream o; o.precision(9); o << "world radius, angle and ratio " << num(row, "mf_world", 2) << " " << num(row, "mf_world", 3) << " " << num(row, "mf_world", 4) << " instead of " << wr << " " << wa << " " << wq << all(); return o.str(); });
      r.require(num(row, "mf_world") == num(row, "mf_ra") && num(row, "mf_world", 1) == num(row, "mf_ra", 1), "dependent", [&] { return "two ways to the world position differ" + all(); });
    }
    r.require(num(row, "fmf_iterations") >= 1 && num(row, "fmf_iterations") <= 150 * 5 && num(row, "fmf_meta_iterations") <= 5, "iterations", [&] { return "iterations" + all(); });
    r.transition();
  }
  // what is left, and the chi square of it
  double chi = 0, pix = 0;
  for (size_t i = 0; i < c.frames.size(); ++i) {
    const Frame& f = FRAMES[c.frames[i]];
    Hdu u = readFits(d("m" + std::to_string(i) + ".fits")), res = readFits(d("res_m" + std::to_string(i) + "_1.fits")), win = readFits(d("win_m" + std::to_string(i) + "_1.fits")), mod = readFits(d("mod_m" + std::to_string(i) + "_1.fits"));
    r.require(res.w == f.w && res.h == f.h && mod.w == f.w, "maps", [&] { return "residual map of " + std::to_string(res.w) + "x" + std::to_string(res.h); });
    double peak = 0, worst = 0;
    for (double v : u.d) peak = std::max(peak, std::fabs(v));
    for (int y = 0; y < f.h; ++y) for (int xx = 0; xx < f.w; ++xx) {
      bool in = win.w ? win.at(xx, y) >= 2 : mod.at(xx, y) != 0;
      if (in) worst = std::max(worst, std::fabs(res.at(xx, y)));
      if (in && win.w) { chi += res.at(xx, y) * res.at(xx, y); ++pix; }
    }
    if (K.pedestal == 0) r.require(worst < (K.n == 4 ? 0.15 : K.n ? 0.06 : 0.02) * peak * tol, "residual", [&] { return "residual of " + vk::str(worst) + " where the peak is " + vk::str(peak); });
  }
  if (c.iterative && c.scene < 2 && pix > 0 && K.pedestal == 0) {
    int free = 3 + (K.n ? 3 : 0) + (x.col("mf_n") >= 0) + (x.col("mf_bt") >= 0);
    double want = chi / (pix - free), got = num(rows[0], "fmf_reduced_chi_2");
    r.require(std::fabs(got - want) < 0.01 * want + 1e-3, "chi2", [&] { return "reduced chi square " + vk::str(got) + ", the residual map gives " + vk::str(want) + " over " + vk::str(pix) + " pixels"; });
  }
  r.trace();
  r.nontrivial();
  r.see(vk::hashStr(what));
}
}
VK_SUITE(models) {
  // every model on every frame alone and on pairs, both ways of fitting, every window
  for (int kind = 0; kind < 7; ++kind) for (int it = 0; it < 2; ++it) for (int scene = 0; scene < 4; ++scene) for (int f = 0; f < 6; ++f) {
    if (r.next()) one(r, {kind, {f}, (bool)it, 0, scene});
    if (!r.thorough() && scene != f % 4) continue;
    if (f && r.next()) one(r, {kind, {0, f}, (bool)it, 0, scene});
  }
  for (int kind = 0; kind < 7; ++kind) for (int w = 1; w < 9; ++w) for (int f = 0; f < 6; ++f) for (int scene = 0; scene < 4; ++scene) {
    if (!r.thorough() && (kind + w + f + scene) % 6) continue;
    if (r.next()) one(r, {kind, {f}, true, w, scene});
  }
}
// sources the measurement frames do not cover, priors, uncertainties
namespace {
struct Special { int kind; bool iterative; int what, window; };
const char* WHAT[] = {"a frame elsewhere", "a frame elsewhere and the reference frame", "a frame that covers one of two sources", "a masked source", "a prior as strong as the data", "a prior much stronger than the data", "noise", "a window too large for its fit, scaled down"};
void special(vk::Run& r, const Special& c) {
  const Kind& K = KINDS[c.kind];
  std::string what = std::string(K.name) + (c.iterative ? ", iterative, " : ", classic, ") + WHAT[c.what] + ", window " + WINDOWS[c.window];
  r.desc([&] { return what; });
  Frame far{40, 40, {1, 0, 0, 1}, {-400, 90}, 1}, half{30, 44, {1, 0, 0, 1}, {0, 0}, 1}, ref = c.what == 2 || c.what == 3 ? Frame{90, 44, {1, 0, 0, 1}, {0, 0}, 1} : REF;
  std::vector<Src> src;
  auto put = [&](double x, double y, double flux) { src.push_back({x, y, flux, K.R, K.q, K.th, K.n, K.bt}); };
  if (c.what == 2 || c.what == 3) { put(12, 12, 20000); put(74, 31, 20000); } else put(25, 21, 20000);
  std::vector<Frame> frames{c.what < 2 ? far : c.what == 2 ? half : ref};
  if (c.what == 1) frames.push_back(REF);
  Dir d;
  Hdu det = render(ref, src);
  for (int y = 0; y < det.h; ++y) for (int x = 0; x < det.w; ++x) det.at(x, y) = (float)(det.at(x, y) + 10 + 0.5 * ripple(x, y));
  det.cards = wcs(ref);
  d.fits("det.fits", {det});
  std::ostringstream py;
  py << "from sourcextractor.config import *\nimport math\nimgs = []\n";
  for (size_t i = 0; i < frames.size(); ++i) {
    const Frame& f = frames[i];
    Hdu u = render(f, src), w(f.w, f.h, 1);
    if (c.what == 6) for (int y = 0; y < u.h; ++y) for (int x = 0; x < u.w; ++x) u.at(x, y) = (float)(u.at(x, y) + 1.5 * ripple(x, y, 7));
    if (c.what == 3) for (int y = 0; y < w.h; ++y) for (int x = 0; x < 45; ++x) w.at(x, y) = 1e30;
    u.cards = wcs(f);
    std::string n = "m" + std::to_string(i);
    d.fits(n + ".fits", {u});
    d.fits(n + "w.fits", {w});
    py << "imgs.append(MeasurementImage('" << n << ".fits', psf_file='psf.fits', weight_file='" << n << "w.fits', weight_type='rms', weight_absolute=True, weight_threshold=1000., constant_background=0.))\n";
  }
  d.fits("psf.fits", {psf()});
  double ideal = 2 * PSF_S * std::sqrt(M_PI), ideal_x = std::sqrt(8 * M_PI) * PSF_S * PSF_S / 20000;
  py << "G = MeasurementGroup(ImageGroup(images=imgs))\n" << POS << (K.n ? SHAPE : "") << K.py << "twice = DependentParameter(lambda f: 2 * f, flux)\n"
     << "add_output_column('mf_x', x)\nadd_output_column('mf_y', y)\nadd_output_column('mf_flux', flux)\nadd_output_column('mf_twice', twice)\n";
  if (K.n) py << "add_output_column('mf_shape', [radius, ratio, angle])\n";
  if (c.what == 4) py << "add_prior(flux, 20010., " << dstr(ideal) << ")\n";
  if (c.what == 5) py << "add_prior(" << (K.n ? "radius, 3.3" : "flux, 20500.") << ", " << (K.n ? "1e-5" : "1e-2") << ")\n";
  py << "use_iterative_fitting(" << (c.iterative ? "True" : "False") << ")\nset_max_iterations(150)\nset_deblend_factor(1.0)\nset_window_type(WindowType." << WINDOWS[c.window] << ")\nset_modified_chi_squared_scale(1000)\n";

  d.text("c.py", py.str());
  std::vector<std::string> args{"--detection-image", d("det.fits"), "--python-config-file", d("c.py"), "--output-catalog-filename", d("o.cat"), "--thread-count", "0", "--detection-threshold", "20", "--rng-seed", "1", "--partition-multithreshold", "1",
    "--output-properties", "SourceIDs,PixelCentroid,FlexibleModelFitting,SourceFlags", "--check-image-residual", d("res.fits"), "--check-image-model-fitting", d("mod.fits")};
  if (c.what == 7) { args.push_back("--sampling-max-fit-size"); args.push_back("18"); }
  auto x = run(d, args);
  r.require(x.ok(), "runs", [&] { return x.how() + ": " + x.output.substr(0, 600); });
  auto rows = x.rows();
  if (getenv("DUMP")) { fprintf(stderr, "%s\n%s\n", what.c_str(), flat(x.cols()).c_str()); for (auto& q : rows) fprintf(stderr, "%s\n", flat(q).c_str()); }
  r.require(rows.size() == src.size(), "sources", [&] { return std::to_string(rows.size()) + " sources instead of " + std::to_string(src.size()); });
  auto num = [&](const std::vector<std::string>& row, const char* n, size_t i = 0) { int k = x.col(n); auto v = k < 0 ? std::vector<double>{} : numbers(row[k]); return i < v.size() ? v[i] : NAN; };
  for (auto& row : rows) {
    bool left = num(row, "pixel_centroid_x") < 45;
    long want = c.what == 0 ? 32 : c.what == 2 ? (left ? 0 : 32) : c.what == 3 ? (left ? 128 : 0) : c.what == 7 ? 8192 : 0, flags = (long)num(row, "fmf_flags");
    auto all = [&] { std::ostringstream o; o.precision(8); o << "; flags " << flags << " x " << num(row, "mf_x") << " y " << num(row, "mf_y") << " flux " << num(row, "mf_flux") << " +- " << num(row, "mf_flux_err") << ", chi2 " << num(row, "fmf_reduced_chi_2"); if (K.n) o << " radius " << num(row, "mf_shape"); return o.str(); };
    if (c.what == 7 && !c.iterative) want = flags & 8192;
    r.require(flags == want, "fit-flags", [&] { return "flags " + std::to_string(flags) + " instead of " + std::to_string(want) + " of the " + (left ? "left" : "right") + " source" + all(); });
    r.transition();
    if (want & (32 | 128)) {
      r.require(std::isnan(num(row, "mf_x")) && std::isnan(num(row, "mf_flux")) && std::isnan(num(row, "mf_flux_err")) && (!K.n || std::isnan(num(row, "mf_shape"))), "no-values", [&] { return "values for a source that was not fitted" + all(); });
      r.require(!(std::fabs(num(row, "mf_twice_err")) >= 0), "no-values", [&] { return "an error of a dependent parameter of a source that was not fitted" + all(); });
      continue;
    }
    const Src* s = &src[0];
    for (auto& t : src) if (std::hypot(t.x - num(row, "mf_x") + 1, t.y - num(row, "mf_y") + 1) < 5) s = &t;
    double tol = c.what == 7 ? 3 : 1, flux = c.what == 5 && !K.n ? 20500 : s->flux;
    r.require(std::hypot(num(row, "mf_x") - s->x - 1, num(row, "mf_y") - s->y - 1) < (K.n ? 0.06 : 0.02) * tol, "position", [&] { return "position" + all(); });
    if (c.what != 5 || !K.n) r.require(std::fabs(num(row, "mf_flux") / flux - 1) < K.flux_tol * tol, "flux", [&] { return "flux" + all(); });
    if (c.what == 4 && !K.n) {
      // halfway between the value of the data, which is within a fraction of the true one, and that of the prior
      r.require(std::fabs(num(row, "mf_flux") - 20005) < 2, "prior", [&] { return "flux with a prior of 20010 as strong as the data" + all(); });
    }
    if (c.what == 5) r.require(K.n ? std::fabs(num(row, "mf_shape") - 3.3) < 1e-3 : std::fabs(num(row, "mf_flux") - 20500) < 1, "prior", [&] { return "a strong prior is not followed" + all(); });
    if (c.what == 6 && !K.n) {
      // the residuals are known up to a factor: that of their scatter
      double f = std::sqrt(num(row, "fmf_reduced_chi_2"));
      r.require(std::fabs(f - 1.5 / std::sqrt(1)) < 1.2, "chi2", [&] { return "reduced chi square" + all(); });
      r.require(std::fabs(num(row, "mf_flux_err") / (f * ideal) - 1) < 0.06, "flux-error", [&] { return "flux error instead of " + vk::str(f * ideal) + all(); });
      r.require(std::fabs(num(row, "mf_x_err") / (f * ideal_x) - 1) < 0.1 && std::fabs(num(row, "mf_y_err") / (f * ideal_x) - 1) < 0.1, "position-error", [&] { return "position error " + vk::str(num(row, "mf_x_err")) + " instead of " + vk::str(f * ideal_x) + all(); });
      r.require(std::fabs(num(row, "mf_flux") - s->flux) < 5 * f * ideal, "flux", [&] { return "flux further away than its error" + all(); });
      r.require(std::fabs(num(row, "mf_twice_err") - 2 * num(row, "mf_flux_err")) < 1e-3 * num(row, "mf_flux_err"), "dependent-error", [&] { return "error of twice the flux " + vk::str(num(row, "mf_twice_err")) + all(); });
    }
    r.require(vk::close(num(row, "mf_twice"), 2 * num(row, "mf_flux"), 1e-12), "dependent", [&] { return "twice the flux " + vk::str(num(row, "mf_twice")) + all(); });
  }
  for (size_t i = 0; i < frames.size(); ++i) for (const char* n : {"res", "mod"}) {
    Hdu u = readFits(d(std::string(n) + "_m" + std::to_string(i) + "_1.fits"));
    if (!u.w) continue;   // not written for a frame nothing was fitted on
    r.require(u.w == frames[i].w && u.h == frames[i].h, "maps", [&] { return std::string(n) + " map of " + std::to_string(u.w) + "x" + std::to_string(u.h); });
    for (double v : u.d) r.require(std::isfinite(v), "maps", [&] { return std::string("a pixel of the ") + n + " map is " + vk::str(v); });
  }
  r.trace();
  r.nontrivial();
  r.see(vk::hashStr(what));
}
}
VK_SUITE(special) {
  for (int kind : {0, 1, 3, 5}) for (int it = 0; it < 2; ++it) for (int what = 0; what < 8; ++what) {
    if (kind == 5 && what == 7) continue;
    if (r.next()) special(r, {kind, (bool)it, what, 0});
    if (it && what < 4) for (int w = 1; w < 9; ++w) if (r.next()) special(r, {kind, true, what, w});
  }
}
