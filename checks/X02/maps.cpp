// The maps the program writes on request say the same as its catalogue and its input images.
#include "e2e/scenes.h"
#include <queue>
using namespace e2e;
namespace {
struct Config { int frames, threads, tile; std::string algorithm, filter; bool constant, multi, measure; };
const int W[3] = {64, 40, 72}, H[3] = {48, 60, 30};
std::vector<std::string> wcs(int i, double px, double py) {
  return {scard("CTYPE1", "RA---TAN"), scard("CTYPE2", "DEC--TAN"), card("CRPIX1", dstr(px)), card("CRPIX2", dstr(py)), card("CRVAL1", dstr(30 + i)), card("CRVAL2", dstr(-10.5 + i)),
          card("CD1_1", "-1E-4"), card("CD1_2", "0."), card("CD2_1", "0."), card("CD2_2", "1E-4")};
}
Hdu frame(int i) {
  std::vector<std::vector<Star>> stars{field(), {{20, 30, 500, 1.6}, {10.5, 50, 300, 1.3}, {30, 12, 900, 2.2}, {33.5, 12.5, 700, 1.5}}, {{60, 20, 600, 1.7}, {20, 5, 400, 1.5}, {66, 4, 300, 1.3}}};
  Hdu u = scene(W[i], H[i], stars[i], 10 + i, 1, i);
  u.cards = wcs(i, 20 + i, 15);
  return u;
}
double crval(const std::string& path) { fitsfile* f = nullptr; int st = 0; double v = NAN; if (!fits_open_file(&f, path.c_str(), READONLY, &st)) { fits_read_key(f, TDOUBLE, "CRVAL1", &v, nullptr, &st); if (st) v = NAN; st = 0; fits_close_file(f, &st); } return v; }
const char* HDU0 = "1";
const char* PY =
"from sourcextractor.config import *\n"
"top = load_fits_images(['m1.fits', 'm2.fits'], psfs=['psf.fits', 'psf.fits'])\n"
"mg = MeasurementGroup(top)\n"
"a = []\n"
"for img in mg:\n"
"    a.extend(add_aperture_photometry(img, [6.]))\n"
"add_output_column('aper', a)\n"
"x, y = get_pos_parameters()\n"
"flux = get_flux_parameter()\n"
"add_model(mg, PointSourceModel(x, y, flux))\n"
"use_iterative_fitting(True)\n"
"set_max_iterations(20)\n"
"add_output_column('mf_x', x)\n"
"add_output_column('mf_y', y)\n"
"add_output_column('mf_flux', flux)\n";
std::string part(const std::string& base, int i, int n) { return n > 1 ? base + "_" + std::to_string(i) + ".fits" : base + ".fits"; }
using Map = std::map<long, std::vector<std::pair<int, int>>>;
Map regions(const Hdu& u) { Map m; for (int y = 0; y < u.h; ++y) for (int x = 0; x < u.w; ++x) if (u.at(x, y) != 0) m[(long)u.at(x, y)].push_back({x, y}); return m; }
void one(vk::Run& r, const Config& c) {
  std::ostringstream s;
  s << c.frames << " frames, threads " << c.threads << ", tiles " << c.tile << ", " << c.algorithm << ", filter " << c.filter << (c.constant ? ", constant background" : "") << (c.multi ? "" : ", no multithresholding") << (c.measure ? ", measurement images" : "");
  r.desc([&] { return s.str(); });
  Dir d;
  std::vector<Hdu> det;
  for (int i = 0; i < c.frames; ++i) det.push_back(frame(i));
  d.fits("det.fits", det);
  std::vector<std::string> a{"--detection-image", d("det.fits"), "--output-catalog-filename", d("o.cat"), "--rng-seed", "1", "--thread-count", std::to_string(c.threads), "--tile-size", std::to_string(c.tile),
    "--segmentation-algorithm", c.algorithm, "--partition-multithreshold", c.multi ? "1" : "0", "--detection-threshold", "2", "--output-properties",
    std::string("SourceIDs,PixelCentroid,IsophotalFlux,NDetectedPixels,PixelBoundaries,PeakValue,GroupInfo,HduNumber,ShapeParameters,KronRadius,AutoPhotometry,WorldCentroid") + (c.measure ? ",AperturePhotometry,FlexibleModelFitting" : "")};
  if (c.constant) a.insert(a.end(), {"--background-value", "9.75"});
  if (c.filter == "none") a.insert(a.end(), {"--segmentation-use-filtering", "0"});
  if (c.filter == "wide") { d.text("f.conv", "CONV NORM\n1 2 3 2 1\n2 4 6 4 2\n1 2 3 2 1\n"); a.insert(a.end(), {"--segmentation-filter", d("f.conv")}); }
  for (auto m : {"background", "variance", "segmentation", "partition", "grouping", "filtered", "thresholded", "snr", "auto-aperture"}) a.insert(a.end(), {std::string("--check-image-") + m, d(std::string(m) + ".fits")});
  std::vector<Hdu> meas;
  if (c.measure) {
    Hdu m1 = scene(64, 48, field(), 5, 1, 3), m2(75, 57);
    m1.cards = wcs(0, 20, 15);
    auto moved = field();
    for (auto& k : moved) { k.x += 6; k.y += 4; }
    m2 = scene(75, 57, moved, 3, 1, 4);
    m2.cards = wcs(0, 26, 19);
    meas = {m1, m2};
    d.fits("m1.fits", {m1});
    d.fits("m2.fits", {m2});
    Hdu p(21, 21);
    add(p, {10, 10, 1, 1.4});
    p.cards.push_back(card("SAMPLING", "1.0"));
    d.fits("psf.fits", {p});
    d.text("c.py", PY);
    a.insert(a.end(), {"--python-config-file", d("c.py")});
    for (auto m : {"model-fitting", "residual", "measurement-background", "measurement-variance", "aperture"}) a.insert(a.end(), {std::string("--check-image-") + m, d(std::string(m) + ".fits")});
  }
  auto x = run(d, a);
  r.require(x.ok(), "runs", [&] { return x.how() + ": " + x.output.substr(0, 400); });
  if (!x.ok()) return;
  auto rows = x.rows();
  auto num = [&](const std::vector<std::string>& row, const char* n) { int k = x.col(n); return k < 0 ? NAN : numbers(row[k]).at(0); };
  size_t used = 0;
  for (int i = 0; i < c.frames; ++i) {
    auto rd = [&](const char* n) {
      std::string f = d(part(n, i, c.frames));
      Hdu u = readFits(f);
      r.require(u.w == W[i] && u.h == H[i], (std::string(n) + "-size").c_str(), [&] { return std::string(n) + " map of frame " + std::to_string(i) + " is " + std::to_string(u.w) + "x" + std::to_string(u.h) + ", the frame " + std::to_string(W[i]) + "x" + std::to_string(H[i]); });
      double v = crval(f);
      r.require(std::fabs(v - (30 + i)) < 1e-6, (std::string(n) + "-wcs").c_str(), [&] { return std::string(n) + " map of frame " + std::to_string(i) + " has CRVAL1 " + vk::str(v); });
      if (u.w != W[i] || u.h != H[i]) u = Hdu(W[i], H[i], NAN);
      return u;
    };
    Hdu bg = rd("background"), var = rd("variance"), seg = rd("segmentation"), par = rd("partition"), grp = rd("grouping"), fil = rd("filtered"), thr = rd("thresholded"), snr = rd("snr"), aut = rd("auto-aperture");
    const Hdu& im = det[i];
    std::vector<std::vector<std::string>> mine;
    for (auto& row : rows) if (num(row, "hdu_number") == i) mine.push_back(row);
    used += mine.size();
    auto at = [&](int X, int Y) { return " at " + std::to_string(X) + "," + std::to_string(Y) + " of frame " + std::to_string(i); };
    // levels
    std::vector<std::vector<double>> k;
    if (c.filter == "default") k = {{1, 2, 1}, {2, 4, 2}, {1, 2, 1}};
    if (c.filter == "wide") k = {{1, 2, 3, 2, 1}, {2, 4, 6, 4, 2}, {1, 2, 3, 2, 1}};
    if (c.filter == "none") k = {{1}};
    double ks = 0;
    for (auto& q : k) for (double v : q) ks += v;
    int kh = k.size() / 2, kw = k[0].size() / 2;
    double worst = 0;
    for (int Y = 0; Y < im.h; ++Y) for (int X = 0; X < im.w; ++X) {
      if (c.constant) r.require(bg.at(X, Y) == 9.75, "background", [&] { return "background " + vk::str(bg.at(X, Y)) + at(X, Y); });
      else r.require(std::fabs(bg.at(X, Y) - (10 + i)) < 2, "background", [&] { return "background " + vk::str(bg.at(X, Y)) + at(X, Y); });
      r.require(var.at(X, Y) > 0.01 && var.at(X, Y) < 10, "variance", [&] { return "variance " + vk::str(var.at(X, Y)) + at(X, Y); });
      double f = fil.at(X, Y), sd = std::sqrt(var.at(X, Y));
      if (X >= kw && Y >= kh && X < im.w - kw && Y < im.h - kh) {
        double v = 0;
        for (size_t q = 0; q < k.size(); ++q) for (size_t p = 0; p < k[q].size(); ++p) { int xx = X + (int)p - kw, yy = Y + (int)q - kh; v += k[q][p] / ks * (im.at(xx, yy) - bg.at(xx, yy)); }
        worst = std::max(worst, std::fabs(v - f));
        r.require(vk::close(f, v, 1e-4, 1e-3), "filtered", [&] { return "filtered " + vk::str(f) + " instead of " + vk::str(v) + at(X, Y); });
      }
      r.require(vk::close(snr.at(X, Y), f / sd, 1e-4, 1e-3), "snr", [&] { return "snr " + vk::str(snr.at(X, Y)) + " instead of " + vk::str(f / sd) + at(X, Y); });
      r.require(vk::close(thr.at(X, Y), f - 2 * sd, 1e-4, 1e-3), "thresholded", [&] { return "thresholded " + vk::str(thr.at(X, Y)) + " instead of " + vk::str(f - 2 * sd) + at(X, Y); });
    }
    // the segmentation map: the connected regions above the threshold, large enough
    Hdu lab(im.w, im.h);
    std::vector<std::vector<std::pair<int, int>>> comps;
    for (int Y = 0; Y < im.h; ++Y) for (int X = 0; X < im.w; ++X) {
      if (lab.at(X, Y) || !(thr.at(X, Y) > 0)) continue;
      std::vector<std::pair<int, int>> cc{{X, Y}};
      lab.at(X, Y) = 1;
      for (size_t q = 0; q < cc.size(); ++q) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
        int xx = cc[q].first + dx, yy = cc[q].second + dy;
        if (xx >= 0 && yy >= 0 && xx < im.w && yy < im.h && !lab.at(xx, yy) && thr.at(xx, yy) > 0) { lab.at(xx, yy) = 1; cc.push_back({xx, yy}); }
      }
      comps.push_back(cc);
    }
    size_t big = 0;
    std::set<long> ids;
    for (auto& cc : comps) {
      long id = (long)seg.at(cc[0].first, cc[0].second);
      for (auto& p : cc) r.require((long)seg.at(p.first, p.second) == id, "segmentation", [&] { return "one region has the labels " + std::to_string(id) + " and " + vk::str(seg.at(p.first, p.second)) + at(p.first, p.second); });
      if (cc.size() >= 3) { ++big; }
      // every detection reaches the catalogue (the smallest may be dropped: detection-minimum-area is 3)
      if (id) r.require(ids.insert(id).second, "segmentation", [&] { return "label " + std::to_string(id) + " on two regions"; });
    }
    for (int Y = 0; Y < im.h; ++Y) for (int X = 0; X < im.w; ++X) r.require(seg.at(X, Y) == 0 || thr.at(X, Y) > 0, "segmentation", [&] { return "label on a pixel under the threshold" + at(X, Y); });
    std::set<long> catalogued;
    for (auto& row : mine) catalogued.insert((long)num(row, "detection_id"));
    for (auto& cc : comps) {
      long id = (long)seg.at(cc[0].first, cc[0].second);
      r.require(id == 0 || (cc.size() >= 3) == (catalogued.count(id) > 0), "detections-catalogued", [&] { return "detection " + std::to_string(id) + " of " + std::to_string(cc.size()) + " pixels" + (catalogued.count(id) ? " is" : " is not") + " in the catalogue"; });
      r.require(cc.size() < 3 || id != 0, "segmentation", [&] { return "no label on a region of " + std::to_string(cc.size()) + " pixels" + at(cc[0].first, cc[0].second); });
    }
    // the partition map
    Map pr = regions(par), gr = regions(grp);
    r.require(pr.size() == mine.size(), "partition", [&] { return std::to_string(pr.size()) + " labels in the partition map, " + std::to_string(mine.size()) + " sources in the catalogue"; });
    for (auto& row : mine) {
      long id = (long)num(row, "source_id"), det_id = (long)num(row, "detection_id"), group = (long)num(row, "group_id");
      auto& px = pr[id];
      auto who = [&] { return "source " + std::to_string(id) + " of frame " + std::to_string(i) + ": "; };
      r.require(px.size() == (size_t)num(row, "n_detected_pixels"), "partition-pixels", [&] { return who() + std::to_string(px.size()) + " pixels in the map, " + vk::str(num(row, "n_detected_pixels")) + " in the catalogue"; });
      double sum = 0, peak = -1e30, x0 = 1e9, x1 = -1, y0 = 1e9, y1 = -1, mx = 0, my = 0, ft = 0;
      for (auto& p : px) {
        r.require((long)seg.at(p.first, p.second) == det_id, "partition-in-detection", [&] { return who() + "its pixel belongs to detection " + vk::str(seg.at(p.first, p.second)) + ", the catalogue says " + std::to_string(det_id); });
        r.require((long)grp.at(p.first, p.second) == group, "grouping", [&] { return who() + "group map says " + vk::str(grp.at(p.first, p.second)) + ", the catalogue " + std::to_string(group); });
        double v = im.at(p.first, p.second) - bg.at(p.first, p.second), f = fil.at(p.first, p.second);
        sum += v; peak = std::max(peak, v);
        mx += f * p.first; my += f * p.second; ft += f;
        x0 = std::min<double>(x0, p.first); x1 = std::max<double>(x1, p.first); y0 = std::min<double>(y0, p.second); y1 = std::max<double>(y1, p.second);
      }
      if (px.empty()) continue;
      r.require(vk::close(num(row, "isophotal_flux"), sum, 1e-4, 1e-2), "isophotal-flux", [&] { return who() + "flux " + vk::str(num(row, "isophotal_flux")) + ", the map gives " + vk::str(sum); });
      r.require(vk::close(num(row, "pixel_centroid_x"), mx / ft + 1, 1e-5, 1e-3) && vk::close(num(row, "pixel_centroid_y"), my / ft + 1, 1e-5, 1e-3), "centroid", [&] { return who() + "centroid " + vk::str(num(row, "pixel_centroid_x")) + "," + vk::str(num(row, "pixel_centroid_y")) + ", the maps give " + vk::str(mx / ft + 1) + "," + vk::str(my / ft + 1); });
      r.require(num(row, "pixel_boundaries_min_x") == x0 && num(row, "pixel_boundaries_max_x") == x1 && num(row, "pixel_boundaries_min_y") == y0 && num(row, "pixel_boundaries_max_y") == y1, "boundaries", [&] { return who() + "boundaries differ from the map"; });
      // its position in the sky, from the header of its own frame
      double xi = -1e-4 * (num(row, "pixel_centroid_x") - (20 + i)) * M_PI / 180, eta = 1e-4 * (num(row, "pixel_centroid_y") - 15) * M_PI / 180, d0 = (-10.5 + i) * M_PI / 180;
      double ra = (30 + i) + atan2(xi, cos(d0) - eta * sin(d0)) * 180 / M_PI, dec = atan2(sin(d0) + eta * cos(d0), std::hypot(xi, cos(d0) - eta * sin(d0))) * 180 / M_PI;
      r.require(std::fabs(num(row, "world_centroid_alpha") - ra) < 2e-7 && std::fabs(num(row, "world_centroid_delta") - dec) < 2e-7, "world", [&] { return who() + "world position " + vk::str(num(row, "world_centroid_alpha")) + "," + vk::str(num(row, "world_centroid_delta")) + " instead of " + vk::str(ra) + "," + vk::str(dec); });
    }
    for (auto& q : gr) for (auto& p : q.second) r.require(par.at(p.first, p.second) != 0, "grouping", [&] { return "group on a pixel of no source" + at(p.first, p.second); });
    // the outlines of the automatic apertures (images with measurement frames draw on those too)
    Hdu seen(im.w, im.h);
    std::set<long> drawn;
    for (int Y = 0; Y < im.h; ++Y) for (int X = 0; X < im.w; ++X) {
      long id = (long)aut.at(X, Y);
      std::string why = "none";
      bool any = false, own = id == 0;
      for (auto& row : mine) {
        double dx = X + 1 - num(row, "pixel_centroid_x"), dy = Y + 1 - num(row, "pixel_centroid_y"), R = std::max(2.5 * num(row, "kron_radius"), 3.5);
        double q = std::sqrt(num(row, "ellipse_cxx") * dx * dx + num(row, "ellipse_cyy") * dy * dy + num(row, "ellipse_cxy") * dx * dy);
        bool in = q < R * 0.999 && q > (R - 1) * 1.001 + 1e-3, near = q < R * 1.001 && q > (R - 1) * 0.999 - 1e-3;
        if (in) any = true;
        if ((long)num(row, "source_id") == id && near) own = true;
      }
      r.require(own, "auto-aperture", [&] { return "label " + std::to_string(id) + " is not on the outline of that source's aperture" + at(X, Y); });
      r.require(!any || id != 0, "auto-aperture", [&] { return "no label on an outline" + at(X, Y); });
    }
    r.transition();
  }
  r.require(used == rows.size(), "every-row-has-a-frame", [&] { return std::to_string(rows.size() - used) + " rows of no frame"; });
  if (c.measure)
    for (int i = 0; i < 2; ++i) {
      auto rd = [&](const char* n) { Hdu u = readFits(d(std::string(n) + "_m" + std::to_string(i + 1) + "_" + HDU0 + ".fits")); r.require(u.w == meas[i].w && u.h == meas[i].h, (std::string(n) + "-size").c_str(), [&] { return std::string(n) + " map of measurement image " + std::to_string(i) + " is " + std::to_string(u.w) + "x" + std::to_string(u.h); }); if (u.w != meas[i].w || u.h != meas[i].h) u = Hdu(meas[i].w, meas[i].h, NAN); return u; };
      Hdu bg = rd("measurement-background"), var = rd("measurement-variance"), model = rd("model-fitting"), res = rd("residual"), ap = rd("aperture"), aut = rd("auto-aperture");
      double off = i ? 1 : 0;
      for (int Y = 0; Y < bg.h; ++Y) for (int X = 0; X < bg.w; ++X) {
        double want = meas[i].at(X, Y) - bg.at(X, Y) - model.at(X, Y);
        r.require(vk::close(res.at(X, Y), want, 1e-4, 2e-3), "residual", [&] { return "residual " + vk::str(res.at(X, Y)) + " instead of " + vk::str(want) + " at " + std::to_string(X) + "," + std::to_string(Y) + " of measurement image " + std::to_string(i); });
        r.require(std::fabs(bg.at(X, Y) - (i ? 3 : 5)) < 2 && var.at(X, Y) > 0.01 && var.at(X, Y) < 10, "measurement-levels", [&] { return "background " + vk::str(bg.at(X, Y)) + ", variance " + vk::str(var.at(X, Y)); });
        long id = (long)ap.at(X, Y);
        bool own = id == 0, any = false;
        for (auto& row : rows) {
          double dx = X + 1 - 6 * off - num(row, "pixel_centroid_x"), dy = Y + 1 - 4 * off - num(row, "pixel_centroid_y"), q = std::hypot(dx, dy);
          if (q > 2.55 && q < 2.95) any = true;   // diameter 6, an elliptical aperture (one pixel inside) or a circle (half a pixel on either side)
          if ((long)num(row, "source_id") == id && q > 1.9 && q < 3.6) own = true;
        }
        r.require(own && (!any || id), "aperture", [&] { return "label " + std::to_string(id) + " at " + std::to_string(X) + "," + std::to_string(Y) + " of measurement image " + std::to_string(i) + (own ? ": an outline is missing" : ": not on the outline of that aperture"); });
      }
      double total = 0, sum = 0;
      for (double v : model.d) total += v;
      for (auto& row : rows) sum += num(row, "mf_flux");
      r.require(total > 0.5 * sum && total < 1.02 * sum, "model-flux", [&] { return "the model image holds " + vk::str(total) + ", the fitted fluxes add up to " + vk::str(sum); });
      r.transition();
    }
  r.trace();
  if (!rows.empty()) r.nontrivial();
  r.see(vk::hashStr(s.str()));
}
}
VK_SUITE(maps) {
  vk::Odo o({2, 2, 2, 2, 3, 2, 2, 2});
  for (; !o.done; o.inc()) {
    Config c{o.v[0] ? 3 : 1, o.v[1] ? 3 : 0, o.v[2] ? 16 : 256, o.v[3] ? "BFS" : "LUTZ", o.v[4] == 0 ? "default" : o.v[4] == 1 ? "none" : "wide", (bool)o.v[5], (bool)o.v[6], (bool)o.v[7]};
    if (c.measure && c.frames > 1) continue;
    if (!r.thorough() && (o.v[1] + o.v[2] + o.v[3] + o.v[4] + o.v[5] + o.v[6]) % 2) continue;
    if (r.next()) one(r, c);
  }
}
