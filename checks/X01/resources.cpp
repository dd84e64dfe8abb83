// The catalogue is the same whatever threads, tiles, memory, flushing, ordering and format are asked for.
#include "e2e/scenes.h"
using namespace e2e;
namespace {
const char* CONFIG =
"from sourcextractor.config import *\n"
"top = load_fits_images(['m1.fits', 'm2.fits'], psfs=['psf.fits', 'psf.fits'])\n"
"mg = MeasurementGroup(top)\n"
"a = []\n"
"for img in mg:\n"
"    a.extend(add_aperture_photometry(img, [4., 8.]))\n"
"add_output_column('aper', a)\n"
"x, y = get_pos_parameters()\n"
"flux = get_flux_parameter()\n"
"add_model(mg, PointSourceModel(x, y, flux))\n"
"use_iterative_fitting(%s)\n"
"set_max_iterations(20)\n"
"add_output_column('mf_x', x)\n"
"add_output_column('mf_flux', flux)\n"
"add_output_column('mf_mag', DependentParameter(lambda f: -2.5 * math.log10(f), flux))\n";
Hdu psf() { Hdu p(21, 21); add(p, {10, 10, 1, 1.4}); p.cards.push_back(card("SAMPLING", "1.0")); return p; }
struct Set { const char* name; std::vector<std::string> args; int frames; };
void files(const Dir& d, int which) {
  if (which < 3) {
    Hdu a = scene(64, 48, field());
    if (which == 2) d.fits("det.fits", {a, sky(64, 48, 10, 1, 7), scene(64, 48, {{20, 20, 500, 1.5}, {40, 30, 300, 1.4}}, 10, 1, 5)});
    else d.fits("det.fits", {a});
    d.fits("m1.fits", {scene(64, 48, field(), 5, 1, 3)});
    d.fits("m2.fits", {scene(64, 48, field(), 3, 1, 4)});
    d.fits("psf.fits", {psf()});
    std::string c = CONFIG;
    c.replace(c.find("%s"), 2, which == 1 ? "False" : "True");
    d.text("c.py", "import math\n" + c);
  } else {
    std::vector<Star> s;
    for (int j = 0; j < 6; ++j) for (int i = 0; i < 8; ++i) s.push_back({30 + 64. * i + 3 * ripple(i, j), 30 + 64. * j + 3 * ripple(j, i, 2), 600 + 20. * (i + j), 1.5});
    for (int i = 0; i < 6; ++i) s.push_back({80 * i + 36., 36 + 61. * i, 500, 1.7});
    d.fits("det.fits", {scene(530, 400, s)});
  }
}
std::vector<std::string> base(const Dir& d, int which) {
  std::vector<std::string> a{"--detection-image", d("det.fits"), "--output-catalog-filename", d("o.cat"), "--rng-seed", "1", "--output-properties"};
  if (which < 3) {
    a.push_back(std::string(allProps()) + ",FlexibleModelFitting,AperturePhotometry" + (which == 2 ? "" : ",MoffatModelFitting"));
    a.insert(a.end(), {"--python-config-file", d("c.py"), "--grouping-algorithm", which ? "MOFFAT" : "OVERLAP"});
    if (which) { a[a.size() - 1] = "SPLIT"; }
  } else a.push_back("SourceIDs,PixelCentroid,AutoPhotometry,ShapeParameters,IsophotalFlux,GroupInfo");
  return a;
}
std::vector<std::vector<std::string>> comparable(const Result& x, bool sorted = true) {   // without the time a fit took; groups numbered as they appear
  auto rows = x.rows();
  int c = x.col("fmf_duration"), g = x.col("group_id"), id = x.col("source_id");
  if (!sorted) std::sort(rows.begin(), rows.end(), [&](const auto& a, const auto& b) { return strtol(a[id].c_str(), 0, 10) < strtol(b[id].c_str(), 0, 10); });
  std::map<std::string, std::string> name;
  for (auto& r : rows) r[g] = name.emplace(r[g], std::to_string(name.size() + 1)).first->second;
  if (c >= 0) for (auto& r : rows) r.erase(r.begin() + c);
  return rows;
}
struct Ref { Result x; std::vector<std::vector<std::string>> rows; };
const Ref& reference(int which) {
  static std::map<int, Ref> cache;
  auto it = cache.find(which);
  if (it != cache.end()) return it->second;
  Dir d;
  files(d, which);
  auto a = base(d, which);
  a.insert(a.end(), {"--thread-count", "0", "--tile-size", "1000", "--output-flush-size", "0", "--output-catalog-format", "ASCII"});
  Ref q;
  q.x = run(d, a);
  q.rows = comparable(q.x);
  return cache[which] = q;
}
void one(vk::Run& r, int which, const std::vector<std::string>& opts, const std::string& format, int flush, bool sorted) {
  std::string what = "field " + std::to_string(which) + " " + vk::strv(opts) + " format " + format + " flush " + std::to_string(flush) + (sorted ? " sorted" : " unsorted");
  r.desc([&] { return what; });
  const Ref& ref = reference(which);
  r.require(ref.x.ok() && ref.rows.size() >= 7, "reference", [&] { return ref.x.how() + ", " + std::to_string(ref.rows.size()) + " rows: " + ref.x.output.substr(0, 400); });
  if (!ref.x.ok()) return;
  Dir d;
  files(d, which);
  auto a = base(d, which);
  a.insert(a.end(), opts.begin(), opts.end());
  a.insert(a.end(), {"--output-catalog-format", format, "--output-flush-size", std::to_string(flush), "--output-flush-sorted", sorted ? "1" : "0"});
  auto x = run(d, a);
  r.require(x.ok(), "runs", [&] { return x.how() + ": " + x.output.substr(0, 400); });
  if (!x.ok()) return;
  auto rows = comparable(x, sorted);
  r.require(x.cols() == ref.x.cols(), "same-columns", [&] { return flat(x.cols()) + " instead of " + flat(ref.x.cols()); });
  const auto& want = ref.rows;
  r.require(rows.size() == want.size(), "same-rows", [&] { return std::to_string(rows.size()) + " rows instead of " + std::to_string(want.size()); });
  for (size_t i = 0; i < rows.size() && i < want.size(); ++i)
    if (rows[i] != want[i]) {
      std::string m = "row " + std::to_string(i) + ":";
      auto cols = x.cols();
      cols.erase(std::remove(cols.begin(), cols.end(), "fmf_duration"), cols.end());
      for (size_t c = 0; c < want[i].size() && c < rows[i].size(); ++c) if (rows[i][c] != want[i][c]) m += " " + cols[c] + " " + rows[i][c].substr(0, 80) + " instead of " + want[i][c].substr(0, 80);
      r.require(false, "same-rows", [&] { return m.substr(0, 900); });
      break;
    }
  // sources of one group stay together even when the order is not asked for
  if (!sorted) {
    int g = x.col("group_id");
    std::vector<std::string> seen;
    for (auto& row : x.rows()) {
      if (!seen.empty() && seen.back() == row[g]) continue;
      r.require(std::find(seen.begin(), seen.end(), row[g]) == seen.end(), "groups-together", [&] { return "the sources of group " + row[g] + " are not written together"; });
      seen.push_back(row[g]);
    }
  }
  r.transition();
  r.trace();
  r.nontrivial();
  r.see(vk::hashStr(what));
  for (auto& row : rows) r.see(vk::hashStr(flat(row)));
}
}
VK_SUITE(small) {
  std::vector<std::vector<std::string>> threads{{"--thread-count", "0"}, {"--thread-count", "1", "--thread-max-queue-size", "1"}, {"--thread-count", "2", "--thread-max-queue-size", "1"}, {"--thread-count", "5"}};
  std::vector<int> tiles{7, 256}, flush{0, 1, 3};
  std::vector<std::string> formats{"ASCII", "FITS", "FITS_LDAC"};
  if (r.thorough()) { tiles = {1, 7, 16, 48, 256}; flush = {0, 1, 2, 3, 7, 100}; threads.push_back({"--thread-count", "3", "--thread-max-queue-size", "2"}); threads.push_back({"--thread-count", "16", "--thread-max-queue-size", "3"}); }
  for (int which = 0; which < 3; ++which) {
    vk::Odo o({(int)threads.size(), (int)tiles.size(), (int)flush.size(), (int)formats.size(), 2});
    for (; !o.done; o.inc()) {
      // quick: every value of the format with every value of the rest, the other pairs in turn
      if (!r.thorough() && (o.v[0] + o.v[1] + o.v[2] + o.v[3] + o.v[4] + which) % 2) continue;
      if (!r.next()) continue;
      auto a = threads[o.v[0]];
      a.insert(a.end(), {"--tile-size", std::to_string(tiles[o.v[1]])});
      one(r, which, a, formats[o.v[3]], flush[o.v[2]], o.v[4]);
    }
  }
}
VK_SUITE(eviction) {   // more tiles than fit in the memory
  for (const char* t : {"0", "4"}) for (const char* s : {"32", "50", "256"}) for (const char* m : {"1", "2", "512"}) {
    if (!r.thorough() && !strcmp(m, "2")) continue;
    for (int sorted = 0; sorted < 2; ++sorted)
      if (r.next()) one(r, 3, {"--thread-count", t, "--tile-size", s, "--tile-memory-limit", m}, "FITS", 10, sorted);
  }
}
