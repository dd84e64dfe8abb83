// External flags and association with a catalogue: the real tasks against their definition.
#include <limits>
#include "vkit.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/AssocMode/AssocModePartitionStep.h"
#include "SEImplementation/Plugin/AssocMode/AssocModeTask.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
#include "SEImplementation/Plugin/ExternalFlag/ExternalFlag.h"
#include "SEImplementation/Plugin/ExternalFlag/ExternalFlagTask.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
using namespace SourceXtractor;
using vk::str;
using Entry = AssocModeConfig::CatalogEntry;
using Mode = AssocModeConfig::AssocMode;
static void frameInfo(SimpleSource& s, int w, int h, size_t hdu) { s.setProperty<DetectionFrameInfo>(w, h, 1.0, 1e5, 1e6, 1.0, std::map<std::string, MetadataEntry>(), hdu); }
static const char* MODES[] = {"OR", "AND", "MIN", "MAX", "MOST"};
static std::shared_ptr<SourceTask> flagTask(int m, const std::vector<std::shared_ptr<FlagImage>>& im, unsigned inst) {
  switch (m) {
    case 0: return std::make_shared<ExternalFlagTaskOr>(im, inst);
    case 1: return std::make_shared<ExternalFlagTaskAnd>(im, inst);
    case 2: return std::make_shared<ExternalFlagTaskMin>(im, inst);
    case 3: return std::make_shared<ExternalFlagTaskMax>(im, inst);
    default: return std::make_shared<ExternalFlagTaskMost>(im, inst);
  }
}
static const std::vector<PixelCoordinate> FOOT[] = {{{0, 0}, {1, 0}, {3, 1}, {2, 2}, {1, 1}}, {{4, 2}, {0, 2}, {2, 0}, {3, 2}, {4, 0}}};
VK_SUITE(flags) {
  const std::vector<int64_t> A{0, 1, 5, 9, int64_t(1) << 40, 0xffff};
  const int W = 5, H = 3, maxn = r.thorough() ? 5 : 4;
  for (int foot = 0; foot < 2; ++foot) for (int n = 1; n <= maxn; ++n) for (int hdu = 0; hdu < 2; ++hdu) {
    std::vector<size_t> ix(n, 0);
    while (true) {
      std::vector<int64_t> v; for (auto i : ix) v.push_back(A[i]);
      if (r.next()) {
        r.desc([&] { return "footprint " + str(foot) + " in frame " + str(hdu) + " with flags " + vk::strv(v); });
        r.guarded("M05.crash", [&] {
          std::vector<std::shared_ptr<FlagImage>> imgs;
          for (int k = 0; k < 2; ++k) {
            auto im = VectorImage<int64_t>::create(W, H, std::vector<int64_t>(W * H, k == hdu ? int64_t(1) << 50 | 3 : int64_t(1) << 51 | 7));
            if (k == hdu) for (int i = 0; i < n; ++i) im->setValue(FOOT[foot][i].m_x, FOOT[foot][i].m_y, v[i]);
            imgs.push_back(im);
          }
          for (int m = 0; m < 5; ++m) {
            SimpleSource s; frameInfo(s, W, H, hdu);
            s.setProperty<PixelCoordinateList>(std::vector<PixelCoordinate>(FOOT[foot].begin(), FOOT[foot].begin() + n));
            flagTask(m, imgs, m + 2)->computeProperties(s);
            auto f = s.getProperty<ExternalFlag>(m + 2);
            int64_t want = v[0]; std::map<int64_t, int> cnt;
            for (auto x : v) { ++cnt[x]; want = m == 0 ? want | x : m == 1 ? want & x : m == 2 ? std::min(want, x) : m == 3 ? std::max(want, x) : 0; }
            if (m == 4) {
              int best = 0; for (auto& c : cnt) if (c.first) best = std::max(best, c.second);
              r.require(best ? f.getFlag() != 0 && cnt.count(f.getFlag()) && cnt[f.getFlag()] == best : f.getFlag() == 0, "flags.most", [&] { return std::string("MOST gives ") + str(f.getFlag()) + ", not a most frequent flag other than 0"; });
              r.require(f.getCount() == best, "flags.count", [&] { return "MOST counts " + str(f.getCount()) + " pixels, not " + str(best); });
            } else {
              r.require(f.getFlag() == want, "flags.value", [&] { return std::string(MODES[m]) + " gives " + str(f.getFlag()) + ", not " + str(want); });
              int c = 0; for (auto x : v) c += m == 0 ? x != 0 : m == 1 ? 1 : x == want;
              r.require(f.getCount() == c, "flags.count", [&] { return std::string(MODES[m]) + " counts " + str(f.getCount()) + " pixels, not " + str(c); });
            }
            r.see(vk::hashStr(str(m) + ":" + str(f.getFlag()) + ":" + str(f.getCount()))); if (cnt.size() > 1) r.nontrivial();
          }
        });
      }
      int k = 0; while (k < n && ++ix[k] == A.size()) ix[k++] = 0;
      if (k == n) break;
    }
  }
}
VK_SUITE(flagsize) {
  for (int dw = -1; dw <= 1; ++dw) for (int dh = -1; dh <= 1; ++dh) for (int m = 0; m < 5; ++m) for (int hdu = 0; hdu < 2; ++hdu) {
    if (!r.next()) continue;
    r.desc([&] { return std::string(MODES[m]) + " with a flag image " + str(5 + dw) + "x" + str(3 + dh) + " for a frame of 5x3"; });
    r.guarded("M05.crash", [&] {
      std::vector<std::shared_ptr<FlagImage>> imgs;
      for (int k = 0; k < 2; ++k) imgs.push_back(VectorImage<int64_t>::create(5 + (k == hdu ? dw : 0), 3 + (k == hdu ? dh : 0), std::vector<int64_t>((5 + (k == hdu ? dw : 0)) * (3 + (k == hdu ? dh : 0)), 1)));
      SimpleSource s; frameInfo(s, 5, 3, hdu);
      s.setProperty<PixelCoordinateList>(std::vector<PixelCoordinate>{{0, 0}, {1, 1}});
      bool threw = false;
      try { flagTask(m, imgs, 0)->computeProperties(s); } catch (const Elements::Exception&) { threw = true; }
      r.require(threw == (dw || dh), "flags.size", [&] { return threw ? "a flag image of the right size is refused" : "a flag image of another size is accepted"; });
      if (threw) r.nontrivial();
    });
  }
}
// Association
static const Mode MODE[] = {Mode::FIRST, Mode::NEAREST, Mode::MIN, Mode::MAX, Mode::MEAN, Mode::MAG_MEAN, Mode::SUM, Mode::MAG_SUM};
static const char* MN[] = {"FIRST", "NEAREST", "MIN", "MAX", "MEAN", "MAG_MEAN", "SUM", "MAG_SUM"};
static void compare(vk::Run& r, const std::vector<Entry>& cat, double x, double y, double radius, int m, const AssocMode& got, size_t cols) {
  std::vector<size_t> in; std::vector<double> d2;
  for (size_t i = 0; i < cat.size(); ++i) { double dx = cat[i].coord.m_x - x, dy = cat[i].coord.m_y - y; d2.push_back(dx * dx + dy * dy); if (d2.back() < radius * radius) in.push_back(i); }
  r.require(got.getMatch() == !in.empty(), "assoc.match", [&] { return std::string("match is ") + (got.getMatch() ? "true" : "false") + " with " + str(in.size()) + " entries inside of the radius"; });
  const auto& v = got.getAssocValues();
  r.require(v.shape().size() == 1 && v.size() == cols, "assoc.size", [&] { return "a row has " + str(v.size()) + " association values, the catalogue " + str(cols) + " columns to copy (match: " + str(got.getMatch()) + ")"; });
  if (in.empty()) {
    for (auto a : v) r.require(a == 0, "assoc.unmatched", [&] { return "an unmatched source has the association value " + str(a); });
    return;
  }
  r.nontrivial();
  auto is = [&](size_t i) { for (size_t c = 0; c < cols; ++c) if (v.at(c) != (SeFloat)cat[i].assoc_columns[c]) return false; return true; };
  if (m < 4) {
    bool ok = false; std::string want;
    if (m == 0) { ok = is(in.front()); want = "entry " + str(in.front()); }
    else {
      auto key = [&](size_t i) { return m == 1 ? d2[i] : m == 2 ? cat[i].weight : -cat[i].weight; };
      double best = 1e300; for (auto i : in) best = std::min(best, key(i));
      for (auto i : in) if (key(i) <= best + (m == 1 ? 1e-9 : 0)) { ok = ok || is(i); want += " entry " + str(i); }
    }
    r.require(ok, "assoc.pick", [&] { return std::string(MN[m]) + " does not give the values of " + want; });
    return;
  }
  double tw = 0; std::vector<double> sum(cols, 0);
  for (auto i : in) {
    double w = m == 4 ? cat[i].weight : m == 5 ? std::pow(10, -0.4 * cat[i].weight) : 1; tw += w;
    for (size_t c = 0; c < cols; ++c) sum[c] += m == 7 ? std::pow(10, -0.4 * cat[i].assoc_columns[c]) : w * cat[i].assoc_columns[c];
  }
  for (size_t c = 0; c < cols; ++c) {
    double want = m == 7 ? -2.5 * std::log10(sum[c]) : m == 6 ? sum[c] : sum[c] / tw;
    r.require(vk::close(v.at(c), want, 1e-5, 1e-5), "assoc.combine", [&] { return std::string(MN[m]) + " of column " + str(c) + " is " + str(v.at(c)) + ", not " + str(want); });
  }
}
VK_SUITE(assoc) {
  const double X = 50.3, Y = 49.6, R = 2;
  const double P[][2] = {{0, 0}, {1, 0}, {0, -1.5}, {-1.4, 1.4}, {1.5, 1.5}, {2.5, 0}, {0, -2.25}};
  const double WGT[] = {1, 3, 0.5};
  const int np = 7, nw = 3, maxn = r.thorough() ? 3 : 3;
  for (int n = 0; n <= maxn; ++n) {
    for (vk::Odo o(std::vector<int>(n, np * nw)); !o.done; o.inc())
    {
      for (size_t cols = 0; cols <= (n < 3 || r.thorough() ? 2u : 1u); ++cols) for (int hdu = 0; hdu < (n < 3 ? 2 : 1); ++hdu) {
        if (!r.next()) continue;
        std::vector<Entry> cat;
        for (int i = 0; i < n; ++i) {
          Entry e{{X + P[o.v[i] / nw][0], Y + P[o.v[i] / nw][1]}, {}, WGT[o.v[i] % nw], {}, 1, 1, 0};
          for (size_t c = 0; c < cols; ++c) e.assoc_columns.push_back(c ? 20.5 - i : 3 + 1.25 * i);
          cat.push_back(e);
        }
        r.desc([&] { std::string s = "catalogue of frame " + str(hdu) + " with " + str(cols) + " columns:"; for (auto& e : cat) s += " (" + str(e.coord.m_x - X) + "," + str(e.coord.m_y - Y) + " weight " + str(e.weight) + ")"; return s; });
        r.guarded("M05.crash", [&] {
          std::vector<Entry> other{{{X, Y}, {}, 7.0, std::vector<double>(cols, 99.0), 1, 1, 0}};
          std::vector<std::vector<Entry>> cats{other, other}; cats[hdu] = cat;
          for (int m = 0; m < 8; ++m) {
            SimpleSource s; frameInfo(s, 100, 100, hdu); s.setProperty<PixelCentroid>(X, Y);
            AssocModeTask(cats, MODE[m], R).computeProperties(s);
            auto& got = s.getProperty<AssocMode>();
            r.transition();
            compare(r, cat, X, Y, R, m, got, cat.empty() ? got.getAssocValues().size() : cols);
          }
        });
      }
    }
  }
}
// Catalogues that need more than one leaf of the search tree, in several orders
VK_SUITE(large) {
  for (int n : {99, 100, 101, 102, 150, 201, 400}) for (int order = 0; order < 4; ++order) for (int layout = 0; layout < 3; ++layout) for (int q = 0; q < (r.thorough() ? 25 : 9); ++q) {
    if (!r.next()) continue;
    r.desc([&] { return "catalogue of " + str(n) + " entries, order " + str(order) + ", layout " + str(layout) + ", query " + str(q); });
    r.guarded("M05.crash", [&] {
      std::vector<Entry> cat;
      int side = layout == 0 ? 20 : layout == 1 ? 7 : 1;   // wide, tall, or one column of coincident pairs
      for (int i = 0; i < n; ++i) {
        int j = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 37) % n : i % 2 ? n - 1 - i / 2 : i / 2;
        if (order == 2 && n % 37 == 0) j = i;
        Entry e{{double(j % side), layout == 2 ? double(j / 2) : double(j / side)}, {}, 1.0 + (j * 13) % 17, {double(i), 10 + 0.01 * i}, 1, 1, 0};
        cat.push_back(e);
      }
      double hx = side - 1, hy = layout == 2 ? n / 2 : n / side; int k = r.thorough() ? 5 : 3;
      double x = hx * (q % k) / (k - 1) + 0.21, y = hy * (q / k) / (k - 1) - 0.17;
      for (int m = 0; m < 8; ++m) for (double R : {0.1, 1.3, 3.2}) {
        SimpleSource s; frameInfo(s, 100, 100, 0); s.setProperty<PixelCentroid>(x, y);
        AssocModeTask({cat}, MODE[m], R).computeProperties(s);
        r.transition();
        compare(r, cat, x, y, R, m, s.getProperty<AssocMode>(), 2);
      }
    });
  }
}
VK_SUITE(filter) {
  for (int match = 0; match < 2; ++match) for (int need = 0; need < 2; ++need) {
    if (!r.next()) continue;
    r.desc([&] { return std::string("a source that is ") + (match ? "" : "not ") + "matched meets the filter for " + (need ? "matched" : "unmatched") + " sources"; });
    r.guarded("M05.crash", [&] {
      auto s = std::unique_ptr<SimpleSource>(new SimpleSource); SourceInterface* p = s.get();
      s->setProperty<AssocMode>(match != 0, std::vector<double>{1.0});
      auto out = AssocModePartitionStep(need != 0).partition(std::move(s));
      r.require(match == need ? out.size() == 1 && out[0].get() == p : out.empty(), "assoc.filter", [&] { return str(out.size()) + " sources pass"; });
      r.nontrivial();
    });
  }
}
