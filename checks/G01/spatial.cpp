// Range queries of the quad tree and the k-d tree against a flat list, over every short history / point set.
#include "vkit.h"
#include <algorithm>
#include <array>
#include <memory>
#include "SEUtils/KdTree.h"
#include "SEUtils/QuadTree.h"

struct Pt { int id; double x, y, z; bool operator==(const Pt& o) const { return id == o.id; } };

namespace SourceXtractor {
template <> struct QuadTreeTraits<Pt> { static double getCoord(const Pt& t, size_t i) { return i == 0 ? t.x : t.y; } };
template <> struct KdTreeTraits<Pt> { static double getCoord(const Pt& t, size_t i) { return i == 0 ? t.x : i == 1 ? t.y : t.z; } };
}
using namespace SourceXtractor;

static std::vector<int> ids(std::vector<Pt> v) {
  std::vector<int> r;
  for (auto& p : v) r.push_back(p.id);
  std::sort(r.begin(), r.end());
  return r;
}
static const std::vector<double> kRadii{0., 0.5, 1., 1.4142135623730951, 2.3, 7., 50.};

static std::string opsStr(const std::vector<int>& ops, const std::vector<std::pair<double, double>>& grid) {
  std::ostringstream s;
  int n = 0;
  for (int o : ops) {
    if (o < (int)grid.size()) s << "add#" << n++ << "(" << grid[o].first << "," << grid[o].second << ") ";
    else s << "remove#" << (o - (int)grid.size()) << " ";
  }
  return s.str();
}

// One history on a real tree and on the list; every query of the battery after the last step.
static void quadHistory(vk::Run& r, const std::vector<std::pair<double, double>>& grid, const std::vector<int>& ops, size_t cap,
                        const std::vector<std::pair<double, double>>& centres, const char* key) {
  QuadTree<Pt> tree(cap);
  std::vector<Pt> model;
  int n = 0;
  for (int o : ops) {
    if (o < (int)grid.size()) {
      Pt p{n++, grid[o].first, grid[o].second, 0};
      tree.add(p);
      model.push_back(p);
    } else {
      int id = o - grid.size();
      for (size_t i = 0; i < model.size(); ++i)
        if (model[i].id == id) { Pt p = model[i]; model.erase(model.begin() + i); tree.remove(p); break; }
    }
    r.transition();
  }
  r.trace();
  uint64_t st = cap;
  for (auto& p : model) st = vk::mix(st, vk::mix((uint64_t)(p.x * 8 + 1000), (uint64_t)(p.y * 8 + 1000)));
  r.state(st);
  for (auto& c : centres)
    for (double rad : kRadii) {
      auto got = ids(tree.getPointsWithinRange({c.first, c.second}, rad));
      std::vector<int> want;
      for (auto& p : model)
        if ((p.x - c.first) * (p.x - c.first) + (p.y - c.second) * (p.y - c.second) <= rad * rad) want.push_back(p.id);
      std::sort(want.begin(), want.end());
      r.transition();
      r.see(want.size());
      if (!want.empty() && want.size() < model.size()) r.nontrivial();
      if (got != want) {
        r.fail(key, "capacity " + vk::str(cap) + " query (" + vk::str(c.first) + "," + vk::str(c.second) + ") r=" + vk::str(rad) + " got " + vk::strv(got) + " want " + vk::strv(want));
        return;
      }
    }
}

static void dfs(vk::Run& r, const std::vector<std::pair<double, double>>& grid, std::vector<int>& ops, std::vector<bool>& alive, size_t depth,
                size_t cap, const std::vector<std::pair<double, double>>& centres, const char* key) {
  if (ops.size() == depth) {
    if (!r.next()) return;
    auto copy = ops;
    r.desc([copy, &grid] { return opsStr(copy, grid); });
    r.guarded(key, [&] { quadHistory(r, grid, copy, cap, centres, key); });
    return;
  }
  for (int g = 0; g < (int)grid.size(); ++g) {
    ops.push_back(g); alive.push_back(true);
    dfs(r, grid, ops, alive, depth, cap, centres, key);
    ops.pop_back(); alive.pop_back();
  }
  for (int a = 0; a < (int)alive.size(); ++a) if (alive[a]) {
    ops.push_back((int)grid.size() + a); alive[a] = false;
    dfs(r, grid, ops, alive, depth, cap, centres, key);
    ops.pop_back(); alive[a] = true;
  }
}

VK_SUITE(quadtree_histories) {
  // positions force: inside/outside expansion in all four directions, the centre line, coincident points
  std::vector<std::pair<double, double>> grid{{0, 0}, {1, 0}, {0, 1}, {2, 2}, {-3, 1}, {1, -3}, {40, 40}};
  std::vector<std::pair<double, double>> centres{{0, 0}, {1, 1}, {0.5, 0.5}, {-3, -3}, {20, 20}, {40, 41}, {-1.5, 0.7}, {2, 0}};
  for (size_t depth = 1; depth <= (r.thorough() ? 6u : 5u); ++depth)
    for (size_t cap : {2, 3, 4}) {
      std::vector<int> ops; std::vector<bool> alive;
      dfs(r, grid, ops, alive, depth, cap, centres, "quadtree/history");
    }
}

// Larger trees: every prefix of deterministic insertion orders, with every removal subset of a stride pattern.
VK_SUITE(quadtree_large) {
  for (size_t cap : {2, 3, 5, 8, 100})
    for (int shape = 0; shape < 6; ++shape)
      for (int n : {7, 20, 64, r.thorough() ? 600 : 250})
        for (int rem = 0; rem < 4; ++rem) {
          if (!r.next()) continue;
          r.desc([=] { return "capacity " + vk::str(cap) + " shape " + vk::str(shape) + " n " + vk::str(n) + " removal " + vk::str(rem); });
          r.guarded("quadtree/large", [&] {
            QuadTree<Pt> tree(cap);
            std::vector<Pt> model;
            for (int i = 0; i < n; ++i) {
              double x = 0, y = 0;
              switch (shape) {
                case 0: x = i % 16; y = i / 16; break;
                case 1: x = (i * 37) % 101; y = (i * 53) % 97; break;
                case 2: x = i; y = -i; break;
                case 3: x = (i % 2 ? 1 : -1) * std::pow(1.3, i % 20); y = (i % 3 - 1) * 0.25 * i; break;
                case 4: x = 100 - i * 0.5; y = 7; break;
                case 5: x = (i * 7919) % 13 * 0.1; y = (i * 104729) % 11 * 100.; break;
              }
              // at most cap - 1 points share a position in this suite
              x += (i / 143) * 0.001; y += shape == 4 ? 0 : (i / 143) * 0.002;
              Pt p{i, x, y, 0};
              tree.add(p); model.push_back(p); r.transition();
            }
            for (int i = 0; i < n; ++i)
              if (rem && i % (rem + 1) == 0)
                for (size_t k = 0; k < model.size(); ++k) if (model[k].id == i) { Pt p = model[k]; tree.remove(p); model.erase(model.begin() + k); r.transition(); break; }
            std::vector<double> cs{-50, -3.3, 0, 1, 2.5, 7, 10, 33, 60, 120, 800};
            for (double cx : cs) for (double cy : cs) for (double rad : {0., 1., 2.5, 10., 45., 300.}) {
              auto got = ids(tree.getPointsWithinRange({cx, cy}, rad));
              std::vector<int> want;
              for (auto& p : model) if ((p.x - cx) * (p.x - cx) + (p.y - cy) * (p.y - cy) <= rad * rad) want.push_back(p.id);
              std::sort(want.begin(), want.end());
              r.transition(); r.see(want.size());
              if (!want.empty() && want.size() < model.size()) r.nontrivial();
              r.require(got == want, "quadtree/large", [&] { return "query (" + vk::str(cx) + "," + vk::str(cy) + ") r=" + vk::str(rad) + " got " + vk::str(got.size()) + " points, want " + vk::str(want.size()); });
            }
            r.trace();
          });
        }
}

// Many points on one position, then others: must end, and must still answer.
VK_SUITE(quadtree_coincident) {
  for (size_t cap : {1, 2, 3, 4, 100})
    for (int same : {1, 2, 3, 4, 5, 120})
      for (int before = 0; before < 3; ++before)
        for (int after = 0; after < 3; ++after) {
          if (!r.next()) continue;
          r.desc([=] { return "capacity " + vk::str(cap) + ", " + vk::str(before) + " others, then " + vk::str(same) + " points at (1,2), then " + vk::str(after) + " others"; });
          r.nontrivial();
          r.see(vk::mix(cap, same * 9 + before * 3 + after));
          std::string how;
          int rc = vk::isolated([&] {
            QuadTree<Pt> tree(cap);
            std::vector<Pt> model;
            auto add = [&](double x, double y) { Pt p{(int)model.size(), x, y, 0}; tree.add(p); model.push_back(p); };
            for (int i = 0; i < before; ++i) add(5 * i, 3 - i);
            for (int i = 0; i < same; ++i) add(1, 2);
            for (int i = 0; i < after; ++i) add(-7 * i, 11 + i);
            for (double rad : {0., 1.5, 6., 30.}) {
              auto got = ids(tree.getPointsWithinRange({1, 2}, rad));
              std::vector<int> want;
              for (auto& p : model) if ((p.x - 1) * (p.x - 1) + (p.y - 2) * (p.y - 2) <= rad * rad) want.push_back(p.id);
              if (got != want) return false;
            }
            return true;
          }, 5, &how);
          r.transition(before + same + after + 4); r.trace();
          r.check(rc == 0, "quadtree/coincident", [&] { return rc == 1 ? std::string("wrong answer") : "adding the points does not come back (" + how + ")"; });
        }
}

template <size_t N, size_t S> static void kd(vk::Run& r, const std::vector<Pt>& pool, int n, const std::vector<std::array<double, 3>>& centres) {
  // every multiset of n positions of the pool, in both orders
  std::vector<int> pick(n, 0);
  for (;;) {
    for (int rev = 0; rev < 2; ++rev) {
      if (r.next()) {
        auto pk = pick;
        r.desc([=] { return "kd N=" + vk::str(N) + " leaf=" + vk::str(S) + " points " + vk::strv(pk) + (rev ? " reversed" : ""); });
        r.guarded("kdtree", [&] {
          std::vector<Pt> pts;
          for (int i = 0; i < n; ++i) { Pt p = pool[pick[rev ? n - 1 - i : i]]; p.id = i; pts.push_back(p); }
          KdTree<Pt, N, S> tree(pts);
          r.trace();
          r.state(vk::mix(vk::mix(N, S), vk::hashBytes(pick.data(), pick.size() * sizeof(int))));
          for (auto& c : centres)
            for (double rad : kRadii) {
              typename KdTree<Pt, N, S>::Coord cc;
              for (size_t k = 0; k < N; ++k) cc.coord[k] = c[k];
              auto got = ids(tree.findPointsWithinRadius(cc, rad));
              std::vector<int> want;
              for (auto& p : pts) {
                double d = 0;
                const double v[3] = {p.x, p.y, p.z};
                for (size_t k = 0; k < N; ++k) d += (v[k] - c[k]) * (v[k] - c[k]);
                if (d < rad * rad) want.push_back(p.id);
              }
              r.transition(); r.see(want.size());
              if (!want.empty() && want.size() < pts.size()) r.nontrivial();
              r.require(got == want, "kdtree", [&] { return "centre (" + vk::str(c[0]) + "," + vk::str(c[1]) + "," + vk::str(c[2]) + ") r=" + vk::str(rad) + " got " + vk::strv(got) + " want " + vk::strv(want); });
            }
        });
      }
    }
    int i = n - 1;
    while (i >= 0 && pick[i] == (int)pool.size() - 1) --i;
    if (i < 0) break;
    ++pick[i];
    for (int k = i + 1; k < n; ++k) pick[k] = pick[i];
  }
}

VK_SUITE(kdtree_pointsets) {
  std::vector<Pt> pool2{{0, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 2, 2, 0}, {0, -3, 1, 0}, {0, 1, 5, 0}, {0, 40, 2, 0}};
  std::vector<Pt> pool3{{0, 0, 0, 0}, {0, 1, 0, 2}, {0, 0, 1, -1}, {0, 2, 2, 2}, {0, -3, 1, 0.5}};
  std::vector<std::array<double, 3>> centres{{0, 0, 0}, {1, 1, 1}, {0.5, 0, 0}, {-3, -3, 0}, {20, 2, 1}, {41, 2, 0}, {2, 0.7, -1}, {1, 3, 2}};
  for (int n = 0; n <= (r.thorough() ? 10 : 7); ++n) {
    kd<2, 4>(r, pool2, n, centres);
    kd<2, 5>(r, pool2, n, centres);
    kd<1, 4>(r, pool2, n, centres);
    kd<3, 4>(r, pool3, std::min(n, 9), centres);
  }
  for (int n = 9; n <= (r.thorough() ? 14 : 11); ++n) kd<2, 4>(r, std::vector<Pt>(pool2.begin(), pool2.begin() + 5), n, centres);
  for (int n = 9; n <= (r.thorough() ? 13 : 10); ++n) kd<3, 4>(r, std::vector<Pt>(pool3.begin(), pool3.begin() + 5), n, centres);
}

VK_SUITE(kdtree_large) {
  for (int n : {99, 100, 101, 150, 200, 201, 202, 401, 1000})
    for (int shape = 0; shape < 4; ++shape) {
      if (!r.next()) continue;
      r.desc([=] { return "default leaf size, n " + vk::str(n) + " shape " + vk::str(shape); });
      r.guarded("kdtree/large", [&] {
        std::vector<Pt> pts;
        for (int i = 0; i < n; ++i) {
          double x = shape == 0 ? i % 20 : shape == 1 ? (i * 37) % 101 : shape == 2 ? 5 : i, y = shape == 0 ? i / 20 : shape == 1 ? (i * 53) % 97 : shape == 2 ? i * 0.25 : 50 - i;
          pts.push_back({i, x, y, 0});
        }
        KdTree<Pt> tree(pts);
        r.trace();
        for (double cx : {-2., 0., 3., 5., 9.5, 50., 120.}) for (double cy : {-60., 0., 4., 10., 20.5, 48.}) for (double rad : {0.3, 1., 4., 11., 60.}) {
          auto got = ids(tree.findPointsWithinRadius({{cx, cy}}, rad));
          std::vector<int> want;
          for (auto& p : pts) if ((p.x - cx) * (p.x - cx) + (p.y - cy) * (p.y - cy) < rad * rad) want.push_back(p.id);
          r.transition(); r.see(want.size());
          if (!want.empty() && want.size() < pts.size()) r.nontrivial();
          r.require(got == want, "kdtree/large", [&] { return "query (" + vk::str(cx) + "," + vk::str(cy) + ") r=" + vk::str(rad) + " got " + vk::str(got.size()) + " points, want " + vk::str(want.size()); });
        }
      });
    }
}
