// Image source kept in memory for harnesses run under the controlled scheduler: it notices overlapping loads, counts
// loads of tiles that are still cached, and hides its own bookkeeping from the race detector.
#ifndef VERIF_COMMON_MCSOURCES_H
#define VERIF_COMMON_MCSOURCES_H
#include "mc.h"
#include "SEFramework/Image/ImageSource.h"
#include "SEFramework/Image/ImageTile.h"
template <typename T>
struct McSource : public SourceXtractor::ImageSource, public std::enable_shared_from_this<SourceXtractor::ImageSource> {
  int w, h, id;
  mutable int loading = 0;
  mutable std::vector<std::pair<int, int>> loads;
  std::vector<std::pair<int, T>> written;  // sparse: position, value
  int saves = 0;
  bool points = true;                      // scheduling points inside loads and saves
  McSource(int w_, int h_, int id_) : w(w_), h(h_), id(id_) {}
  T base(int x, int y) const { return T(id * 1000 + (x % 31) + 7 * (y % 31)); }
  T stored(int x, int y) const { for (auto& p : written) if (p.first == y * w + x) return p.second; return base(x, y); }
  std::string getRepr() const override { return "source " + std::to_string(id); }
  int loadsOf(int x, int y) const { int n = 0; for (auto& l : loads) n += l.first == x && l.second == y; return n; }
  void saveTile(SourceXtractor::ImageTile& t) override {
    if (points) mc::point();
    mc::Untracked u;
    ++saves;
    for (int y = t.getPosY(); y < t.getPosY() + t.getHeight(); ++y) for (int x = t.getPosX(); x < t.getPosX() + t.getWidth(); ++x) {
      T v = t.getValue<T>(x, y);
      bool have = false;
      for (auto& p : written) if (p.first == y * w + x) { p.second = v; have = true; }
      if (!have && v != base(x, y)) written.push_back({y * w + x, v});
    }
  }
  std::shared_ptr<SourceXtractor::ImageTile> getImageTile(int x, int y, int tw, int th) const override {
    {
      mc::Untracked u;
      if (loading++) mc::fail("overlapping loads", "source " + std::to_string(id) + " is asked for two tiles at the same time");
      loads.push_back({x, y});
    }
    if (points) mc::point();
    std::shared_ptr<SourceXtractor::ImageTile> t;
    {
      mc::Untracked u;
      t = SourceXtractor::ImageTile::create(getType(), x, y, tw, th, const_cast<McSource*>(this)->shared_from_this());
      if (!t->isPixelInTile(x, y)) mc::fail("empty tile", "asked for an empty tile");
      for (int j = 0; j < th; ++j) for (int i = 0; i < tw; ++i) t->setValue(x + i, y + j, base(x + i, y + j));
      for (auto& p : written) if (t->isPixelInTile(p.first % w, p.first / w)) t->setValue(p.first % w, p.first / w, p.second);
    }
    if (points) mc::point();
    { mc::Untracked u; --loading; }
    return t;
  }
  int getWidth() const override { return w; }
  int getHeight() const override { return h; }
  SourceXtractor::ImageTile::ImageType getType() const override { return SourceXtractor::ImageTile::getTypeValue(T()); }
};
#endif
