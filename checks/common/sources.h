// Image sources kept in memory, for the tile cache harnesses.
#ifndef VERIF_COMMON_SOURCES_H
#define VERIF_COMMON_SOURCES_H
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "SEFramework/Image/ImageSource.h"
#include "SEFramework/Image/ImageTile.h"
template <typename T>
struct StoreSource : public SourceXtractor::ImageSource, public std::enable_shared_from_this<SourceXtractor::ImageSource> {
  int w, h;
  std::vector<T> data;
  mutable std::vector<std::pair<int, int>> loads;
  mutable std::vector<std::weak_ptr<SourceXtractor::ImageTile>> tiles;
  int saves = 0;
  mutable std::function<void(bool)> on_load;  // true: begins, false: ends
  StoreSource(int w_, int h_, std::function<T(int, int)> f) : w(w_), h(h_), data((size_t)w_ * h_) {
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) data[(size_t)y * w + x] = f(x, y);
  }
  std::string getRepr() const override { return "store"; }
  void saveTile(SourceXtractor::ImageTile& t) override {
    ++saves;
    for (int y = 0; y < t.getHeight(); ++y) for (int x = 0; x < t.getWidth(); ++x)
      data.at((size_t)(y + t.getPosY()) * w + x + t.getPosX()) = t.getValue<T>(x + t.getPosX(), y + t.getPosY());
  }
  std::shared_ptr<SourceXtractor::ImageTile> getImageTile(int x, int y, int tw, int th) const override {
    if (on_load) on_load(true);
    loads.push_back({x, y});
    auto t = SourceXtractor::ImageTile::create(getType(), x, y, tw, th, const_cast<StoreSource*>(this)->shared_from_this());
    for (int j = 0; j < th; ++j) for (int i = 0; i < tw; ++i) t->setValue(x + i, y + j, data.at((size_t)(y + j) * w + x + i));
    tiles.push_back(t);
    if (on_load) on_load(false);
    return t;
  }
  int getWidth() const override { return w; }
  int getHeight() const override { return h; }
  SourceXtractor::ImageTile::ImageType getType() const override { return SourceXtractor::ImageTile::getTypeValue(T()); }
};
#endif
