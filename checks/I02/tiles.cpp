// Tiled, cached reads against the pixels of the source: all image and tile sizes, types, regions, short read histories.
#include "vkit.h"
#include <set>
#include "common/sources.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ProcessingImageSource.h"
#include "SEFramework/Image/TileManager.h"
#include "SEUtils/Types.h"
using namespace SourceXtractor;

template <typename T> static T pix(int x, int y) { return T(y * 17 + x * 3 + 1); }
template <> float pix<float>(int x, int y) { return y * 17.25f + x * 3.5f - 20.f; }
template <> double pix<double>(int x, int y) { return y * 17.25 + x * 3.5 - 1e-9 * x; }
template <> int pix<int>(int x, int y) { return (y * 17 + x * 3) * (x % 2 ? -1 : 1); }
template <> unsigned pix<unsigned>(int x, int y) { return 4000000000u + y * 17 + x * 3; }
template <> std::int64_t pix<std::int64_t>(int x, int y) { return (std::int64_t(y * 17 + x * 3 + 1) << 33) + x; }

template <typename T> static void regions(vk::Run& r, const char* tn) {
  int mw = r.thorough() ? 8 : 6, mh = r.thorough() ? 6 : 5;
  for (int w = 1; w <= mw; ++w) for (int h = 1; h <= mh; ++h)
    for (int tw = 1; tw <= 4; ++tw) for (int th = 1; th <= 4; ++th) for (int mem = 0; mem < 2; ++mem) {
      if (!r.next()) continue;
      r.desc([=] { return std::string(tn) + " image " + vk::str(w) + "x" + vk::str(h) + " tiles " + vk::str(tw) + "x" + vk::str(th) + (mem ? " kept" : " evicted at once"); });
      r.guarded("regions", [&] {
        auto src = std::make_shared<StoreSource<T>>(w, h, pix<T>);
        auto tm = std::make_shared<TileManager>();
        tm->setOptions(tw, th, mem);
        auto img = BufferedImage<T>::create(src, tm);
        r.require(img->getWidth() == w && img->getHeight() == h, "regions", [&] { return std::string("size"); });
        std::vector<std::shared_ptr<ImageChunk<T>>> kept;
        auto verify = [&](const ImageChunk<T>& c, int x, int y, const char* when) {
          for (int j = 0; j < c.getHeight(); ++j) for (int i = 0; i < c.getWidth(); ++i)
            r.require(c.getValue(i, j) == pix<T>(x + i, y + j), "regions", [&] { return std::string(when) + " region " + vk::str(x) + "," + vk::str(y) + " " + vk::str(c.getWidth()) + "x" + vk::str(c.getHeight()) + " pixel " + vk::str(i) + "," + vk::str(j) + ": " + vk::str(c.getValue(i, j)) + " instead of " + vk::str(pix<T>(x + i, y + j)); });
        };
        std::vector<std::pair<int, int>> at;
        for (int x = 0; x < w; ++x) for (int y = 0; y < h; ++y) for (int cw = 1; x + cw <= w; ++cw) for (int ch = 1; y + ch <= h; ++ch) {
          auto c = img->getChunk(x, y, cw, ch);
          r.transition();
          r.require(c->getWidth() == cw && c->getHeight() == ch, "regions", [&] { return std::string("size of the region"); });
          verify(*c, x, y, "fresh");
          if ((x + y * 3 + cw + ch) % 5 == 0) { kept.push_back(c); at.push_back({x, y}); }
        }
        tm->flush();
        for (size_t k = 0; k < kept.size(); ++k) verify(*kept[k], at[k].first, at[k].second, "kept across evictions");
        if (mem) {  // one load per tile
          std::set<std::pair<int, int>> s(src->loads.begin(), src->loads.end());
          r.require(s.size() == src->loads.size(), "reload", [&] { return std::string("a tile was loaded again although there was room for all of them"); });
          size_t want = size_t((w + tw - 1) / tw) * ((h + th - 1) / th);
          r.require(s.size() == want, "reload", [&] { return vk::str(s.size()) + " tiles loaded instead of " + vk::str(want); });
        }
        r.require(src->saves == 0, "saved", [&] { return std::string("reading wrote to the source"); });
        r.see(vk::hashBytes(src->loads.data(), src->loads.size() * 8)); r.nontrivial(w * h > 1); r.trace();
        r.state(vk::mix(vk::hashBytes(src->loads.data(), src->loads.size() * 8), w * 16 + h));
      });
    }
}
VK_SUITE(regions_float) { regions<float>(r, "float"); }
VK_SUITE(regions_double) { regions<double>(r, "double"); }
VK_SUITE(regions_int) { regions<int>(r, "int"); }
VK_SUITE(regions_uint) { regions<unsigned>(r, "unsigned"); }
VK_SUITE(regions_int64) { regions<std::int64_t>(r, "int64"); }

// Histories of reads, flushes and option changes on two images sharing one manager.
VK_SUITE(histories) {
  int len = r.thorough() ? 6 : 5;
  // ops 0..3 read a pixel/region of image A, 4..6 of image B, 7 flush, 8 save all, 9.. change options
  vk::Odo o(std::vector<int>(len, 12));
  for (; !o.done; o.inc()) {
    if (!r.next()) continue;
    auto ops = o.v;
    r.desc([=] { return "history " + vk::strv(ops); });
    r.guarded("histories", [&] {
      auto tm = std::make_shared<TileManager>();
      tm->setOptions(2, 2, 1);
      auto a = std::make_shared<StoreSource<float>>(5, 4, [](int x, int y) { return 10.f * y + x; });
      auto b = std::make_shared<StoreSource<float>>(3, 3, [](int x, int y) { return 1000.f + 10 * y + x; });
      auto ia = BufferedImage<float>::create(a, tm), ib = BufferedImage<float>::create(b, tm);
      auto rd = [&](int which, int x, int y, int w, int h) {
        auto c = (which ? ib : ia)->getChunk(x, y, w, h);
        for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i)
          r.require(c->getValue(i, j) == (which ? 1000.f : 0.f) + 10 * (y + j) + x + i, "histories", [&] { return "image " + vk::str(which) + " pixel " + vk::str(x + i) + "," + vk::str(y + j) + ": " + vk::str(c->getValue(i, j)); });
      };
      for (int op : ops) {
        r.transition();
        switch (op) {
          case 0: rd(0, 0, 0, 1, 1); break;
          case 1: rd(0, 4, 3, 1, 1); break;
          case 2: rd(0, 1, 1, 3, 2); break;
          case 3: rd(0, 0, 0, 5, 4); break;
          case 4: rd(1, 0, 0, 1, 1); break;
          case 5: rd(1, 2, 2, 1, 1); break;
          case 6: rd(1, 0, 1, 3, 2); break;
          case 7: tm->flush(); break;
          case 8: tm->saveAllTiles(); break;
          case 9: tm->setOptions(3, 2, 1); break;
          case 10: tm->setOptions(1, 4, 0); break;
          case 11: tm->setOptions(2, 2, 1); break;
        }
      }
      uint64_t h = vk::mix(vk::hashBytes(a->loads.data(), a->loads.size() * 8), vk::hashBytes(b->loads.data(), b->loads.size() * 8));
      r.see(h); r.state(h); r.nontrivial(!a->loads.empty()); r.trace();
    });
  }
}

// Memory: tiles that claim a size, a limit of 1 MB, every access history.
namespace {
struct FatTile : public ImageTile {
  int size, tag;
  FatTile(int x, int y, int w, int h, int size_, int tag_, std::shared_ptr<ImageSource> s) : ImageTile(FloatImage, x, y, w, h, s), size(size_), tag(tag_) {}
  int getTileMemorySize() const override { return size; }
  void setValue(int, int, float) override {} void setValue(int, int, double) override {} void setValue(int, int, int) override {}
  void setValue(int, int, unsigned) override {} void setValue(int, int, std::int64_t) override {}
  void* getDataPtr() override { return nullptr; }
  void getValue(int, int, float& v) const override { v = tag; } void getValue(int, int, double& v) const override { v = tag; } void getValue(int, int, int& v) const override { v = tag; }
  void getValue(int, int, unsigned& v) const override { v = tag; } void getValue(int, int, std::int64_t& v) const override { v = tag; }
};
struct FatSource : public ImageSource, public std::enable_shared_from_this<ImageSource> {
  std::vector<int> sizes;
  mutable std::vector<std::weak_ptr<ImageTile>> live;
  mutable std::vector<int> loads;
  int base;
  FatSource(std::vector<int> s, int b) : sizes(s), live(s.size()), loads(s.size()), base(b) {}
  std::string getRepr() const override { return "fat"; }
  void saveTile(ImageTile&) override {}
  std::shared_ptr<ImageTile> getImageTile(int x, int y, int w, int h) const override {
    auto t = std::make_shared<FatTile>(x, y, w, h, sizes.at(x / 2), base + x / 2, const_cast<FatSource*>(this)->shared_from_this());
    live.at(x / 2) = t;
    ++loads.at(x / 2);
    return t;
  }
  int getWidth() const override { return 2 * sizes.size(); }
  int getHeight() const override { return 2; }
  ImageTile::ImageType getType() const override { return ImageTile::FloatImage; }
};
}
VK_SUITE(memory_bound) {
  int len = r.thorough() ? 7 : 6;
  const int K = 1000;
  std::vector<std::vector<int>> sizesets{{400 * K, 400 * K, 400 * K, 400 * K}, {1048576, 1, 600 * K, 448576}, {1048577, 300 * K, 300 * K, 300 * K}, {524288, 524288, 524288, 100}};
  for (auto& sizes : sizesets) {
    vk::Odo o(std::vector<int>(len, 6));
    for (; !o.done; o.inc()) {
      if (!r.next()) continue;
      auto ops = o.v;
      r.desc([=] { return "tile sizes " + vk::strv(sizes) + " (second image half of them), accesses " + vk::strv(ops); });
      r.guarded("memory", [&] {
        auto tm = std::make_shared<TileManager>();
        tm->setOptions(2, 2, 1);
        std::vector<int> s2{sizes[0] / 2, sizes[2] / 2};
        auto a = std::make_shared<FatSource>(sizes, 0), b = std::make_shared<FatSource>(s2, 100);
        for (int op : ops) {
          auto& s = op < 4 ? a : b;
          int k = op < 4 ? op : op - 4;
          bool was = !s->live[k].expired();
          int before = s->loads[k];
          {
            auto t = tm->getTileForPixel(2 * k + 1, 1, s);
            r.require(t && t->getValue<int>(0, 0) == s->base + k && t->getPosX() == 2 * k && t->getPosY() == 0, "memory", [&] { return std::string("wrong tile"); });
          }
          r.transition();
          if (was) r.require(s->loads[k] == before, "reload", [&] { return std::string("a cached tile was loaded again"); });
          long used = 0;
          for (auto& p : a->live) if (auto q = p.lock()) used += q->getTileMemorySize();
          for (auto& p : b->live) if (auto q = p.lock()) used += q->getTileMemorySize();
          r.require(used <= 1048576, "memory", [&] { return "tiles of " + vk::str(used) + " bytes are kept, the limit is 1048576"; });
          // a tile that fits beside everything else just stays
          long mine = s == a ? a->sizes[k] : b->sizes[k];
          if (mine <= 1048576) r.require(!s->live[k].expired() || used + mine > 1048576, "memory", [&] { return std::string("a tile that fits was dropped"); });
          uint64_t st = 0;
          for (auto& p : a->live) st = st * 2 + !p.expired();
          for (auto& p : b->live) st = st * 2 + !p.expired();
          r.state(st * 10 + (&sizes - &sizesets[0]));
        }
        r.see(vk::mix(vk::hashBytes(a->loads.data(), 16), vk::hashBytes(b->loads.data(), 8))); r.nontrivial(); r.trace();
        tm->flush();
        for (auto& p : a->live) r.require(p.expired(), "memory", [&] { return std::string("flush kept a tile"); });
      });
    }
  }
}

// Sources computed from another tiled image through the same manager.
namespace {
struct Doubler : public ProcessingImageSource<float> {
  explicit Doubler(std::shared_ptr<Image<float>> i) : ProcessingImageSource<float>(i) {}
  std::string getRepr() const override { return "doubler"; }
protected:
  void generateTile(const std::shared_ptr<Image<float>>& image, ImageTileWithType<float>& tile, int x, int y, int w, int h) const override {
    int x0 = std::max(0, x - 1), x1 = std::min(image->getWidth(), x + w + 1);
    auto c = image->getChunk(x0, y, x1 - x0, h);
    for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) {
      float v = 2 * c->getValue(x + i - x0, j);
      if (x + i + 1 < x1) v += c->getValue(x + i + 1 - x0, j);
      tile.setValue(x + i, y + j, v);
    }
  }
};
}
VK_SUITE(computed_sources) {
  for (int w = 1; w <= 6; ++w) for (int h = 1; h <= 4; ++h) for (int tw = 1; tw <= 4; ++tw) for (int th = 1; th <= 3; ++th) for (int mem = 0; mem < 2; ++mem) {
    if (!r.next()) continue;
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " tiles " + vk::str(tw) + "x" + vk::str(th) + " mem " + vk::str(mem); });
    r.guarded("computed", [&] {
      auto tm = std::make_shared<TileManager>();
      tm->setOptions(tw, th, mem);
      auto src = std::make_shared<StoreSource<float>>(w, h, pix<float>);
      auto img = BufferedImage<float>::create(src, tm);
      auto dbl = BufferedImage<float>::create(std::make_shared<Doubler>(img), tm);
      auto quad = BufferedImage<float>::create(std::make_shared<Doubler>(dbl), tm);
      auto d = [&](int x, int y) { return 2 * pix<float>(x, y) + (x + 1 < w ? pix<float>(x + 1, y) : 0); };
      auto q = [&](int x, int y) { return 2 * d(x, y) + (x + 1 < w ? d(x + 1, y) : 0); };
      for (int x = w - 1; x >= 0; --x) for (int y = 0; y < h; ++y) {
        r.transition();
        r.require(vk::close(quad->getChunk(x, y, 1, 1)->getValue(0, 0), q(x, y), 1e-6), "computed", [&] { return "pixel " + vk::str(x) + "," + vk::str(y); });
      }
      auto c = quad->getChunk(0, 0, w, h);
      for (int x = 0; x < w; ++x) for (int y = 0; y < h; ++y) r.require(vk::close(c->getValue(x, y), q(x, y), 1e-6), "computed", [&] { return "whole, pixel " + vk::str(x) + "," + vk::str(y); });
      r.see(w * 1000 + h * 100 + tw * 10 + th); r.nontrivial(w > 1); r.trace();
    });
  }
}

// A tile by itself: every type holds what it is given, knows its bounds and is saved exactly when it was modified.
VK_SUITE(single_tile) {
  for (int type = -1; type <= 4; ++type) for (int w = 1; w <= 3; ++w) for (int h = 1; h <= 3; ++h) for (int x0 : {0, 2, 7}) for (int y0 : {0, 3}) {
    if (!r.next()) continue;
    r.desc([=] { return "type " + vk::str(type) + " at " + vk::str(x0) + "," + vk::str(y0) + " " + vk::str(w) + "x" + vk::str(h); });
    r.guarded("tile", [&] {
      auto src = std::make_shared<StoreSource<double>>(12, 8, [](int, int) { return -1; });
      auto t = ImageTile::create(static_cast<ImageTile::ImageType>(type), x0, y0, w, h, src);
      r.require(t->getType() == (type < 0 ? ImageTile::FloatImage : static_cast<ImageTile::ImageType>(type)), "tile", [&] { return std::string("type"); });
      r.require(t->getPosX() == x0 && t->getPosY() == y0 && t->getWidth() == w && t->getHeight() == h, "tile", [&] { return std::string("place"); });
      r.require((size_t)t->getTileMemorySize() == w * h * ImageTile::getTypeSize(t->getType()), "tile", [&] { return std::string("memory size"); });
      for (int x = -1; x < 12; ++x) for (int y = -1; y < 8; ++y)
        r.require(t->isPixelInTile(x, y) == (x >= x0 && x < x0 + w && y >= y0 && y < y0 + h), "tile", [&] { return "containment of " + vk::str(x) + "," + vk::str(y); });
      bool integral = type >= 2, wide = type == 1 || type == 4;
      auto val = [&](int x, int y) { return 5 + x * 3 + y * 100; };
      for (int y = y0; y < y0 + h; ++y) for (int x = x0; x < x0 + w; ++x) {
        switch ((x + y) % 5) {
          case 0: t->setValue(x, y, float(val(x, y))); break;
          case 1: t->setValue(x, y, double(val(x, y))); break;
          case 2: t->setValue(x, y, int(val(x, y))); break;
          case 3: t->setValue(x, y, unsigned(val(x, y))); break;
          case 4: t->setValue(x, y, std::int64_t(val(x, y))); break;
        }
      }
      for (int y = y0; y < y0 + h; ++y) for (int x = x0; x < x0 + w; ++x)
        r.require(t->getValue<float>(x, y) == val(x, y) && t->getValue<double>(x, y) == val(x, y) && t->getValue<int>(x, y) == val(x, y) && t->getValue<unsigned>(x, y) == (unsigned)val(x, y) && t->getValue<std::int64_t>(x, y) == val(x, y), "tile", [&] { return "pixel " + vk::str(x) + "," + vk::str(y); });
      if (wide) { t->setValue(x0, y0, std::int64_t(1) << 40); r.require(t->getValue<std::int64_t>(x0, y0) == std::int64_t(1) << 40, "tile", [&] { return std::string("a 41-bit value"); }); t->setValue(x0, y0, val(x0, y0)); }
      if (!integral) { t->setValue(x0, y0, 0.5); r.require(t->getValue<double>(x0, y0) == 0.5, "tile", [&] { return std::string("a fraction"); }); t->setValue(x0, y0, val(x0, y0)); }
      r.require(!t->isModified(), "tile", [&] { return std::string("modified without being told"); });
      t->saveIfModified();
      r.require(src->saves == 0, "tile", [&] { return std::string("saved although not modified"); });
      t->setModified(true);
      t->saveIfModified();
      r.require(src->saves == 1 && !t->isModified(), "tile", [&] { return std::string("not saved once"); });
      for (int x = 0; x < 12; ++x) for (int y = 0; y < 8; ++y)
        r.require(src->data[y * 12 + x] == (t->isPixelInTile(x, y) ? val(x, y) : -1), "tile", [&] { return "saved pixel " + vk::str(x) + "," + vk::str(y); });
      t->saveIfModified();
      r.require(src->saves == 1, "tile", [&] { return std::string("saved again"); });
      t->setValue(x0, y0, 77); t->setModified(true);
      t = nullptr;
      r.require(src->saves == 2 && src->data[y0 * 12 + x0] == 77, "tile", [&] { return std::string("not saved when it goes away"); });
      r.see(vk::mix(type + 1, w * 100 + h * 10 + x0)); r.nontrivial(); r.trace(); r.transition(w * h);
    });
  }
}
