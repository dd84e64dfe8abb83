// Threads reading images through one tile cache: every schedule up to the preemption bound.
#include <thread>
#include "common/mcsources.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ProcessingImageSource.h"
#include "SEFramework/Image/TileManager.h"
using namespace SourceXtractor;

template <typename T> static void expect(const McSource<T>& s, const ImageChunk<T>& c, int x0, int y0, int w, int h, int mult = 1) {
  bool ok = c.getWidth() == w && c.getHeight() == h;
  for (int y = 0; ok && y < h; ++y) for (int x = 0; x < w; ++x) ok = ok && c.getValue(x, y) == T(mult) * s.base(x0 + x, y0 + y);
  mc::require(ok, "pixels", "region " + std::to_string(x0) + "," + std::to_string(y0) + " " + std::to_string(w) + "x" + std::to_string(h) + " of source " + std::to_string(s.id) + " is wrong");
}
template <typename T> static void read(const McSource<T>& s, const Image<T>& img, int x, int y, int w, int h, int mult = 1) { expect(s, *img.getChunk(x, y, w, h), x, y, w, h, mult); }
struct Region { int img, x, y, w, h; };

// every thread reads its regions in turn; once: no tile may be loaded twice
template <typename T>
static void readers(vk::Run& r, const std::string& key, const std::string& what, int tile, int mem, int W, int H, int nsrc, std::vector<std::vector<Region>> th, bool once, int pre, bool reuse = false) {
  mc::Options o; o.preemptions = pre; o.reuse = reuse;
  mc::explore(r, key, what, o, [=] {
    auto tm = std::make_shared<TileManager>();
    tm->setOptions(tile, tile, mem);
    std::vector<std::shared_ptr<McSource<T>>> src;
    std::vector<std::shared_ptr<Image<T>>> img;
    for (int i = 0; i < nsrc; ++i) { src.push_back(std::make_shared<McSource<T>>(W, H, i + 1)); img.push_back(BufferedImage<T>::create(src[i], tm)); }
    auto run = [&](const std::vector<Region>& v) { for (auto& g : v) read(*src[g.img], *img[g.img], g.x, g.y, g.w, g.h); };
    std::vector<std::thread> ts;
    for (size_t i = 1; i < th.size(); ++i) ts.emplace_back([&run, &th, i] { run(th[i]); });
    run(th[0]);
    for (auto& t : ts) t.join();
    uint64_t h = 0;
    for (auto& s : src) {
      for (auto& l : s->loads) { h = vk::mix(h, vk::mix(l.first, l.second)); if (once) mc::require(s->loadsOf(l.first, l.second) == 1, "loaded twice", "tile " + std::to_string(l.first) + "," + std::to_string(l.second) + " was loaded " + std::to_string(s->loadsOf(l.first, l.second)) + " times"); }
      h = vk::mix(h, 77);
    }
    // whatever is in the cache now is right
    for (size_t i = 0; i < img.size(); ++i) read(*src[i], *img[i], 0, 0, std::min(W, 6), std::min(H, 3));
    mc::observe(h);
  });
}
VK_SUITE(same_tile) {
  int p = r.thorough() ? 3 : 2;
  readers<float>(r, "cache/same_tile", "two threads miss the same tile", 2, 1, 4, 2, 1, {{{0, 0, 0, 2, 2}}, {{0, 1, 0, 1, 2}}}, true, p + 1);
  readers<float>(r, "cache/same_tile3", "three threads miss the same tile", 2, 1, 4, 2, 1, {{{0, 0, 0, 2, 2}}, {{0, 1, 0, 1, 2}}, {{0, 0, 1, 1, 1}}}, true, p - 1);
}
VK_SUITE(tiles_of_one_source) {
  int p = r.thorough() ? 3 : 2;
  readers<float>(r, "cache/two_tiles", "two threads read two tiles in opposite order", 2, 1, 4, 2, 1, {{{0, 0, 0, 2, 2}, {0, 2, 0, 2, 2}}, {{0, 2, 1, 1, 1}, {0, 0, 0, 1, 1}}}, true, p);
  readers<float>(r, "cache/spanning", "two threads read regions across tiles", 2, 1, 4, 4, 1, {{{0, 0, 0, 4, 3}}, {{0, 1, 1, 2, 2}}}, true, p);
}
VK_SUITE(two_sources) {
  int p = r.thorough() ? 3 : 2;
  readers<float>(r, "cache/two_sources", "two threads read two images in opposite order", 2, 1, 2, 2, 2, {{{0, 0, 0, 2, 2}, {1, 0, 0, 2, 2}}, {{1, 0, 0, 2, 2}, {0, 0, 0, 2, 2}}}, true, p);
  readers<float>(r, "cache/three_sources", "three threads read an image each", 2, 1, 2, 2, 3, {{{0, 0, 0, 2, 2}}, {{1, 0, 0, 2, 2}}, {{2, 0, 0, 2, 2}}}, true, p - 1);
}
VK_SUITE(evicted_at_once) {
  int p = r.thorough() ? 3 : 2;
  readers<float>(r, "cache/evict_always", "two threads, nothing stays in the cache", 2, 0, 4, 2, 1, {{{0, 0, 0, 4, 2}}, {{0, 1, 0, 2, 2}}}, false, p);
  readers<double>(r, "cache/evict_always2", "two threads, two images, nothing stays in the cache", 2, 0, 2, 2, 2, {{{0, 0, 0, 2, 2}, {1, 0, 0, 1, 1}}, {{1, 0, 0, 2, 2}, {0, 0, 0, 1, 1}}}, false, p, true);
}
VK_SUITE(evicted_by_others) {
  int p = r.thorough() ? 3 : 2;
  // two tiles of 512 KiB fit in 1 MiB
  readers<double>(r, "cache/evict_lru", "two threads reading three tiles of which two fit", 256, 1, 768, 256, 1, {{{0, 0, 0, 2, 2}, {0, 300, 0, 1, 1}, {0, 600, 0, 1, 1}}, {{0, 600, 0, 2, 1}, {0, 0, 5, 1, 1}}}, false, p - 1);
  readers<double>(r, "cache/evict_lru2", "two threads reading two tiles each of two images, two fit", 256, 1, 512, 256, 2, {{{0, 0, 0, 2, 2}, {1, 0, 0, 1, 1}}, {{0, 255, 0, 2, 2}, {1, 5, 0, 1, 1}}}, false, p - 1);
}
// An image computed tile by tile from another one through the same cache
template <typename T> struct Doubler : public ProcessingImageSource<T> {
  using ProcessingImageSource<T>::ProcessingImageSource;
  std::string getRepr() const override { return "doubler"; }
  void generateTile(const std::shared_ptr<Image<T>>& image, ImageTileWithType<T>& tile, int x, int y, int width, int height) const override {
    auto c = image->getChunk(x, y, width, height);
    for (int j = 0; j < height; ++j) for (int i = 0; i < width; ++i) tile.setValue(x + i, y + j, T(2) * c->getValue(i, j));
  }
};
static void nested(vk::Run& r, const char* key, int mem, int pre, bool both) {
  mc::Options o; o.preemptions = pre;
  mc::explore(r, key, std::string("an image computed from another through the same cache, memory ") + std::to_string(mem), o, [=] {
    auto tm = std::make_shared<TileManager>();
    tm->setOptions(2, 2, mem);
    auto s = std::make_shared<McSource<float>>(4, 2, 1);
    std::shared_ptr<Image<float>> a = BufferedImage<float>::create(s, tm);
    std::shared_ptr<Image<float>> b = BufferedImage<float>::create(std::make_shared<Doubler<float>>(a), tm);
    std::thread t([&] { if (both) read(*s, *b, 1, 0, 2, 2, 2); else { read(*s, *a, 0, 0, 2, 2); read(*s, *b, 2, 0, 1, 1, 2); } });
    read(*s, *b, 0, 0, 2, 1, 2);
    read(*s, *a, 1, 1, 2, 1);
    t.join();
    mc::observe(s->loads.size());
    if (mem) mc::require(s->loads.size() == 2, "loaded twice", std::to_string(s->loads.size()) + " loads of 2 tiles");
  });
}
VK_SUITE(computed_images) { int p = r.thorough() ? 3 : 2; nested(r, "cache/nested", 1, p, false); nested(r, "cache/nested_evict", 0, p - 1, false); nested(r, "cache/nested_both", 1, p, true); }
static void flusher(vk::Run& r, const char* key, int op, int pre) {
  mc::Options o; o.preemptions = pre;
  mc::explore(r, key, op == 0 ? "a reader against saveAllTiles" : "a reader against flush", o, [=] {
    auto tm = std::make_shared<TileManager>();
    tm->setOptions(2, 2, 1);
    auto s = std::make_shared<McSource<float>>(4, 2, 1);
    std::shared_ptr<Image<float>> a = BufferedImage<float>::create(s, tm);
    auto kept = a->getChunk(0, 0, 2, 2);
    std::thread t([&] { if (op == 0) tm->saveAllTiles(); else tm->flush(); if (op == 2) tm->flush(); });
    read(*s, *a, 0, 0, 4, 2);
    expect(*s, *kept, 0, 0, 2, 2);
    t.join();
    expect(*s, *kept, 0, 0, 2, 2);
    read(*s, *a, 0, 0, 4, 2);
    mc::observe(s->loads.size());
    if (op == 0) mc::require(s->loads.size() == 2 && s->saves == 0, "saveAllTiles", "saving reloaded or wrote unmodified tiles");
  });
}
VK_SUITE(flush_and_save) { int p = r.thorough() ? 3 : 2; flusher(r, "cache/save_all", 0, p); flusher(r, "cache/flush", 1, p); flusher(r, "cache/flush_twice", 2, p); }
// sources that come and go: a new source at the address of a dead one gets its own pixels
VK_SUITE(sources_come_and_go) {
  mc::Options o; o.preemptions = r.thorough() ? 2 : 1; o.reuse = true;
  mc::explore(r, "cache/reuse", "two threads each create, read and drop images", o, [] {
    auto tm = std::make_shared<TileManager>();
    tm->setOptions(2, 2, 1);
    auto f = [&](int id) { for (int k = 0; k < 2; ++k) { auto s = std::make_shared<McSource<float>>(2, 2, id + k); auto i = BufferedImage<float>::create(s, tm); read(*s, *i, 0, 0, 2, 2); } };
    std::thread t([&] { f(10); });
    f(20);
    t.join();
    tm->flush();
    f(30);
    mc::observe(1);
  });
}
