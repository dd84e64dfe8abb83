// Threads writing tiled images through locked handles while tiles are evicted and saved: every schedule up to the bound.
#include <thread>
#include "common/mcsources.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/WriteableBufferedImage.h"
#include "SEImplementation/Image/LockedWriteableImage.h"
using namespace SourceXtractor;
template <typename T> static void add(const std::shared_ptr<WriteableImage<T>>& img, int x, int y, T d) {
  auto l = LockedWriteableImage<T>::create(img);
  T v = l->getChunk(x, y, 1, 1)->getValue(0, 0);
  l->setValue(x, y, v + d);
}
template <typename T> static void check(const McSource<T>& s, const std::shared_ptr<WriteableImage<T>>& img, const std::shared_ptr<TileManager>& tm, int x, int y, T d) {
  T want = s.base(x, y) + d, got = img->getChunk(x, y, 1, 1)->getValue(0, 0);
  mc::require(got == want, "lost write", "pixel reads " + vk::str(got) + " instead of " + vk::str(want));
  tm->flush();
  mc::require(s.stored(x, y) == want, "lost write", "saved pixel is " + vk::str(s.stored(x, y)) + " instead of " + vk::str(want));
  got = img->getChunk(x, y, 1, 1)->getValue(0, 0);
  mc::require(got == want, "lost write", "reloaded pixel reads " + vk::str(got) + " instead of " + vk::str(want));
}
// op of the second thread: 0 adds to the same pixel, 1 to another pixel of the tile, 2 to another tile, 3 saves all, 4 flushes, 5 reads another image
template <typename T> static void scene(vk::Run& r, const char* key, int mem, int big, int op, int n0, int n1, int pre, bool third = false) {
  mc::Options o; o.preemptions = pre;
  static const char* names[] = {"adds to the same pixel", "adds to another pixel of the tile", "adds to another tile", "saves all tiles", "flushes", "reads another image"};
  mc::explore(r, key, std::string("a writer while another thread ") + names[op] + ", memory limit " + std::to_string(mem) + (third ? ", a third thread saves" : ""), o, [=] {
    int tile = big ? 256 : 2, W = 2 * tile;
    auto tm = std::make_shared<TileManager>();
    tm->setOptions(tile, tile, mem);
    auto s = std::make_shared<McSource<T>>(W, tile, 1), s2 = std::make_shared<McSource<T>>(W, tile, 2);
    std::shared_ptr<WriteableImage<T>> img = WriteableBufferedImage<T>::create(s, tm);
    std::shared_ptr<Image<T>> other = BufferedImage<T>::create(s2, tm);
    std::thread t([&] {
      for (int i = 0; i < n1; ++i) {
        if (op == 0) add<T>(img, 0, 0, 1);
        if (op == 1) add<T>(img, 1, 0, 1);
        if (op == 2) add<T>(img, tile, 0, 1);
        if (op == 3) tm->saveAllTiles();
        if (op == 4) tm->flush();
        if (op == 5) { mc::require(other->getChunk(0, 0, 1, 1)->getValue(0, 0) == s2->base(0, 0), "pixels", "other image"); mc::require(other->getChunk(tile, 0, 1, 1)->getValue(0, 0) == s2->base(tile, 0), "pixels", "other image"); }
      }
    });
    std::thread u;
    if (third) u = std::thread([&] { tm->saveAllTiles(); });
    for (int i = 0; i < n0; ++i) add<T>(img, 0, 0, 1);
    t.join();
    if (third) u.join();
    check<T>(*s, img, tm, 0, 0, T(n0 + (op == 0 ? n1 : 0)));
    if (op == 1) check<T>(*s, img, tm, 1, 0, T(n1));
    if (op == 2) check<T>(*s, img, tm, tile, 0, T(n1));
    mc::observe(vk::mix(s->saves, s->loads.size()));
  });
}
VK_SUITE(two_writers) {
  int p = r.thorough() ? 3 : 2;
  scene<float>(r, "writers/same_pixel", 1, 0, 0, 1, 1, p);
  scene<float>(r, "writers/same_tile", 1, 0, 1, 1, 1, p);
  scene<float>(r, "writers/same_pixel_evict", 0, 0, 0, 1, 1, p);
  scene<double>(r, "writers/same_tile_evict", 0, 0, 1, 1, 1, p);
  scene<int>(r, "writers/other_tile_evict", 0, 0, 2, 1, 1, p);
}
VK_SUITE(writer_and_saver) {
  int p = r.thorough() ? 3 : 2;
  scene<float>(r, "writers/save", 1, 0, 3, 1, 1, p);
  scene<float>(r, "writers/save2", 1, 0, 3, 2, 1, p);
  scene<float>(r, "writers/flush", 1, 0, 4, 2, 1, p);
  scene<float>(r, "writers/save_evict", 0, 0, 3, 1, 1, p);
}
VK_SUITE(writer_and_evicting_reader) {
  int p = r.thorough() ? 3 : 2;
  scene<double>(r, "writers/evicted_by_reader", 1, 1, 5, 1, 1, p - 1);
  scene<double>(r, "writers/evicted_by_reader2", 1, 1, 5, 2, 1, p - 1);
  scene<float>(r, "writers/evict_always_reader", 0, 0, 5, 1, 1, p - 1);
}
VK_SUITE(three_threads) {
  int p = r.thorough() ? 2 : 1;
  scene<float>(r, "writers/three", 1, 0, 1, 1, 1, p, true);
  scene<float>(r, "writers/three_evict", 0, 0, 0, 1, 1, p, true);
}
