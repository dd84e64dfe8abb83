// Writable tiled images: every short history of writes, reads, evictions, saves and flushes against a plain array.
#include "vkit.h"
#include "common/sources.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/WriteableBufferedImage.h"
#include "SEImplementation/Image/LockedWriteableImage.h"
#include "SEUtils/Types.h"
using namespace SourceXtractor;

// mode 0: every tile is evicted as soon as it is loaded; 1: nothing is; 2: reading the other image evicts everything
template <typename T> static void history(vk::Run& r, int mode, const std::vector<int>& ops, bool locked, const char* key) {
  int tw = mode == 2 ? 256 : 2, th = mode == 2 ? 256 : 2, W = mode == 2 ? 512 : 5, H = mode == 2 ? 256 : 3;
  auto tm = std::make_shared<TileManager>();
  tm->setOptions(tw, th, mode == 0 ? 0 : 1);
  auto src = std::make_shared<StoreSource<T>>(W, H, [](int x, int y) { return T(x % 50 + y % 50); });
  auto other = std::make_shared<StoreSource<T>>(mode == 2 ? 1280 : 4, mode == 2 ? 256 : 4, [](int, int) { return T(9); });
  auto oimg = BufferedImage<T>::create(other, tm);
  // pixels: two in the first tile, one in another
  int px[3] = {0, 1, mode == 2 ? 300 : 4}, py[3] = {0, 1, mode == 2 ? 7 : 2};
  T model[3];
  for (int k = 0; k < 3; ++k) model[k] = T(px[k] % 50 + py[k] % 50);
  {
    std::shared_ptr<WriteableImage<T>> img = WriteableBufferedImage<T>::create(src, tm);
    int n = 0;
    for (int op : ops) {
      r.transition();
      T v = T(100 + n++);
      if (op < 3) {
        if (locked) LockedWriteableImage<T>::create(img)->setValue(px[op], py[op], v);
        else img->setValue(px[op], py[op], v);
        model[op] = v;
      } else if (op < 6) {
        int k = op - 3;
        T g = img->getChunk(px[k], py[k], 1, 1)->getValue(0, 0);
        r.require(g == model[k], key, [&] { return "pixel " + vk::str(k) + " reads " + vk::str(g) + " instead of " + vk::str(model[k]); });
      } else if (op == 6) {
        int n = other->w / tw;
        for (int i = 0; i < n; ++i) r.require(oimg->getChunk(i * tw, 0, 1, 1)->getValue(0, 0) == T(9), key, [&] { return std::string("the other image"); });
      } else if (op == 7) {
        tm->saveAllTiles();
      } else if (op == 8) {
        tm->flush();
      } else if (op == 9) {  // across the tiles
        auto c = img->getChunk(0, 0, px[2] + 1, py[2] + 1);
        for (int k = 0; k < 3; ++k) r.require(c->getValue(px[k], py[k]) == model[k], key, [&] { return "region, pixel " + vk::str(k) + " reads " + vk::str(c->getValue(px[k], py[k])) + " instead of " + vk::str(model[k]); });
      }
    }
    for (int k = 0; k < 3; ++k) { T g = img->getChunk(px[k], py[k], 1, 1)->getValue(0, 0); r.require(g == model[k], key, [&] { return "in the end pixel " + vk::str(k) + " reads " + vk::str(g) + " instead of " + vk::str(model[k]); }); }
  }
  tm->flush();
  for (int k = 0; k < 3; ++k) r.require(src->data[(size_t)py[k] * W + px[k]] == model[k], key, [&] { return "saved pixel " + vk::str(k) + " is " + vk::str(src->data[(size_t)py[k] * W + px[k]]) + " instead of " + vk::str(model[k]); });
  for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) {
    bool mine = false;
    for (int k = 0; k < 3; ++k) mine = mine || (x == px[k] && y == py[k]);
    if (!mine) r.require(src->data[(size_t)y * W + x] == T(x % 50 + y % 50), key, [&] { return "untouched pixel " + vk::str(x) + "," + vk::str(y) + " was changed"; });
  }
  uint64_t h = mode;
  for (int k = 0; k < 3; ++k) h = vk::mix(h, (uint64_t)model[k]);
  h = vk::mix(vk::mix(h, src->loads.size()), src->saves);
  r.see(h); r.state(h); r.nontrivial(src->saves > 0); r.trace();
}
template <typename T> static void all(vk::Run& r, int mode, int len, bool locked, const char* tn, const char* key) {
  vk::Odo o(std::vector<int>(len, 10));
  for (; !o.done; o.inc()) {
    if (!r.next()) continue;
    auto ops = o.v;
    r.desc([=] { return std::string(tn) + " mode " + vk::str(mode) + (locked ? " locked" : "") + " history (0-2 write, 3-5 read, 6 read other image, 7 save all, 8 flush, 9 read region) " + vk::strv(ops); });
    r.guarded(key, [&] { history<T>(r, mode, ops, locked, key); });
  }
}
VK_SUITE(no_eviction) { all<float>(r, 1, r.thorough() ? 6 : 5, false, "float", "write/no_eviction"); }
VK_SUITE(always_evicted) { all<float>(r, 0, r.thorough() ? 6 : 5, false, "float", "write/always_evicted"); }
VK_SUITE(locked_handles) { all<double>(r, 0, 4, true, "double", "write/locked"); all<double>(r, 1, 4, true, "double", "write/locked"); }
VK_SUITE(int_pixels) { all<int>(r, 0, 4, false, "int", "write/int"); all<std::int64_t>(r, 1, 4, false, "int64", "write/int64"); all<unsigned>(r, 1, 4, false, "unsigned", "write/uint"); }
VK_SUITE(evicted_by_others) { all<float>(r, 2, r.thorough() ? 4 : 3, false, "float", "write/evicted_by_others"); }
