// Reads an image source tile by tile, at every tile position and size asked for, and compares with a definition.
#ifndef VERIF_COMMON_TILECHECK_H
#define VERIF_COMMON_TILECHECK_H
#include "vkit.h"
#include <functional>
#include <memory>
#include "SEFramework/Image/ImageSource.h"
#include "SEFramework/Image/ImageTile.h"
struct Img {
  int w, h; std::vector<float> d;
  Img(int w_, int h_) : w(w_), h(h_), d((size_t)w_ * h_) {}
  Img(int w_, int h_, std::function<float(int, int)> f) : Img(w_, h_) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) at(x, y) = f(x, y); }
  float& at(int x, int y) { return d[(size_t)y * w + x]; }
  float at(int x, int y) const { return d[(size_t)y * w + x]; }
  std::shared_ptr<SourceXtractor::VectorImage<float>> img() const { return SourceXtractor::VectorImage<float>::create(w, h, d); }
};
inline void tileIs(vk::Run& r, const char* key, const SourceXtractor::ImageSource& s, const Img& want, int tx, int ty, int tw, int th, double rel, double abs) {
  auto t = s.getImageTile(tx, ty, tw, th);
  r.require(t && t->getPosX() == tx && t->getPosY() == ty && t->getWidth() == tw && t->getHeight() == th, key, [&] { return "the tile " + vk::strv(std::vector<int>{tx, ty, tw, th}) + " is not the one asked for"; });
  for (int y = ty; y < ty + th; ++y) for (int x = tx; x < tx + tw; ++x) {
    double g = t->getValue<float>(x, y), w = want.at(x, y);
    r.require(vk::close(g, w, rel, abs), key, [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " of the tile " + vk::strv(std::vector<int>{tx, ty, tw, th}) + " is " + vk::str(g) + " instead of " + vk::str(w); });
    r.seeD(g);
  }
}
inline void imageIs(vk::Run& r, const char* key, const SourceXtractor::Image<float>& i, const Img& want, double rel, double abs) {
  r.require(i.getWidth() == want.w && i.getHeight() == want.h, key, [&] { return "image of " + vk::str(i.getWidth()) + "x" + vk::str(i.getHeight()) + " instead of " + vk::str(want.w) + "x" + vk::str(want.h); });
  auto c = i.getChunk(0, 0, want.w, want.h);
  for (int y = 0; y < want.h; ++y) for (int x = 0; x < want.w; ++x) {
    double g = c->getValue(x, y), w = want.at(x, y);
    r.require(vk::close(g, w, rel, abs), key, [&] { return "pixel " + vk::str(x) + "," + vk::str(y) + " is " + vk::str(g) + " instead of " + vk::str(w); });
    r.seeD(g);
  }
}
// --- definitions ---
inline Img interpolated(const Img& img, const Img& var, float thr, int gap) {
  return Img(img.w, img.h, [&](int x, int y) {
    if (var.at(x, y) < thr) return img.at(x, y);
    for (int i = 1; i <= gap; ++i) {
      if (x >= i && var.at(x - i, y) < thr) return img.at(x - i, y);
      if (y >= i && var.at(x, y - i) < thr) return img.at(x, y - i);
    }
    return img.at(x, y);
  });
}
inline Img smoothed(const Img& img, const Img& var, float thr, const Img& k) {
  return Img(img.w, img.h, [&](int x, int y) -> float {
    if (!(var.at(x, y) < thr)) return 0;
    double s = 0, n = 0;
    for (int j = 0; j < k.h; ++j) for (int i = 0; i < k.w; ++i) {
      // convolution: the kernel is mirrored
      int px = x - (i - k.w / 2), py = y - (j - k.h / 2);
      if (px < 0 || py < 0 || px >= img.w || py >= img.h || !(var.at(px, py) < thr)) continue;
      s += (double)img.at(px, py) * k.at(i, j); n += k.at(i, j);
    }
    return s / n;
  });
}
#endif
