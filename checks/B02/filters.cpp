// Bad pixel interpolation and detection smoothing: same pixels whatever the tiles.
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/InterpolatedImageSource.h"
#include "SEFramework/Image/TileManager.h"
#include "SEImplementation/Segmentation/BackgroundConvolution.h"
#include "SEImplementation/Segmentation/BgConvolutionImageSource.h"
#include "SEImplementation/Segmentation/BgDFTConvolutionImageSource.h"
#include "common/tilecheck.h"
using namespace SourceXtractor;
static Img noise(int w, int h, uint64_t s, int range, float off) { return Img(w, h, [=](int x, int y) { return (float)(vk::mix(s * 1000003 + y * 1009 + x) % range) - off; }); }
// kernels: positive, and different at every pixel
static Img kernel(int w, int h, int kind) {
  if (kind == 0) return Img(w, h, [](int, int) { return 1.f; });
  return Img(w, h, [=](int x, int y) { return 1.f + 3 * x + 7 * y + (kind == 2 ? (float)((x * 5 + y * 3) % 4) : 0.f); });
}

VK_SUITE(interpolation_masks) {
  // every bad pixel map of small images
  for (int w = 1; w <= 4; ++w) for (int h = 1; h <= 3; ++h) {
    if (w * h > (r.thorough() ? 12 : 9)) continue;
    for (int m = 0; m < 1 << (w * h); ++m) for (int gap = 0; gap <= 3; ++gap) {
      if (!r.next()) continue;
      r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image, bad pixels " + vk::str(m) + ", gap " + vk::str(gap); });
      r.guarded("interpolation", [&] {
        Img a = noise(w, h, 3, 500, 250), v(w, h, [=](int x, int y) { return m >> (y * w + x) & 1 ? (x & 1 ? 10.f : 1e30f) : 9.5f; });
        Img want = interpolated(a, v, 10, gap), wv = interpolated(v, v, 10, gap);
        auto s = std::make_shared<InterpolatedImageSource<SeFloat>>(a.img(), v.img(), 10, gap);
        auto sv = std::make_shared<InterpolatedImageSource<SeFloat>>(v.img(), v.img(), 10, gap);
        for (int ty = 0; ty < h; ++ty) for (int tx = 0; tx < w; ++tx) for (int th = 1; th <= h - ty; ++th) for (int tw = 1; tw <= w - tx; ++tw) {
          tileIs(r, "interpolation", *s, want, tx, ty, tw, th, 0, 0);
          tileIs(r, "interpolation-variance", *sv, wv, tx, ty, tw, th, 0, 0);
        }
        if (m && gap) r.nontrivial();
      });
    }
  }
  // larger images and gaps: every tile
  for (int w : {6, 9}) for (int h : {5, 8}) for (int gap : {0, 1, 2, 4, 20}) for (int s = 0; s < 4; ++s) {
    if (!r.next()) continue;
    r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " image, pattern " + vk::str(s) + ", gap " + vk::str(gap); });
    r.guarded("interpolation", [&] {
      Img a = noise(w, h, 5, 500, 250), v = Img(w, h, [=](int x, int y) { return vk::mix(s * 9176 + y * 31 + x) % 4 < (unsigned)s ? 3.f : 1.f; });
      Img want = interpolated(a, v, 2, gap);
      auto src = std::make_shared<InterpolatedImageSource<SeFloat>>(a.img(), v.img(), 2, gap);
      r.require(src->getWidth() == w && src->getHeight() == h && src->getType() == ImageTile::FloatImage, "interpolation", [] { return std::string("wrong size or type"); });
      for (int ty = 0; ty < h; ++ty) for (int tx = 0; tx < w; ++tx) for (int th = 1; th <= h - ty; ++th) for (int tw = 1; tw <= w - tx; ++tw) tileIs(r, "interpolation", *src, want, tx, ty, tw, th, 0, 0);
      if (s && gap) r.nontrivial();
    });
  }
}
VK_SUITE(direct_convolution) {
  for (int kw = 1; kw <= 7; kw += 2) for (int kh = 1; kh <= 5; kh += 2) for (int kind = 0; kind < 3; ++kind) for (int w = 1; w <= 6; ++w) for (int h = 1; h <= 5; ++h) {
    if (!r.thorough() && kind == 0 && (w + h) % 2) continue;
    if (!r.next()) continue;
    r.desc([=] { return "kernel " + vk::str(kw) + "x" + vk::str(kh) + " kind " + vk::str(kind) + ", image " + vk::str(w) + "x" + vk::str(h); });
    r.guarded("direct", [&] {
      Img k = kernel(kw, kh, kind);
      for (int m = 0; m < 4; ++m) {
        Img a = noise(w, h, 7, 200, 50), v = Img(w, h, [=](int x, int y) { return vk::mix(m * 77 + y * 31 + x) % 5 < (unsigned)m ? (x % 2 ? 2.f : 5.f) : 1.5f; });
        Img want = smoothed(a, v, 2, k);
        auto s = std::make_shared<BgConvolutionImageSource>(a.img(), v.img(), 2, k.img());
        r.require(s->getWidth() == w && s->getHeight() == h, "direct", [] { return std::string("wrong size"); });
        for (int ty = 0; ty < h; ++ty) for (int tx = 0; tx < w; ++tx) for (int th = 1; th <= h - ty; ++th) for (int tw = 1; tw <= w - tx; ++tw) tileIs(r, "direct", *s, want, tx, ty, tw, th, 2e-5, 1e-3);
      }
      if (w > 1 && kw > 1) r.nontrivial();
    });
  }
  // every mask of a small image
  for (int m = 0; m < 1 << 9; ++m) for (int kk = 0; kk < 3; ++kk) {
    if (!r.next()) continue;
    r.desc([=] { return "mask " + vk::str(m) + " of a 3x3 image, kernel " + vk::str(kk); });
    r.guarded("direct-masks", [&] {
      Img k = kk == 0 ? kernel(3, 3, 2) : (kk == 1 ? kernel(5, 1, 1) : kernel(1, 5, 1));
      Img a = noise(3, 3, 9, 200, 50), v = Img(3, 3, [=](int x, int y) { return m >> (y * 3 + x) & 1 ? 2.f : 0.f; });
      Img want = smoothed(a, v, 2, k);
      auto s = std::make_shared<BgConvolutionImageSource>(a.img(), v.img(), 2, k.img());
      for (int ty = 0; ty < 3; ++ty) for (int tx = 0; tx < 3; ++tx) for (int th = 1; th <= 3 - ty; ++th) for (int tw = 1; tw <= 3 - tx; ++tw) tileIs(r, "direct-masks", *s, want, tx, ty, tw, th, 2e-5, 1e-3);
      if (m) r.nontrivial();
    });
  }
}
VK_SUITE(dft_convolution) {
  for (int kw = 1; kw <= 9; kw += 2) for (int kh = 1; kh <= 7; kh += 2) for (int w : {1, 2, 5, 8}) for (int h : {1, 3, 6}) for (int m = 0; m < 3; ++m) {
    if (!r.thorough() && (kw + kh + w + h) % 3 == 0 && m == 2) continue;
    if (!r.next()) continue;
    r.desc([=] { return "kernel " + vk::str(kw) + "x" + vk::str(kh) + ", image " + vk::str(w) + "x" + vk::str(h) + ", mask " + vk::str(m); });
    r.guarded("dft", [&] {
      Img k = kernel(kw, kh, 2);
      Img a = noise(w, h, 7, 200, 50), v = Img(w, h, [=](int x, int y) { return vk::mix(m * 77 + y * 31 + x) % 5 < (unsigned)m ? (x % 2 ? 2.f : 5.f) : 1.5f; });
      Img want = smoothed(a, v, 2, k);
      auto s = std::make_shared<BgDFTConvolutionImageSource>(a.img(), v.img(), 2, k.img());
      auto s2 = std::make_shared<BgConvolutionImageSource>(a.img(), v.img(), 2, k.img());
      for (int tw : {1, 2, 3, 8}) for (int th : {1, 2, 6}) for (int ty = 0; ty < h; ty += th) for (int tx = 0; tx < w; tx += tw) {
        tileIs(r, "dft", *s, want, tx, ty, std::min(tw, w - tx), std::min(th, h - ty), 1e-3, 0.05);
        tileIs(r, "direct", *s2, want, tx, ty, std::min(tw, w - tx), std::min(th, h - ty), 2e-5, 1e-3);
      }
      if (w > 1 && kw > 1) r.nontrivial();
    });
  }
}
VK_SUITE(detection_filter) {
  // through the tile cache, with every tile size and both algorithms
  for (int kw : {1, 3, 5, 7, 9}) for (int kh : {1, 3, 5}) for (int norm = 0; norm < 2; ++norm) for (int tw : {1, 2, 3, 5, 16}) for (int th : {1, 2, 4, 16}) {
    if (!r.next()) continue;
    r.desc([=] { return "kernel " + vk::str(kw) + "x" + vk::str(kh) + (norm ? " normalised" : "") + ", tiles " + vk::str(tw) + "x" + vk::str(th); });
    r.guarded("filter", [&] {
      TileManager::getInstance()->setOptions(tw, th, 100);
      const int w = 7, h = 6;
      Img k = kernel(kw, kh, 1), a = noise(w, h, 70, 300, 20), v = Img(w, h, [=](int x, int y) { return (x * 3 + y * 5) % 7 == 0 ? 4.f : 1.f; });
      auto ki = k.img();
      BackgroundConvolution f(ki, norm);
      auto out = f.processImage(a.img(), v.img(), 2);
      imageIs(r, "filter", *out, smoothed(a, v, 2, k), kw > 5 ? 1e-3 : 2e-5, kw > 5 ? 0.05 : 1e-3);
      for (size_t i = 0; i < k.d.size(); ++i) r.require(ki->getData()[i] == k.d[i], "filter", [] { return std::string("the caller's kernel is changed"); });
      // a kernel that is never divided by its sum: all unmasked centre
      if (kw > 1) r.nontrivial();
    });
    TileManager::getInstance()->flush();
  }
  TileManager::getInstance()->setOptions(256, 256, 512);
}
