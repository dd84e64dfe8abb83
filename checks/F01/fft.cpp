// Fourier transforms and convolutions against sums written out, on every basis image of every small size.
#include "vkit.h"
#include <complex>
#include <memory>
#include "SEFramework/Convolution/DFT.h"
#include "SEFramework/Convolution/DirectConvolution.h"
#include "SEFramework/FFT/FFT.h"
#include "SEFramework/FFT/FFTHelper.h"
#include "SEFramework/Image/VectorImage.h"
using namespace SourceXtractor;
template <typename T> using Img = VectorImage<T>;

VK_SUITE(round_dimension) {
  int N = r.thorough() ? 200000 : 20000, last = 0;
  for (int b = 0; b < N; b += 1000) {
    if (!r.next()) continue;
    r.desc([=] { return "sizes " + vk::str(b) + ".." + vk::str(b + 999); });
    last = b ? fftRoundDimension(b - 1) : 0;
    for (int n = b; n < b + 1000; ++n) {
      int v = fftRoundDimension(n);
      r.check(v >= n && v >= 1, "round-too-small", [&] { return "size " + vk::str(n) + " -> " + vk::str(v); });
      r.check(v >= last, "round-monotone", [&] { return "size " + vk::str(n) + " -> " + vk::str(v) + ", smaller than for the size before"; });
      r.check(v < 2 * n + 2 + 512, "round-too-large", [&] { return "size " + vk::str(n) + " -> " + vk::str(v); });
      r.check(fftRoundDimension(v) == v, "round-idempotent", [&] { return "size " + vk::str(v) + " is asked for as such but rounded again"; });
      last = v;
    }
    r.see(last); r.nontrivial(); r.transition(1000);
  }
}

static int stride(int w) { return 2 * (w / 2 + 1); }

// The transform of every basis image (it is linear) and of one image with all pixels; the plans come from the cache in every order.
template <typename T>
static void transforms(vk::Run& r, int N, const char* type) {
  double tol = sizeof(T) == 4 ? 3e-6 : 1e-13;
  // orders of creation of the plans
  for (int order = 0; order < 4; ++order) {
    if (!r.next()) continue;
    r.desc([=] { return std::string("transforms of every basis image up to ") + vk::str(N) + "x" + vk::str(N) + ", " + type + ", order of the sizes " + vk::str(order); });
    r.guarded("transform", [&] {
      std::vector<std::pair<int, int>> sizes;
      for (int a = 1; a <= N; ++a) for (int b = 1; b <= N; ++b) sizes.push_back(order & 1 ? std::make_pair(b, a) : std::make_pair(a, b));
      if (order & 2) std::reverse(sizes.begin(), sizes.end());
      for (auto& s : sizes) {
        int w = s.first, h = s.second;
        auto in = Img<T>::create(w, h), back = Img<T>::create(w, h);
        std::vector<T> plan_buf;  // too small: the plan functions make room
        typename FFT<T>::plan_ptr_t fwd, inv;
        if (order & 1) { inv = FFT<T>::createInversePlan(w, h, plan_buf); fwd = FFT<T>::createForwardPlan(w, h, plan_buf); }
        else { fwd = FFT<T>::createForwardPlan(w, h, plan_buf); inv = FFT<T>::createInversePlan(w, h, plan_buf); }
        r.check(plan_buf.size() >= (size_t)stride(w) * h, "work-area", [&] { return "work area of " + vk::str(plan_buf.size()) + " for " + vk::str(w) + "x" + vk::str(h); });
        for (int p = 0; p <= w * h; ++p) {
          for (int i = 0; i < w * h; ++i) in->at(i % w, i / w) = p == w * h ? T((i * 7 % 11) - 3) : T(i == p);
          std::vector<T> buf((size_t)stride(w) * h, T(99));
          copyImageToFFTWorkArea(*in, buf);
          FFT<T>::executeForward(fwd, buf);
          auto* c = reinterpret_cast<typename FFT<T>::complex_t*>(buf.data());
          for (int v = 0; v < h; ++v) for (int u = 0; u <= w / 2; ++u) {
            std::complex<double> z = 0;
            for (int i = 0; i < w * h; ++i) { double x = in->getValue(i % w, i / w); if (x) z += x * std::polar(1.0, -2 * M_PI * (double(u) * (i % w) / w + double(v) * (i / w) / h)); }
            auto& got = c[v * (w / 2 + 1) + u];
            r.check(std::abs(got[0] - z.real()) <= tol * 20 * w * h && std::abs(got[1] - z.imag()) <= tol * 20 * w * h, "forward", [&] {
              return std::string(type) + " " + vk::str(w) + "x" + vk::str(h) + ", image " + vk::str(p) + ", frequency " + vk::str(u) + "," + vk::str(v) + ": " + vk::str(got[0]) + "," + vk::str(got[1]) + " instead of " + vk::str(z.real()) + "," + vk::str(z.imag()); });
          }
          FFT<T>::executeInverse(inv, buf);
          copyFFTWorkAreaToImage(buf, *back);
          for (int i = 0; i < w * h; ++i)
            r.check(std::abs(back->getValue(i % w, i / w) - in->getValue(i % w, i / w)) <= tol * 20 * w * h, "inverse", [&] { return std::string(type) + " " + vk::str(w) + "x" + vk::str(h) + ": the inverse of the transform of image " + vk::str(p) + " is not the image"; });
          r.transition(2);
        }
        r.count("transform sizes");
      }
      r.see(order * 2 + sizeof(T)); r.nontrivial();
    });
  }
}
VK_SUITE(transform_float) { transforms<float>(r, r.thorough() ? 16 : 11, "float"); }
VK_SUITE(transform_double) { transforms<double>(r, r.thorough() ? 16 : 11, "double"); }

// Copies between images and work areas, for every padding.
VK_SUITE(work_areas) {
  int N = r.thorough() ? 6 : 4;
  for (vk::Odo o({N, N, 4, 4, 4, 4, 2}); !o.done; o.inc()) {
    if (!r.next()) continue;
    int w = o.v[0] + 1, h = o.v[1] + 1, rp = o.v[2], lp = o.v[3], tp = o.v[4], bp = o.v[5];
    bool norm = o.v[6];
    r.desc([=] { return "work area, image " + vk::str(w) + "x" + vk::str(h) + ", padding right " + vk::str(rp) + " left " + vk::str(lp) + " top " + vk::str(tp) + " bottom " + vk::str(bp) + (norm ? ", normalized" : ""); });
    r.guarded("work-area", [&] {
      int W = w + rp + lp, H = h + tp + bp;
      auto big = Img<double>::create(W, H), small = Img<double>::create(w, h, std::vector<double>(w * h, -1));
      for (int i = 0; i < W * H; ++i) big->at(i % W, i / W) = 1 + i * i % 101;
      std::vector<double> buf((size_t)stride(W) * H);
      copyImageToFFTWorkArea(*big, buf);
      for (int i = 0; i < W * H; ++i) r.check(buf[i % W + i / W * stride(W)] == big->getValue(i % W, i / W), "to-work-area", "a pixel in the wrong place of the work area");
      copyFFTWorkAreaToImage(buf, *small, rp, lp, tp, bp, norm);
      for (int i = 0; i < w * h; ++i) {
        double want = big->getValue(i % w + lp, i / w + tp) / (norm ? W * H : 1);
        r.check(std::abs(small->getValue(i % w, i / w) - want) <= 1e-12 * std::abs(want), "from-work-area", [&] { return "pixel " + vk::str(i % w) + "," + vk::str(i / w) + " is " + vk::str(small->getValue(i % w, i / w)) + " instead of " + vk::str(want); });
        r.seeD(want);
      }
      r.nontrivial(lp || rp || tp || bp); r.transition(2);
    });
  }
}

static int zero(int N, int v) { return v >= 0 && v < N ? v : -1; }
static int refl101(int N, int v) { if (N == 1) return 0; int p = 2 * (N - 1); v = ((v % p) + p) % p; return v < N ? v : p - v; }
static int refl(int N, int v) { int p = 2 * N; v = ((v % p) + p) % p; return v < N ? v : p - 1 - v; }
static int repl(int N, int v) { return v < 0 ? 0 : v >= N ? N - 1 : v; }
static int wrap(int N, int v) { return ((v % N) + N) % N; }

// Convolution of every basis image with every basis kernel (it is bilinear) and one dense pair.
template <typename T, typename Conv>
static void convolution(vk::Run& r, const char* name, int NI, int NK, int (*edge)(int, int), bool context, bool zero_pad = false) {
  double tol = sizeof(T) == 4 ? 2e-6 : context ? 2e-6 : 1e-13;  // the transform multiplies in single precision
  for (vk::Odo o({NI, NI, NK, NK}); !o.done; o.inc()) {
    if (!r.next()) continue;
    int w = o.v[0] + 1, h = o.v[1] + 1, kw = 2 * o.v[2] + 1, kh = 2 * o.v[3] + 1;
    r.desc([=] { return std::string(name) + ", images " + vk::str(w) + "x" + vk::str(h) + ", kernels " + vk::str(kw) + "x" + vk::str(kh) + ", every pair of basis images"; });
    r.guarded("convolution", [&] {
      for (int k = 0; k <= kw * kh; ++k) {
        auto ker = Img<T>::create(kw, kh);
        for (int i = 0; i < kw * kh; ++i) ker->at(i % kw, i / kw) = k == kw * kh ? T(1 + i * 5 % 7) : T(i == k);
        Conv conv(ker);
        r.check(conv.getWidth() == (size_t)kw && conv.getHeight() == (size_t)kh, "kernel-size", "size of the kernel");
        for (int p = 0; p <= w * h; ++p) {
          if (k == kw * kh && p < w * h && p % 3) continue;
          auto img = Img<T>::create(w, h);
          for (int i = 0; i < w * h; ++i) img->at(i % w, i / w) = p == w * h ? T(i * 7 % 11 - 3) : T(i == p);
          auto in = Img<T>::create(*img);
          conv.convolve(std::static_pointer_cast<WriteableImage<T>>(img));
          for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            double want = 0, mag = 0;
            for (int j = 0; j < kh; ++j) for (int i = 0; i < kw; ++i) {
              int sx = edge(w, x - (i - kw / 2)), sy = edge(h, y - (j - kh / 2));
              if (sx >= 0 && sy >= 0) { double t = double(ker->getValue(i, j)) * in->getValue(sx, sy); want += t; mag += std::abs(t); }
            }
            double got = img->getValue(x, y);
            r.check(std::abs(got - want) <= tol * (50 + 20 * mag), "convolution", [&] { return std::string(name) + ": image " + vk::str(p) + " with kernel " + vk::str(k) + " at " + vk::str(x) + "," + vk::str(y) + ": " + vk::str(got) + " instead of " + vk::str(want); });
          }
          r.transition();
        }
      }
      r.see(vk::hashStr(name)); r.see(w * 1000 + h * 100 + kw * 10 + kh); r.nontrivial(w * h > 1 && kw * kh > 1);
    });
  }
}
VK_SUITE(direct_reflect) { convolution<float, DirectConvolution<float>>(r, "direct, reflected without the edge", 5, 4, refl101, false); convolution<double, DirectConvolution<double>>(r, "direct, double", 3, 2, refl101, false); }
VK_SUITE(direct_other_edges) {
  convolution<float, DirectConvolution<float, PaddedImage<float>>>(r, "direct, zero outside", 5, 4, zero, false);
  convolution<float, DirectConvolution<float, PaddedImage<float, ReflectCoordinates>>>(r, "direct, reflected", 4, 2, refl, false);
  convolution<float, DirectConvolution<float, PaddedImage<float, ReplicateCoordinates>>>(r, "direct, replicated", 4, 2, repl, false);
  convolution<float, DirectConvolution<float, PaddedImage<float, WrapCoordinates>>>(r, "direct, wrapped", 4, 2, wrap, false);
}
VK_SUITE(transform_reflect) {
  convolution<float, DFTConvolution<float>>(r, "transform, reflected without the edge", r.thorough() ? 6 : 5, 4, refl101, true);
  convolution<double, DFTConvolution<double>>(r, "transform, double", 3, 2, refl101, true);
}
VK_SUITE(transform_other_edges) {
  convolution<float, DFTConvolution<float, PaddedImage<float>>>(r, "transform, zero outside", r.thorough() ? 6 : 5, 4, zero, true);
  convolution<float, DFTConvolution<float, PaddedImage<float, ReplicateCoordinates>>>(r, "transform, replicated", 3, 2, repl, true);
}

// One prepared context serves any sequence of images, also smaller ones; results do not depend on what was convolved before.
VK_SUITE(prepared_context) {
  int N = 3;
  for (vk::Odo o({N, N, N, N, 3, 3}); !o.done; o.inc()) {
    int w = o.v[0] + 2, h = o.v[1] + 2, w2 = o.v[2] + 1, h2 = o.v[3] + 1, kw = 2 * o.v[4] + 1, kh = 2 * o.v[5] + 1;
    if (w2 > w || h2 > h) continue;
    if (!r.next()) continue;
    r.desc([=] { return "one context for " + vk::str(w) + "x" + vk::str(h) + ", kernel " + vk::str(kw) + "x" + vk::str(kh) + ", then images of that size and " + vk::str(w2) + "x" + vk::str(h2); });
    r.guarded("context", [&] {
      auto ker = Img<float>::create(kw, kh);
      for (int i = 0; i < kw * kh; ++i) ker->at(i % kw, i / kw) = 1 + i * 5 % 7;
      DFTConvolution<float> conv(ker);
      auto proto = Img<float>::create(w, h);
      auto ctx = conv.prepare(proto);
      for (int step = 0; step < 5; ++step) {
        int ww = step & 1 ? w2 : w, hh = step & 1 ? h2 : h;
        auto img = Img<float>::create(ww, hh);
        for (int i = 0; i < ww * hh; ++i) img->at(i % ww, i / ww) = step == 4 ? (i == 0) : (i * (3 + step) % 11) - 2;
        auto in = Img<float>::create(*img);
        conv.convolve(std::static_pointer_cast<WriteableImage<float>>(img), ctx);
        for (int y = 0; y < hh; ++y) for (int x = 0; x < ww; ++x) {
          double want = 0;
          for (int j = 0; j < kh; ++j) for (int i = 0; i < kw; ++i) want += double(ker->getValue(i, j)) * in->getValue(refl101(ww, x - (i - kw / 2)), refl101(hh, y - (j - kh / 2)));
          r.check(std::abs(img->getValue(x, y) - want) <= 2e-3, "context", [&] { return "image " + vk::str(step) + " at " + vk::str(x) + "," + vk::str(y) + ": " + vk::str(img->getValue(x, y)) + " instead of " + vk::str(want); });
        }
        r.transition();
      }
      r.see(w * 100000 + h * 10000 + w2 * 1000 + h2 * 100 + kw * 10 + kh); r.nontrivial();
    });
  }
}
