// Derived images against their definition: every rectangle, every parameter choice on small images, views of views.
#include "vkit.h"
#include <memory>
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/FunctionalImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/ImageChunk.h"
#include "SEFramework/Image/ImageSource.h"
#include "SEFramework/Image/MaskedImage.h"
#include "SEFramework/Image/MirrorImage.h"
#include "SEFramework/Image/PaddedImage.h"
#include "SEFramework/Image/ProcessedImage.h"
#include "SEFramework/Image/RecenterImage.h"
#include "SEFramework/Image/SubImage.h"
#include "SEFramework/Image/ThresholdedImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEUtils/Types.h"
using namespace SourceXtractor;
using Img = Image<SeFloat>;
using P   = std::shared_ptr<Img>;

struct Ref {
  int w, h;
  std::vector<float> v;
  Ref(int w_, int h_) : w(w_), h(h_), v(w_ * h_) {}
  float& at(int x, int y) { return v.at(x + y * w); }
  float  at(int x, int y) const { return v.at(x + y * w); }
};
struct Node { P img; Ref ref; std::string name; };

struct MemSource : public ImageSource, public std::enable_shared_from_this<ImageSource> {
  Ref ref;
  explicit MemSource(Ref r) : ref(std::move(r)) {}
  std::string getRepr() const override { return "mem"; }
  void saveTile(ImageTile&) override {}
  std::shared_ptr<ImageTile> getImageTile(int x, int y, int w, int h) const override {
    auto t = std::make_shared<ImageTileWithType<float>>(x, y, w, h, const_cast<MemSource*>(this)->shared_from_this());
    for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) t->setValue(x + i, y + j, ref.at(x + i, y + j));
    return t;
  }
  int getWidth() const override { return ref.w; }
  int getHeight() const override { return ref.h; }
  ImageTile::ImageType getType() const override { return ImageTile::FloatImage; }
};

static Ref baseRef(int w, int h, int seed) {
  Ref r(w, h);
  for (int i = 0; i < w * h; ++i) r.v[i] = float((i * 7 + seed * 13) % 101) * 0.5f - 9.f + seed + i * 0.001953125f;
  return r;
}

static std::vector<Node> bases(int w, int h) {
  std::vector<Node> out;
  Ref r = baseRef(w, h, 1);
  out.push_back({VectorImage<SeFloat>::create(w, h, r.v), r, "vec"});
  auto tm = std::make_shared<TileManager>();
  tm->setOptions(2, 3, 1);
  out.push_back({BufferedImage<SeFloat>::create(std::make_shared<MemSource>(r), tm), r, "buffered"});
  out.push_back({std::const_pointer_cast<ImageChunk<SeFloat>>(VectorImage<SeFloat>::create(w, h, r.v)->getChunk(0, 0, w, h)), r, "chunk"});
  out.push_back({UniversalImageChunk<SeFloat>::create(std::vector<SeFloat>(r.v), w, h), r, "uchunk"});
  Ref c(w, h);
  for (auto& x : c.v) x = 3.25f;
  out.push_back({ConstantImage<SeFloat>::create(w, h, 3.25f), c, "const"});
  return out;
}

// All the derived images of a node. Definitions are written out here, independently of the implementation.
static std::vector<Node> derive(const Node& n, bool small) {
  std::vector<Node> out;
  int w = n.ref.w, h = n.ref.h;
  auto name = [&](const std::string& s) { return s + "(" + n.name + ")"; };
  for (int x = 0; x < w; x += small ? 2 : 1) for (int y = 0; y < h; y += small ? 2 : 1)
    for (int ww : {1, w - x}) for (int hh : {1, h - y}) {
      if (small && (ww == 1 || hh == 1) && w > 1 && h > 1) continue;
      Ref r(ww, hh);
      for (int j = 0; j < hh; ++j) for (int i = 0; i < ww; ++i) r.at(i, j) = n.ref.at(x + i, y + j);
      std::string nm = name("sub" + vk::str(x) + "," + vk::str(y) + "," + vk::str(ww) + "," + vk::str(hh));
      out.push_back({SubImage<SeFloat>::create(n.img, x, y, ww, hh), r, nm});
      if (!small) out.push_back({SubImage<SeFloat>::create(n.img, PixelCoordinate(x, y), ww, hh), r, nm + "'"});
    }
  { Ref r(w, h);
    for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) r.at(i, j) = n.ref.at(w - 1 - i, h - 1 - j);
    out.push_back({MirrorImage<SeFloat>::create(n.img), r, name("mirror")}); }
  for (int cx = 0; cx <= w; cx += small ? 2 : 1) for (int cy = 0; cy <= h; cy += small ? 2 : 1) {
    Ref r(w, h);
    for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) r.at(i, j) = n.ref.at((i + cx) % w, (j + cy) % h);
    out.push_back({RecenterImage<SeFloat>::create(n.img, PixelCoordinate(cx, cy)), r, name("recenter" + vk::str(cx) + "," + vk::str(cy))});
  }
  for (int pw : small ? std::vector<int>{0, 3} : std::vector<int>{0, 1, 2, 3, 6, 9}) for (int ph : small ? std::vector<int>{0, 3} : std::vector<int>{0, 1, 2, 5}) {
    int W = w + pw, H = h + ph, lp = pw / 2, tp = ph / 2;
    for (int mode = 0; mode < 5; ++mode) {
      auto idx = [&](int k, int N) -> int {  // position inside [0,N) or -1, walking outwards one pixel at a time
        if (k >= 0 && k < N) return k;
        switch (mode) {
          case 0: return -1;
          case 1: return k < 0 ? 0 : N - 1;
          case 4: while (k < 0) k += N; while (k >= N) k -= N; return k;
          case 2: { // edge repeated: ... 1 0 | 0 1 .. N-1 | N-1 N-2 ...
            while (k < 0 || k >= N) { if (k < 0) k = -1 - k; if (k >= N) k = 2 * N - 1 - k; } return k; }
          case 3: { // edge not repeated: ... 2 1 | 0 1 .. N-1 | N-2 ...
            if (N == 1) return 0;
            while (k < 0 || k >= N) { if (k < 0) k = -k; if (k >= N) k = 2 * (N - 1) - k; } return k; }
        }
        return -1;
      };
      Ref r(W, H);
      for (int j = 0; j < H; ++j) for (int i = 0; i < W; ++i) {
        int a = idx(i - lp, w), b = idx(j - tp, h);
        r.at(i, j) = (a < 0 || b < 0) ? -77.5f : n.ref.at(a, b);
      }
      P img;
      if (mode == 0) img = PaddedImage<SeFloat>::create(n.img, W, H, -77.5f);
      if (mode == 1) img = PaddedImage<SeFloat, ReplicateCoordinates>::create(n.img, W, H);
      if (mode == 2) img = PaddedImage<SeFloat, ReflectCoordinates>::create(n.img, W, H);
      if (mode == 3) img = PaddedImage<SeFloat, Reflect101Coordinates>::create(n.img, W, H);
      if (mode == 4) img = PaddedImage<SeFloat, WrapCoordinates>::create(n.img, W, H);
      out.push_back({img, r, name("pad" + vk::str(mode) + "+" + vk::str(pw) + "," + vk::str(ph))});
    }
  }
  { Ref r(w, h);
    for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) r.at(i, j) = n.ref.at(i, j) * 2 + i * 100 + j * 1000;
    out.push_back({FunctionalImage<SeFloat>::create(n.img, [](int x, int y, SeFloat v) -> SeFloat { return v * 2 + x * 100 + y * 1000; }), r, name("func")}); }
  for (int m = 0; m < (small ? 2 : 4); ++m) {
    std::vector<int> mask(w * h);
    for (int i = 0; i < w * h; ++i) mask[i] = m == 0 ? 0 : m == 1 ? (i % 3 == 0 ? 2 : 1) : m == 2 ? 3 : i;
    int flag = m == 1 ? 2 : 1;
    Ref r = n.ref;
    for (int i = 0; i < w * h; ++i) if (mask[i] & flag) r.v[i] = 55.f;
    out.push_back({MaskedImage<SeFloat, int>::create(n.img, VectorImage<int>::create(w, h, mask), 55.f, flag), r, name("mask" + vk::str(m))});
    if (!small) {
      std::vector<SeFloat> fm(mask.begin(), mask.end());
      Ref r2 = n.ref;
      for (int i = 0; i < w * h; ++i) if (fm[i] >= 1.5f) r2.v[i] = -4.f;
      out.push_back({MaskedImage<SeFloat, SeFloat, std::greater_equal>::create(n.img, VectorImage<SeFloat>::create(w, h, fm), -4.f, 1.5f), r2, name("maskge" + vk::str(m))});
    }
  }
  { Ref b = baseRef(w, h, 5), r(w, h), m(w, h), t(w, h), s(w, h), k(w, h);
    for (auto& v : b.v) v = std::fabs(v) + 0.25f;
    for (int i = 0; i < w * h; ++i) {
      r.v[i] = n.ref.v[i] - b.v[i];
      m.v[i] = n.ref.v[i] * b.v[i];
      k.v[i] = n.ref.v[i] - 1.5f;
      t.v[i] = n.ref.v[i] - std::sqrt(b.v[i]) * 1.5f;
      s.v[i] = n.ref.v[i] / std::sqrt(b.v[i]);
    }
    P bi = VectorImage<SeFloat>::create(w, h, b.v);
    out.push_back({SubtractImage<SeFloat>::create(n.img, bi), r, name("subtract")});
    out.push_back({SubtractImage<SeFloat>::create(n.img, 1.5f), k, name("subtractc")});
    out.push_back({MultiplyImage<SeFloat>::create(n.img, bi), m, name("multiply")});
    out.push_back({ThresholdedImage<SeFloat>::create(n.img, bi, 1.5f), t, name("threshold")});
    out.push_back({SnrImage<SeFloat>::create(n.img, bi), s, name("snr")});
  }
  { auto copy = VectorImage<SeFloat>::create(*n.img);
    out.push_back({copy, n.ref, name("copy")}); }
  return out;
}

static bool same(float a, float b) { return vk::close(a, b, 1e-6, 1e-6); }

static void checkNode(vk::Run& r, const Node& n, const Node& origin, const char* key) {
  r.require(n.img->getWidth() == n.ref.w && n.img->getHeight() == n.ref.h, key, [&] { return n.name + ": size " + vk::str(n.img->getWidth()) + "x" + vk::str(n.img->getHeight()); });
  for (int x = 0; x < n.ref.w; ++x) for (int y = 0; y < n.ref.h; ++y)
    for (int w = 1; x + w <= n.ref.w; ++w) for (int h = 1; y + h <= n.ref.h; ++h) {
      auto c = n.img->getChunk(x, y, w, h);
      r.transition();
      r.require(c && c->getWidth() == w && c->getHeight() == h, key, [&] { return n.name + ": chunk size"; });
      for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i)
        r.require(same(c->getValue(i, j), n.ref.at(x + i, y + j)), key, [&] {
          return n.name + " rectangle " + vk::str(x) + "," + vk::str(y) + " " + vk::str(w) + "x" + vk::str(h) + " pixel " + vk::str(i) + "," + vk::str(j) + ": got " +
                 vk::str(c->getValue(i, j)) + " want " + vk::str(n.ref.at(x + i, y + j)); });
      for (int a = 0; a < w; ++a) for (int b = 0; b < h; ++b) {  // every chunk of the chunk with one corner at a corner
        if (n.ref.w * n.ref.h > 12 && a != 0 && a != w - 1 && b != 0 && b != h - 1) continue;
        auto cc = c->getChunk(a, b, w - a, h - b);
        r.require(cc->getWidth() == w - a && cc->getHeight() == h - b && same(cc->getValue(w - a - 1, h - b - 1), n.ref.at(x + w - 1, y + h - 1)) && same(cc->getValue(0, 0), n.ref.at(x + a, y + b)) &&
                  same(cc->getValue(w - a - 1, 0), n.ref.at(x + w - 1, y + b)), key, [&] { return n.name + ": chunk of a chunk at " + vk::str(a) + "," + vk::str(b); });
        auto cd = c->getChunk(0, 0, a + 1, b + 1);
        r.require(same(cd->getValue(a, b), n.ref.at(x + a, y + b)) && same(cd->getValue(0, b), n.ref.at(x, y + b)), key, [&] { return n.name + ": chunk of a chunk of size " + vk::str(a + 1) + "," + vk::str(b + 1); });
      }
      if (w > 1 && h > 1) {
        r.require(same(c->getValue(PixelCoordinate(1, 0)), n.ref.at(x + 1, y)), key, [&] { return n.name + ": coordinate access"; });
      }
    }
  // reading a view leaves what it was made from unchanged
  auto o = origin.img->getChunk(0, 0, origin.ref.w, origin.ref.h);
  for (int y = 0; y < origin.ref.h; ++y) for (int x = 0; x < origin.ref.w; ++x)
    r.require(same(o->getValue(x, y), origin.ref.at(x, y)), key, [&] { return n.name + ": reading it changed the image it was made from"; });
  uint64_t hsh = vk::hashBytes(n.ref.v.data(), n.ref.v.size() * 4);
  r.see(hsh); r.nontrivial(n.ref.v.size() > 1);
  r.state(hsh);
  r.trace();
}

VK_SUITE(views_one_level) {
  int m = r.thorough() ? 6 : 5;
  for (int w = 1; w <= m; ++w) for (int h = 1; h <= m; ++h) {
    auto bs = bases(w, h);
    for (auto& b : bs) {
      if (r.next()) { r.desc([=] { return b.name + " " + vk::str(w) + "x" + vk::str(h); }); r.guarded("views/base", [&] { checkNode(r, b, b, "views/base"); }); }
      for (auto& d : derive(b, false)) {
        if (!r.next()) continue;
        r.desc([=] { return d.name + " on " + vk::str(w) + "x" + vk::str(h); });
        r.guarded("views/derived", [&] { checkNode(r, d, b, "views/derived"); });
      }
    }
  }
}

VK_SUITE(views_two_levels) {
  std::vector<std::pair<int, int>> sizes{{1, 1}, {1, 3}, {3, 2}, {4, 3}};
  if (r.thorough()) { sizes.push_back({2, 5}); sizes.push_back({5, 5}); }
  for (auto& s : sizes) {
    auto bs = bases(s.first, s.second);
    for (auto& b : bs) {
      if (b.name == "chunk" || b.name == "const") continue;
      for (auto& d : derive(b, true))
        for (auto& e : derive(d, true)) {
          if (!r.next()) continue;
          r.desc([=] { return e.name + " on " + vk::str(s.first) + "x" + vk::str(s.second); });
          r.guarded("views/nested", [&] { checkNode(r, e, b, "views/nested"); });
        }
    }
  }
}

// Accessors: every hint and read-ahead size, every sequence of pixel reads.
VK_SUITE(accessor) {
  int len = r.thorough() ? 3 : 2;
  for (int w = 1; w <= 5; ++w) for (int h = 1; h <= 4; ++h) {
    Ref ref = baseRef(w, h, 3);
    P vec = VectorImage<SeFloat>::create(w, h, ref.v);
    for (int hint = 0; hint < 3; ++hint) for (int rw : {1, 2, 3, 64}) for (int rh : {1, 2, 5})
      for (int form = 0; form < 2; ++form) {
        if (!r.next()) continue;
        r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " hint " + vk::str(hint) + " read " + vk::str(rw) + "x" + vk::str(rh) + (form ? " by coordinate" : ""); });
        r.guarded("accessor", [&] {
          vk::Odo o(std::vector<int>(len, w * h));
          for (; !o.done; o.inc()) {
            ImageAccessor<SeFloat> a(std::shared_ptr<const Img>(vec), static_cast<ImageAccessor<SeFloat>::AccessHint>(hint), rw, rh);
            ImageAccessor<SeFloat> b(*vec, static_cast<ImageAccessor<SeFloat>::AccessHint>(hint), rw, rh);
            for (int p : o.v) {
              int x = p % w, y = p / w;
              float g = form ? a.getValue(PixelCoordinate(x, y)) : a.getValue(x, y), g2 = b.getValue(x, y);
              r.transition();
              r.require(g == ref.at(x, y) && g2 == ref.at(x, y), "accessor", [&] { return "sequence " + vk::strv(o.v) + " pixel " + vk::str(x) + "," + vk::str(y) + " got " + vk::str(g) + " want " + vk::str(ref.at(x, y)); });
            }
            r.trace();
          }
          ImageAccessor<SeFloat> a(std::shared_ptr<const Img>(vec), static_cast<ImageAccessor<SeFloat>::AccessHint>(hint), rw, rh);
          r.require(a.getWidth() == w && a.getHeight() == h, "accessor", [&] { return std::string("size"); });
          auto c = a.getChunk(0, 0, w, h);
          for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) r.require(c->getValue(x, y) == ref.at(x, y), "accessor", [&] { return std::string("chunk through the accessor"); });
          r.see(vk::mix(w * 8 + h, hint * 100 + rw * 10 + rh)); r.nontrivial(w * h > 1);
        });
      }
  }
}

// In-memory images: every write history of length 3 on a small grid, against a plain array; copies are independent.
VK_SUITE(vector_image_writes) {
  for (int w = 1; w <= 3; ++w) for (int h = 1; h <= 3; ++h) {
    int cells = w * h;
    vk::Odo o({cells * 2 + 1, cells * 2 + 1, cells * 2 + 1});
    for (; !o.done; o.inc()) {
      if (!r.next()) continue;
      auto ops = o.v;
      r.desc([=] { return vk::str(w) + "x" + vk::str(h) + " ops " + vk::strv(ops); });
      r.guarded("vector", [&] {
        Ref ref = baseRef(w, h, 2);
        auto v = VectorImage<SeFloat>::create(w, h, ref.v);
        std::shared_ptr<VectorImage<SeFloat>> copy;
        Ref cref = ref;
        for (size_t k = 0; k < ops.size(); ++k) {
          float nv = 1000 + k;
          if (ops[k] < cells) { v->setValue(ops[k] % w, ops[k] / w, nv); ref.v[ops[k]] = nv; }
          else if (ops[k] < 2 * cells) { int c = ops[k] - cells; copy = VectorImage<SeFloat>::create(*v); cref = ref; copy->setValue(PixelCoordinate(c % w, c / w), nv); cref.v[c] = nv; }
          else { v->fillValue(nv); for (auto& x : ref.v) x = nv; }
          r.transition();
        }
        for (int i = 0; i < cells; ++i) {
          r.require(v->getValue(i % w, i / w) == ref.v[i] && v->getData()[i] == ref.v[i], "vector", [&] { return "pixel " + vk::str(i); });
          if (copy) r.require(copy->getValue(PixelCoordinate(i % w, i / w)) == cref.v[i], "vector", [&] { return "copy, pixel " + vk::str(i); });
        }
        r.see(vk::hashBytes(ref.v.data(), ref.v.size() * 4)); r.nontrivial(); r.trace();
        r.state(vk::hashBytes(ref.v.data(), ref.v.size() * 4));
      });
    }
  }
}
