// FITS files: what is read is what the bytes say, what is written can be read back, whatever the history of the file.
#include "vkit.h"
#include "common/fitsbytes.h"
#include "common/scratch.h"
#include "SEFramework/FITS/FitsFile.h"
#include "SEFramework/FITS/FitsImageSource.h"
#include "SEFramework/FITS/FitsReader.h"
#include "SEFramework/FITS/FitsWriter.h"
#include "SEFramework/FITS/TemporaryFitsImageSource.h"
#include "SEFramework/Image/TileManager.h"
#include <boost/algorithm/string.hpp>
#include <boost/filesystem.hpp>
#include <limits>
using namespace SourceXtractor;
using fb::Unit; using fb::Num; using vk::str;
namespace {
Scratch& dir() { static Scratch s; return s; }
std::string fresh() { static int n = 0; return dir()("f" + std::to_string(n++) + ".fits"); }
Unit image(int bitpix, std::vector<long> dims, Num first = 1, Num step = 1) {
  Unit u;
  u.bitpix = bitpix; u.dims = dims;
  for (long i = 0; i < u.count(); ++i) u.v.push_back(first + step * ((i * 7) % 23));
  return u;
}
struct Kind { const char* name; Unit u; };
std::vector<Kind> kinds() {
  std::vector<Kind> k;
  Unit e; e.bitpix = 8; k.push_back({"nothing", e});
  k.push_back({"float", image(-32, {3, 2}, 0.25, 1.5)});
  k.push_back({"cube", image(-32, {2, 3, 2}, -1, 0.5)});
  k.push_back({"short", image(16, {2, 2}, -5, 3)});
  Unit t = image(8, {2, 1}); t.table = true; k.push_back({"table", t});
  k.push_back({"row", image(-32, {4})});
  k.push_back({"byte", image(8, {2, 3}, 0, 11)});
  k.push_back({"int", image(32, {3, 2}, -2000000000, 150000000)});
  k.push_back({"long", image(64, {2, 2}, -((Num)1 * 9007199254740993LL), 1000000007)});
  Unit d = image(-64, {2, 2}, 0.1, 1e-9); d.v[1] = NAN; k.push_back({"double", d});
  Unit us = image(16, {3, 1}, -32768, 2900); us.bzero = 32768; k.push_back({"ushort", us});
  Unit ui = image(32, {1, 3}, -2147483648.0L, 190000000); ui.bzero = 2147483648.0; k.push_back({"uint", ui});
  Unit sc = image(16, {2, 2}, -3, 2); sc.bscale = 0.5; sc.bzero = 10; k.push_back({"scaled", sc});
  return k;
}
bool isImage(const Unit& u) { return !u.table && (u.dims.size() == 2 || u.dims.size() == 3); }
template <typename T> bool fits(Num v) {
  if (std::is_floating_point<T>::value) return true;
  return v == v && v >= (Num)std::numeric_limits<T>::min() && v <= (Num)std::numeric_limits<T>::max();
}
bool same(double a, double b) { return a == b || (a != a && b != b); }
// every rectangle of every layer of an opened source
template <typename T> void compare(vk::Run& r, FitsImageSource& s, const Unit& u) {
  long w = u.dims[0], h = u.dims[1], depth = u.dims.size() > 2 ? u.dims[2] : 1;
  r.require(s.getWidth() == w && s.getHeight() == h && s.getDepth() == depth, "size", [&] { return str(s.getWidth()) + " x " + str(s.getHeight()) + " x " + str(s.getDepth()); });
  for (long z = depth - 1; z >= 0; --z) {
    s.setLayer(z);
    for (int y0 = 0; y0 < h; ++y0) for (int y1 = y0 + 1; y1 <= h; ++y1) for (int x0 = 0; x0 < w; ++x0) for (int x1 = x0 + 1; x1 <= w; ++x1) {
      bool ok = true;
      for (int y = y0; y < y1; ++y) for (int x = x0; x < x1; ++x) ok = ok && fits<T>(u.at(x, y, z));
      std::shared_ptr<ImageTile> t;
      bool thrown = false;
      try { t = s.getImageTile(x0, y0, x1 - x0, y1 - y0); } catch (Elements::Exception&) { thrown = true; }
      r.transition();
      auto where = [&] { return "pixels " + str(x0) + "," + str(y0) + " - " + str(x1) + "," + str(y1) + " of layer " + str(z); };
      r.require(ok == !thrown, ok ? "refused" : "overflow", [&] { return where() + (ok ? " cannot be read" : " do not fit the type but are read"); });
      if (!ok) continue;
      r.require(t->getPosX() == x0 && t->getPosY() == y0 && t->getWidth() == x1 - x0 && t->getHeight() == y1 - y0, "tile", where);
      for (int y = y0; y < y1; ++y) for (int x = x0; x < x1; ++x) {
        Num v = u.at(x, y, z);
        T e = (T)v, g = t->getValue<T>(x, y);
        bool eq = std::is_floating_point<T>::value ? same(g, e) || (u.bscale != 1 && vk::close(g, e, 1e-6, 0)) || (u.bitpix == 64 && vk::close(g, e, 1e-7, 0)) : g == e;
        r.require(eq, "value", [&] { return where() + ": at " + str(x) + "," + str(y) + " " + str((double)g) + " instead of " + str((double)e); });
      }
    }
  }
  for (int z : {-1, (int)depth}) {
    bool thrown = false;
    try { s.setLayer(z); } catch (Elements::Exception&) { thrown = true; }
    r.check(thrown, "layer", [&] { return "layer " + str(z) + " of " + str(depth) + " is accepted"; });
  }
}
template <typename T> void open(vk::Run& r, const std::string& f, int hdu, const Unit* u, int number, const std::string& what) {
  if (!r.next()) return;
  r.desc([&] { return what + ", HDU " + str(hdu) + " as type " + str((int)ImageTile::getTypeValue(T())); });
  r.guarded("pixels.crash", [&] {
    std::unique_ptr<FitsImageSource> dummy;
    std::shared_ptr<FitsImageSource> s;
    bool thrown = false;
    try { s = std::make_shared<FitsImageSource>(f, hdu, ImageTile::getTypeValue(T())); } catch (Elements::Exception&) { thrown = true; }
    r.require(thrown == (u == nullptr), "open", [&] { return thrown ? "an image is refused" : "something else is taken for an image"; });
    if (!u) return;
    r.nontrivial();
    r.require(s->getHDU() == number, "hdu", [&] { return "HDU " + str(s->getHDU()) + " instead of " + str(number); });
    r.require(s->getType() == ImageTile::getTypeValue(T()), "type", [&] { return str(s->getType()); });
    compare<T>(r, *s, *u);
  });
}
}
// Files of up to n HDUs of every kind.
VK_SUITE(pixels) {
  auto K = kinds();
  for (int n = 1; n <= 3; ++n) {
    int base = n < 3 ? K.size() : r.thorough() ? 9 : 6;
    for (vk::Odo o(std::vector<int>(n, base)); !o.done; o.inc()) {
      if (K[o.v[0]].u.table) continue;
      std::vector<Unit> us;
      std::string what;
      for (int i : o.v) { us.push_back(K[i].u); what += (what.empty() ? "" : " + ") + std::string(K[i].name); }
      std::string f = fresh();
      fb::write(f, us);
      int first = 0;
      // cfitsio opens the first HDU with data that is an image, tables do not count
      for (int i = 0; i < n && !first; ++i) if (!us[i].table && !us[i].dims.empty()) first = i + 1;
      for (int h = 0; h <= n + 1; ++h) {
        int t = h ? h : first;
        const Unit* u = t >= 1 && t <= n && isImage(us[t - 1]) ? &us[t - 1] : nullptr;
        open<float>(r, f, h, u, t, what);
        if (n == 3) continue;
        open<double>(r, f, h, u, t, what);
        if (!u || (u->bitpix > 0 && u->bscale == 1)) { open<std::int64_t>(r, f, h, u, t, what); open<int>(r, f, h, u, t, what); open<unsigned int>(r, f, h, u, t, what); }
      }
      boost::filesystem::remove(f);
    }
  }
}

namespace {
struct Value { char kind; std::string text; };   // as in fb::Card
std::string show(const MetadataEntry& e) {
  struct V : boost::static_visitor<std::string> {
    std::string operator()(bool b) const { return b ? "bool T" : "bool F"; }
    std::string operator()(char c) const { return std::string("char ") + c; }
    std::string operator()(int64_t i) const { return "int " + std::to_string(i); }
    std::string operator()(double d) const { char b[50]; snprintf(b, 50, "double %.17g", d); return b; }
    std::string operator()(const std::string& s) const { auto t = s; while (!t.empty() && t.back() == ' ') t.pop_back(); return "string " + t; }
  };
  auto c = e.m_extra.find("comment");
  return boost::apply_visitor(V(), e.m_value) + (c == e.m_extra.end() ? " without comment" : " / " + c->second);
}
std::string expected(const fb::Card& c) {
  std::string v;
  if (c.kind == 's') v = "string " + c.value;
  else if (c.kind == 'l') v = "char " + c.value;
  else if (c.kind == 'u') v = "string ";
  else {
    std::string t = c.value;
    if (t.find_first_of(".eEdD") == std::string::npos) { errno = 0; v = "int " + std::to_string(strtoll(t.c_str(), nullptr, 10)); }
    else { for (char& x : t) if (x == 'D' || x == 'd') x = 'E'; char b[50]; snprintf(b, 50, "double %.17g", strtod(t.c_str(), nullptr)); v = b; }
  }
  return v + " / " + c.comment;
}
std::map<std::string, std::string> headerOf(const Unit& u) {
  std::map<std::string, std::string> m;
  for (auto& c : u.cards) { auto k = fb::parseCard(c); if (k.kind != ' ') m.emplace(k.key, expected(k)); }
  return m;
}
std::string diff(const std::map<std::string, std::string>& want, const std::map<std::string, MetadataEntry>& got) {
  for (auto& w : want) { auto g = got.find(w.first); if (g == got.end()) return w.first + " is missing"; if (show(g->second) != w.second) return w.first + " is \"" + show(g->second) + "\" instead of \"" + w.second + "\""; }
  for (auto& g : got) if (!want.count(g.first)) return g.first + " appears from nowhere: " + show(g.second);
  return "";
}
// The header handed to the coordinate system: cards of 80 characters with the same keywords and values, and END.
void checkRecords(vk::Run& r, const FitsImageSource& s, const std::map<std::string, std::string>& want) {
  int n = 0;
  auto b = s.getFitsHeaders(n);
  r.require(n == (int)want.size() && (int)b->size() == 80 * (n + 1) + 1 && b->back() == 0, "records.count", [&] { return str(n) + " records in " + str(b->size()) + " bytes instead of " + str(want.size()); });
  for (int i = 0; i <= n; ++i) {
    std::string c(b->data() + 80 * i, 80);
    if (i == n) { r.require(fb::trim(c) == "END", "records.end", [&] { return c; }); break; }
    fb::Card k;
    try { k = fb::parseCard(c); } catch (std::exception& e) { r.fail("records.card", e.what()); continue; }
    auto w = want.find(k.key);
    r.require(w != want.end(), "records.key", [&] { return c; });
    auto strip = [](const std::string& t) { return t.substr(0, t.find(" / ")); };
    auto a = strip(expected(k)), e = strip(w->second);
    if (e == "string " && k.kind == 's') continue;
    // an integral floating point number may be written without its point
    if (e.substr(0, 7) == "double ") { r.require(k.kind == 'n' && strtod(k.value.c_str(), nullptr) == strtod(e.c_str() + 7, nullptr), "records.value", [&] { return c + " instead of " + e; }); continue; }
    r.require(a == e, "records.value", [&] { return c + " instead of " + e; });
  }
}
const std::vector<std::string>& cards() {
  static const std::vector<std::string> c = {
    "KEYA    =                   12 / an int", "KEYB    =              -1.5E-3", "KEYC    = 'text    '           / com, ment", "KEYD    = 'it''s   '",
    "KEYE    = 'a/b     '           / c/d", "KEYF    =                    T / logical", "KEYG    =             1.25D+02 / double", "KEYH    = ''",
    "COMMENT   no value here: 3", "HIERARCH ESO ABC = 3", "KEYI    =                      / undefined", "KEYJ    = .5", "KEYK    = 5. / pointed", "KEYL    = +7", "KEY-M_2 = 'x'",
    "KEYN    = '" + std::string(68, 'q') + "'", "KEYO    = '12'   / not a number", "KEYP    = 3.4028234663852886E+38", "HISTORY = this is no value / at all", "KEYQ    = 'a = b'", "KEYR    =  123456789012345678 /x", "KEYS    = '/'", "key_low = 4"};
  return c;
}
}
VK_SUITE(headers) {
  auto& C = cards();
  int N = C.size();
  for (int i = -1; i < N; ++i) for (int j = -1; j < N; ++j) for (int where = 0; where < 3; ++where) {
    if (!r.next()) continue;
    std::vector<std::string> h;
    if (i >= 0) h.push_back(C[i]);
    if (j >= 0 && j != i) h.push_back(C[j]);
    r.desc([&] { return "image in HDU " + str(where + 1) + " with the cards " + vk::strv(h); });
    r.guarded("headers.crash", [&] {
      std::vector<Unit> us(where + 1, image(-32, {2, 1}));
      if (where) us[0].dims.clear(), us[0].v.clear();
      for (auto& u : us) u.cards.push_back("OTHER   = 1");
      us[where].cards = h;
      std::string f = fresh();
      fb::write(f, us);
      auto want = headerOf(fb::read(f)[where]);
      // commentary keywords have no value even if one follows
      want.erase("HISTORY");
      for (auto& m : std::map<std::string, std::string>(want)) {   // keywords are shown in upper case
        auto k = boost::to_upper_copy(m.first);
        if (k != m.first) { want.erase(m.first); want[k] = m.second; }
      }
      FitsImageSource s(f, where + 1, ImageTile::FloatImage);
      auto md = s.getMetadata();
      md.erase("HISTORY");
      auto d = diff(want, md);
      r.require(d.empty(), "headers", [&] { return d; });
      r.nontrivial();
      if (!s.getMetadata().count("HISTORY")) checkRecords(r, s, want);
      for (auto& m : want) {
        double v = -99; std::string t;
        bool number = m.second.substr(0, 4) == "int " || m.second.substr(0, 7) == "double ";
        if (number) { bool found = s.readFitsKeyword(m.first, v); r.require(found && v == strtod(m.second.c_str() + m.second.find(' '), nullptr), "keyword", [&] { return m.first + " read as " + str(v); }); }
      }
      double v = -99;
      r.require(!s.readFitsKeyword("MISSING", v) && v == -99, "keyword.missing", [] { return "a keyword that is not there is found"; });
      boost::filesystem::remove(f);
    });
  }
}
// The .head file: one block per image HDU, ended by END.
VK_SUITE(head) {
  const std::vector<std::string> L = {"END", "NEW     = 2.5 / added", "OLD     = 'b       ' / changed", "end     ", "", "low = 3", "COMMENT not a value", "OLD=7", "TOOLONGKEY = 3", "SLASH   = 'u/v' / w/x"};
  int depth = r.thorough() ? 4 : 3;
  for (int len = 0; len <= depth; ++len) for (vk::Odo o(std::vector<int>(len, L.size())); !o.done; o.inc()) for (int layout = 0; layout < 4; ++layout) {
    if (!r.next()) continue;
    std::vector<std::string> lines;
    for (int i : o.v) lines.push_back(L[i]);
    r.desc([&] { return ".head file " + vk::strv(lines) + " for layout " + str(layout); });
    r.guarded("head.crash", [&] {
      // layouts: one image; empty primary and one image; two images; image, table, image
      std::vector<Unit> us;
      auto add = [&](Unit u) { u.cards.push_back("OLD     = 'a       ' / original"); u.cards.push_back("KEPT    = 5"); us.push_back(u); };
      Unit e; e.bitpix = 8;
      Unit t = image(8, {2, 1}); t.table = true;
      if (layout == 1) add(e);
      add(image(-32, {2, 1}));
      if (layout == 3) add(t);
      if (layout >= 2) add(image(-32, {1, 2}));
      std::string f = fresh(), hf = f.substr(0, f.size() - 5) + ".head";
      fb::write(f, us);
      { std::ofstream o2(hf); for (auto& l : lines) o2 << l << "\n"; }
      std::vector<int> im;
      for (size_t i = 0; i < us.size(); ++i) if (isImage(us[i])) im.push_back(i);
      std::vector<std::map<std::string, std::string>> want;
      for (auto& u : fb::read(f)) want.push_back(headerOf(u));
      size_t at = 0;
      for (auto& l : lines) {
        if (at == im.size()) break;
        auto t2 = boost::trim_right_copy(l);
        if (boost::to_upper_copy(t2) == "END") { ++at; continue; }
        auto q = t2.find('=');
        if (q == std::string::npos || q > 8) continue;
        std::string c = boost::to_upper_copy(fb::trim(t2.substr(0, q)));
        c.resize(8, ' ');
        auto k = fb::parseCard(c + "= " + t2.substr(q + 1));
        want[im[at]][k.key] = expected(k);
      }
      for (size_t i = 0; i < im.size(); ++i) {
        FitsImageSource s(f, im[i] + 1, ImageTile::FloatImage);
        auto d = diff(want[im[i]], s.getMetadata());
        r.require(d.empty(), "head", [&] { return "image " + str(i + 1) + ": " + d; });
        checkRecords(r, s, want[im[i]]);
      }
      if (!lines.empty()) r.nontrivial();
      boost::filesystem::remove(f);
      boost::filesystem::remove(hf);
    });
  }
}
// Two sources of one file used in turns.
VK_SUITE(turns) {
  std::vector<Unit> us = {image(-32, {3, 2}, 1), image(-32, {2, 3, 2}, 100), image(16, {3, 2}, 200)};
  for (int i = 0; i < 3; ++i) us[i].cards.push_back(fb::num("NUMBER", std::to_string(i)));
  int depth = r.thorough() ? 5 : 4;
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (vk::Odo o(std::vector<int>(depth, 7)); !o.done; o.inc()) {
    if (!r.next()) continue;
    r.desc([&] { return "sources of HDU " + str(a + 1) + " and " + str(b + 1) + ", operations " + vk::strv(o.v) + " (0, 1: read; 2, 3: next layer; 4: keywords; 5: a third source; 6: write access by another)"; });
    r.guarded("turns.crash", [&] {
      std::string f = fresh();
      fb::write(f, us);
      int id[2] = {a, b}, layer[2] = {0, 0};
      std::shared_ptr<FitsImageSource> s[3];
      for (int i = 0; i < 2; ++i) s[i] = std::make_shared<FitsImageSource>(f, id[i] + 1, ImageTile::FloatImage);
      auto read = [&](int i) {
        auto t = s[i]->getImageTile(1, 0, 1, 2);
        for (int y = 0; y < 2; ++y) { float g = t->getValue<float>(1, y), e = us[id[i]].at(1, y, layer[i]); r.require(g == e, "turns.value", [&] { return "source " + str(i) + " reads " + str(g) + " instead of " + str(e); }); }
      };
      for (int op : o.v) {
        r.transition();
        if (op < 2) read(op);
        else if (op < 4) { int i = op - 2; if (id[i] == 1) { layer[i] ^= 1; s[i]->setLayer(layer[i]); } }
        else if (op == 4) for (int i = 0; i < 2; ++i) { int n = -1; r.require(s[i]->readFitsKeyword("NUMBER", n) && n == id[i], "turns.keyword", [&] { return "source " + str(i) + " has the keywords of HDU " + str(n + 1); }); }
        else if (op == 5) {
          s[2] = std::make_shared<FitsImageSource>(f, 0, ImageTile::FloatImage);
          r.require(s[2]->getHDU() == 1, "turns.first", [&] { return "the first image of the file is taken to be HDU " + str(s[2]->getHDU()); });
        } else {
          auto t = s[0]->getImageTile(0, 0, 1, 1);
          if (id[0] != 1) s[0]->saveTile(*t);
        }
      }
      read(0); read(1);
      r.nontrivial();
      for (auto& p : s) p.reset();
      boost::filesystem::remove(f);
    });
  }
}
// Files written through the library, read back byte by byte.
namespace {
struct Coord : CoordinateSystem {
  std::map<std::string, std::string> h;
  WorldCoordinate imageToWorld(ImageCoordinate c) const override { return {c.m_x, c.m_y}; }
  ImageCoordinate worldToImage(WorldCoordinate c) const override { return {c.m_alpha, c.m_delta}; }
  std::map<std::string, std::string> getFitsHeaders() const override { return h; }
};
struct Model { int w, h; ImageTile::ImageType type; std::vector<Num> v; std::map<std::string, std::string> keys; int hdu; };
std::string checkFile(const std::string& f, const std::vector<Model*>& m) {   // m: by HDU, null for an empty one
  auto us = fb::read(f);
  if (us.size() != m.size()) return str(us.size()) + " HDUs instead of " + str(m.size());
  static const int bp[] = {-32, -64, 32, 32, 64};
  for (size_t i = 0; i < us.size(); ++i) {
    auto at = [&] { return "HDU " + str(i + 1) + ": "; };
    if (!m[i]) { if (!us[i].dims.empty()) return at() + "should be empty"; continue; }
    auto& u = us[i];
    if (u.dims != std::vector<long>{m[i]->w, m[i]->h}) return at() + "size " + vk::strv(u.dims);
    if (u.bitpix != bp[m[i]->type]) return at() + "bits per pixel " + str(u.bitpix);
    for (int y = 0; y < m[i]->h; ++y) for (int x = 0; x < m[i]->w; ++x) {
      Num g = u.at(x, y), e = m[i]->v[x + y * m[i]->w];
      if (!(g == e || (g != g && e != e))) return at() + "pixel " + str(x) + "," + str(y) + " is " + str((double)g) + " instead of " + str((double)e);
    }
    std::map<std::string, fb::Card> h;
    for (auto& c : u.cards) { auto k = fb::parseCard(c); if (k.kind != ' ') h[k.key] = k; }
    for (auto& k : m[i]->keys) {
      auto g = h.find(k.first);
      std::string s = g == h.end() ? "missing" : std::string(1, g->second.kind) + " " + g->second.value;
      bool ok = s == k.second || (k.second[0] == 'n' && s[0] == 'n' && strtod(s.c_str() + 2, nullptr) == strtod(k.second.c_str() + 2, nullptr));
      if (!ok) return at() + k.first + " is \"" + s + "\" instead of \"" + k.second + "\"";
    }
  }
  return "";
}
}
VK_SUITE(write) {
  auto coord = std::make_shared<Coord>();
  coord->h = {{"CTYPE1", "'RA---TAN'"}, {"CRPIX1", "5.25"}, {"EQUINOX", "2000.0"}};
  // 0-4: another image of that type; 5: with coordinates; 6: a new file; 7-9: tile into the first, middle, last image; 10-12: integer, number, string keyword; 13: read everything; 14: let go of the images
  int depth = r.thorough() ? 4 : 3;
  for (int empty = 0; empty < 2; ++empty) for (int len = 1; len <= depth; ++len) for (vk::Odo o(std::vector<int>(len, 15)); !o.done; o.inc()) {
    if (o.v[0] > 5) continue;
    if (!r.next()) continue;
    r.desc([&] { return "operations " + vk::strv(o.v) + (empty ? ", first HDU left empty" : "") + " (0-4: new image by type; 5: with coordinates; 6: new file; 7-9: write a tile; 10-12: keyword; 13: read; 14: close)"; });
    r.guarded("write.crash", [&] {
      std::string f = fresh();
      std::vector<std::shared_ptr<Model>> M;
      std::vector<std::shared_ptr<FitsImageSource>> S;
      int step = 0;
      for (int op : o.v) {
        r.transition();
        ++step;
        if (op <= 6) {
          if (op == 6) { M.clear(); S.clear(); }
          auto m = std::make_shared<Model>();
          m->type = (ImageTile::ImageType)(op > 4 ? 0 : op); m->w = 2 + (step & 1); m->h = 3 - (step & 1);
          m->v.assign(m->w * m->h, 0);
          if (op == 5) m->keys = {{"CTYPE1", "s RA---TAN"}, {"CRPIX1", "n 5.25"}, {"EQUINOX", "n 2000.0"}};
          S.push_back(std::make_shared<FitsImageSource>(f, m->w, m->h, m->type, op == 5 ? coord : nullptr, !M.empty(), empty));
          M.push_back(m);
          m->hdu = M.size() + empty;
          r.require(S.back()->getHDU() == m->hdu && S.back()->getWidth() == m->w && S.back()->getHeight() == m->h && S.back()->getType() == m->type, "write.new", [&] { return "HDU " + str(S.back()->getHDU()); });
        } else {
          size_t i = op <= 9 ? (op == 7 ? 0 : op == 8 ? M.size() / 2 : M.size() - 1) : M.size() - 1;
          auto& m = *M[i];
          if (op <= 9) {
            if (!S[i]) continue;
            int x = step % m.w, y = (step + 1) % m.h, w = m.w - x, h = op == 8 ? 1 : m.h - y;
            auto t = ImageTile::create(m.type, x, y, w, h, nullptr);
            for (int b = y; b < y + h; ++b) for (int a = x; a < x + w; ++a) {
              Num e = a + 10 * b + 100 * step;
              if (m.type == ImageTile::FloatImage) { e = (float)(e + 0.1L); t->setValue(a, b, (float)e); }
              else if (m.type == ImageTile::DoubleImage) { e = (double)(e + 0.1L); t->setValue(a, b, (double)e); }
              else if (m.type == ImageTile::IntImage) { e = a == x ? -2147483648.0L : -e; t->setValue(a, b, (int)e); }
              else if (m.type == ImageTile::UIntImage) { e = a == x ? 4294967295.0L : e; t->setValue(a, b, (unsigned)e); }
              else { e = a == x ? (Num)INT64_MAX : -e - 9007199254740993.0L; t->setValue(a, b, (std::int64_t)e); }
              m.v[a + b * m.w] = e;
            }
            S[i]->saveTile(*t);
          } else if (op <= 12) {
            if (!S[i]) continue;
            MetadataEntry e;
            if (op == 10) { e.m_value = (int64_t)-step; m.keys["KINT"] = "n " + str(-step); S[i]->setMetadata("KINT", e); }
            if (op == 11) { e.m_value = 1.0 / 3 + step; char b[40]; snprintf(b, 40, "n %.17g", 1.0 / 3 + step); m.keys["KREAL"] = b; S[i]->setMetadata("KREAL", e); }
            if (op == 12) { e.m_value = std::string("a 'b' / c") + str(step); m.keys["KSTR"] = "s a 'b' / c" + str(step); S[i]->setMetadata("KSTR", e); }
          } else if (op == 13) {
            for (size_t k = 0; k < M.size(); ++k) if (S[k]) {
              auto t = S[k]->getImageTile(0, 0, M[k]->w, M[k]->h);
              for (int y = 0; y < M[k]->h; ++y) for (int x = 0; x < M[k]->w; ++x) {
                Num e = M[k]->v[x + y * M[k]->w], g = M[k]->type == ImageTile::LongLongImage ? (Num)t->getValue<std::int64_t>(x, y) : (Num)t->getValue<double>(x, y);
                r.require(e == g, "write.reread", [&] { return "image " + str(k) + " at " + str(x) + "," + str(y) + ": " + str((double)g) + " instead of " + str((double)e); });
              }
              for (auto& kw : M[k]->keys) if (kw.second[0] == 'n') { double d = 0; r.require(S[k]->readFitsKeyword(kw.first, d) && d == strtod(kw.second.c_str() + 2, nullptr), "write.keyword", [&] { return kw.first + " is " + str(d); }); }
                else { std::string d; r.require(S[k]->readFitsKeyword(kw.first, d) && fb::trim(d) == kw.second.substr(2), "write.keyword", [&] { return kw.first + " is " + d; }); }
            }
          } else for (auto& s : S) s.reset();
        }
      }
      S.clear();
      std::vector<Model*> all;
      if (empty) all.push_back(nullptr);
      for (auto& m : M) all.push_back(m.get());
      std::string d;
      try { d = checkFile(f, all); } catch (std::exception& e) { d = e.what(); }
      r.require(d.empty(), "write.file", [&] { return d; });
      for (auto& m : M) {
        auto sp = std::make_shared<FitsImageSource>(f, m->hdu, m->type);
        auto& s = *sp;
        auto t = s.getImageTile(0, 0, m->w, m->h);
        for (int k = 0; k < m->w * m->h; ++k) { Num g = m->type == ImageTile::LongLongImage ? (Num)t->getValue<std::int64_t>(k % m->w, k / m->w) : (Num)t->getValue<double>(k % m->w, k / m->w); r.require(g == m->v[k], "write.again", [&] { return str((double)g) + " instead of " + str((double)m->v[k]); }); }
        for (auto& kw : m->keys) r.require(s.getMetadata().count(kw.first) == 1, "write.meta", [&] { return kw.first; });
      }
      r.nontrivial();
      boost::filesystem::remove(f);
    });
  }
}
namespace {
template <typename T> void roundTrip(vk::Run& r) {
  for (int w = 1; w <= 4; ++w) for (int h = 1; h <= 4; ++h) for (int images = 1; images <= 2; ++images) for (int tile = 1; tile <= 3; ++tile) for (int mode = 0; mode < 2; ++mode) {
    if (!r.next()) continue;
    r.desc([&] { return str(images) + " images of " + str(w) + " x " + str(h) + " pixels of type " + str((int)ImageTile::getTypeValue(T())) + (mode ? " in a temporary file" : "") + ", tiles of " + str(tile); });
    r.guarded("trip.crash", [&] {
      TileManager::getInstance()->flush();
      TileManager::getInstance()->setOptions(tile, tile, 1);
      std::string f = fresh();
      std::vector<std::shared_ptr<VectorImage<T>>> v;
      for (int i = 0; i < images; ++i) {
        auto m = VectorImage<T>::create(w, h);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m->setValue(x, y, (x + y) % 3 == 0 ? std::numeric_limits<T>::lowest() : (x + y) % 3 == 1 ? std::numeric_limits<T>::max() : (T)(x + 7 * y + 50 * i + 0.1));
        v.push_back(m);
      }
      auto eq = [&](const Image<T>& a, const Image<T>& b) {
        r.require(a.getWidth() == w && a.getHeight() == h, "trip.size", [&] { return str(a.getWidth()); });
        auto c = a.getChunk(0, 0, w, h);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { T p = c->getValue(x, y), q = b.getChunk(x, y, 1, 1)->getValue(0, 0); r.require(p == q, "trip.value", [&] { return "at " + str(x) + "," + str(y) + ": " + str(p) + " instead of " + str(q); }); }
      };
      if (mode == 0) {
        for (int i = 0; i < images; ++i) FitsWriter::writeFile(*v[i], f, nullptr, i > 0);
        TileManager::getInstance()->saveAllTiles();
        TileManager::getInstance()->flush();
        auto us = fb::read(f);
        r.require((int)us.size() == images, "trip.hdus", [&] { return str(us.size()); });
        eq(*FitsReader<T>::readFile(f), *v[0]);
        if (images == 2) eq(*FitsReader<T>::readFile(f + "[1]"), *v[1]);
      } else {
        auto count = [] { int n = 0; for (auto& e : boost::filesystem::directory_iterator(boost::filesystem::temp_directory_path())) n += e.path().filename().native().substr(0, 4) == "tmp-"; return n; };
        int before = count();
        {
          std::vector<std::shared_ptr<WriteableImage<T>>> t;
          for (int i = 0; i < images; ++i) t.push_back(FitsWriter::newTemporaryImage<T>("tmp-%%%%%%%%.fits", w, h));
          r.require(count() == before + images, "trip.temp", [&] { return str(count() - before) + " files for " + str(images) + " temporary images"; });
          for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int i = 0; i < images; ++i) t[i]->setValue(x, y, v[i]->getValue(x, y));
          for (int i = 0; i < images; ++i) eq(*t[i], *v[i]);
          TileManager::getInstance()->flush();
          for (int i = 0; i < images; ++i) eq(*t[i], *v[i]);
        }
        TileManager::getInstance()->flush();
        r.require(count() == before, "trip.left", [&] { return str(count() - before) + " temporary files left"; });
      }
      r.nontrivial();
      TileManager::getInstance()->flush();
      boost::filesystem::remove(f);
    });
  }
}
}
VK_SUITE(trip) { roundTrip<float>(r); roundTrip<double>(r); roundTrip<int>(r); roundTrip<unsigned int>(r); roundTrip<std::int64_t>(r); }
