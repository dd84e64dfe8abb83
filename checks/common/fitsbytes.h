// FITS files written and read byte by byte, without any library.
#ifndef VERIF_COMMON_FITSBYTES_H
#define VERIF_COMMON_FITSBYTES_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iterator>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace fb {
typedef long double Num;   // holds every int64_t and every double
struct Unit {
  bool table = false;
  int bitpix = -32;
  std::vector<long> dims;           // empty: no data
  std::vector<Num> v;               // as stored
  double bscale = 1, bzero = 0;
  std::vector<std::string> cards;   // in front of END
  long count() const { if (dims.empty()) return 0; long n = 1; for (long d : dims) n *= d; return n; }
  Num at(long x, long y, long z = 0) const { return v[x + dims[0] * (y + (dims.size() > 1 ? dims[1] : 1) * z)] * (Num)bscale + (Num)bzero; }
};
inline std::string key(const std::string& k) { std::string s = k; s.resize(8, ' '); return s + "= "; }
inline std::string num(const char* k, const std::string& v) { char b[40]; snprintf(b, 40, "%20s", v.c_str()); return key(k) + b; }
inline void put(std::string& out, const Unit& u) {
  for (Num v : u.v) {
    uint64_t q;
    int s = std::abs(u.bitpix) / 8;
    if (u.bitpix == -32) { float f = (float)v; uint32_t z; memcpy(&z, &f, 4); q = z; }
    else if (u.bitpix == -64) { double f = (double)v; memcpy(&q, &f, 8); }
    else q = (uint64_t)(int64_t)v;
    for (int k = 0; k < s; ++k) out += (char)(q >> (8 * (s - 1 - k)));
  }
}
inline std::string bytes(const std::vector<Unit>& us) {
  std::string out;
  auto pad = [&](char c) { while (out.size() % 2880) out += c; };
  auto card = [&](std::string s) { s.resize(80, ' '); out += s; };
  for (size_t i = 0; i < us.size(); ++i) {
    auto& u = us[i];
    card(i == 0 ? num("SIMPLE", "T") : u.table ? "XTENSION= 'BINTABLE'" : "XTENSION= 'IMAGE   '");
    card(num("BITPIX", std::to_string(u.table ? 8 : u.bitpix)));
    card(num("NAXIS", std::to_string(u.dims.size())));
    for (size_t d = 0; d < u.dims.size(); ++d) card(num(("NAXIS" + std::to_string(d + 1)).c_str(), std::to_string(u.dims[d])));
    if (i) { card(num("PCOUNT", "0")); card(num("GCOUNT", "1")); }
    if (u.table) { card(num("TFIELDS", "1")); card(key("TFORM1") + "'" + std::to_string(u.dims[0]) + "B      '"); }
    char b[40];
    if (u.bscale != 1) { snprintf(b, 40, "%.15G", u.bscale); card(num("BSCALE", b)); }
    if (u.bzero != 0) { snprintf(b, 40, "%.15G", u.bzero); card(num("BZERO", b)); }
    for (auto& c : u.cards) card(c);
    card("END");
    pad(' ');
    put(out, u);
    pad('\0');
  }
  return out;
}
inline void write(const std::string& path, const std::vector<Unit>& us) { std::ofstream(path, std::ios::binary) << bytes(us); }
inline std::string trim(const std::string& s) { auto a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
// A card: keyword, kind ('s' string, 'l' logical, 'n' number, ' ' no value), value without quotes, comment.
struct Card { std::string key, value, comment; char kind = ' '; };
inline Card parseCard(const std::string& c) {
  Card r;
  r.key = trim(c.substr(0, 8));
  if (c.size() < 10 || c.substr(8, 2) != "= ") return r;
  size_t p = c.find_first_not_of(' ', 10);
  if (p == std::string::npos) { r.kind = 'u'; return r; }
  if (c[p] == '\'') {
    r.kind = 's';
    for (++p; ; ++p) {
      if (p >= c.size()) throw std::runtime_error("a string without its end: " + c);
      if (c[p] == '\'') { if (p + 1 < c.size() && c[p + 1] == '\'') ++p; else break; }
      r.value += c[p];
    }
    while (!r.value.empty() && r.value.back() == ' ') r.value.pop_back();
    ++p;
  } else {
    size_t e = c.find('/', p);
    r.value = trim(c.substr(p, e == std::string::npos ? e : e - p));
    r.kind = r.value == "T" || r.value == "F" ? 'l' : r.value.empty() ? 'u' : 'n';
    p = e == std::string::npos ? c.size() : e;
  }
  size_t s = p < c.size() ? c.find('/', p) : std::string::npos;
  if (s != std::string::npos) r.comment = trim(c.substr(s + 1));
  return r;
}
inline std::vector<Unit> read(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) throw std::runtime_error("no file " + path);
  std::string s((std::istreambuf_iterator<char>(f)), {});
  if (s.size() % 2880) throw std::runtime_error("the file is not made of blocks of 2880 bytes");
  std::vector<Unit> r;
  size_t p = 0;
  while (p < s.size()) {
    Unit u;
    std::map<std::string, Card> h;
    for (;; p += 80) {
      if (p + 80 > s.size()) throw std::runtime_error("a header without END");
      std::string c = s.substr(p, 80);
      if (trim(c) == "END") break;
      Card k = parseCard(c);
      h[k.key] = k;
      u.cards.push_back(c);
    }
    p = (p / 2880 + 1) * 2880;
    auto get = [&](const std::string& k, double d) { return h.count(k) ? atof(h[k].value.c_str()) : d; };
    u.table = h.count("XTENSION") && h["XTENSION"].value != "IMAGE";
    u.bitpix = get("BITPIX", 0);
    u.bscale = get("BSCALE", 1);
    u.bzero = get("BZERO", 0);
    for (int d = 1; d <= (int)get("NAXIS", 0); ++d) u.dims.push_back(get("NAXIS" + std::to_string(d), 0));
    long n = u.count(), size = std::abs(u.bitpix) / 8;
    if (p + n * size > s.size()) throw std::runtime_error("data shorter than the header says");
    for (long i = 0; i < n; ++i) {
      uint64_t q = 0;
      for (int k = 0; k < size; ++k) q = q << 8 | (unsigned char)s[p + i * size + k];
      Num v;
      if (u.bitpix == -32) { uint32_t z = q; float x; memcpy(&x, &z, 4); v = x; }
      else if (u.bitpix == -64) { double x; memcpy(&x, &q, 8); v = x; }
      else if (u.bitpix == 8) v = (uint8_t)q;
      else if (u.bitpix == 16) v = (int16_t)q;
      else if (u.bitpix == 32) v = (int32_t)q;
      else v = (int64_t)q;
      u.v.push_back(v);
    }
    p = (p + n * size + 2879) / 2880 * 2880;
    r.push_back(u);
  }
  return r;
}
}
#endif
