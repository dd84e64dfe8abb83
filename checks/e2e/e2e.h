// Runs the real main program in a child process, with its own scratch directory, and reads back what it wrote.
#ifndef VERIF_E2E_H
#define VERIF_E2E_H
#include "vkit.h"
#include "common/scratch.h"
#include "Table/TableWriter.h"
#include <Python.h>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <fitsio.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
extern int sx_main(int argc, char* argv[]);
extern "C" PyObject* PyInit__SourceXtractorPy();
namespace e2e {
// ---- FITS files, written without the code under test
struct Hdu {
  int w = 0, h = 0, depth = 0;
  std::vector<double> d;
  int bitpix = -32;
  std::vector<std::string> cards;   // "KEY     = value"
  Hdu() {}
  Hdu(int w_, int h_, double v = 0) : w(w_), h(h_), d(w_ * h_, v) {}
  double& at(int x, int y) { return d[x + y * w]; }
  double at(int x, int y) const { return d[x + y * w]; }
};
inline std::string card(const char* k, const std::string& v) { char b[81]; snprintf(b, 81, "%-8s= %20s", k, v.c_str()); return b; }
inline std::string scard(const char* k, const std::string& v) { char b[81]; snprintf(b, 81, "%-8s= '%-8s'", k, v.c_str()); return b; }
inline std::string dstr(double v) { char b[40]; snprintf(b, 40, "%.15G", v); std::string s = b; if (s.find_first_of(".EN") == std::string::npos) s += "."; return s; }
inline void writeFits(const std::string& path, const std::vector<Hdu>& hdus) {
  std::string out;
  auto pad = [&](char c) { while (out.size() % 2880) out += c; };
  auto put = [&](std::string s) { s.resize(80, ' '); out += s; };
  for (size_t i = 0; i < hdus.size(); ++i) {
    auto& u = hdus[i];
    int n = u.w == 0 ? 0 : u.depth ? 3 : 2;
    put(i == 0 ? card("SIMPLE", "T") : "XTENSION= 'IMAGE   '");
    put(card("BITPIX", std::to_string(u.bitpix)));
    put(card("NAXIS", std::to_string(n)));
    if (n) { put(card("NAXIS1", std::to_string(u.w))); put(card("NAXIS2", std::to_string(u.h))); }
    if (n == 3) put(card("NAXIS3", std::to_string(u.depth)));
    if (i) { put(card("PCOUNT", "0")); put(card("GCOUNT", "1")); }
    for (auto& c : u.cards) put(c);
    put("END");
    pad(' ');
    for (double v : u.d) {
      unsigned char b[8];
      int s;
      uint64_t q;
      if (u.bitpix == -32) { float f = (float)v; uint32_t z; memcpy(&z, &f, 4); q = z; s = 4; }
      else if (u.bitpix == -64) { memcpy(&q, &v, 8); s = 8; }
      else { q = (uint64_t)(int64_t)v; s = u.bitpix / 8; }
      for (int k = 0; k < s; ++k) b[k] = q >> (8 * (s - 1 - k));
      out.append((char*)b, s);
    }
    pad('\0');
  }
  std::ofstream(path, std::ios::binary) << out;
}
// Reads an image back with cfitsio; hdu counts from 0. Empty on failure.
inline Hdu readFits(const std::string& path, int hdu = 0) {
  Hdu r;
  fitsfile* f = nullptr;
  int st = 0, type = 0, naxis = 0;
  long n[3] = {0, 0, 1};
  if (fits_open_file(&f, path.c_str(), READONLY, &st)) return r;
  if (!fits_movabs_hdu(f, hdu + 1, &type, &st) && !fits_get_img_dim(f, &naxis, &st) && naxis >= 2 && !fits_get_img_size(f, 3, n, &st)) {
    r.w = n[0]; r.h = n[1];
    r.d.assign((size_t)n[0] * n[1], 0);
    long first[3] = {1, 1, 1};
    fits_read_pix(f, TDOUBLE, first, r.d.size(), nullptr, r.d.data(), nullptr, &st);
  }
  if (st) r = Hdu();
  st = 0;
  fits_close_file(f, &st);
  return r;
}
// ---- catalogues
struct Tab {
  std::string kind, file, hdu;
  bool over = false;
  std::vector<std::string> cols, types;
  std::vector<std::vector<std::string>> rows;   // every value printed exactly
};
struct Print : boost::static_visitor<std::string> {
  static std::string num(double v) { char b[40]; if (v != v) return "nan"; snprintf(b, 40, "%.17g", v); return b; }
  static std::string num(float v) { char b[40]; if (v != v) return "nan"; snprintf(b, 40, "%.9g", v); return b; }
  static std::string num(int64_t v) { return std::to_string(v); }
  static std::string num(int32_t v) { return std::to_string(v); }
  static std::string num(bool v) { return v ? "1" : "0"; }
  std::string operator()(bool v) const { return num(v); }
  std::string operator()(int32_t v) const { return num(v); }
  std::string operator()(int64_t v) const { return num(v); }
  std::string operator()(float v) const { return num(v); }
  std::string operator()(double v) const { return num(v); }
  std::string operator()(const std::string& v) const { return v; }
  template <typename T> std::string operator()(const std::vector<T>& v) const { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + num((T)v[i]); return s + ")"; }
  template <typename T> std::string operator()(const Euclid::NdArray::NdArray<T>& v) const {
    std::string s = "[";
    for (auto d : v.shape()) s += std::to_string(d) + "x";
    for (auto x : v) s += "," + num((T)x);
    return s + "]";
  }
};
inline std::vector<double> numbers(const std::string& s) {   // of a scalar, a vector or an array
  std::vector<double> r;
  std::string t = s;
  if (!t.empty() && t[0] == '[') { auto c = t.find(','); t = c == std::string::npos ? "" : t.substr(c + 1); }
  std::string cur;
  for (char c : t + ",") {
    if (c == '(' || c == ')' || c == ']') continue;
    if (c == ',') { if (!cur.empty()) r.push_back(cur == "nan" ? NAN : strtod(cur.c_str(), nullptr)); cur.clear(); } else cur += c;
  }
  return r;
}
struct Result {
  int exit = -1;               // of the program
  bool crash = false, timeout = false;
  std::vector<Tab> tables;
  std::string output;          // standard output and error
  std::string how() const { return timeout ? "does not end" : crash ? "killed by signal " + std::to_string(exit) : "exit status " + std::to_string(exit); }
  bool ok() const { return !crash && !timeout && exit == 0; }
  // all rows of the catalogue parts in the order they were written, LDAC headers left out
  std::vector<std::vector<std::string>> rows(int part = -1) const {
    std::vector<std::vector<std::string>> r;
    std::string cur;
    int p = -1;
    for (auto& t : tables) {
      if (t.hdu.find("IMHEAD") != std::string::npos) continue;
      if (t.hdu != cur || p < 0) { cur = t.hdu; ++p; }
      if (part < 0 || part == p) r.insert(r.end(), t.rows.begin(), t.rows.end());
    }
    return r;
  }
  std::vector<std::string> cols() const { for (auto& t : tables) if (t.hdu.find("IMHEAD") == std::string::npos) return t.cols; return {}; }
  int col(const std::string& n) const { auto c = cols(); for (size_t i = 0; i < c.size(); ++i) if (c[i] == n) return i; return -1; }
  std::vector<std::vector<double>> values(const std::string& n) const {
    std::vector<std::vector<double>> r;
    int c = col(n);
    if (c >= 0) for (auto& row : rows()) r.push_back(numbers(row[c]));
    return r;
  }
};
inline std::string flat(const std::vector<std::string>& r) { std::string s; for (auto& c : r) s += c + " | "; return s; }
struct Dir : Scratch {
  void fits(const std::string& n, const std::vector<Hdu>& h) const { writeFits((*this)(n), h); }
  void text(const std::string& n, const std::string& s) const { std::ofstream((*this)(n)) << s; }
  std::string read(const std::string& n) const { std::ifstream f((*this)(n), std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
};
inline void putS(std::string& o, const std::string& s) { o += std::to_string(s.size()) + ":" + s; }
struct In {
  const std::string& s; size_t p = 0; bool ok = true;
  std::string get() {
    size_t c = s.find(':', p);
    if (c == std::string::npos) { ok = false; return ""; }
    size_t n = strtoul(s.c_str() + p, nullptr, 10);
    std::string r = s.substr(c + 1, n);
    ok = ok && r.size() == n;
    p = c + 1 + n;
    return r;
  }
  size_t num() { return strtoul(get().c_str(), nullptr, 10); }
};
inline std::string dumpTables() {
  std::string o;
  auto& sink = Euclid::Table::shim::tableSink();
  putS(o, std::to_string(sink.size()));
  for (auto& e : sink) {
    putS(o, e.kind); putS(o, e.file); putS(o, e.hdu); putS(o, e.override_file ? "1" : "0");
    size_t nc = e.rows.empty() ? 0 : e.rows[0].size();
    putS(o, std::to_string(nc)); putS(o, std::to_string(e.rows.size()));
    for (size_t c = 0; c < nc; ++c) { auto& d = e.rows[0].getColumnInfo()->getDescription(c); putS(o, d.name); putS(o, std::string(d.type.name()) + "/" + d.unit); }
    for (auto& r : e.rows) for (size_t c = 0; c < nc; ++c) putS(o, boost::apply_visitor(Print(), r[c]));
  }
  return o;
}
inline std::vector<Tab> parseTables(const std::string& s) {
  std::vector<Tab> r;
  In in{s};
  size_t n = in.num();
  for (size_t i = 0; i < n && in.ok; ++i) {
    Tab t;
    t.kind = in.get(); t.file = in.get(); t.hdu = in.get(); t.over = in.get() == "1";
    size_t nc = in.num(), nr = in.num();
    for (size_t c = 0; c < nc; ++c) { t.cols.push_back(in.get()); t.types.push_back(in.get()); }
    for (size_t k = 0; k < nr; ++k) { std::vector<std::string> row; for (size_t c = 0; c < nc; ++c) row.push_back(in.get()); t.rows.push_back(row); }
    r.push_back(t);
  }
  return r;
}
inline double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
// Runs the program in dir with these arguments.
inline Result run(const Dir& dir, const std::vector<std::string>& args, int seconds = 60) {
  Result res;
  std::string tf = dir(".tables"), lf = dir(".log");
  unlink(tf.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    struct rlimit nocore{0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, SIG_DFL);
    alarm(0);
    int fd = open(lf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1); dup2(fd, 2);
    if (chdir(dir.path.c_str())) _exit(99);
    PyImport_AppendInittab("_SourceXtractorPy", PyInit__SourceXtractorPy);
    std::vector<std::string> a{"sourcextractor++"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> argv;
    for (auto& s : a) argv.push_back(&s[0]);
    argv.push_back(nullptr);
    int rc = sx_main((int)a.size(), argv.data());
    std::ofstream(tf, std::ios::binary) << dumpTables();
    fflush(nullptr);
    std::cout.flush(); std::cerr.flush();
    _exit(rc & 127);
  }
  double end = nowS() + seconds;
  int st = 0;
  for (useconds_t w = 500;; w = std::min<useconds_t>(w * 2, 5000)) {
    pid_t p = waitpid(pid, &st, WNOHANG);
    if (p == pid) break;
    if (nowS() > end) { kill(-pid, SIGKILL); waitpid(pid, &st, 0); res.timeout = true; break; }
    usleep(w);
  }
  if (WIFSIGNALED(st)) { res.crash = !res.timeout; res.exit = WTERMSIG(st); } else res.exit = WEXITSTATUS(st);
  res.output = dir.read(".log");
  res.tables = parseTables(dir.read(".tables"));
  unlink(tf.c_str()); unlink(lf.c_str());
  return res;
}
// A deterministic, noise-like ripple in [-1, 1].
inline double ripple(int x, int y, unsigned seed = 0) {
  uint64_t h = (uint64_t)x * 0x9E3779B97F4A7C15ull ^ (uint64_t)y * 0xC2B2AE3D27D4EB4Full ^ ((uint64_t)seed + 1) * 0x165667B19E3779F9ull;
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; h *= 0x94D049BB133111EBull; h ^= h >> 29;
  return (double)(h >> 40) / (double)(1 << 23) - 1.;
}
struct Star { double x, y, flux, s; };   // a round Gaussian: centre in pixels from 0, total flux, width
inline void add(Hdu& u, const Star& k) {
  for (int y = 0; y < u.h; ++y) for (int x = 0; x < u.w; ++x) {
    double r2 = (x - k.x) * (x - k.x) + (y - k.y) * (y - k.y);
    if (r2 < 64 * k.s * k.s) u.at(x, y) += k.flux / (2 * M_PI * k.s * k.s) * exp(-r2 / (2 * k.s * k.s));
  }
}
}
#endif
