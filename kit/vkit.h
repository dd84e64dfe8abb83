// Common harness support: every suite is a deterministic enumeration of numbered cases. A run executes all the
// cases of its shard; one case can be re-run alone by number, which is what a replay does.
#ifndef VKIT_H
#define VKIT_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <sys/mman.h>
#include <vector>

namespace vk {
// Set of 64-bit hashes in shared mappings, which a fork neither copies nor write-protects.
class U64Set {
  uint64_t* m_t = nullptr;
  size_t m_cap = 0, m_n = 0;
  bool m_zero = false;
  static uint64_t* map(size_t n) { void* p = mmap(nullptr, n * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return (uint64_t*)p; }
  bool put(uint64_t v) { size_t i = (v * 0x9E3779B97F4A7C15ull) >> 20 & (m_cap - 1); while (m_t[i]) { if (m_t[i] == v) return false; i = (i + 1) & (m_cap - 1); } m_t[i] = v; return true; }
public:
  U64Set() = default;
  U64Set(const U64Set&) = delete;
  U64Set& operator=(const U64Set&) = delete;
  ~U64Set() { if (m_t) munmap(m_t, m_cap * 8); }
  size_t size() const { return m_n + m_zero; }
  void insert(uint64_t v) {
    if (!v) { m_zero = true; return; }
    if (m_n * 10 >= m_cap * 6) {
      size_t oc = m_cap; uint64_t* ot = m_t;
      m_cap = oc ? oc * 4 : 4096; m_t = map(m_cap);
      for (size_t i = 0; i < oc; ++i) if (ot[i]) put(ot[i]);
      if (ot) munmap(ot, oc * 8);
    }
    m_n += put(v);
  }
  template <typename F> void each(F f) const { if (m_zero) f(0); for (size_t i = 0; i < m_cap; ++i) if (m_t[i]) f(m_t[i]); }
};


inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
inline uint64_t mix(uint64_t v) { v += 0x9e3779b97f4a7c15ULL; v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9ULL; v = (v ^ (v >> 27)) * 0x94d049bb133111ebULL; return v ^ (v >> 31); }
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

struct Abort {};  // thrown to leave a case early after a violation

class Run {
public:
  std::string suite, tier;
  uint64_t    shard = 0, shards = 1;
  int64_t     only = -1;
  FILE*       out  = nullptr;
  uint64_t*   current = nullptr;  // shared with the runner through a mapped file

  bool thorough() const { return tier == "thorough"; }

  // Next case of the enumeration; false: belongs to another shard (or is not the one being replayed).
  bool next() {
    ++m_index;
    bool mine = only >= 0 ? static_cast<int64_t>(m_index) == only : m_index % shards == shard;
    if (!mine) return false;
    flush_case();
    if (current) *current = m_index;
    ++evaluations;
    m_live = true;
    m_hash = 0xcbf29ce484222325ull;
    m_nontrivial = false;
    m_desc = nullptr;
    return true;
  }
  uint64_t index() const { return m_index; }
  void desc(std::function<std::string()> d) {
    m_desc = std::move(d);
    if (samples.size() < 3 || (evaluations & (evaluations - 1)) == 0) {
      std::string s = m_desc();
      if (s.size() > 300) s = s.substr(0, 300) + "...";
      if (samples.size() < 3) samples.push_back(s);
      else last_sample = s;
    }
    if (only >= 0) fprintf(stderr, "case %s:%llu: %s\n", suite.c_str(), (unsigned long long)m_index, m_desc().c_str());
  }
  // What the case showed; a case is non-trivial when the harness says so.
  void see(uint64_t v) { m_hash = mix(m_hash, v); }
  void seeD(double v) { uint64_t u; if (v == 0) v = 0; memcpy(&u, &v, 8); see(u); }
  void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
  void state(uint64_t h) { ++m_state_calls; if (states.size() < 4000000) states.insert(h); }
  void transition(uint64_t n = 1) { transitions += n; }
  void trace(uint64_t n = 1) { traces += n; }
  void count(const std::string& name, uint64_t n = 1) { extra[name] += n; }

  // key: stable identification of what failed (used for known findings), without spaces.
  void fail(const std::string& key, const std::string& msg) {
    auto& n = m_fail_count[key];
    ++violations;
    if (++n > 3) return;
    std::string d = m_desc ? m_desc() : "";
    auto clean = [](std::string s) { for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; if (s.size() > 2000) s.resize(2000); return s; };
    fprintf(out, "VIOL\t%s\t%s\t%llu\t%s\t%s\n", clean(key).c_str(), suite.c_str(), (unsigned long long)m_index, clean(msg).c_str(), clean(d).c_str());
    fflush(out);
  }
  void check(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); }
  template <typename F> void check(bool ok, const char* key, F msg, decltype(msg())* = nullptr) { if (!ok) fail(key, msg()); }
  template <typename F> void require(bool ok, const char* key, F msg) { if (!ok) { fail(key, msg()); throw Abort(); } }

  // Runs one case body: an exception it lets escape is a violation of that case only.
  template <typename F> void guarded(const char* key, F f) {
    try { f(); }
    catch (const Abort&) {}
    catch (const std::exception& e) { fail(std::string(key) + "/exception", std::string("unexpected exception: ") + e.what()); }
    catch (...) { fail(std::string(key) + "/exception", "unexpected exception"); }
  }

  void flush_case() {
    if (!m_live) return;
    m_live = false;
    if (m_nontrivial) {
      ++nontrivial_cases;
      if (outcomes.size() < 3000000) outcomes.insert(m_hash);
    }
  }

  uint64_t evaluations = 0, nontrivial_cases = 0, transitions = 0, traces = 0, violations = 0;
  U64Set states, outcomes;
  std::vector<std::string>     samples;
  std::string                  last_sample;
  std::map<std::string, uint64_t> extra;

private:
  uint64_t m_index = static_cast<uint64_t>(-1);
  uint64_t m_hash = 0, m_state_calls = 0;
  bool     m_live = false, m_nontrivial = false;
  std::function<std::string()>    m_desc;
  std::map<std::string, uint64_t> m_fail_count;
};

struct SuiteReg {
  std::string                name;
  std::function<void(Run&)>  f;
};
inline std::vector<SuiteReg>& suites() { static std::vector<SuiteReg> s; return s; }
struct Register { Register(const char* n, void (*f)(Run&)) { suites().push_back({n, f}); } };
#define VK_SUITE(NAME)                                                  \
  static void vk_suite_##NAME(vk::Run& r);                              \
  static vk::Register vk_reg_##NAME(#NAME, &vk_suite_##NAME);           \
  static void vk_suite_##NAME(vk::Run& r)

// Runs f in a child process; 0 = it returned true, 1 = it returned false, 2 = crashed, 3 = did not end in time.
inline int isolated(std::function<bool()> f, unsigned cpu_seconds = 5, std::string* how = nullptr) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    struct rlimit rl{cpu_seconds, cpu_seconds + 1};
    setrlimit(RLIMIT_CPU, &rl);
    signal(SIGXCPU, SIG_DFL);
    signal(SIGALRM, SIG_DFL);
    signal(SIGPROF, SIG_IGN);
    struct itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr); setitimer(ITIMER_PROF, &z, nullptr);
    alarm(cpu_seconds * 10);
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
    bool ok = false;
    try { ok = f(); } catch (...) { _exit(4); }
    _exit(ok ? 0 : 1);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) {
    int c = WEXITSTATUS(st);
    if (how) *how = c == 4 ? "exception" : "exit " + std::to_string(c);
    return c == 0 ? 0 : c == 1 ? 1 : 2;
  }
  int sig = WTERMSIG(st);
  if (how) *how = std::string("signal ") + std::to_string(sig);
  return (sig == SIGXCPU || sig == SIGALRM || sig == SIGKILL) ? 3 : 2;
}

// Odometer over digit vectors.
struct Odo {
  std::vector<int> base, v;
  bool             done = false;
  explicit Odo(std::vector<int> b) : base(std::move(b)), v(base.size(), 0) { for (int x : base) if (x <= 0) done = true; }
  void inc() {
    for (size_t i = 0; i < v.size(); ++i) { if (++v[i] < base[i]) return; v[i] = 0; }
    done = true;
  }
};

template <typename T> std::string str(const T& v) { std::ostringstream s; s.precision(17); s << v; return s.str(); }
template <typename T> std::string strv(const std::vector<T>& v) {
  std::ostringstream s; s.precision(9); s << "[";
  for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i];
  s << "]"; return s.str();
}
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
}  // namespace vk

using std::to_string;
#endif
