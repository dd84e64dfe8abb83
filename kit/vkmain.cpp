#include "vkit.h"
#include <stdexcept>

static vk::Run*          g_run;
static volatile uint64_t g_last = ~0ull;
static volatile unsigned g_ticks_cpu, g_ticks_wall;
static unsigned          g_limit_cpu = 40, g_limit_wall = 300;
static void hang(const char* what) {
  char b[256];
  int n = snprintf(b, sizeof b, "HANG\t%s\t%llu\t%s\n", g_run->suite.c_str(), (unsigned long long)*g_run->current, what);
  if (write(fileno(g_run->out), b, n) < 0) {}
  _exit(97);
}
static void tick(int sig) {
  uint64_t c = *g_run->current;
  if (c != g_last) { g_last = c; g_ticks_cpu = g_ticks_wall = 0; return; }
  if (sig == SIGPROF) { if (++g_ticks_cpu > g_limit_cpu) hang("cpu"); }
  else { if (++g_ticks_wall > g_limit_wall / 5) hang("wall"); }
}

int main(int argc, char** argv) {
  vk::Run r;
  g_run = &r;
  std::string outname, curname, suite_sel, hashname;
  static uint64_t local;
  r.current = &local;
  r.out  = stdout;
  r.tier = "quick";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--shard") { auto v = val(); sscanf(v.c_str(), "%lu/%lu", &r.shard, &r.shards); }
    else if (a == "--tier") r.tier = val();
    else if (a == "--out") outname = val();
    else if (a == "--cur") curname = val();
    else if (a == "--hash") hashname = val();
    else if (a == "--suite") suite_sel = val();
    else if (a == "--only") r.only = std::stoll(val());
    else if (a == "--limit-cpu") g_limit_cpu = std::stoul(val());
    else if (a == "--list") { for (auto& s : vk::suites()) puts(s.name.c_str()); return 0; }
  }
  if (!outname.empty()) r.out = fopen(outname.c_str(), "a");
  if (!curname.empty()) {
    int fd = open(curname.c_str(), O_RDWR | O_CREAT, 0644);
    if (ftruncate(fd, 4096)) return 3;
    r.current = static_cast<uint64_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
#ifndef VK_NO_RLIMIT
  struct rlimit rl{6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit rc{0, 0};
  setrlimit(RLIMIT_CORE, &rc);
#ifndef VK_NO_WATCHDOG
  signal(SIGPROF, tick);
  signal(SIGALRM, tick);
  struct itimerval tv{{1, 0}, {1, 0}}, tw{{5, 0}, {5, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  setitimer(ITIMER_REAL, &tw, nullptr);
#endif
  bool found = false;
  for (auto& s : vk::suites()) {
    if (!suite_sel.empty() && s.name != suite_sel) continue;
    found = true;
    // every suite gets its own numbering and statistics
    vk::Run sr;
    sr.tier = r.tier; sr.shard = r.shard; sr.shards = r.shards; sr.only = r.only; sr.out = r.out; sr.current = r.current;
    sr.suite = s.name;
    g_run = &sr;
    *sr.current = ~0ull;
    strncpy(reinterpret_cast<char*>(sr.current) + (curname.empty() ? 0 : 64), curname.empty() ? "" : s.name.c_str(), curname.empty() ? 0 : 200);
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    try { s.f(sr); }
    catch (const vk::Abort&) {}
    catch (const std::exception& e) { sr.fail("exception", std::string("exception escaped the suite: ") + e.what()); }
    catch (...) { sr.fail("exception", "exception escaped the suite"); }
    sr.flush_case();
    clock_gettime(CLOCK_MONOTONIC, &t1);
    fprintf(sr.out, "STAT\t%s\t%llu\t%llu\t%llu\t%llu\t%llu\t%.3f\n", s.name.c_str(), (unsigned long long)sr.evaluations,
            (unsigned long long)sr.nontrivial_cases, (unsigned long long)sr.transitions, (unsigned long long)sr.traces,
            (unsigned long long)sr.violations, (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec));
    for (auto& e : sr.extra) fprintf(sr.out, "EXTRA\t%s\t%s\t%llu\n", s.name.c_str(), e.first.c_str(), (unsigned long long)e.second);
    if (!sr.last_sample.empty()) sr.samples.push_back(sr.last_sample);
    for (auto& e : sr.samples) { for (auto& c : e) if (c == '\n' || c == '\t') c = ' '; fprintf(sr.out, "SAMPLE\t%s\t%s\n", s.name.c_str(), e.c_str()); }
    fflush(sr.out);
    if (!hashname.empty()) {
      uint64_t sh = vk::hashStr(s.name);
      for (int k = 0; k < 2; ++k) {
        FILE* h = fopen((hashname + (k ? ".out" : ".st")).c_str(), "ab");
        (k ? sr.outcomes : sr.states).each([&](uint64_t v) { v = vk::mix(sh, v); fwrite(&v, 8, 1, h); });
        fclose(h);
      }
    }
  }
  fprintf(r.out, "DONE\n");
  fflush(r.out);
  if (!found) { fprintf(stderr, "no such suite\n"); return 3; }
  _exit(0);
}
