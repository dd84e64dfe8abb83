// Compiled WITHOUT -fsanitize=thread; supplies the __tsan_* entry points and the pthread functions itself.
#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>

namespace {
constexpr int kMaxT = 12, kMaxPts = 6000;
enum Op : uint8_t { RUN, LOCK, RDLOCK, WRLOCK, COND, JOIN, GUARD, ATOMIC, SIGNAL, YIELD, START, DONE, POINT };
const char* const kOpName[] = {"run", "lock", "rdlock", "wrlock", "condwait", "join", "static-init", "atomic", "signal", "yield", "start", "done", "point"};

struct Point { uint16_t n, chosen; uint8_t cost[14]; };
struct Shared {
  // in
  uint32_t nprefix;
  uint16_t prefix[kMaxPts];
  bool     verbose;
  // out
  uint32_t npoints;
  Point    pts[kMaxPts];
  uint64_t steps, switches, observed, tracehash, granules, races_checked;
  int      status;  // 0 running, 1 finished, 2 failed, 3 diverged, 4 internal limit
  char     what[120];
  char     msg[3000];
  char     log[12000];
  uint32_t nlog;
};
Shared* g = nullptr;

struct VC { uint32_t c[kMaxT] = {}; void join(const VC& o) { for (int i = 0; i < kMaxT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thread {
  int       id = 0;
  int       sem = 0;  // futex
  Op        op = RUN;
  const void* obj = nullptr;
  bool      finished = false, timed = false, timedout = false, yielded = false, created = false;
  bool      stopped = false;
  Thread*   join_target = nullptr;
  void*     (*fn)(void*) = nullptr;
  void*     arg = nullptr;
  pthread_t real{};
  VC        vc;
  const void* after_cond_mutex = nullptr;
  uint64_t  deadline = 0, seq = 0;  // virtual time a sleep or timed wait ends; order among equals
  char*     stack_lo = nullptr; char* stack_hi = nullptr;
};
Thread  g_threads[kMaxT];
int     g_nthreads = 0;
bool    g_active = false;
mc::Options g_opt;
__thread Thread* self __attribute__((tls_model("initial-exec"))) = nullptr;
__thread int in_rt __attribute__((tls_model("initial-exec"))) = 0;
__thread int untracked __attribute__((tls_model("initial-exec"))) = 0;
struct Rt { Rt() { ++in_rt; } ~Rt() { --in_rt; } };

struct Obj { int owner = -1, depth = 0, id = 0; uint32_t readers = 0; VC vc, rvc; std::vector<int> waiters; bool init_done = false; };
std::map<uintptr_t, Obj>* g_objs;
std::map<uintptr_t, VC>*  g_atom;  // by 8-byte granule
int g_objseq = 0;
uint32_t g_pos = 0;
uint64_t g_now = 0, g_seq = 0;           // virtual time, in nanoseconds
const uint64_t kEpoch = 1000000000000000ull;

Obj& obj(const void* p) {
  auto& o = (*g_objs)[(uintptr_t)p];
  if (!o.id) o.id = ++g_objseq;
  return o;
}

template <typename F> F real(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "no %s\n", n); _exit(99); }
  return (F)p;
}
#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__)
REAL(int, pthread_mutex_lock, pthread_mutex_t*); REAL(int, pthread_mutex_trylock, pthread_mutex_t*); REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*); REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
REAL(int, pthread_cond_signal, pthread_cond_t*); REAL(int, pthread_cond_broadcast, pthread_cond_t*);
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*); REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*); REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); REAL(int, pthread_join, pthread_t, void**); REAL(int, pthread_detach, pthread_t);
REAL(int, nanosleep, const struct timespec*, struct timespec*); REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
REAL(int, sched_yield, void); REAL(int, pthread_once, pthread_once_t*, void (*)(void)); REAL(int, usleep, useconds_t); REAL(int, clock_gettime, clockid_t, struct timespec*);
REAL(int, cxa_guard_acquire, uint64_t*); REAL(void, cxa_guard_release, uint64_t*); REAL(void, cxa_guard_abort, uint64_t*);
bool g_resolved = false;
void resolve() {
  if (g_resolved) return;
  g_resolved = true;
#define R(n) r_##n = real<decltype(r_##n)>(#n)
  R(pthread_mutex_lock); R(pthread_mutex_trylock); R(pthread_mutex_unlock); R(pthread_cond_wait); R(pthread_cond_timedwait); R(pthread_cond_clockwait);
  R(pthread_cond_signal); R(pthread_cond_broadcast); R(pthread_rwlock_rdlock); R(pthread_rwlock_wrlock); R(pthread_rwlock_unlock);
  R(pthread_create); R(pthread_join); R(pthread_detach); R(nanosleep); R(clock_nanosleep); R(sched_yield); R(pthread_once); R(usleep); R(clock_gettime);
  r_cxa_guard_acquire = real<decltype(r_cxa_guard_acquire)>("__cxa_guard_acquire");
  r_cxa_guard_release = real<decltype(r_cxa_guard_release)>("__cxa_guard_release");
  r_cxa_guard_abort = real<decltype(r_cxa_guard_abort)>("__cxa_guard_abort");
}
__attribute__((constructor(101))) void ctor() { resolve(); }
inline bool on() { return g_active && self && !in_rt; }

void futex_wait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void sem_wait_(Thread* t) {
  while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0) futex_wait(&t->sem, 0);
  __atomic_store_n(&t->sem, 0, __ATOMIC_RELEASE);
}
void sem_post_(Thread* t) { __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE); futex_wake(&t->sem); }

void vlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void vlog(const char* fmt, ...) {
  if (!g->verbose) return;
  va_list ap;
  va_start(ap, fmt);
  int room = (int)sizeof(g->log) - (int)g->nlog - 1;
  if (room > 0) { int n = vsnprintf(g->log + g->nlog, room, fmt, ap); g->nlog += std::min(n, room); }
  va_end(ap);
}
[[noreturn]] void stop(int status, const char* what, const std::string& msg) {
  ++in_rt;
  snprintf(g->what, sizeof g->what, "%s", what);
  snprintf(g->msg, sizeof g->msg, "%s", msg.c_str());
  g->status = status;
  _exit(0);
}

bool enabled(Thread& t) {
  if (t.finished || t.id >= g_nthreads) return false;
  switch (t.op) {
    case LOCK: { auto& o = obj(t.obj); return o.owner < 0 || (o.owner == t.id && ((((const pthread_mutex_t*)t.obj)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)); }
    case RDLOCK: return obj(t.obj).owner < 0;
    case WRLOCK: { auto& o = obj(t.obj); return o.owner < 0 && o.readers == 0; }
    case COND: return false;
    case JOIN: return t.join_target->finished;
    case GUARD: return obj(t.obj).owner < 0;
    default: return true;
  }
}
std::string describeThreads() {
  std::string s;
  for (int i = 0; i < g_nthreads; ++i) {
    auto& t = g_threads[i];
    s += "T" + std::to_string(i) + ":" + (t.finished ? "finished" : std::string(kOpName[t.op]) + (t.obj ? " #" + std::to_string(obj(t.obj).id) : ""));
    if (!t.finished && t.obj && (t.op == LOCK || t.op == WRLOCK || t.op == RDLOCK) && obj(t.obj).owner >= 0) s += " held by T" + std::to_string(obj(t.obj).owner);
    s += " ";
  }
  return s;
}
int take(int n, const uint8_t* cost) {
  if (n == 1) return 0;
  if (g_pos >= kMaxPts - 1) stop(2, "livelock", "no end after " + std::to_string(g_pos) + " choice points; " + describeThreads());
  int c = 0;
  if (g_pos < g->nprefix) c = g->prefix[g_pos];
  if (c >= n) stop(3, "diverged", "replayed choice out of range");
  auto& p = g->pts[g_pos++];
  p.n = n;
  p.chosen = c;
  memcpy(p.cost, cost, std::min(n, 14));
  g->npoints = g_pos;
  return c;
}
// The calling thread has set its pending operation: decides who goes next and returns when it is this thread's turn.
void pick() {
  Thread* me = self;
  if (++g->steps > g_opt.max_steps) stop(2, "livelock", "no end after " + std::to_string(g->steps) + " steps; " + describeThreads());
  Thread* list[kMaxT];
  uint8_t cost[kMaxT];
  int n = 0;
  bool mine = enabled(*me) && me->op != YIELD;
  if (mine) { list[n] = me; cost[n++] = 0; }
  for (int i = 0; i < g_nthreads; ++i) {
    auto& t = g_threads[i];
    if (&t == me || !enabled(t)) continue;
    if (t.op == YIELD) continue;
    list[n] = &t; cost[n++] = mine ? 1 : 0;
  }
  // sleeping threads and timed waits in the order they end: the first one is free when nothing else can run
  // (virtual time then advances), any other one, or waking up while others still run, is a deviation
  int timed_from = n;
  Thread* sl[kMaxT];
  int ns = 0;
  for (int i = 0; i < g_nthreads; ++i) {
    auto& t = g_threads[i];
    if (t.finished) continue;
    if (t.op == YIELD || (t.op == COND && t.timed && obj(t.after_cond_mutex).owner < 0)) sl[ns++] = &t;
  }
  std::sort(sl, sl + ns, [](Thread* x, Thread* y) { return x->deadline != y->deadline ? x->deadline < y->deadline : x->seq < y->seq; });
  for (int i = 0; i < ns; ++i) { if (timed_from && (i > 0 || sl[i] == me)) continue; list[n] = sl[i]; cost[n] = timed_from || i ? 1 : 0; ++n; }
  if (n == 0) {
    bool all = true;
    for (int i = 0; i < g_nthreads; ++i) all = all && g_threads[i].finished;
    stop(2, "deadlock", (all ? "all threads ended without the main one: " : "deadlock: ") + describeThreads());
  }
  int c = take(n, cost);
  Thread* to = list[c];
  if (c >= timed_from && to->deadline > g_now) g_now = to->deadline;
  if (g_now > g_opt.max_time_s * 1000000000ull) stop(2, "livelock", "no end after " + std::to_string(g_now / 1000000000) + " s of virtual time; " + describeThreads());
  if (c >= timed_from && to->op == COND) {  // its wait times out
    auto& w = obj(to->obj).waiters;
    for (size_t i = 0; i < w.size(); ++i) if (w[i] == to->id) { w.erase(w.begin() + i); break; }
    to->timedout = true;
    to->op = LOCK;
    to->obj = to->after_cond_mutex;
  }
  g->tracehash = vk::mix(g->tracehash, to->id * 64 + to->op + (to->obj ? 4096ull * obj(to->obj).id : 0));
  if (to != me) {
    ++g->switches;
    vlog(" |T%d", to->id);
    sem_post_(to);
    if (me->finished) return;
    sem_wait_(me);
  }
  vlog(" %s%s%d", kOpName[me->op], me->obj ? "#" : "", me->obj ? obj(me->obj).id : 0);
}
void at(Op op, const void* o) {
  self->op = op;
  self->obj = o;
  int e = errno;
  pick();
  self->op = RUN;
  self->obj = nullptr;
  errno = e;
}
void acq(Obj& o) { self->vc.join(o.vc); }
void rel(VC& v) { v.join(self->vc); ++self->vc.c[self->id]; }

// ---- race detection -------------------------------------------------------------------------------------------
struct Acc { uint32_t clk; uint8_t tid, mask; bool wr, atomic; const void* pc; };
struct Cell { uintptr_t key; uint8_t n, freed; uint16_t pad; uint32_t pad2; Acc a[10]; };
constexpr size_t kCells = 1 << 18;
Cell* g_cells;        // in the order of first use
uint32_t* g_index;    // hash table: number of the cell plus one
uint32_t g_ncells = 0;
Cell* cell(uintptr_t granule, bool create) {
  uintptr_t x = granule >> 3;
  // neighbours stay neighbours, so that few pages of the table are touched
  size_t h = ((x & 511) | (((x >> 9) * 0x9E3779B97F4A7C15ull) >> 55 << 9)) & (kCells - 1);
  for (size_t i = 0; i < kCells; ++i, h = (h + 1) & (kCells - 1)) {
    uint32_t k = g_index[h];
    if (k) { if (g_cells[k - 1].key == granule) return &g_cells[k - 1]; continue; }
    if (!create) return nullptr;
    if (++g->granules > kCells * 3 / 4) stop(4, "limit", "shadow memory exhausted");
    g_cells[g_ncells].key = granule;
    g_index[h] = ++g_ncells;
    return &g_cells[g_ncells - 1];
  }
  stop(4, "limit", "shadow memory exhausted");
}
std::string symb(const void* pc) {
  Dl_info i;
  char b[300];
  if (dladdr(pc, &i) && i.dli_fname) snprintf(b, sizeof b, "%s+%#lx", i.dli_fname, (unsigned long)((uintptr_t)pc - (uintptr_t)i.dli_fbase));
  else snprintf(b, sizeof b, "%p", pc);
  return b;
}
void access1(uintptr_t granule, uint8_t mask, bool wr, bool atomic, const void* pc) {
  Cell* c = cell(granule, true);
  if (c->freed & mask) stop(2, "use-after-free", "access to freed memory at " + symb(pc) + " by T" + std::to_string(self->id));
  int me = self->id;
  uint32_t clk = self->vc.c[me];
  int k = 0;
  for (int i = 0; i < c->n; ++i) {
    Acc& a = c->a[i];
    bool drop = false;
    if (a.mask & mask) {
      if (a.tid != me) {
        bool hb = a.clk <= self->vc.c[a.tid];
        if ((wr || a.wr) && !(atomic && a.atomic) && !hb && g_opt.races)
          stop(2, "data-race", std::string(a.wr ? "write" : "read") + " at " + symb(a.pc) + " by T" + std::to_string(a.tid) + " and " + (wr ? "write" : "read") + " at " + symb(pc) + " by T" +
                                   std::to_string(me) + " are not ordered");
        // an earlier access that this write supersedes for everybody who is ordered after it
        if (hb && wr && !atomic && (a.mask & ~mask) == 0) drop = true;
      } else if ((a.mask & ~mask) == 0 && (wr || !a.wr) && a.atomic == atomic) drop = true;
    }
    if (!drop) c->a[k++] = a;
  }
  if (k == 10) { for (int i = 1; i < k; ++i) c->a[i - 1] = c->a[i]; --k; }
  c->a[k++] = Acc{clk, (uint8_t)me, mask, wr, atomic, pc};
  c->n = k;
}
void access(const void* p, size_t n, bool wr, bool atomic, const void* pc) {
  if (!on() || untracked || n == 0) return;
  Rt r;
  uintptr_t a = (uintptr_t)p, e = a + n;
  if ((char*)p >= self->stack_lo && (char*)p < self->stack_hi && g_nthreads == 1) return;
  while (a < e) {
    uintptr_t gr = a & ~7ull;
    uintptr_t hi = std::min(e, gr + 8);
    uint8_t mask = (uint8_t)(((1u << (hi - gr)) - 1) & ~((1u << (a - gr)) - 1));
    access1(gr, mask, wr, atomic, pc);
    a = hi;
  }
}
void clearRange(uintptr_t a, size_t n, bool freed) {
  uintptr_t e = a + n;
  for (uintptr_t gr = a & ~7ull; gr < e; gr += 8) {
    Cell* c = cell(gr, freed);
    if (c) { c->n = 0; c->freed = freed ? 0xff : 0; }
  }
  g_objs->erase(g_objs->lower_bound(a), g_objs->lower_bound(e));
  g_atom->erase(g_atom->lower_bound(a & ~7ull), g_atom->lower_bound(e));
}

// ---- memory ---------------------------------------------------------------------------------------------------
char* g_arena; size_t g_arena_size = 256u << 20, g_arena_used = 0;
struct Hdr { uint64_t size, cls; };
void* g_free[64];
bool inArena(void* p) { return g_arena && (char*)p >= g_arena && (char*)p < g_arena + g_arena_size; }
void* doNew(size_t n, size_t align) {
  if (!on()) { void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  Rt r;
  size_t c = ((n ? n : 1) + 15) / 16 * 16;
  int cls = c / 16 < 64 ? c / 16 : 0;
  if (g_opt.reuse && cls && g_free[cls] && align <= 16) {
    void* p = g_free[cls];
    g_free[cls] = *(void**)p;
    ((Hdr*)p - 1)->size = n;
    clearRange((uintptr_t)p, c, false);
    return p;
  }
  size_t at = (g_arena_used + 16 + align - 1) / align * align;
  if (at + c > g_arena_size) stop(4, "limit", "memory of the execution exhausted");
  g_arena_used = at + c;
  Hdr* h = (Hdr*)(g_arena + at) - 1;
  h->size = n; h->cls = cls;
  return h + 1;
}
void doDelete(void* p, const void* pc) {
  if (!p) return;
  if (!inArena(p)) { free(p); return; }
  if (!g_active || !self) return;
  Hdr* h = (Hdr*)p - 1;
  size_t n = h->size;
  if (!in_rt) access(p, n, true, false, pc);
  Rt r;
  size_t c = ((n ? n : 1) + 15) / 16 * 16;
  if (g_opt.reuse) {
    clearRange((uintptr_t)p, c, false);
    if (h->cls) { *(void**)p = g_free[h->cls]; g_free[h->cls] = p; }
  } else {
    clearRange((uintptr_t)p, c, true);
    memset(p, 0xDD, n);
  }
}

void* threadMain(void* a) {
  Thread* t = (Thread*)a;
  sem_wait_(t);
  ++in_rt;
  pthread_attr_t at_;
  if (pthread_getattr_np(pthread_self(), &at_) == 0) {
    void* lo; size_t sz;
    pthread_attr_getstack(&at_, &lo, &sz);
    t->stack_lo = (char*)lo; t->stack_hi = (char*)lo + sz;
    pthread_attr_destroy(&at_);
    // what ran on this stack before has ended
    for (size_t k = 0; k < g_ncells; ++k) { Cell& c = g_cells[k]; if (c.key >= (uintptr_t)lo && c.key < (uintptr_t)lo + sz) { c.n = 0; c.freed = 0; } }
  }
  self = t;
  t->op = RUN; t->obj = nullptr;
  --in_rt;
  void* ret = t->fn(t->arg);
  ++in_rt;
  t->finished = true;
  t->op = DONE;
  pick();
  self = nullptr;
  --in_rt;
  return ret;
}
}  // namespace

// ---- pthread interposition --------------------------------------------------------------------------------------
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept {
  resolve();
  if (!on()) return r_pthread_create(th, attr, fn, arg);
  Rt r;
  if (g_nthreads >= kMaxT) stop(4, "limit", "too many threads");
  Thread& t = g_threads[g_nthreads];
  t = Thread();
  t.id = g_nthreads;
  t.fn = fn; t.arg = arg;
  t.op = START;
  t.vc = self->vc;
  t.vc.c[t.id] = 1;
  ++self->vc.c[self->id];
  ++g_nthreads;
  int e = r_pthread_create(&t.real, attr, threadMain, &t);
  if (e) { --g_nthreads; return e; }
  *th = t.real;
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  resolve();
  if (!on()) return r_pthread_join(th, ret);
  {
    Rt r;
    Thread* t = nullptr;
    for (int i = 0; i < g_nthreads; ++i) if (g_threads[i].real == th && &g_threads[i] != self) t = &g_threads[i];
    if (!t) return r_pthread_join(th, ret);
    self->join_target = t;
    at(JOIN, nullptr);
    self->vc.join(t->vc);
    t->real = 0;
  }
  return r_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) noexcept { resolve(); return r_pthread_detach(th); }

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  resolve();
  if (!on()) return r_pthread_mutex_lock(m);
  Rt r;
  at(LOCK, m);
  auto& o = obj(m);
  o.owner = self->id; ++o.depth;
  acq(o);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  resolve();
  if (!on()) return r_pthread_mutex_trylock(m);
  Rt r;
  at(POINT, m);
  auto& o = obj(m);
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (o.owner >= 0 && !(rec && o.owner == self->id)) return EBUSY;
  o.owner = self->id; ++o.depth;
  acq(o);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  resolve();
  if (!on()) return r_pthread_mutex_unlock(m);
  Rt r;
  auto& o = obj(m);
  if (o.owner != self->id) stop(2, "bad-unlock", "unlock of a mutex the thread does not hold; " + describeThreads());
  if (--o.depth == 0) { o.owner = -1; rel(o.vc); }
  return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* until) {
  Rt r;
  auto& mo = obj(m);
  if (mo.owner != self->id) stop(2, "bad-unlock", "condition wait without holding the mutex");
  int depth = mo.depth;
  mo.depth = 0; mo.owner = -1;
  rel(mo.vc);
  obj(c).waiters.push_back(self->id);
  self->timed = until; self->timedout = false;
  if (until) { uint64_t t = (uint64_t)until->tv_sec * 1000000000ull + until->tv_nsec; self->deadline = t > kEpoch + g_now ? t - kEpoch : g_now; self->seq = ++g_seq; }
  self->after_cond_mutex = m;
  at(COND, c);  // the waker turns the pending operation into taking the mutex
  auto& mo2 = obj(m);
  mo2.owner = self->id; mo2.depth = depth;
  acq(mo2);
  self->timed = false;
  return self->timedout ? ETIMEDOUT : 0;
}
static void doze(uint64_t ns) { Rt r; self->deadline = g_now + ns + 1000; self->seq = ++g_seq; at(YIELD, nullptr); }
static uint64_t nsOf(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
int clock_gettime(clockid_t k, struct timespec* t) noexcept {
  resolve();
  if (!on()) return r_clock_gettime(k, t);
  uint64_t n = kEpoch + g_now;
  t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull;
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { resolve(); return on() ? condWait(c, m, nullptr) : r_pthread_cond_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { resolve(); return on() ? condWait(c, m, t) : r_pthread_cond_timedwait(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { resolve(); return on() ? condWait(c, m, t) : r_pthread_cond_clockwait(c, m, k, t); }
static void wake(Thread& t) { t.op = LOCK; t.obj = t.after_cond_mutex; }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  resolve();
  if (!on()) return r_pthread_cond_signal(c);
  Rt r;
  at(SIGNAL, c);
  auto& w = obj(c).waiters;
  if (w.empty()) return 0;
  uint8_t cost[kMaxT] = {0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
  int k = take((int)w.size(), cost);
  Thread& t = g_threads[w[k]];
  w.erase(w.begin() + k);
  wake(t);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  resolve();
  if (!on()) return r_pthread_cond_broadcast(c);
  Rt r;
  at(SIGNAL, c);
  auto& w = obj(c).waiters;
  for (int i : w) wake(g_threads[i]);
  w.clear();
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  resolve();
  if (!on()) return r_pthread_rwlock_rdlock(m);
  Rt r;
  at(RDLOCK, m);
  auto& o = obj(m);
  ++o.readers;
  acq(o);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
  resolve();
  if (!on()) return r_pthread_rwlock_wrlock(m);
  Rt r;
  at(WRLOCK, m);
  auto& o = obj(m);
  o.owner = self->id;
  acq(o);
  self->vc.join(o.rvc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
  resolve();
  if (!on()) return r_pthread_rwlock_unlock(m);
  Rt r;
  auto& o = obj(m);
  if (o.owner == self->id) { o.owner = -1; rel(o.vc); }
  else { --o.readers; rel(o.rvc); }
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) { resolve(); if (!on()) return r_nanosleep(a, b); doze(nsOf(a)); return 0; }
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) { resolve(); if (!on()) return r_clock_nanosleep(k, f, a, b); uint64_t n = nsOf(a); doze(f ? (n > kEpoch + g_now ? n - kEpoch - g_now : 0) : n); return 0; }
int usleep(useconds_t u) { resolve(); if (!on()) return r_usleep(u); doze(u * 1000ull); return 0; }
int sched_yield() noexcept { resolve(); if (!on()) return r_sched_yield(); doze(0); return 0; }
int pthread_once(pthread_once_t* c, void (*f)(void)) {
  resolve();
  if (!on()) return r_pthread_once(c, f);
  {
    Rt r;
    at(GUARD, c);
    auto& o = obj(c);
    if (o.init_done) { acq(o); return 0; }
    if (*c & 2) return 0;  // done before the exploration
    o.owner = self->id;
  }
  f();
  Rt r;
  auto& o = obj(c);
  o.owner = -1; o.init_done = true;
  rel(o.vc);
  *c |= 2;
  return 0;
}
int vk_guard_acquire(uint64_t*) __asm__("__cxa_guard_acquire");
void vk_guard_release(uint64_t*) __asm__("__cxa_guard_release");
void vk_guard_abort(uint64_t*) __asm__("__cxa_guard_abort");
int vk_guard_acquire(uint64_t* gd) {
  resolve();
  if (!on()) return r_cxa_guard_acquire(gd);
  Rt r;
  if (*(char*)gd) { acq(obj(gd)); return 0; }
  at(GUARD, gd);
  auto& o = obj(gd);
  acq(o);
  if (*(char*)gd) return 0;
  o.owner = self->id;
  return 1;
}
void vk_guard_release(uint64_t* gd) {
  resolve();
  if (!on()) { r_cxa_guard_release(gd); return; }
  Rt r;
  *(char*)gd = 1;
  auto& o = obj(gd);
  o.owner = -1;
  (*g_atom)[(uintptr_t)gd & ~7ull].join(self->vc);
  rel(o.vc);
}
void vk_guard_abort(uint64_t* gd) {
  resolve();
  if (!on()) { r_cxa_guard_abort(gd); return; }
  Rt r;
  obj(gd).owner = -1;
}

// ---- instrumentation entry points -----------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { access(p, N, false, false, PC); } \
  void __tsan_write##N(void* p) { access(p, N, true, false, PC); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, false, PC); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, false, PC); } \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, false, PC); } \
  void __tsan_read_write##N(void* p) { access(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false, PC); else access(p, 8, false, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }

static void atomicBefore(const void* p, size_t n, int mo, bool ld, bool st, const void* pc) {
  if (!on()) return;
  if (mo == __ATOMIC_SEQ_CST && g_nthreads > 1) { Rt r; at(ATOMIC, p); }
  access(p, n, st, true, pc);
  Rt r;
  auto& v = (*g_atom)[(uintptr_t)p & ~7ull];
  if (ld && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) self->vc.join(v);
  if (st && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) rel(v);
}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) { atomicBefore((const void*)p, sizeof(T), mo, true, false, PC); return *p; } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { atomicBefore((const void*)p, sizeof(T), mo, false, true, PC); *p = v; } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int) { atomicBefore((const void*)p, sizeof(T), mo, true, true, PC); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static VC g_fence;
void __tsan_atomic_thread_fence(int) { if (on()) { self->vc.join(g_fence); rel(g_fence); } }
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, false, PC); return __real_memset(d, c, n); }
}  // extern "C"

void* operator new(size_t n) { return doNew(n, 16); }
void* operator new[](size_t n) { return doNew(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return doNew(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return doNew(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return doNew(n, std::max<size_t>(16, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return doNew(n, std::max<size_t>(16, (size_t)a)); }
void operator delete(void* p) noexcept { doDelete(p, PC); }
void operator delete[](void* p) noexcept { doDelete(p, PC); }
void operator delete(void* p, size_t) noexcept { doDelete(p, PC); }
void operator delete[](void* p, size_t) noexcept { doDelete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doDelete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { doDelete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { doDelete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { doDelete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { doDelete(p, PC); }

namespace mc {
bool active() { return g_active && self; }
void fail(const std::string& what, const std::string& msg) {
  Rt r;
  stop(2, what.c_str(), msg);
}
void observe(uint64_t v) { Rt r; g->observed = vk::mix(g->observed, v); }
int choose(int n, int cost) {
  Rt r;
  uint8_t c[14];
  for (int i = 0; i < 14; ++i) c[i] = i ? cost : 0;
  return take(n, c);
}
void point() { if (!on()) return; Rt r; at(POINT, nullptr); }
void untracked_begin() { ++untracked; }
void untracked_end() { --untracked; }

namespace {
struct Result { int status; bool crashed, hung; std::string how; };

void runChild(const Options& o, const std::function<void()>& body) {
  struct itimerval z{};
  setitimer(ITIMER_REAL, &z, nullptr); setitimer(ITIMER_PROF, &z, nullptr);
  signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_IGN);
  int dn = open("/dev/null", O_WRONLY);
  if (!g->verbose) dup2(dn, 2);
  dup2(dn, 1);
  ++in_rt;
  g_objs = new std::map<uintptr_t, Obj>();
  g_atom = new std::map<uintptr_t, VC>();
  g_opt = o;
  g_threads[0] = Thread();
  g_nthreads = 1;
  self = &g_threads[0];
  self->vc.c[0] = 1;
  char here;
  self->stack_hi = &here + 65536; self->stack_lo = &here - (8 << 20);
  g_active = true;
  --in_rt;
  try { body(); }
  catch (const std::exception& e) { fail("exception", std::string("exception escaped: ") + e.what()); }
  catch (...) { fail("exception", "exception escaped"); }
  ++in_rt;
  if (!o.leftover_ok)
    for (int i = 1; i < g_nthreads; ++i)
      if (!g_threads[i].finished) stop(2, "thread-left", "a thread is still alive at the end: " + describeThreads());
  if (g->nprefix > g->npoints) stop(3, "diverged", "execution shorter than the replayed prefix");
  g->status = 1;
  _exit(0);
}

Result runOnce(const Options& o, const std::function<void()>& body, const std::vector<uint16_t>& prefix, bool verbose, int limit_s) {
  memset(g, 0, offsetof(Shared, prefix));
  g->npoints = 0; g->steps = g->switches = g->observed = g->tracehash = g->granules = 0;
  g->status = 0; g->what[0] = g->msg[0] = 0; g->nlog = 0; g->log[0] = 0;
  g->verbose = verbose;
  g->nprefix = prefix.size();
  memcpy(g->prefix, prefix.data(), prefix.size() * 2);
  pid_t p = fork();
  if (p == 0) { alarm(limit_s); runChild(o, body); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Result r{g->status, false, false, ""};
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGALRM) r.hung = true; else r.crashed = true;
    r.how = std::string("signal ") + std::to_string(WTERMSIG(st));
  } else if (WEXITSTATUS(st) != 0 || g->status == 0) { r.crashed = true; r.how = "exit " + std::to_string(WEXITSTATUS(st)); }
  return r;
}
std::string resolveSyms(std::string msg) {
  // path+0xoff -> function (file:line)
  std::string out;
  size_t i = 0;
  while (i < msg.size()) {
    size_t k = msg.find("+0x", i);
    if (k == std::string::npos) { out += msg.substr(i); break; }
    size_t b = msg.rfind(' ', k);
    b = b == std::string::npos || b < i ? i : b + 1;
    size_t e = k + 3;
    while (e < msg.size() && isxdigit(msg[e])) ++e;
    out += msg.substr(i, b - i);
    std::string cmd = "addr2line -Cfpe '" + msg.substr(b, k - b) + "' " + msg.substr(k + 1, e - k - 1) + " 2>/dev/null";
    std::string res;
    if (FILE* f = popen(cmd.c_str(), "r")) { char buf[600]; if (fgets(buf, sizeof buf, f)) res = buf; pclose(f); }
    while (!res.empty() && (res.back() == '\n' || res.back() == '\r')) res.pop_back();
    if (res.size() > 220) res = res.substr(0, 100) + "..." + res.substr(res.size() - 110);
    out += res.empty() ? msg.substr(b, e - b) : res;
    i = e;
  }
  return out;
}
}  // namespace

void explore(vk::Run& r, const std::string& key, const std::string& desc, const Options& o, const std::function<void()>& body) {
  if (!g) {
    g = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_cells = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_index = static_cast<uint32_t*>(mmap(nullptr, 4 * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_arena = static_cast<char*>(mmap((void*)0x600000000000ull, g_arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  auto costAt = [](const Point& p, int alt) { return (int)p.cost[std::min(alt, 13)]; };
  bool reported = false;
  // one execution; false: it ended in a violation
  auto one = [&](const std::vector<uint16_t>& prefix, bool mine) -> bool {
    Result res = runOnce(o, body, prefix, false, 20);
    if (res.hung) res = runOnce(o, body, prefix, false, 90);
    if (mine) {
      r.trace(); r.transition(g->steps);
      r.count("executions");
      uint64_t h = vk::hashStr(key + desc);
      for (uint32_t i = 0; i < g->npoints; ++i) { h = vk::mix(h, g->pts[i].chosen * 16 + g->pts[i].n); if (i >= prefix.size() || i + 1 == prefix.size()) r.state(h); }
      if (g->switches > 0 && r.outcomes.size() < 3000000) r.outcomes.insert(vk::mix(vk::hashStr(desc), vk::mix(g->tracehash, g->observed)));
    }
    if (res.status == 1 && !res.crashed && !res.hung) return true;
    if (res.status == 3 || res.status == 4) {
      if (mine) r.count(res.status == 3 ? "diverged" : "limit_hit");
      fprintf(stderr, "mc: %s: %s\n", g->what, g->msg);
      return true;
    }
    if (!mine || reported) return false;
    std::string what = res.hung ? "hang" : res.crashed ? "crash" : g->what, msg = res.hung || res.crashed ? res.how : g->msg;
    std::vector<uint16_t> full;
    for (uint32_t i = 0; i < g->npoints; ++i) full.push_back(g->pts[i].chosen);
    while (!full.empty() && full.back() == 0) full.pop_back();
    // the same schedule again, twice
    int same = 0;
    for (int k = 0; k < 2; ++k) {
      Result r2 = runOnce(o, body, full, true, 90);
      std::string w2 = r2.hung ? "hang" : r2.crashed ? "crash" : (g->status == 2 ? g->what : "");
      same += w2 == what;
    }
    if (same < 2) { r.count("not_reproduced"); fprintf(stderr, "mc: not reproduced: %s %s\n", what.c_str(), msg.c_str()); return true; }
    std::string log = g->log;
    if (log.size() > 900) log = log.substr(0, 300) + " ... " + log.substr(log.size() - 550);
    reported = true;
    r.fail(key + "/" + what, resolveSyms(msg) + " || schedule choices " + vk::strv(full) + " || " + log);
    return false;
  };
  // the default schedule
  std::vector<uint16_t> none;
  bool owner = r.next();
  if (owner) r.desc([=] { return desc + ", default schedule"; });
  if (!one(none, owner)) return;
  if (owner) { r.nontrivial(g->npoints > 0); r.see(g->tracehash); }
  if (owner) r.count("choice_points_of_the_default_schedule", g->npoints);
  std::vector<Point> root(g->pts, g->pts + g->npoints);
  for (size_t i = 0; i < root.size(); ++i)
    for (int alt = 1; alt < root[i].n; ++alt) {
      if (costAt(root[i], alt) > o.preemptions) continue;
      if (!r.next()) continue;
      r.desc([=] { return desc + ", all schedules whose first deviation is choice " + std::to_string(alt) + " at point " + std::to_string(i); });
      struct Node { std::vector<uint16_t> prefix; int cost; };
      std::vector<Node> stack;
      std::vector<uint16_t> p(i + 1, 0);
      p[i] = alt;
      stack.push_back({p, costAt(root[i], alt)});
      uint64_t n = 0;
      while (!stack.empty() && !reported) {
        Node nd = std::move(stack.back());
        stack.pop_back();
        if (o.max_exec && n >= o.max_exec) { r.count("capped_branches"); break; }
        ++n;
        if (!one(nd.prefix, true)) break;
        r.nontrivial(g->switches > 0);
        r.see(vk::mix(g->tracehash, g->observed));
        uint32_t np = g->npoints;
        std::vector<uint16_t> full(np);
        std::vector<Point> pts(g->pts, g->pts + np);
        for (uint32_t k = 0; k < np; ++k) full[k] = pts[k].chosen;
        // later points first on the stack end up explored last; the order only matters for which violation comes first
        for (uint32_t k = np; k-- > nd.prefix.size();)
          for (int a = pts[k].n - 1; a >= 1; --a) {
            int c = nd.cost + costAt(pts[k], a);
            if (c > o.preemptions) continue;
            std::vector<uint16_t> q(full.begin(), full.begin() + k);
            q.push_back(a);
            stack.push_back({std::move(q), c});
          }
      }
      r.evaluations += n ? n - 1 : 0;
      if (reported) return;
    }
}
}  // namespace mc
