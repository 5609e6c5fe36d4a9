// A small stateless model checker for real threads.  The code under test is compiled with
// -fsanitize=thread, but linked against this file instead of the TSan runtime: every memory access,
// atomic operation, static-initialisation guard, mutex and once call of the instrumented code arrives
// here.  Exactly one thread runs at a time; at scheduling points the explorer decides who runs next.
// Each execution happens in a forked child, so that "first use in the process" is explored as well.
// Data races are decided by happens-before (vector clocks) in every explored execution.
#include "rt.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <new>
#include <string>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <vector>

typedef uintptr_t uptr;
static const int MAXT = 5;            // 0 = main, 1..4 = scenario threads
struct VC { uint32_t c[MAXT]; };
static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
// ---- state of one execution (child process) -----------------------------------------------
static __thread int t_id = 0; static __thread bool t_in = false; static __thread uptr t_lo = 0, t_hi = 0;
static VC g_vc[MAXT]; static bool g_active = false; static int g_n = 0, g_mode = 0, g_bound = 0;
static sem_t g_sem[MAXT], g_ctl;
enum St { RUN, OPPT, SYNC, BLOCKED, DONE };
static volatile St g_st[MAXT]; static const void* volatile g_blockedOn[MAXT];
struct Choice { uint8_t enabled, chosen, prev, kind; };
struct Shared { uint32_t n; uint32_t over; uint64_t accesses, syncs, granules; uint32_t failed, finished; char why[512]; Choice ch[20000]; };
static Shared* g_sh;
extern "C" void mc_fail(const char* why) { if (g_sh && !g_sh->failed) { snprintf(g_sh->why, sizeof g_sh->why, "%s", why); g_sh->failed = 1; } }

// ---- allocation: never reuse memory within an execution (reuse would look like communication) ----
static char* g_arena = nullptr; static size_t g_used = 0; static const size_t ARENA = size_t(1) << 30;
static void* arenaAlloc(size_t n) {
  if (!g_arena) { g_arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_arena == MAP_FAILED) abort(); }
  size_t p = __atomic_fetch_add(&g_used, (n + 31) & ~size_t(15), __ATOMIC_SEQ_CST); if (p + n > ARENA) abort(); return g_arena + p;
}
void* operator new(size_t n) { return arenaAlloc(n); }
void* operator new[](size_t n) { return arenaAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return arenaAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return arenaAlloc(n); }
void operator delete(void*) noexcept {}
void operator delete[](void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
void operator delete[](void*, size_t) noexcept {}

// ---- access history: open addressing, per 8-byte granule ------------------------------------
struct Cell { uptr key; uint32_t w[MAXT]; uint32_t r[MAXT]; uint8_t wm[MAXT], rm[MAXT]; uint8_t aw[MAXT], ar[MAXT]; };
static Cell* g_cells = nullptr; static const size_t NC = size_t(1) << 20;
static Cell& cell(uptr k) {
  if (!g_cells) { g_cells = (Cell*)mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_cells == MAP_FAILED) abort(); }
  size_t i = (k * 0x9E3779B97F4A7C15ull) >> 44; i &= NC - 1;
  while (g_cells[i].key && g_cells[i].key != k) i = (i + 1) & (NC - 1);
  if (!g_cells[i].key) { g_cells[i].key = k; if (++g_sh->granules > NC / 2) abort(); }
  return g_cells[i];
}
static void race(uptr a, bool w, bool otherW, int o, const void* pc) {
  char b[300]; const char* where = (g_arena && a >= (uptr)g_arena && a < (uptr)g_arena + ARENA) ? "heap" : "global or stack";
  snprintf(b, sizeof b, "data race on %s memory: thread %d %s after thread %d %s without synchronisation (code +0x%lx)", where, t_id, w ? "writes" : "reads", o, otherW ? "wrote" : "read", (unsigned long)((uptr)pc - (uptr)&mc_fail));
  mc_fail(b);
}
static void access1(uptr k, uint8_t mask, bool w, bool atomic, const void* pc) {
  Cell& c = cell(k); const VC& me = g_vc[t_id];
  for (int o = 0; o < MAXT; ++o) if (o != t_id) {
    if ((c.wm[o] & mask) && c.w[o] > me.c[o] && !(atomic && c.aw[o])) race(k * 8, w, true, o, pc);
    if (w && (c.rm[o] & mask) && c.r[o] > me.c[o] && !(atomic && c.ar[o])) race(k * 8, w, false, o, pc);
  }
  if (w) { c.w[t_id] = me.c[t_id]; c.wm[t_id] |= mask; c.aw[t_id] = atomic; } else { c.r[t_id] = me.c[t_id]; c.rm[t_id] |= mask; c.ar[t_id] = atomic; }
}
static inline void accessN(const void* p, size_t n, bool w, bool atomic, const void* pc) {
  if (!g_active || t_in || !n) return;
  uptr a = (uptr)p; if (a >= t_lo && a < t_hi) return;           // own stack: its address is not shared
  t_in = true; ++g_sh->accesses;
  while (n) { uptr k = a >> 3; size_t o = a & 7, m = 8 - o < n ? 8 - o : n; access1(k, uint8_t(((1u << m) - 1) << o), w, atomic, pc); a += m; n -= m; }
  t_in = false;
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { accessN(p, n, false, false, PC); } void __tsan_write##n(void* p) { accessN(p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { accessN(p, n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { accessN(p, n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { accessN(p, n, true, false, PC); } void __tsan_unaligned_read_write##n(void* p) { accessN(p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { accessN(p, n, false, false, PC); } void __tsan_volatile_write##n(void* p) { accessN(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { accessN(p, 8, false, false, PC); } void __tsan_vptr_update(void** p, void*) { accessN(p, 8, true, false, PC); }
void __tsan_read_range(void* p, size_t n) { accessN(p, n, false, false, PC); } void __tsan_write_range(void* p, size_t n) { accessN(p, n, true, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { accessN(s, n, false, false, PC); accessN(d, n, true, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { accessN(s, n, false, false, PC); accessN(d, n, true, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { accessN(d, n, true, false, PC); return memset(d, c, n); }
}
// ---- scheduling ---------------------------------------------------------------------------
static void yieldTo(St s, const void* on) { g_st[t_id] = s; g_blockedOn[t_id] = on; sem_post(&g_ctl); while (sem_wait(&g_sem[t_id]) && errno == EINTR) {} g_st[t_id] = RUN; }
extern "C" void mc_op_point() { if (g_active && t_id) yieldTo(OPPT, nullptr); }
static void syncPoint() { if (g_active && t_id && !t_in) { ++g_sh->syncs; yieldTo(SYNC, nullptr); } }
// synchronisation objects: clock per address
struct SyncObj { uptr key; VC rel; int owner; int state; }; static SyncObj g_sync[4096]; static int g_nsync = 0;
static SyncObj& sob(const void* p) { for (int i = 0; i < g_nsync; ++i) if (g_sync[i].key == (uptr)p) return g_sync[i]; if (g_nsync == 4096) abort(); SyncObj& s = g_sync[g_nsync++]; memset(&s, 0, sizeof s); s.key = (uptr)p; s.owner = -1; return s; }
static void acquire(const void* p) { join(g_vc[t_id], sob(p).rel); }
static void release(const void* p) { join(sob(p).rel, g_vc[t_id]); ++g_vc[t_id].c[t_id]; }
static void wake(const void* p) { for (int i = 1; i <= g_n; ++i) if (g_st[i] == BLOCKED && g_blockedOn[i] == p) g_st[i] = SYNC; }
extern "C" {
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (!g_active) return __real___cxa_guard_acquire(g);
  syncPoint(); SyncObj& s = sob(g);
  if (*(volatile uint8_t*)g) { acquire(g); return 0; }
  while (s.owner >= 0 && s.owner != t_id) { yieldTo(BLOCKED, g); if (*(volatile uint8_t*)g) { acquire(g); return 0; } }
  s.owner = t_id; acquire(g); return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) { if (!g_active) return __real___cxa_guard_release(g); *(volatile uint8_t*)g = 1; SyncObj& s = sob(g); s.owner = -1; release(g); wake(g); }
void __wrap___cxa_guard_abort(uint64_t* g) { if (!g_active) return __real___cxa_guard_abort(g); SyncObj& s = sob(g); s.owner = -1; wake(g); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!g_active || !t_id) return __real_pthread_mutex_lock(m); syncPoint(); SyncObj& s = sob(m); while (s.owner >= 0 && s.owner != t_id) yieldTo(BLOCKED, m); s.owner = t_id; ++s.state; acquire(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!g_active || !t_id) return __real_pthread_mutex_trylock(m); syncPoint(); SyncObj& s = sob(m); if (s.owner >= 0) return EBUSY; s.owner = t_id; ++s.state; acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!g_active || !t_id) return __real_pthread_mutex_unlock(m); SyncObj& s = sob(m); if (--s.state == 0) { s.owner = -1; release(m); wake(m); } return 0; }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
static int rwLock(pthread_rwlock_t* m) { syncPoint(); SyncObj& s = sob(m); while (s.owner >= 0 && s.owner != t_id) yieldTo(BLOCKED, m); s.owner = t_id; ++s.state; acquire(m); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return !g_active || !t_id ? __real_pthread_rwlock_rdlock(m) : rwLock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return !g_active || !t_id ? __real_pthread_rwlock_wrlock(m) : rwLock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!g_active || !t_id) return __real_pthread_rwlock_unlock(m); SyncObj& s = sob(m); if (--s.state == 0) { s.owner = -1; release(m); wake(m); } return 0; }
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { if (!g_active || !t_id) return __real_pthread_once(o, f); syncPoint(); SyncObj& s = sob(o); while (s.state != 2 && s.owner >= 0 && s.owner != t_id) yieldTo(BLOCKED, o); if (s.state == 2) { acquire(o); return 0; } s.owner = t_id; f(); s.owner = -1; s.state = 2; release(o); wake(o); return 0; }
// atomics: sequentially consistent interleavings; acquire/release edges according to the order given
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; } static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void atB(const void* p, size_t n, bool w, int mo, bool isRead) { if (!g_active || !t_id) return; syncPoint(); accessN(p, n, w, true, nullptr); if (isRead && acq(mo)) acquire(p); if (w && rel(mo)) release(p); }
typedef unsigned __int128 u128t;
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T* p, int mo) { atB((const void*)p, sizeof(T), false, mo, true); return *p; } \
 void __tsan_atomic##b##_store(volatile T* p, T v, int mo) { atB((const void*)p, sizeof(T), true, mo, false); *p = v; } \
 T __tsan_atomic##b##_exchange(volatile T* p, T v, int mo) { atB((const void*)p, sizeof(T), true, mo, true); T o = *p; *p = v; return o; } \
 T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int mo) { atB((const void*)p, sizeof(T), true, mo, true); T o = *p; *p = T(o + v); return o; } \
 T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int mo) { atB((const void*)p, sizeof(T), true, mo, true); T o = *p; *p = T(o - v); return o; } \
 T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int mo) { atB((const void*)p, sizeof(T), true, mo, true); T o = *p; *p = T(o & v); return o; } \
 T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int mo) { atB((const void*)p, sizeof(T), true, mo, true); T o = *p; *p = T(o | v); return o; } \
 T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int mo) { atB((const void*)p, sizeof(T), true, mo, true); T o = *p; *p = T(o ^ v); return o; } \
 T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int mo) { atB((const void*)p, sizeof(T), true, mo, true); T o = *p; *p = T(~(o & v)); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { atB((const void*)p, sizeof(T), true, mo, true); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, mo, f); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f) { __tsan_atomic##b##_compare_exchange_strong(p, &e, v, mo, f); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128t)
void __tsan_atomic_thread_fence(int) { if (g_active && t_id) { static int fence; syncPoint(); acquire(&fence); release(&fence); } }
void __tsan_atomic_signal_fence(int) {}
}
// ---- one execution (in the child) ------------------------------------------------------------
static const McScenario* g_sc;
static void* threadMain(void* a) {
  t_id = int((uptr)a);
  pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); t_lo = (uptr)lo; t_hi = t_lo + sz; pthread_attr_destroy(&at);
  while (sem_wait(&g_sem[t_id]) && errno == EINTR) {}
  g_st[t_id] = RUN; g_sc->body(t_id - 1);
  g_st[t_id] = DONE; sem_post(&g_ctl); return nullptr;
}
static void runOnce(const McScenario& s, const std::vector<uint8_t>& prefix) {
  g_sc = &s; g_n = s.threads;
  s.setup();
  for (int i = 0; i < MAXT; ++i) { g_vc[i].c[i] = 1; sem_init(&g_sem[i], 0, 0); } sem_init(&g_ctl, 0, 0);
  for (int i = 1; i <= g_n; ++i) { g_vc[i].c[0] = 1; g_st[i] = OPPT; } g_vc[0].c[0] = 2;
  pthread_t th[MAXT]; for (int i = 1; i <= g_n; ++i) pthread_create(&th[i], nullptr, threadMain, (void*)(uptr)i);
  g_active = true; int prev = 0, spins = 0; size_t k = 0;
  for (;;) {
    uint8_t en = 0; int live = 0; for (int i = 1; i <= g_n; ++i) { if (g_st[i] != DONE) ++live; if (g_st[i] == OPPT || g_st[i] == SYNC) en |= uint8_t(1 << i); }
    if (!live) break;
    if (!en) { mc_fail("deadlock"); break; }
    int pick; const bool prevOk = prev && (en >> prev & 1);
    const bool choice = __builtin_popcount(en) > 1 && !(g_mode == 0 && prevOk && g_st[prev] == SYNC);
    // a thread that keeps synchronising may be waiting for another one: let the next one run
    if (prevOk && g_st[prev] == SYNC) ++spins; else spins = 0;
    if (spins > 500 && __builtin_popcount(en) > 1) { spins = 0; pick = prev; do pick = pick % g_n + 1; while (!(en >> pick & 1)); }
    else if (!choice) pick = prevOk ? prev : __builtin_ctz(en);
    else {
      pick = k < prefix.size() ? prefix[k] : prevOk ? prev : __builtin_ctz(en);
      if (!(en >> pick & 1)) { mc_fail("replay diverged"); break; }
      if (g_sh->n < 20000) g_sh->ch[g_sh->n++] = Choice{en, uint8_t(pick), uint8_t(prevOk ? prev : 0), uint8_t(prevOk ? g_st[prev] : 0)}; else { g_sh->over = 1; }
      ++k;
    }
    prev = pick; sem_post(&g_sem[pick]); while (sem_wait(&g_ctl) && errno == EINTR) {}
  }
  g_active = false; s.check(); g_sh->finished = 1;
}
int mc_explore(const char* name, const McScenario& s, int mode, int bound, long cap, const char* replay) {
  if (!g_sh) g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_mode = mode; g_bound = bound; int fails = 0; long execs = 0; uint64_t acc = 0, syn = 0, gr = 0; bool complete = true;
  std::vector<uint8_t> prefix; if (replay) for (const char* c = replay; *c; ++c) prefix.push_back(uint8_t(*c - '0'));
  for (;;) {
    memset((void*)g_sh, 0, offsetof(Shared, ch)); fflush(stdout);
    pid_t pid = fork(); if (pid < 0) { printf("cannot fork\n"); return 3; }
    if (pid == 0) { alarm(30); runOnce(s, prefix); _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    ++execs; acc += g_sh->accesses; syn += g_sh->syncs; if (g_sh->granules > gr) gr = g_sh->granules;
    std::string sched; for (uint32_t i = 0; i < g_sh->n && i < 400; ++i) sched += char('0' + g_sh->ch[i].chosen);
    if (g_sh->failed || !g_sh->finished) { ++fails; printf("FAIL %s mode=%d sched=%s | %s%s\n", name, mode, sched.c_str(), g_sh->failed ? g_sh->why : "crashed", ""); if (fails > 3) break; }
    if (replay) break;
    if (g_sh->over) complete = false;
    // next unexplored prefix: deepest choice with an untried alternative within the preemption bound
    std::vector<Choice> tr(g_sh->ch, g_sh->ch + g_sh->n); bool found = false;
    for (size_t i = tr.size(); i-- > 0 && !found;) {
      int used = 0; for (size_t j = 0; j < i; ++j) if (tr[j].prev && tr[j].chosen != tr[j].prev) ++used;
      // alternatives are tried in a fixed order: the default first, then increasing ids
      auto order = [&](const Choice& c) { std::vector<int> o; int d = c.prev ? c.prev : __builtin_ctz(c.enabled); o.push_back(d); for (int t = 1; t < MAXT; ++t) if (t != d && (c.enabled >> t & 1)) o.push_back(t); return o; };
      auto o = order(tr[i]); size_t pos = 0; while (o[pos] != tr[i].chosen) ++pos;
      if (pos + 1 < o.size()) {
        if (mode == 1 && tr[i].prev && used + 1 > bound) continue;
        prefix.clear(); for (size_t j = 0; j < i; ++j) prefix.push_back(tr[j].chosen); prefix.push_back(uint8_t(o[pos + 1])); found = true;
      }
    }
    if (!found) break;
    if (execs >= cap) { complete = false; break; }
  }
  printf("STAT schedules %ld\nSTAT accesses_monitored %llu\nSTAT sync_operations %llu\nMAX shared_granules %llu\nSTAT %s 1\n", execs, (unsigned long long)acc, (unsigned long long)syn, (unsigned long long)gr, complete ? "scenarios_exhausted" : "scenarios_capped");
  fflush(stdout); return fails ? 1 : 0;
}
