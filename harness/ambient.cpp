// C22: the family of histories of cfg.cpp under every combination of ambient process state (each in a process in which
// the class was never used before), in static destruction, and with objects that move from thread to thread.
#define CFG_NO_MAIN 1
#include "cfg.cpp"
#include "common.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <locale>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sys/wait.h>
#include <xmmintrin.h>
#include <functional>
// freed memory does not keep its content
static volatile bool g_wipe = false;
static void release(void* p) { if (p && g_wipe) { volatile unsigned char* q = static_cast<unsigned char*>(p); const size_t n = malloc_usable_size(p); for (size_t i = 0; i < n; ++i) q[i] = 0xDD; } free(p); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
static std::string* g_out = nullptr;
extern "C" void cfg_out(const char* p, unsigned long n) { if (g_out) g_out->append(p, n); }
static std::string transcript(long dump) { std::string s; g_out = &s; g_group = 0; g_cases = 0; cfg_run(dump, 0); g_out = nullptr; return s; }
struct Grouping : std::numpunct<char> {
  std::string g; explicit Grouping(const std::string& x) : g(x) {}
  char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return g; } char do_decimal_point() const override { return ';'; }
};
struct Ambient { int round, ftz, misc, cpploc, cloc, thr; };
static const int ROUND[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
static const int NAMB = 4 * 2 * 2 * 3 * 2 * 2;
static Ambient ambient(int i) { Ambient a; a.round = i % 4; i /= 4; a.ftz = i % 2; i /= 2; a.misc = i % 2; i /= 2; a.cpploc = i % 3; i /= 3; a.cloc = i % 2; i /= 2; a.thr = i; return a; }
static std::string name(const Ambient& a) {
  static const char* R[] = {"to nearest", "upward", "downward", "toward zero"}; static const char* L[] = {"classic", "every digit grouped", "digits grouped by three"};
  return std::string("rounding ") + R[a.round] + (a.ftz ? ", denormals flushed" : "") + (a.misc ? ", floating point traps, errno set, heap filled" : "") + ", global locale " + L[a.cpploc] + (a.cloc ? ", C.utf8" : "") + (a.thr ? ", in a thread with a stack of 256 KiB" : "");
}
static void enter(const Ambient& a) {
  if (a.cpploc) std::locale::global(std::locale(std::locale::classic(), new Grouping(a.cpploc == 1 ? "\1" : "\3")));
  if (a.cloc) setlocale(LC_ALL, "C.utf8");
  fesetround(ROUND[a.round]);
  if (a.ftz) _mm_setcsr(_mm_getcsr() | 0x8040);
  if (a.misc) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW); mallopt(M_PERTURB, 0x5A); g_wipe = true; errno = ERANGE; }
}
static long g_dumpGroup = -1;
static void* inThread(void* r) { *static_cast<std::string*>(r) = transcript(g_dumpGroup); return nullptr; }
static std::string under(const Ambient& a, long dump) {
  std::string r; enter(a); g_dumpGroup = dump;
  if (!a.thr) return transcript(dump);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 << 10); pthread_t t;
  if (pthread_create(&t, &at, inThread, &r)) return "no thread"; pthread_join(t, nullptr); return r;
}
// in a child; false and a reason when it did not end properly
static bool child(const std::function<std::string()>& f, std::string& out) {
  int fd[2]; if (pipe(fd)) return false; fflush(stdout); pid_t pid = fork();
  if (pid == 0) { close(fd[0]); struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, nullptr); alarm(120); std::string s = f(); size_t o = 0; while (o < s.size()) { ssize_t n = write(fd[1], s.data() + o, s.size() - o); if (n <= 0) _exit(3); o += size_t(n); } _exit(0); }
  close(fd[1]); out.clear(); char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, size_t(n)); close(fd[0]);
  int st; waitpid(pid, &st, 0); if (st) out = WIFSIGNALED(st) ? "ended by signal " + std::to_string(WTERMSIG(st)) : "ended with status " + std::to_string(WEXITSTATUS(st));
  return st == 0;
}
static std::string firstDifference(const std::string& a, const std::string& b, long& group) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) { size_t e = a.find('\n', i), f = b.find('\n', j); std::string x = a.substr(i, e - i), y = b.substr(j, f - j); if (x != y) { group = x[0] == 'G' ? atol(x.c_str() + 2) : -1; return "'" + x.substr(0, 200) + "' became '" + y.substr(0, 200) + "'"; } i = e + 1; j = f + 1; }
  return "the output is shorter";
}
static std::string g_base;
static bool one(int i, std::string& why) {
  std::string out; const Ambient a = ambient(i);
  if (!child([&] { return under(a, -1); }, out)) { why = name(a) + ": " + out; return false; }
  if (out == g_base) return true;
  long g = -1; why = firstDifference(g_base, out, g);
  if (g >= 0) { std::string p, q; long z; if (child([&] { return transcript(g); }, p) && child([&] { return under(a, g); }, q)) { const std::string w = firstDifference(p, q, z); if (w[0] == '\'') why = w; } }
  why = name(a) + ": " + why; return false;
}
// ---- after main: everything with static storage duration of the library was destroyed, its memory is wiped ----
static int g_exitFd = -1;
static void late() { const std::string s = transcript(-1); size_t o = 0; while (o < s.size()) { ssize_t n = write(g_exitFd, s.data() + o, s.size() - o); if (n <= 0) _exit(4); o += size_t(n); } _exit(0); }
static bool atExit(bool used, std::string& why) {
  params();   // (what the check itself uses then has to outlive `late`)
  int fd[2]; if (pipe(fd)) return true; fflush(stdout); pid_t pid = fork();
  if (pid == 0) { close(fd[0]); g_exitFd = fd[1]; struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, nullptr); alarm(120); atexit(late); g_wipe = true; if (used && transcript(-1) != g_base) _exit(5); exit(6); }   // `late` runs after the destructors of what was initialized after it was registered
  close(fd[1]); std::string out; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, size_t(n)); close(fd[0]);
  int st; waitpid(pid, &st, 0); long g;
  if (st) { why = WIFSIGNALED(st) ? "ended by signal " + std::to_string(WTERMSIG(st)) : "ended with status " + std::to_string(WEXITSTATUS(st)); return false; }
  if (out != g_base) { why = firstDifference(g_base, out, g); return false; }
  return true;
}
// ---- objects used by one thread after another; the calls are ordered, so nothing is concurrent -----------------
struct Job { std::function<void()> f; bool stop; };
struct Worker { pthread_t t; pthread_mutex_t m; pthread_cond_t c; std::function<void()>* job; bool end, on; };
static void* work(void* v) { Worker& w = *static_cast<Worker*>(v); pthread_mutex_lock(&w.m); for (;;) { while (!w.job && !w.end) pthread_cond_wait(&w.c, &w.m); if (w.job) { (*w.job)(); w.job = nullptr; pthread_cond_broadcast(&w.c); continue; } break; } pthread_mutex_unlock(&w.m); return nullptr; }
static void start(Worker& w) { pthread_mutex_init(&w.m, nullptr); pthread_cond_init(&w.c, nullptr); w.job = nullptr; w.end = false; w.on = true; if (pthread_create(&w.t, nullptr, work, &w)) abort(); }
static void stop(Worker& w) { if (!w.on) return; pthread_mutex_lock(&w.m); w.end = true; pthread_cond_broadcast(&w.c); pthread_mutex_unlock(&w.m); pthread_join(w.t, nullptr); w.on = false; }
static void on(Worker& w, std::function<void()> f) { pthread_mutex_lock(&w.m); w.job = &f; pthread_cond_broadcast(&w.c); while (w.job) pthread_cond_wait(&w.c, &w.m); pthread_mutex_unlock(&w.m); }
static const int NOPS = 8;
static Bytes g_mem;
// construct, feed, copy, destroy the original, feed, finalize, read, reset and use again; op k runs on thread (mask >> k) & 1
static Bytes migrate(int param, size_t l1, size_t l2, unsigned mask, bool ending) {
  Worker w[2]; for (auto& x : w) start(x);
  H* a = nullptr; H* b = nullptr; Bytes out;
  std::function<void()> op[NOPS] = {
    [&] { a = new H(make(param)); }, [&] { feed(*a, g_d, l1); }, [&] { b = new H(*a); }, [&] { feed(*a, g_d, 3); a->finalize(); delete a; },
    [&] { feed(*b, g_d + l1, l2); }, [&] { b->finalize(); }, [&] { Bytes r = readAll(*b); out.insert(out.end(), r.begin(), r.end()); },
    [&] { b->reset(); feed(*b, g_d, l2); b->finalize(); Bytes r = readAll(*b); out.insert(out.end(), r.begin(), r.end()); delete b; } };
  int last = -1;
  for (int k = 0; k < NOPS; ++k) { int t = mask >> k & 1; if (ending && last >= 0 && last != t) stop(w[last]); if (!w[t].on) start(w[t]); last = t; on(w[t], op[k]); }
  for (auto& x : w) stop(x);
  return out;
}
static Bytes plainly(int param, size_t l1, size_t l2) {
  Bytes out; H h = make(param); feed(h, g_d, l1); H g(h); feed(g, g_d + l1, l2); g.finalize(); Bytes r = readAll(g); out = r; g.reset(); feed(g, g_d, l2); g.finalize(); r = readAll(g); out.insert(out.end(), r.begin(), r.end()); return out;
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR")); const bool th = [&] { for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--thorough")) return atol(argv[i + 1]) != 0; return false; }();
  const char* kase = nullptr; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--case")) kase = argv[i + 1];
  std::string why; if (!child([] { return transcript(-1); }, g_base)) { fail("base", g_base); return finish(); }
  Bytes data(1 << 16); for (size_t i = 0; i < data.size(); ++i) data[i] = pat(i);
  const size_t L[][2] = {{1, 2}, {size_t(B) - 1, 1}, {size_t(B), size_t(B) + 3}, {size_t(3 * B) + 5, 0}, {0, size_t(2 * B)}};
  auto mig = [&](int p, int l, unsigned m, int e) { g_d = data.data(); Bytes want = plainly(p, L[l][0], L[l][1]), got = migrate(p, L[l][0], L[l][1], m, e); if (got != want) fail("threads p=" + std::to_string(p) + " l=" + std::to_string(l) + " mask=" + std::to_string(m) + " ending=" + std::to_string(e), "other results than in one thread: " + hex(got).substr(0, 64) + " instead of " + hex(want).substr(0, 64)); };
  if (kase) {
    int i, p, l, e; unsigned m;
    if (sscanf(kase, "ambient %d", &i) == 1) { if (!one(i, why)) fail(kase, why); }
    else if (sscanf(kase, "exit %d", &i) == 1) { if (!atExit(i, why)) fail(kase, why); }
    else if (sscanf(kase, "threads p=%d l=%d mask=%u ending=%d", &p, &l, &m, &e) == 4) mig(p, l, m, e);
    else return 3;
    return finish();
  }
  const uint64_t cases = strtoull(g_base.substr(g_base.rfind("N ") + 2).c_str(), nullptr, 10);
  for (int i = 0; i < NAMB; ++i) { current("ambient " + std::to_string(i)); if (!one(i, why)) { fail("ambient " + std::to_string(i), why); if (g_fails >= 3) break; } ++g_stat["ambient_states"]; g_stat["evaluations"] += cases; }
  for (int u = 0; u < 2; ++u) { current("exit " + std::to_string(u)); if (!atExit(u, why)) fail("exit " + std::to_string(u), "after the end of main: " + why); g_stat["evaluations"] += cases; ++g_stat["after_main"]; }
  g_wipe = true;
  const int NP = int(params().size());
  for (int p = 0; p < NP; ++p) for (int l = 0; l < (p && !th ? 2 : 5); ++l) for (unsigned m = 0; m < (1u << NOPS); m += th || l < 2 ? 2 : 14) for (int e = 0; e < 2; ++e) {
    current("threads p=" + std::to_string(p) + " l=" + std::to_string(l) + " mask=" + std::to_string(m) + " ending=" + std::to_string(e)); mig(p, l, m, e); ++g_stat["thread_assignments"]; ++g_stat["evaluations"]; if (g_fails >= 3) break;
  }
  sample(name(ambient(101))); return finish();
}
