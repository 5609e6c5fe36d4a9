// C13 scenarios (compiled with -fsanitize=thread instrumentation, see rt.cpp).
#include "alg.hpp"
#include "rt.hpp"
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
static uint8_t g_data[4][3 * A_B + 64];
// expected results live in memory shared with the children; filled by a child, so that the parent never uses the class
struct Exp { uint32_t n; uint8_t d[8192]; };
static Exp* g_exp;            // [4 parameter sets][4 messages]
static const int NP_MAX = 5;
static Exp& expo(int p, int m) { return g_exp[p * 5 + m]; }   // m == 4: result of the all-operations scenario
static size_t mlen(int m) { return m == 0 ? 2 * A_B + 9 : m == 1 ? A_B - 1 : m == 2 ? A_B + 1 : 3; }
static void message(H& h, int m, int part) { size_t n = mlen(m), k = n / 2; if (part == 0) feed(h, g_data[m], k); else feed(h, g_data[m] + k, n - k); }
struct Slot { H* obj; Bytes* out; std::string* str; uint64_t* u; };
static Slot g_s[4]; static const H* g_shared; static int g_p[4]; static int g_m[4]; static int g_NP;
static void readAll(const H& h, Slot& s) { *s.out = h.toVector(); *s.str = h.toString(); s.u[0] = static_cast<uint64_t>(h); s.u[1] = std::hash<H>()(h); }
static void verify(int t, int p, int m) {
  const Exp& e = expo(p, m); Slot& s = g_s[t]; char b[200];
  std::string hx; static const char* d = "0123456789abcdef"; for (uint32_t i = 0; i < e.n; ++i) { hx += d[e.d[i] >> 4]; hx += d[e.d[i] & 15]; }
  uint64_t w = 0; for (uint32_t i = 0; i < 8 && i < e.n; ++i) w = w << 8 | e.d[i];
  if (s.out->size() != e.n || memcmp(s.out->data(), e.d, e.n)) { snprintf(b, sizeof b, "thread %d: wrong digest (alone: %.40s...)", t, hx.c_str()); mc_fail(b); }
  else if (*s.str != hx || s.u[0] != w || s.u[1] != w) { snprintf(b, sizeof b, "thread %d: wrong string or integer", t); mc_fail(b); }
}
static void setupCommon() { for (int i = 0; i < 4; ++i) { g_s[i].obj = (H*)operator new(sizeof(H)); g_s[i].out = new Bytes; g_s[i].str = new std::string; g_s[i].u = new uint64_t[2](); } }
// A: separate objects, first use in the process: construct | feed | feed | finalize | read
static void bodyA(int t) {
  Slot& s = g_s[t]; const Param& p = params()[g_p[t]];
  make_at(s.obj, p); mc_op_point();
  message(*s.obj, g_m[t], 0); mc_op_point();
  message(*s.obj, g_m[t], 1); mc_op_point();
  s.obj->finalize(); mc_op_point();
  readAll(*s.obj, s);
}
// B: three threads, coarser operations
static void bodyB(int t) {
  Slot& s = g_s[t]; make_at(s.obj, params()[g_p[t]]); message(*s.obj, g_m[t], 0); mc_op_point();
  message(*s.obj, g_m[t], 1); s.obj->finalize(); mc_op_point(); readAll(*s.obj, s);
}
static void checkAB() { for (int t = 0; t < 4; ++t) if (g_p[t] >= 0) verify(t, g_p[t], g_m[t]); }
// C: one finalized object read by all threads
static void setupC() { setupCommon(); H* h = g_s[3].obj; make_at(h, params()[g_p[3]]); message(*h, 0, 0); message(*h, 0, 1); h->finalize(); g_shared = h; }
static void bodyC(int t) {
  Slot& s = g_s[t]; const H& h = *g_shared;
  *s.str = h.toString(); mc_op_point();
  *s.out = h.toVector(); mc_op_point();
  s.u[0] = static_cast<uint64_t>(h); s.u[1] = std::hash<H>()(h); mc_op_point();
  H* c = new (s.obj) H(h); if (!(*c == h) || *c != h) mc_fail("copy of the shared object is not equal to it"); mc_op_point();
  Bytes again = c->toVector(); if (again != *s.out) mc_fail("copy of the shared object reads differently");
}
static void checkC() { for (int t = 0; t < 2; ++t) verify(t, g_p[3], 0); }
// D: one object goes on (reset, reuse) while a copy of it is used by the other thread
static void setupD() { setupCommon(); H* h = make_at(g_s[0].obj, params()[g_p[0]]); message(*h, g_m[0], 0); new (g_s[1].obj) H(*h); }
static void bodyD(int t) {
  Slot& s = g_s[t];
  if (t == 0) { message(*s.obj, g_m[0], 1); mc_op_point(); s.obj->finalize(); mc_op_point(); s.obj->reset(); message(*s.obj, 3, 0); mc_op_point(); message(*s.obj, 3, 1); s.obj->finalize(); mc_op_point(); readAll(*s.obj, s); }
  else { mc_op_point(); message(*s.obj, g_m[0], 1); mc_op_point(); s.obj->finalize(); mc_op_point(); readAll(*s.obj, s); }
}
static void checkD() {
#if defined(A_KIND_TUPLE)
  verify(0, g_p[0], 3);
#else
  verify(0, g_p[0], 3);
#endif
  verify(1, g_p[0], g_m[0]);
}
// E: every way of feeding and reading, long messages, reuse; separate objects, first use in the process
static uint8_t g_long[5000]; static uint8_t g_arr[37]; static uint32_t g_words[21];
static void stepE(int k, Slot& s, const Param& p) {
  H& h = *s.obj; Bytes& o = *s.out;
  switch (k) {
    case 0: make_at(&h, p); feed(h, g_long, sizeof g_long); h.FEED(g_arr); h.FEED(g_words); break;
    case 1: h.FEED(H::Span<const uint8_t>(g_long, 777)); h.FEED(H::Span<uint32_t>(g_words, 9)); h.FEED(H::Span<const uint8_t>()); for (int i = 0; i < 9; ++i) feed(h, g_long + i, i); break;
    case 2: h.finalize(); { H c(h); Bytes v = digestOf(c); o.insert(o.end(), v.begin(), v.end()); o.push_back(c == h); v = c.toVector(); o.insert(o.end(), v.begin(), v.end()); } break;
    case 3: { const H& c = h; std::string x = c.toString(); o.insert(o.end(), x.begin(), x.end()); o.push_back(static_cast<uint8_t>(c)); const uint16_t a = c; const uint32_t b = c; const uint64_t d = c; const size_t e = std::hash<H>()(c); for (int i = 0; i < 8; ++i) { o.push_back(uint8_t(a >> i)); o.push_back(uint8_t(b >> 4 * i)); o.push_back(uint8_t(d >> 8 * i)); o.push_back(uint8_t(e >> 8 * i)); } break; }
    default: h.reset(); feed(h, g_long, 1); h.finalize(); { Bytes v = h.toVector(); o.insert(o.end(), v.begin(), v.end()); } break;
  }
}
static void bodyE(int t) { for (int k = 0; k < 5; ++k) { if (k) mc_op_point(); stepE(k, g_s[t], params()[g_p[t]]); } }
static void checkE() {
  for (int t = 0; t < 2; ++t) { const Exp& e = expo(g_p[t], 4); const Bytes& o = *g_s[t].out; if (o.size() != e.n || memcmp(o.data(), e.d, e.n)) { char b[99]; snprintf(b, sizeof b, "thread %d: results differ from those of a thread running alone", t); mc_fail(b); } }
}
static int run(const std::string& name, int mode, int bound, long cap, const char* replay, int pa, int pb) {
  for (int i = 0; i < 4; ++i) { g_p[i] = -1; g_m[i] = i; }
  McScenario s;
  if (name == "A") { g_p[0] = pa; g_p[1] = pb; s = {2, setupCommon, bodyA, checkAB}; }
  else if (name == "B") { g_p[0] = pa; g_p[1] = pb; g_p[2] = pa; s = {3, setupCommon, bodyB, checkAB}; }
  else if (name == "C") { g_p[3] = pa; s = {2, setupC, bodyC, checkC}; }
  else if (name == "E") { g_p[0] = pa; g_p[1] = pb; s = {2, setupCommon, bodyE, checkE}; }
  else { g_p[0] = pa; g_m[0] = 0; s = {2, setupD, bodyD, checkD}; }
  char c[64]; snprintf(c, sizeof c, "%s p=%d,%d", name.c_str(), pa, pb);
  return mc_explore(c, s, mode, bound, cap, replay);
}
#include <unistd.h>
#include <sys/wait.h>
int main(int argc, char** argv) {
  bool th = false; const char* kase = nullptr; for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--thorough")) th = atoi(argv[i + 1]); if (!strcmp(argv[i], "--case")) kase = argv[i + 1]; }
  g_exp = (Exp*)mmap(nullptr, sizeof(Exp) * NP_MAX * 5, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int m = 0; m < 4; ++m) for (size_t i = 0; i < sizeof g_data[m]; ++i) g_data[m][i] = uint8_t(i * 7 + m * 31 + (i >> 3) + 1);
  for (size_t i = 0; i < sizeof g_long; ++i) g_long[i] = uint8_t(i * 5 + (i >> 7) + 3); for (int i = 0; i < 37; ++i) g_arr[i] = uint8_t(i * 3); for (int i = 0; i < 21; ++i) g_words[i] = 0x9e3779b9u * (i + 1);
  g_NP = int(params().size());
  fflush(stdout); pid_t pid = fork();
  if (pid == 0) { for (int p = 0; p < g_NP; ++p) for (int m = 0; m < 4; ++m) { H h = make(params()[p]); message(h, m, 0); message(h, m, 1); h.finalize(); Bytes d = h.toVector(); expo(p, m).n = uint32_t(d.size()); memcpy(expo(p, m).d, d.data(), d.size()); }
    for (int p = 0; p < g_NP; ++p) { setupCommon(); for (int k = 0; k < 5; ++k) stepE(k, g_s[0], params()[p]); Bytes& d = *g_s[0].out; if (d.size() > sizeof(Exp::d)) _exit(9); expo(p, 4).n = uint32_t(d.size()); memcpy(expo(p, 4).d, d.data(), d.size()); }
    _exit(0); }
  int st; waitpid(pid, &st, 0); if (st) { printf("FAIL setup | sequential run crashed\n"); return 1; }
  if (kase) { char nm[8], sched[500] = ""; int pa, pb, mode; if (sscanf(kase, "%7s p=%d,%d mode=%d sched=%499s", nm, &pa, &pb, &mode, sched) < 4) return 3; int r = run(nm, mode, 99, 1, sched, pa, pb); printf("DONE %d\n", r); return r; }
  int r = 0; const int last = g_NP - 1; const long cap = th ? 200000 : 3000;
  r |= run("A", 0, 0, cap, nullptr, 0, last); r |= run("A", 1, th ? 4 : 2, cap, nullptr, 0, 0);
  r |= run("C", 0, 0, cap, nullptr, last, last); r |= run("C", 1, th ? 4 : 2, cap, nullptr, 0, 0);
  r |= run("D", 0, 0, cap, nullptr, 0, 0);
  r |= run("B", 0, 0, cap, nullptr, 0, last); r |= run("B", 1, th ? 4 : 2, cap, nullptr, last, 0);
  r |= run("E", 0, 0, cap, nullptr, 0, last); r |= run("E", 1, th ? 3 : 1, cap, nullptr, 0, 0);
  printf("SAMPLE two threads construct|feed|feed|finalize|read: every interleaving\nDONE %d\n", r); return r ? 1 : 0;
}
