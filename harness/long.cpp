// C03.  mode real: a message beyond 2^32 bytes, one call of which spans more than 2^32 contiguous bytes.
//       mode inject: length counters placed next to power-of-two boundaries, compared with the reference
//       continuing from the same count.  The counter is located by observing the object representation;
//       its meaning is confirmed against a real long run (done by the driver with --confirm).
//       mode reset: as inject, then reset() and a probe message (used by C07).
#define WATCH_CPU_S 1500
#include "alg.hpp"
#include "common.hpp"
#include <setjmp.h>
#include <type_traits>
#include <memory>
static const uint64_t PERIOD = 4096ull * 16411;     // prime number of pages: positions a power of two apart hold different data
// a read-only region of n bytes whose contents repeat with PERIOD
static const uint8_t* bigRegion(uint64_t n, uint64_t** filePages = nullptr) {
  (void)filePages;
  int fd = memfd_create("big", 0); if (fd < 0 || ftruncate(fd, PERIOD)) abort();
  uint8_t* w = (uint8_t*)mmap(nullptr, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (w == MAP_FAILED) abort();
  for (uint64_t i = 0; i < PERIOD; ++i) w[i] = patByte(5, i);
  munmap(w, PERIOD);
  uint64_t span = (n + PERIOD - 1) / PERIOD * PERIOD;
  uint8_t* r = (uint8_t*)mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r == MAP_FAILED) abort();
  for (uint64_t o = 0; o < span; o += PERIOD) if (mmap(r + o, PERIOD, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
  close(fd); return r;
}
static void pieces(int variant, uint64_t v[3]) {
  if (variant == 0) { v[0] = 3; v[1] = (1ull << 32) + B + 5; v[2] = 10; }
  else { v[0] = (1ull << 32) + (1ull << 31) + 7; v[1] = 0; v[2] = 1; }
}
static Bytes realRun(int variant, bool useRef) {
  uint64_t v[3]; pieces(variant, v); const uint64_t total = v[0] + v[1] + v[2];
  const uint8_t* r = bigRegion(total);
  if (useRef) {
#if defined(A_KIND_TUPLE)
    Chunks c; uint64_t o = 0; for (uint64_t n : v) { c.push_back(Bytes(r + o, r + o + n)); o += n; } return refChunks(params()[0], c);
#else
    return refFlat(params()[0], r, total);
#endif
  }
  H h = make(0); uint64_t o = 0; for (uint64_t n : v) { feed(h, r + o, n); o += n; } h.finalize(); return digestOf(h);
}
// ---- counters -------------------------------------------------------------------
struct Loc { bool ok = false; size_t off = 0; uint64_t step = 0; long hiOff = -1; };
template <class T> static uint64_t rd(const T* p, size_t off) { uint64_t x; memcpy(&x, reinterpret_cast<const char*>(p) + off, 8); return x; }
template <class T> static void wr(T* p, size_t off, uint64_t x) { memcpy(reinterpret_cast<char*>(p) + off, &x, 8); }
template <class T> static std::enable_if_t<std::is_trivially_copyable<T>::value, Loc> locate() {
  Loc L; const size_t S = sizeof(T); const Bytes data = pattern(5, 400 * B);
  auto at = [&](int blocks) { auto m = std::make_unique<unsigned char[]>(S + 64); memset(m.get(), 0, S + 64); void* q = m.get(); size_t sp = S + 64; q = std::align(alignof(T), S, q, sp); T* t = make_at(q, params()[0]); feed(*t, data.data(), size_t(blocks) * B); std::vector<unsigned char> b((unsigned char*)q, (unsigned char*)q + S); return b; };
  std::vector<int> ks = {1, 2, 3, 4, 5, 9, 70, 300}; std::vector<std::vector<unsigned char>> snap; for (int k : ks) snap.push_back(at(k));
  for (size_t off = 0; off + 8 <= S; off += 8) for (uint64_t step : {uint64_t(B), uint64_t(8 * B), uint64_t(1)}) {
    uint64_t v1; memcpy(&v1, &snap[0][off], 8); if (v1 != 0 && v1 != step) continue;
    bool all = true; for (size_t i = 0; i < ks.size(); ++i) { uint64_t v; memcpy(&v, &snap[i][off], 8); all = all && v == v1 + uint64_t(ks[i] - 1) * step; }
    if (all) { if (L.ok) { L.ok = false; return L; } L.ok = true; L.off = off; L.step = step; }      // ambiguous: give up
  }
  if (!L.ok) return L;
  // the word that becomes 1 when the low word wraps is the high word
  alignas(T) unsigned char mem[sizeof(T)]; memset(mem, 0, S); T* t = make_at(mem, params()[0]); feed(*t, data.data(), 2 * B);
  std::vector<uint64_t> before; for (size_t off = 0; off + 8 <= S; off += 8) before.push_back(rd(t, off));
  wr(t, L.off, 0 - L.step); feed(*t, data.data() + 2 * B, 3 * B);
  long found = -1; int n = 0; for (size_t off = 0; off + 8 <= S; off += 8) if (off != L.off && before[off / 8] == 0 && rd(t, off) == 1) { found = long(off); ++n; }
  if (n == 1) L.hiOff = found;
  return L;
}
template <class T> static std::enable_if_t<!std::is_trivially_copyable<T>::value, Loc> locate() { return Loc(); }
// largest exponent of the byte count that the specification (or, for Whirlpool, the documented limit) covers; 0 = length plays no role
static int specExp() {
  std::string a = A_NAME;
  if (a == "blake1_224" || a == "blake1_256" || a == "sha1" || a == "sha2_224" || a == "sha2_256" || a == "sm3" || a == "has_160" || a.compare(0, 5, "tiger") == 0) return 61;
  if (a == "md4" || a == "md5" || a.compare(0, 6, "ripemd") == 0) return 64;      // length modulo 2^64 bits
  if (a == "blake2s") return 64;
  if (a == "blake1_384" || a == "blake1_512" || a.compare(0, 6, "sha2_5") == 0 || a == "sha2_384" || a == "whirlpool") return 125;
  if (a == "blake2") return 128;
  return 0;
}
typedef unsigned __int128 u128;
static std::string desc(int e, int j, int tail, bool rst) { return "exp=" + std::to_string(e) + " before=" + std::to_string(j) + " tail=" + std::to_string(tail) + " reset=" + std::to_string(int(rst)); }
// place the counter j blocks before 2^e bytes, then feed `tail` more bytes
template <class T> static std::enable_if_t<std::is_trivially_copyable<T>::value> one(const Loc& L, int e, int j, int tail, bool rst) {
#if !defined(A_PARAM)
  const Bytes data = pattern(5, 3 * B + tail + 8);
  alignas(T) unsigned char mem[sizeof(T)]; memset(mem, 0, sizeof mem); T* t = make_at(mem, params()[0]);
  feed(*t, data.data(), 2 * B);
  const uint64_t done = rd(t, L.off) / L.step; if (done != 1 && done != 2) return;
  u128 target = e == 128 ? u128(0) - u128(j) * B : (u128(1) << e) - u128(j) * B;     // byte count to be in the counter
  const u128 base = target - u128(done) * B;
  u128 cnt = L.step == uint64_t(B) ? target : L.step == uint64_t(8 * B) ? target * 8 : target / B;
  if (uint64_t(cnt >> 64) != 0 || L.hiOff >= 0) { if (L.hiOff < 0) { if (uint64_t(cnt >> 64)) return; } else wr(t, size_t(L.hiOff), uint64_t(cnt >> 64)); }
  wr(t, L.off, uint64_t(cnt));
  feed(*t, data.data() + 2 * B, tail); t->finalize();
  ++g_stat["traces"]; ++g_stat["states"]; g_stat["transitions"] += 3;
  if (!rst) {
    Bytes d = digestOf(*t), r; if (!ref::digest(A_NAME, data.data(), 2 * B + tail, r, done, base)) abort();
    if (d != r) fail(desc(e, j, tail, rst), "got " + hex(d) + " want " + hex(r));
  } else {
    t->reset(); feed(*t, data.data(), B + 1); t->finalize();
    Bytes d = digestOf(*t), r = freshFlat(params()[0], data.data(), B + 1);
    if (d != r) fail(desc(e, j, tail, rst), "after reset(): got " + hex(d) + " want " + hex(r));
  }
#else
  (void)L; (void)e; (void)j; (void)tail; (void)rst;
#endif
}
template <class T> static std::enable_if_t<!std::is_trivially_copyable<T>::value> one(const Loc&, int, int, int, bool) {}
// does the located word really count?  true when a real long message leaves the expected value there
template <class T> static std::enable_if_t<std::is_trivially_copyable<T>::value, bool> confirm(const Loc& L, uint64_t total) {
  const uint8_t* r = bigRegion(total); alignas(T) unsigned char mem[sizeof(T)]; memset(mem, 0, sizeof mem); T* t = make_at(mem, params()[0]);
  feed(*t, r, total / B * B); uint64_t blocks = total / B, v = rd(t, L.off); bool ok = v == blocks * L.step || v == (blocks - 1) * L.step;
  munmap(const_cast<uint8_t*>(r), (total + PERIOD - 1) / PERIOD * PERIOD); return ok;
}
template <class T> static std::enable_if_t<!std::is_trivially_copyable<T>::value, bool> confirm(const Loc&, uint64_t) { return false; }
// mode reach: one call of up to 2^46 bytes of which only the first page can be read.  Every byte decides the digest, so the
// call must try to read beyond that page: one that returns has dropped data, for example by cutting the length to 32 bits.
static sigjmp_buf g_jmp; static uint8_t *g_lo, *g_hi; static volatile bool g_armed = false;
static void onFault(int sig, siginfo_t* si, void*) { uint8_t* a = (uint8_t*)si->si_addr; if (g_armed && a >= g_lo && a < g_hi) { g_armed = false; siglongjmp(g_jmp, 1); } signal(sig, SIG_DFL); raise(sig); }
static std::string rdesc(int p, int f, uint64_t n) { return "reach p=" + std::to_string(p) + " fill=" + std::to_string(f) + " call=" + std::to_string(n); }
static void reach(int p, int f, uint64_t n) {
  static const Bytes pre = pattern(5, 4 * B); ++g_stat["traces"]; ++g_stat["huge_calls"]; ++g_stat["states"]; g_stat["transitions"] += 2;
  alignas(H) static unsigned char mem[sizeof(H)]; H* h = make_at(mem, params()[p]); if (f) feed(*h, pre.data(), f);
  const uint8_t* base = g_lo - 4096;
  if (sigsetjmp(g_jmp, 1) == 0) {
    g_armed = true;
    try { feed(*h, base, n); } catch (const std::bad_alloc&) { g_armed = false; return; }
    g_armed = false; fail(rdesc(p, f, n), "addData returned without having read the data beyond the first 4096 bytes");
    h->~H(); return;
  }
  h->~H();
}
static int runReach(const char* kase, bool th) {
  int eMax = 46; uint8_t* m = (uint8_t*)MAP_FAILED;
  for (; eMax > 34; --eMax) { m = (uint8_t*)mmap(nullptr, (1ull << eMax) + (1 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m != (uint8_t*)MAP_FAILED) break; }
  if (m == (uint8_t*)MAP_FAILED) { printf("NOTE no address space for huge calls\n"); return finish(); }
  if (mprotect(m, 4096, PROT_READ | PROT_WRITE)) abort();
  for (int i = 0; i < 4096; ++i) m[i] = patByte(5, i + 7);
  g_lo = m + 4096; g_hi = m + (1ull << eMax) + (1 << 20);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onFault; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
  if (kase) { int p, f; unsigned long long n; if (sscanf(kase, "reach p=%d fill=%d call=%llu", &p, &f, &n) != 3) return 3; reach(p, f, n); return finish(); }
  const int NP = int(params().size()); std::vector<int> ds;
  for (int d = 0; d <= (th ? 4 * B : 2 * B); ++d) if (th || d <= 3 || d % 8 == 0 || d % B <= 1 || d % B >= B - 1) ds.push_back(d);
  for (int p = 0; p < NP; ++p) for (int f = 0; f < B; ++f) {
    if (!th && p && f > 1 && f < B - 1) continue;
    current(rdesc(p, f, 1ull << 32));
    for (int e = 29; e <= eMax; ++e) for (int d : ds) for (int mul : {2, 3}) { const uint64_t n = (1ull << e) / 2 * mul + d; if ((n >> eMax) > 1 || n >= uint64_t(g_hi - m)) continue; if (!th && mul == 3 && e != 32 && e != 33) continue; reach(p, f, n); }
    for (int k = 20; (uint64_t(B) << k) + B < uint64_t(g_hi - m); ++k) for (int j = -1; j <= 1; ++j) reach(p, f, (uint64_t(B) << k) + (f ? B - f : 0) + B * j);     // whole blocks: nothing is left to be buffered
  }
  sample(rdesc(0, B - 1, (1ull << 32) + 2)); return finish();
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0); const std::string mode = args(argc, argv, "--mode");
  const char* kase = args(argc, argv, "--case");
  if (mode == "golden") { printf("%s %ld %s\n", A_NAME, argl(argc, argv, "--variant", 0), hex(realRun(int(argl(argc, argv, "--variant", 0)), true)).c_str()); return 0; }
  if (mode == "real") {
    const int v = int(argl(argc, argv, "--variant", 0)); const char* want = args(argc, argv, "--want"); std::string c = "real variant=" + std::to_string(v);
    current(c); Bytes d = realRun(v, false); ++g_stat["traces"]; ++g_stat["real_long_messages"]; g_stat["transitions"] += 3; ++g_stat["states"];
    if (hex(d) != want) fail(c, "message of more than 2^32 bytes: got " + hex(d) + " want " + want);
    sample(c + " digest " + hex(d)); return finish();
  }
  if (mode == "reach") return runReach(kase, th);
  const bool rst = mode == "reset"; const int maxE = specExp();
  Loc L = locate<H>();
  if (L.ok && maxE && !confirm<H>(L, (1ull << 32) / (th ? 1 : 32) + 3 * B)) L.ok = false;
  if (!L.ok || !maxE) { if (maxE) printf("NOTE length counter not located; covered by real long messages only\n"); return finish(); }
  ++g_stat["counters_located"]; if (L.hiOff >= 0) ++g_stat["high_words_located"];
  if (kase) { int e, j, t, r; if (sscanf(kase, "exp=%d before=%d tail=%d reset=%d", &e, &j, &t, &r) != 4) return 3; one<H>(L, e, j, t, r); return finish(); }
  std::vector<int> tails = {0, 1, B / 2, B - 17, B - 9, B - 8, B - 1, B, B + 1, 2 * B - 9, 2 * B, 3 * B + 5, 5 * B}; if (th) { tails.clear(); for (int i = 0; i <= 6 * B; ++i) tails.push_back(i); }
  const bool wraps = maxE == 64 && std::string(A_NAME) != "blake2s";
  for (int e = 12; e <= maxE; ++e) for (int j = (e == maxE && !wraps ? 12 : 0); j <= (e == maxE && !wraps ? 14 : 4); ++j) for (int tail : tails) {
    if (tail < 0) continue; if (rst && tail > B) continue;
    if (tail % 16 == 0) current(desc(e, j, tail, rst)); one<H>(L, e, j, tail, rst);
  }
  sample(desc(std::min(maxE, 61), 2, B - 9, rst) + (L.hiOff >= 0 ? " (two-word counter)" : " (one-word counter)"));
  return finish();
}
