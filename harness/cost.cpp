// C23: what hashing costs.  The code of the library is compiled with a counter in every basic block (trace-pc); block copies
// count by their length; the heap is counted by operator new/delete.  Only growth is judged: equal work must cost the same
// (within a factor of 2.5 and a constant) wherever and whenever it is done, twice the work at most 2.5 times as much.
#define NO_REF 1
#include "alg.hpp"
#include "common.hpp"
#include <new>
#include <functional>
#include <memory>
#include <type_traits>
#define NOCOV __attribute__((no_sanitize_coverage))
static uint64_t g_cost = 0; static long long g_live = 0, g_peak = 0;
static uintptr_t g_low = UINTPTR_MAX;      // deepest stack address seen
extern "C" NOCOV void __sanitizer_cov_trace_pc() { ++g_cost; const uintptr_t s = reinterpret_cast<uintptr_t>(__builtin_frame_address(0)); if (s < g_low) g_low = s; }
extern "C" NOCOV void* memcpy(void* __restrict d, const void* __restrict s, size_t n) { void* r = d; g_cost += n / 8; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
extern "C" NOCOV void* memset(void* d, int v, size_t n) { void* r = d; g_cost += n / 8; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
extern "C" NOCOV void* memmove(void* d, const void* s, size_t n) {
  void* r = d; g_cost += n / 8;
  if (d <= s || (char*)d >= (const char*)s + n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else { d = (char*)d + n - 1; s = (const char*)s + n - 1; __asm__ volatile("std\n rep movsb\n cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
  return r;
}
NOCOV static void* take(size_t n, size_t a) { size_t h = a < 16 ? 16 : a; void* p = nullptr; if (posix_memalign(&p, h, n + h)) throw std::bad_alloc(); char* q = static_cast<char*>(p) + h; reinterpret_cast<size_t*>(q)[-1] = n; reinterpret_cast<size_t*>(q)[-2] = h; g_live += (long long)n; if (g_live > g_peak) g_peak = g_live; return q; }
NOCOV static void drop(void* p) { if (!p) return; char* q = static_cast<char*>(p); g_live -= (long long)reinterpret_cast<size_t*>(q)[-1]; free(q - reinterpret_cast<size_t*>(q)[-2]); }
void* operator new(size_t n) { return take(n, 0); }
void* operator new[](size_t n) { return take(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete(void* p, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, std::align_val_t) noexcept { drop(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { drop(p); }

static const uint64_t KC = 6000; static const long long KM = 1 << 16;     // constants: basic blocks, bytes
static const double F = 2.5;
static std::vector<uint8_t> g_d;
struct M { uint64_t cost; long long live, peak; };     // peak: heap and stack
template <class Fn> static M measure(Fn&& fn) { const long long l0 = g_live; g_peak = g_live; const uintptr_t here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0)); g_low = here; const uint64_t c0 = g_cost; fn(); const uint64_t c1 = g_cost; ++g_stat["evaluations"]; return {c1 - c0, g_live - l0, g_peak - l0 + (long long)(here - g_low)}; }
static std::string S(long long v) { return std::to_string(v); }
static std::string g_case;
static void bad(const std::string& why) { fail(g_case, why); }
// costs of n, 2n, 4n, ...
static void doubling(const std::string& what, const std::vector<std::pair<uint64_t, M>>& v, bool memToo) {
  for (size_t i = 0; i + 1 < v.size(); ++i) {
    const M &a = v[i].second, &b = v[i + 1].second;
    if (b.cost > F * a.cost + KC) { bad(what + ": " + S(a.cost) + " steps for " + S(v[i].first) + ", but " + S(b.cost) + " for " + S(v[i + 1].first)); return; }
    if (memToo && (b.live > F * a.peak + KM || b.peak > F * a.peak + KM)) { bad(what + ": memory " + S(a.peak) + " for " + S(v[i].first) + ", but " + S(b.peak) + " for " + S(v[i + 1].first)); return; }
  }
}
static void same(const std::string& what, uint64_t base, uint64_t c) { if (c > F * base + KC) bad(what + " takes " + S(c) + " steps instead of " + S(base)); }
static void mem(const std::string& what, long long v, long long lim) { if (v > lim) bad(what + ": " + S(v) + " bytes, more than " + S(lim)); }
template <class T> static std::enable_if_t<std::is_copy_assignable<T>::value> assign(T& a, const T& b) { a = b; }
template <class T> static std::enable_if_t<!std::is_copy_assignable<T>::value> assign(T&, const T&) {}
#if defined(A_KIND_TUPLE)
static const bool TUP = true;     // may hold the element being added
#else
static const bool TUP = false;
#endif
static void go(const char* sec, int p, const std::function<void(const Param&)>& f, const char* only) {
  g_case = std::string(sec) + " p=" + S(p); if (only && g_case != only) return;
  current(g_case); f(params()[p]); ++g_stat["sections"];
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR")); const bool th = argl(argc, argv, "--thorough", 0); const char* only = args(argc, argv, "--case");
  const int TOP = th ? 24 : 20;
  g_d = pattern(5, (size_t(1) << TOP) + 4096);
  const int NP = int(params().size());
  for (auto& q : params()) { H h = make(q); feed(h, g_d.data(), 4 * B); H k(h); k.finalize(); (void)k.toString(); (void)k.toVector(); k.reset(); assign(k, h); }   // tables that are filled once
  for (int p = 0; p < NP; ++p) {
    // every buffer fill x every length: no dearer than one call with everything from the start
    go("fill", p, [&](const Param& q) {
      const int LM = 4 * B + 2; std::vector<uint64_t> at0(LM + B + 1);
      for (int n = 0; n <= LM + B; ++n) { H h = make(q); at0[n] = measure([&] { feed(h, g_d.data(), n); }).cost; }
      for (int n = 0; n + B <= LM; ++n) same("feeding " + S(n + B) + " bytes", at0[n] + 2 * at0[2 * B], at0[n + B]);
      for (int f = 0; f < 2 * B; ++f) for (int n = 0; n <= LM; n += (n <= B ? 1 : 3)) {
        H h = make(q); feed(h, g_d.data(), f); const M m = measure([&] { feed(h, g_d.data() + f, n); });
        same("feeding " + S(n) + " bytes after " + S(f), at0[n + B < LM ? n + B : LM], m.cost); mem("feeding " + S(n) + " after " + S(f), m.peak, KM);
      }
    }, only);
    // twice the data
    go("length", p, [&](const Param& q) {
      for (int fill : {0, 1, B - 1}) for (int piece : {0, 1, 7, B - 1, B, B + 1, 4096}) {
        if (fill && piece && piece != 4096) continue;
        std::vector<std::pair<uint64_t, M>> v; const int top = piece == 0 || piece > 64 ? TOP : TOP - 2;
        for (int e = 10; e <= top; ++e) {
          const size_t n = size_t(1) << e; H h = make(q); if (fill) feed(h, g_d.data() + 5, fill);
          v.push_back({n, measure([&] { if (!piece) feed(h, g_d.data(), n); else for (size_t i = 0; i < n; i += piece) feed(h, g_d.data() + i, n - i < size_t(piece) ? n - i : piece); })});
          mem(S(n) + " bytes in pieces of " + S(piece) + ": kept", v.back().second.live, KM);
          mem(S(n) + " bytes in pieces of " + S(piece) + ": at once", v.back().second.peak, KM + (TUP ? 4 * (long long)(piece ? piece : n) : 0));
          if (piece == 4096 || piece == 0) {
            const M c = measure([&] { H k(h); (void)k; }), a = measure([&] { H k = make(q); assign(k, h); }), e2 = measure([&] { volatile bool x = h == h; (void)x; });
            static M c0, a0, e0, f0, r0, s0; const M f = measure([&] { h.finalize(); }); const M s = measure([&] { (void)h.toString(); (void)h.toVector(); volatile uint64_t z = h; (void)z; }), r = measure([&] { h.reset(); });
            if (e == 10) { c0 = c; a0 = a; e0 = e2; f0 = f; r0 = r; s0 = s; continue; }
            const std::string w = " after " + S(n) + " bytes";
            same("copying" + w, c0.cost, c.cost); same("assigning" + w, a0.cost, a.cost); same("comparing" + w, e0.cost, e2.cost); same("finalize()" + w, f0.cost, f.cost); same("reading" + w, s0.cost, s.cost); same("reset()" + w, r0.cost, r.cost);
            mem("copying" + w, c.peak, c0.peak + KM); mem("finalize()" + w, f.peak, f0.peak + KM); mem("reading" + w, s.peak, s0.peak + KM); mem("reset()" + w, r.peak, r0.peak + KM); mem("assigning" + w, a.peak, a0.peak + KM);
          }
        }
        doubling("data in pieces of " + S(piece), v, false);
      }
    }, only);
    // the same call, ever later
    go("later", p, [&](const Param& q) {
      for (int piece : {1, 3 * B + 5, 4096}) {
        H h = make(q); const size_t calls = piece == 1 ? (th ? 1 << 21 : 1 << 18) : (size_t(1) << (TOP - (th ? 1 : 0))) / piece; const size_t win = calls / 64 ? calls / 64 : 1; uint64_t first = 0; const long long l0 = g_live;
        for (size_t w = 0; w * win < calls; ++w) {
          const M m = measure([&] { for (size_t i = 0; i < win; ++i) feed(h, g_d.data() + (i * 13 & 0xfff), piece); });
          if (w < 4) { if (m.cost > first) first = m.cost; } else same(S(win) + " calls with " + S(piece) + " bytes, from call " + S(w * win) + " on,", first, m.cost);
          mem("after " + S(w * win) + " calls", g_live - l0, KM);
        }
      }
    }, only);
    // reuse: objects, resets, assignments and reads over and over
    go("again", p, [&](const Param& q) {
      const int R = th ? 1 << 15 : 1 << 12; const int win = R / 32;
      for (int kind = 0; kind < 5; ++kind) {
        H h = make(q), t = make(q); if (kind == 4) { feed(h, g_d.data(), 99); h.finalize(); }
        uint64_t first = 0; const long long l0 = g_live;
        for (int w = 0; w < 32; ++w) {
          const M m = measure([&] { for (int i = 0; i < win; ++i) { const uint8_t* s = g_d.data() + (w * win + i) * 5 % 60000; switch (kind) {
            case 0: { H k = make(q); feed(k, s, 40); k.finalize(); (void)k.toString(); (void)k.toVector(); break; }
            case 1: h.reset(); feed(h, s, 40); h.finalize(); (void)h.toString(); break;
            case 2: { H k(h); feed(k, s, 1); assign(t, k); k.finalize(); break; }
            case 3: feed(h, s, 5); assign(t, h); h.reset(); break;
            case 4: { (void)h.toString(); (void)h.toVector(); volatile uint64_t z = h; (void)z; volatile bool e = h == t; (void)e; break; }
          } } });
          if (w < 2) { if (m.cost > first) first = m.cost; } else same("use " + S(w * win) + " of kind " + S(kind), first, m.cost);
          mem("kept after " + S((w + 1) * win) + " uses of kind " + S(kind), g_live - l0, KM);
        }
      }
    }, only);
  }
#if defined(A_PARAM) && !defined(A_KIND_SIP)
  // twice the output, twice the name and customization: construction, finalize(), reading, reset()
  for (int kind = 0; kind < 3; ++kind) {
    g_case = "size p=" + S(kind); if (only && g_case != only) continue; current(g_case);
#if defined(A_KIND_SHAKE)
    if (kind) continue;
#elif defined(A_KIND_TUPLE)
    if (kind == 1) continue;
#endif
    std::vector<std::pair<uint64_t, M>> mk, fi, st, ve, re, cp, fc, sc, ag;
    for (int e = 8; e <= (th ? 22 : 19); ++e) {
      const size_t n = size_t(1) << e; Param q{32, "", "", ""}; if (kind == 0) q.outLen = int(n); else if (kind == 1) q.name = std::string(n, 'n'); else q.cust = std::string(n, 'c');
      std::vector<std::unique_ptr<H>> o; o.reserve(4);
      mk.push_back({n, measure([&] { o.push_back(std::make_unique<H>(make(q))); })}); H& h = *o[0];
      cp.push_back({n, measure([&] { o.push_back(std::make_unique<H>(h)); })});
      feed(h, g_d.data(), 100); fi.push_back({n, measure([&] { h.finalize(); })});
      st.push_back({n, measure([&] { (void)h.toString(); })}); ve.push_back({n, measure([&] { (void)h.toVector(); })});
      re.push_back({n, measure([&] { h.reset(); })});
      H& k = *o[1]; feed(k, g_d.data(), 2 * B + 1); fc.push_back({n, measure([&] { k.finalize(); })}); sc.push_back({n, measure([&] { (void)k.toString(); })});
      ag.push_back({n, measure([&] { for (int i = 0; i < 3; ++i) { feed(h, g_d.data(), 10); h.finalize(); H z(h); (void)z.toVector(); z.reset(); z.finalize(); assign(h, z); h.reset(); } })});
    }
    const std::string w = kind == 0 ? " for a digest of" : kind == 1 ? " for a name of" : " for a customization of";
    doubling("construction" + w, mk, true); doubling("copying" + w, cp, true); doubling("finalize()" + w, fi, true); doubling("toString()" + w, st, true); doubling("toVector()" + w, ve, true); doubling("reset()" + w, re, true);
    doubling("finalize() of a copy" + w, fc, true); doubling("toString() of a copy" + w, sc, true); doubling("using, copying, assigning" + w, ag, true);
    ++g_stat["sections"];
  }
#endif
  sample("fill: every fill below " + S(2 * B) + " x every length to " + S(4 * B + 2));
  return finish();
}
