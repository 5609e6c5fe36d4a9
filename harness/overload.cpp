// C11: every input overload x element type x element count x bytes already buffered x alignment.
// Oracle: the same bytes given through (pointer, length) to a fresh object.
#include "alg.hpp"
#include "common.hpp"
#include <array>
#include <functional>
#include <type_traits>
#include <utility>
#include <setjmp.h>
static const Bytes g_pat = pattern(5, 1 << 16);
static std::vector<int> PRE;
static std::string g_case, g_only;
static Chunks g_ch;
static void verify(H& h, const std::string& c) {
  H* self = &h; auto& r = h.finalize();
  ++g_stat["evaluations"];
  if (static_cast<void*>(&r) != static_cast<void*>(static_cast<std::remove_reference_t<decltype(r)>*>(self))) fail(c, "finalize() did not return the object itself");
  Bytes d = digestOf(h), w = freshChunks(params()[0], g_ch);
  if (d != w) fail(c, "got " + hex(d) + " want " + hex(w));
}
#define SAME(r, h, c) do { if (static_cast<const void*>(&(r)) != static_cast<const void*>(static_cast<std::remove_reference_t<decltype(r)>*>(&(h)))) fail(c, "the call did not return the object itself"); } while (0)
// Form: how the elements are passed
static void with(const std::string& c, const void* bytes, size_t n, const std::function<void(H&)>& call) {
  if (!g_only.empty() && g_only != c) return;
  current(c);
  for (int pre : PRE) {
    H h = make(0); g_ch.clear();
    if (pre >= 0) { feed(h, g_pat.data() + 1000, pre); g_ch.push_back(Bytes(g_pat.begin() + 1000, g_pat.begin() + 1000 + pre)); }
    Bytes before(static_cast<const uint8_t*>(bytes), static_cast<const uint8_t*>(bytes) + n);
    call(h);
    if (n && memcmp(before.data(), bytes, n)) fail(c, "input was modified");
    g_ch.push_back(before);
    feed(h, g_pat.data() + 77, 3); g_ch.push_back(Bytes(g_pat.begin() + 77, g_pat.begin() + 80));
    verify(h, c + " pre=" + std::to_string(pre));
  }
}
struct alignas(32) P32 { uint8_t b[32]; };
struct P3 { uint8_t a, b, c; };
struct P11 { uint8_t b[11]; };
struct P12 { uint32_t a, b, c; };
struct P70 { uint16_t b[35]; };
struct P24 { uint64_t a; uint32_t b; uint16_t c, d; uint64_t e; };
enum class E16 : uint16_t { x };
template <class T> struct Nm;
#define NM(T) template <> struct Nm<T> { static const char* s() { return #T; } }
NM(uint8_t); NM(int8_t); NM(char); NM(uint16_t); NM(int16_t); NM(uint32_t); NM(int32_t); NM(uint64_t); NM(double); NM(float); NM(char16_t); NM(char32_t); NM(wchar_t); NM(P3); NM(P11); NM(P12); NM(P70); NM(P24); NM(E16); NM(long double); NM(P32); NM(bool); typedef const char* cptr; NM(cptr);
#if __cplusplus >= 201703L
NM(std::byte);
#endif
// function pointers keep the number of instantiated wrappers small
typedef const void* (*Call)(H&, const void*, size_t);
static std::string nmN(const char* form, const char* t, size_t n) { return std::string(form) + " " + t + "[" + std::to_string(n) + "]"; }
static void doCall(const char* form, const char* t, const void* arr, size_t n, size_t bytes, Call f) {
  const std::string c = nmN(form, t, n);
  with(c, arr, bytes, [&](H& h) { const void* r = f(h, arr, n); if (r && r != static_cast<const void*>(&h)) fail(c, "the call did not return the object itself"); });
}
template <class R> static const void* id(R& r) { return static_cast<const void*>(static_cast<const H*>(&r)); }
template <class T, size_t N> static const void* cArr(H& h, const void* a, size_t) { return id(h.FEED(*static_cast<const T (*)[N]>(a))); }
template <class T, size_t N> static const void* cArrM(H& h, const void* a, size_t) { return id(h.FEED(*static_cast<T (*)[N]>(const_cast<void*>(a)))); }
template <class T> static const void* cSpan(H& h, const void* a, size_t n) { return id(h.FEED(typename H::template Span<T>(static_cast<T*>(const_cast<void*>(a)), n))); }
template <class T> static const void* cSpanC(H& h, const void* a, size_t n) { const typename H::template Span<const T> s(static_cast<const T*>(a), n); return id(h.FEED(s)); }
template <class T> static const void* cPtr(H& h, const void* a, size_t n) { return id(h.FEED(static_cast<const T*>(a), n * sizeof(T))); }
template <class T, size_t N> static const void* cChain(H& h, const void* a, size_t) {
#if defined(A_KIND_TUPLE)
  g_ch.push_back(Bytes());
#endif
  return id(h.FEED(g_pat.data(), 0).FEED(*static_cast<const T (*)[N]>(a)));
}
template <class T> static T* store(size_t k) { static T arr[300]; memcpy(static_cast<void*>(arr), g_pat.data() + 5 * k, sizeof arr); if (std::is_same<T, bool>::value) for (size_t i = 0; i < sizeof arr; ++i) reinterpret_cast<uint8_t*>(arr)[i] &= 1; return arr; }
template <class T, size_t N> static void arrs() {
  const char* t = Nm<T>::s(); const void* a = store<T>(N);
  doCall("const array", t, a, N, N * sizeof(T), &cArr<T, N>); doCall("array", t, a, N, N * sizeof(T), &cArrM<T, N>);
  if (N == 5) doCall("chained", t, a, N, N * sizeof(T), &cChain<T, N>);
}
template <class T> static void type() {
  arrs<T, 1>(); arrs<T, 2>(); arrs<T, 5>(); arrs<T, 17>(); arrs<T, 64>(); arrs<T, 300>();
  const char* t = Nm<T>::s();
  for (size_t n : {1, 2, 3, 5, 8, 16, 17, 33, 64, 65, 129, 300}) {
    const void* a = store<T>(n);
    doCall("span", t, a, n, n * sizeof(T), &cSpan<T>); doCall("const span", t, a, n, n * sizeof(T), &cSpanC<T>); doCall("pointer", t, a, n, n * sizeof(T), &cPtr<T>);
  }
}
template <size_t N> static void bytesN() {
  std::vector<uint8_t> v(g_pat.begin() + N, g_pat.begin() + 2 * N); std::array<uint8_t, N> a; std::copy(v.begin(), v.end(), a.begin());
  const std::vector<uint8_t>& cv = v; const std::array<uint8_t, N>& ca = a; const std::string n = "[" + std::to_string(N) + "]";
  with("vector" + n, v.data(), N, [&](H& h) { auto& r = h.FEED(v); SAME(r, h, "vector" + n); });
  with("const vector" + n, v.data(), N, [&](H& h) { auto& r = h.FEED(cv); SAME(r, h, "const vector" + n); });
  with("std::array" + n, a.data(), N, [&](H& h) { auto& r = h.FEED(a); SAME(r, h, "std::array" + n); });
  with("const std::array" + n, a.data(), N, [&](H& h) { auto& r = h.FEED(ca); SAME(r, h, "const std::array" + n); });
  with("fixed span" + n, a.data(), N, [&](H& h) { auto& r = h.FEED(typename H::template Span<const uint8_t, N>(a.data(), N)); SAME(r, h, "fixed span" + n); });
  with("fixed mutable span" + n, a.data(), N, [&](H& h) { auto& r = h.FEED(typename H::template Span<uint8_t, N>(a.data(), N)); SAME(r, h, "fixed mutable span" + n); });
  with("braces" + n, v.data(), N, [&](H& h) { auto& r = h.FEED({v.data(), N}); SAME(r, h, "braces" + n); });
  with("subspan" + n, v.data() + N / 2, N - N / 2, [&](H& h) { typename H::template Span<const uint8_t> s(v.data(), N); auto& r = h.FEED(s.subspan(N / 2)); SAME(r, h, "subspan" + n); });
}
static std::string fcase(int al, int len, int pre) { return "align " + std::to_string(al) + " " + std::to_string(len) + " " + std::to_string(pre); }
static void alignCase(int al, int len, int pre) {
  alignas(64) static uint8_t mem[1 << 15]; memcpy(mem, g_pat.data() + 3, sizeof mem);
  H h = make(0); g_ch.clear();
  if (pre >= 0) { feed(h, g_pat.data() + 1000, pre); g_ch.push_back(Bytes(g_pat.begin() + 1000, g_pat.begin() + 1000 + pre)); }
  feed(h, mem + al, len); g_ch.push_back(Bytes(mem + al, mem + al + len));
  verify(h, fcase(al, len, pre));
}
// Huge ranges of which only the first page can be read: the call has to run into the rest.  A size that is narrowed
// or multiplied in too small a type on the way from the overload to the data shows as a call that returns.
static sigjmp_buf g_jmp; static uint8_t *g_base, *g_lo, *g_hi; static volatile bool g_armed = false;
static void onFault(int sig, siginfo_t* si, void*) { uint8_t* a = (uint8_t*)si->si_addr; if (g_armed && a >= g_lo && a < g_hi) { g_armed = false; siglongjmp(g_jmp, 1); } signal(sig, SIG_DFL); raise(sig); }
static void hugeCall(const std::string& c, const std::function<void(H&)>& call) {
  if (!g_only.empty() && g_only != c) return;
  current(c); ++g_stat["evaluations"]; ++g_stat["huge_ranges"];
  for (int pre : {0, 1}) {
    alignas(H) static unsigned char mem[sizeof(H)]; H* h = make_at(mem, params()[0]); if (pre) feed(*h, g_pat.data(), pre);
    if (sigsetjmp(g_jmp, 1) == 0) {
      g_armed = true;
      try { call(*h); } catch (const std::bad_alloc&) { g_armed = false; h->~H(); continue; }
      g_armed = false; fail(c, "the call returned without having read the data beyond the first 4096 bytes");
    }
    h->~H();
  }
}
template <class T, uint64_t BYTES> static std::enable_if_t<(BYTES / sizeof(T) + 1 >= (1ull << 31))> hugeArr(const char*) {}     // the overloads take at most 2^31 - 1 elements, others do not compile
template <class T, uint64_t BYTES> static std::enable_if_t<(BYTES / sizeof(T) + 1 < (1ull << 31))> hugeArr(const char* t) {
  constexpr size_t N = size_t(BYTES / sizeof(T)) + 1; static_assert(N * sizeof(T) > BYTES, "");
  hugeCall("huge array " + std::string(t) + "[" + std::to_string(N) + "]", [&](H& h) { h.FEED(*reinterpret_cast<const T (*)[N]>(g_base)); });
}
template <class T> static void hugeType(int eMax, bool th) {
  const char* t = Nm<T>::s();
  for (int e = 29; e < eMax; ++e) for (int mul = 2; mul <= 3; ++mul) for (int d : {0, 1, 2, 9, 33}) {
    const size_t n = size_t(((1ull << e) / 2 * mul + sizeof(T) - 1) / sizeof(T)) + size_t(d);
    if (!th && e > 37 && d != 1) continue;
    const std::string q = std::string(t) + "[" + std::to_string(n) + "]";
    hugeCall("huge span " + q, [&](H& h) { h.FEED(typename H::template Span<T>(reinterpret_cast<T*>(g_base), n)); });
    hugeCall("huge const span " + q, [&](H& h) { const typename H::template Span<const T> s(reinterpret_cast<const T*>(g_base), n); h.FEED(s); });
    hugeCall("huge pointer " + q, [&](H& h) { h.FEED(reinterpret_cast<const T*>(g_base), n * sizeof(T)); });
    // counts, not sizes, next to powers of two
    const size_t m = size_t(1ull << e) + size_t(d);
    if (m < (1ull << eMax) / sizeof(T)) hugeCall("huge span by count " + std::string(t) + "[" + std::to_string(m) + "]", [&](H& h) { h.FEED(typename H::template Span<const T>(reinterpret_cast<const T*>(g_base), m)); });
  }
  hugeArr<T, (1ull << 31)>(t); hugeArr<T, (1ull << 32)>(t); hugeArr<T, (1ull << 32) + 200>(t); hugeArr<T, (3ull << 32) + 40>(t); hugeArr<T, (1ull << 35)>(t);
}
static void huge(bool th) {
  int eMax = 43; g_base = (uint8_t*)MAP_FAILED;
  for (; eMax > 36; --eMax) { g_base = (uint8_t*)mmap(nullptr, (1ull << eMax) + (1 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_base != (uint8_t*)MAP_FAILED) break; }
  if (g_base == (uint8_t*)MAP_FAILED) { printf("NOTE no address space for huge ranges\n"); return; }
  if (mprotect(g_base, 4096, PROT_READ | PROT_WRITE)) abort(); memcpy(g_base, g_pat.data() + 9, 4096);
  g_lo = g_base + 4096; g_hi = g_base + (1ull << eMax) + (1 << 20);
  struct sigaction sa, o1, o2; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onFault; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, &o1); sigaction(SIGBUS, &sa, &o2);
  hugeType<uint8_t>(eMax, th); hugeType<uint16_t>(eMax, th); hugeType<uint32_t>(eMax, th); hugeType<uint64_t>(eMax, th); hugeType<P12>(eMax, th); hugeType<P70>(eMax, th);
  sigaction(SIGSEGV, &o1, nullptr); sigaction(SIGBUS, &o2, nullptr); munmap(g_base, (1ull << eMax) + (1 << 20));
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0);
  PRE = {-1, 1, B / 2, B - 1}; if (th) for (int i = 0; i <= 2 * B; i += (B >= 64 ? 3 : 1)) PRE.push_back(i);
  if (const char* c = args(argc, argv, "--case")) {
    int a, l, p; if (sscanf(c, "align %d %d %d", &a, &l, &p) == 3) { alignCase(a, l, p); return finish(); }
    g_only = c; size_t q = g_only.find(" pre="); if (q != std::string::npos) { PRE = {atoi(g_only.c_str() + q + 5)}; g_only.resize(q); }
  }
  type<uint8_t>(); type<int8_t>(); type<char>(); type<uint16_t>(); type<int16_t>(); type<uint32_t>(); type<int32_t>(); type<uint64_t>(); type<double>(); type<float>(); type<char16_t>(); type<char32_t>(); type<wchar_t>(); type<P3>(); type<P24>(); type<P11>(); type<P12>(); type<P70>(); type<E16>(); type<P32>(); type<bool>(); type<cptr>();
#if __cplusplus >= 201703L
  type<std::byte>();
#endif
  huge(th);
  bytesN<1>(); bytesN<2>(); bytesN<3>(); bytesN<B - 1>(); bytesN<B>(); bytesN<B + 1>(); bytesN<2 * B>(); bytesN<2 * B + 7>(); bytesN<1000>();
  with("string literal", "hello", 6, [&](H& h) { auto& r = h.FEED("hello"); SAME(r, h, "string literal"); });
  with("2d array", g_pat.data(), 24, [&](H& h) { static uint16_t m[3][4]; memcpy(m, g_pat.data(), 24); h.FEED(m); });
  with("empty vector", g_pat.data(), 0, [&](H& h) { std::vector<uint8_t> v; h.FEED(v); });
  with("empty span", g_pat.data(), 0, [&](H& h) { h.FEED(typename H::template Span<const uint8_t>()); });
  with("empty span of uint32_t", g_pat.data(), 0, [&](H& h) { h.FEED(typename H::template Span<const uint32_t>()); });
  with("null pointer", g_pat.data(), 0, [&](H& h) { h.FEED(nullptr, 0); });
  if (g_only.empty()) {
    sample("span uint64_t[33] pre=" + std::to_string(B - 1));
    std::vector<int> pres = {-1, 0, 1, 2, 3, B - 1, B - 2}; 
    for (int al = 0; al < 64; al += (al < 16 ? 1 : 16)) for (int pre : pres) {
      current(fcase(al, 0, pre));
      for (int len : {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, B - 2, B - 1, B, B + 1, B + 2, 2 * B - 1, 2 * B, 2 * B + 1, 4 * B + 3, 1021}) alignCase(al, len, pre);
    }
    if (th) for (int al = 0; al < 16; ++al) for (int pre = 0; pre < B; ++pre) for (int len = 0; len <= 3 * B; len += 1 + (B >= 64 ? len % 3 : 0)) alignCase(al, len, pre);
  }
  return finish();
}
