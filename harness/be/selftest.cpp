// Integer arithmetic, shifts, rotations, divisions, extensions, memory accesses of every size and offset, branches and
// calls through pointers over a grid of values.  Its output must be the same on the emulated machines as on this one.
#include <cmath>
#include <cstdint>
#include <cstring>
extern "C" void cfg_out(const char* p, unsigned long n);
static uint64_t fold_; static long g_dump; static long g_n;
static void hex(uint64_t v) { char b[17]; for (int i = 0; i < 16; ++i) b[i] = "0123456789abcdef"[v >> (60 - 4 * i) & 15]; b[16] = '\n'; cfg_out(b, 17); }
static void out(uint64_t v) { fold_ = (fold_ ^ v) * 0x100000001b3ull; fold_ ^= fold_ >> 31; ++g_n; if (g_dump >= 0) hex(v); }
static void flush(char c) { cfg_out("S ", 2); cfg_out(&c, 1); cfg_out(" ", 1); hex(fold_); }
template <class T> __attribute__((noinline)) static T rol(T v, unsigned s) { const unsigned w = 8 * sizeof(T); s &= w - 1; return s ? T(T(v << s) | T(v >> (w - s))) : v; }
template <class T, class S> __attribute__((noinline)) static void arith(T a, T b) {
  out(uint64_t(T(a + b))); out(uint64_t(T(a - b))); out(uint64_t(T(a * b))); out(T(a & b)); out(T(a | b)); out(T(a ^ b)); out(T(~a)); out(T(~(a | b)));
  out(a < b); out(S(a) < S(b)); out(a == b); out(a <= b ? 3 : 5); out(S(a) >= S(b) ? uint64_t(a) : uint64_t(b));
  if (b) { out(T(a / b)); out(T(a % b)); if (!(S(b) == -1)) { out(uint64_t(int64_t(S(S(a) / S(b))))); out(uint64_t(int64_t(S(S(a) % S(b))))); } }
  out(uint64_t(int64_t(S(a)))); out(T(a + 1) < a); out(uint64_t(a) * uint64_t(b)); out(uint64_t(int64_t(S(a)) >> 3));
  out(uint64_t(uint32_t(a)) * uint32_t(b)); out(uint64_t(int64_t(int32_t(a)) * int64_t(int32_t(b)) >> 5));
}
template <class T, class S> __attribute__((noinline)) static void shifts(T a, unsigned s) {
  const unsigned w = 8 * sizeof(T); s %= w; out(T(a << s)); out(T(a >> s)); out(uint64_t(int64_t(S(S(a) >> s)))); out(rol<T>(a, s)); out(rol<T>(a, w - s));
  out((a >> s) & 1 ? 7 : 9);
}
template <unsigned K> struct Fixed { static __attribute__((noinline)) void run(uint64_t a) {
    out(a << K); out(a >> K); out(uint64_t(int64_t(a) >> K)); out((a << K) | (a >> ((64 - K) & 63))); out((a >> K) & 0xff); out((a >> K) & 0xffffffff); out((a >> K) & 0x1fff);
    const uint32_t b = uint32_t(a); out(uint32_t(b << (K & 31))); out(b >> (K & 31)); out((b << (K & 31)) | (b >> ((32 - K) & 31))); out((b >> (K & 31)) & 7); out(uint64_t(int64_t(int32_t(b) >> (K & 31))));
    out((a & ~(uint64_t(0xff) << (K > 56 ? 56 : K))) | ((a >> 5 & 0xff) << (K > 56 ? 56 : K))); Fixed<K - 1>::run(a); } };
template <> struct Fixed<0> { static void run(uint64_t a) { out(a); } };
struct __attribute__((packed)) P { uint8_t x; uint16_t h; uint32_t w; uint64_t d; int16_t sh; int32_t sw; };
typedef uint64_t (*Fn)(uint64_t);
static uint64_t f0(uint64_t v) { return __builtin_bswap64(v); } static uint64_t f1(uint64_t v) { return __builtin_bswap32(uint32_t(v)); } static uint64_t f2(uint64_t v) { return __builtin_bswap16(uint16_t(v)); }
static uint64_t f3(uint64_t v) { return v ? uint64_t(__builtin_clzll(v)) : 64; } static uint64_t f4(uint64_t v) { return uint32_t(v) ? uint64_t(__builtin_ctz(uint32_t(v))) : 32; } static uint64_t f5(uint64_t v) { return uint64_t(__builtin_popcountll(v)); }
static uint64_t f6(uint64_t v) { switch (v % 9) { case 0: return v ^ 1; case 1: return v + 17; case 2: return v * 3; case 3: return v - 5; case 4: return ~v; case 5: return v << 3; case 6: return v >> 9; case 7: return 77; default: return v | 8; } }
extern "C" int cfg_run(long dump, long) {
  g_dump = dump; fold_ = 1; static const uint64_t V[] = {0, 1, 2, 3, 7, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x123456789abcdef0ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfedcba9876543210ull, 0xa5a5a5a55a5a5a5aull};
  for (uint64_t a : V) for (uint64_t b : V) { volatile uint64_t x = a, y = b; arith<uint8_t, int8_t>(uint8_t(x), uint8_t(y)); arith<uint16_t, int16_t>(uint16_t(x), uint16_t(y)); arith<uint32_t, int32_t>(uint32_t(x), uint32_t(y)); arith<uint64_t, int64_t>(x, y); } flush('a');
  for (uint64_t a : V) for (unsigned s = 0; s < 64; ++s) { volatile uint64_t x = a; shifts<uint8_t, int8_t>(uint8_t(x), s); shifts<uint16_t, int16_t>(uint16_t(x), s); shifts<uint32_t, int32_t>(uint32_t(x), s); shifts<uint64_t, int64_t>(x, s); } flush('s');
  for (uint64_t a : V) { volatile uint64_t x = a; Fixed<63>::run(x); } flush('f');
  static const Fn F[] = {f0, f1, f2, f3, f4, f5, f6}; for (uint64_t a : V) for (uint64_t b : V) for (Fn f : F) out(f(a ^ (b << 7))); flush('c');
  // unaligned accesses, byte order made explicit afterwards
  uint8_t m[64]; for (unsigned off = 0; off < 16; ++off) for (uint64_t a : V) {
    for (unsigned i = 0; i < 64; ++i) m[i] = uint8_t(i * 37 + 11); P p; memcpy(&p, m + off, sizeof p); p.h = uint16_t(p.h + a); p.w ^= uint32_t(a); p.d += a; p.sh = int16_t(p.sh - int16_t(a)); p.sw -= 3; memcpy(m + off + 1, &p, sizeof p);
    uint64_t d; memcpy(&d, m + off, 8);
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
    d = __builtin_bswap64(d);
#endif
    if (a == 0) out(d ^ m[off] ^ m[off + 7]); uint8_t n[32]; memcpy(n, m + off, 32); memmove(n + 3, n, 20); memset(n + 25, int(a), 3); int c = memcmp(n, m, 9); out(c < 0 ? 1 : c > 0 ? 2 : 3); if (a == 0) { const bool be = m[0] == 99; out(be); }
    volatile uint32_t w32[2] = {uint32_t(a), uint32_t(a >> 32)}; volatile uint16_t* q = (volatile uint16_t*)&w32[1]; (void)q; out(w32[1]); volatile int8_t s8 = int8_t(a); volatile int16_t s16 = int16_t(a); volatile int32_t s32 = int32_t(a); out(uint64_t(int64_t(s8))); out(uint64_t(int64_t(s16))); out(uint64_t(int64_t(s32)));
  } flush('m');
  for (uint64_t a : V) for (uint64_t b : V) { volatile double x = double(a), y = double(int64_t(b)); out(uint64_t(int64_t((x + 1) / 65536))); out(uint64_t(std::lround(std::log2(double(uint32_t(a)) + 1) / 8 + 0.5))); out(uint64_t(std::ceil(x / 4096 - 3))); out(x < y); out(x == y); out(x >= y); out(uint64_t(int64_t(y * 0.5))); out(uint32_t(double(uint32_t(a)) / 2)); } flush('d');
  cfg_out("N ", 2); hex(uint64_t(g_n)); return 0;
}
#ifndef CFG_FREESTANDING
#include <unistd.h>
extern "C" void cfg_out(const char* p, unsigned long n) { if (write(1, p, n) < 0) _exit(3); }
int main(int argc, char**) { return cfg_run(argc > 1 ? 1 : -1, 0); }
#endif
