// C15: plans (pieces, reset, copies) evaluated in constant expressions and again at run time.
#define NO_REF 1
#include "alg.hpp"
#include <array>
#include <cstdio>
#include <utility>
#ifndef CT_PART
#define CT_PART 0
#endif
#ifndef CT_PARTS
#define CT_PARTS 1
#endif
#ifndef CT_SIZE
#define CT_SIZE 0
#endif
typedef uint8_t Byte_;
static constexpr int LONG = B <= 16 && sizeof(H) > 64 ? 1000 : 4093;   // MD2 is slow
static constexpr int MAXLEN = 6 * B + 64 > LONG ? 6 * B + 64 : LONG;
struct Msg { Byte_ b[MAXLEN]; };
static constexpr Msg mkMsg() { Msg m{}; uint32_t x = 12345; for (int i = 0; i < MAXLEN; ++i) { x = x * 1103515245u + 12345u; m.b[i] = Byte_(x >> 16); } return m; }
static constexpr Msg MSG = mkMsg();
#if defined(A_KIND_SIP)
static constexpr Byte_ KEY[2][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {0xff, 0x80, 0, 7, 1, 0xfe, 3, 9, 200, 100, 50, 25, 12, 6, 3, 1}};
#define FRESH(k) H(H::Span<const Byte_>(KEY[k], 16))
#define NKEY 2
#else
#define FRESH(k) H()
#define NKEY 1
#endif
// a plan: kind, first length, second length
struct Plan { int kind, a, b; };
static constexpr int LENS[] = {0, 1, 2, 3, 7, 8, 9, B / 2, B - 18, B - 17, B - 16, B - 15, B - 9, B - 8, B - 7, B - 2, B - 1, B, B + 1, B + 2, 2 * B - 17, 2 * B - 16, 2 * B - 9, 2 * B - 8, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, 3 * B + 5};
static constexpr int NL = int(sizeof LENS / sizeof *LENS);
// 9: long messages; 10: assignments, std::hash; 11: an object that is itself a constant, read at run time
// 0: whole; 1: two pieces; 2: reset in between; 3: copy goes on; 4: array overload; 5: one byte at a time; 6: accessors and comparison; 7: used after finalize+reset; 8: whole, integer conversions
static constexpr int NX = 9;
static constexpr Plan EXTRA[NX] = {{9, LONG, 0}, {9, 3, LONG - 10}, {9, B + 1, LONG - 2 * B}, {10, 0, B + 3}, {10, B - 1, 1}, {10, B, 2 * B + 1}, {11, 0, 0}, {11, B + 1, 0}, {11, 2 * B - 9, 0}};
static constexpr int planCount() {
#if CT_SIZE
  return NX + 9 * NL + (B <= 64 ? (2 * B + 2) + (B + 1) * 5 : 2 * B + 2);
#else
  return NX + 9 * NL;
#endif
}
static constexpr Plan plan(int i) {
  if (i < NX) return EXTRA[i];
  i -= NX;
  if (i < 9 * NL) { const int k = i / NL; int a = LENS[i % NL]; if (a < 0) a = 0; int b = 0;
    if (k == 1 || k == 3) b = LENS[(i % NL * 7 + 5) % NL]; if (b < 0) b = 0; if (k == 1 && a + b > 3 * B + 5) b = a > 3 * B + 5 ? 0 : 3 * B + 5 - a; return {k, a, b}; }
  i -= 9 * NL; if (i < 2 * B + 2) return {0, i, 0};
  i -= 2 * B + 2; const int f = i / 5; const int d[5] = {0, 1, B - f, B - f + 1, B}; return {1, f, d[i % 5]};
}
struct Out { Byte_ d[3 * 72 + 40]; int n; };
template <class A> static constexpr void put(Out& o, const A& a) { for (const Byte_ x : a) o.d[o.n++] = x; }
template <class T> static constexpr void putInt(Out& o, const T v) { for (size_t i = 0; i < sizeof(T); ++i) o.d[o.n++] = Byte_(v >> (8 * (sizeof(T) - 1 - i))); }
static constexpr H::Span<const Byte_> sp(int off, int n) { return H::Span<const Byte_>(MSG.b + off, size_t(n)); }
// (a class whose objects cannot be assigned is copied instead)
template <class T> static constexpr T assigned(T to, const T& from, const bool move) { if constexpr (std::is_copy_assignable<T>::value && std::is_move_assignable<T>::value) { if (move) { T t = from; to = static_cast<T&&>(t); } else to = from; return to; } else return from; }
static constexpr Out eval(const Plan p, const int key) {
  Out o{}; H h = FRESH(key);
  switch (p.kind) {
    case 0: h.addData(sp(0, p.a)); break;
    case 1: h.addData(sp(0, p.a)); h.addData(sp(p.a, p.b)); break;
    case 2: h.addData(sp(0, p.a)); h.reset(); h.addData(sp(1, B + 1)); break;
    case 3: { h.addData(sp(0, p.a)); H c = h; c.addData(sp(p.a / 2, p.b)); c.finalize(); put(o, c.toArray()); break; }
    case 4: { Byte_ a[B + 3] = {}; for (int i = 0; i < B + 3; ++i) a[i] = MSG.b[i]; h.addData(sp(0, p.a)).addData(a); break; }
    case 5: for (int i = 0; i < p.a; ++i) h.addData(sp(i, 1)); break;
    case 6: { h.addData(sp(0, p.a)); H c = FRESH(key); c.addData(sp(0, p.a / 3)); c.addData(sp(p.a / 3, p.a - p.a / 3)); c.finalize(); H g = h; g.finalize(); o.d[o.n++] = g == c; o.d[o.n++] = g != c; break; }
    case 7: h.addData(sp(2, 5)); h.finalize(); h.reset(); h.addData(sp(0, p.a)); break;
    case 8: h.addData(sp(0, p.a)); break;
    case 9: h.addData(sp(0, p.a)); h.addData(sp(p.a, p.b)); break;
    case 10: { H c = FRESH(NKEY - 1 - key); c.addData(sp(1, p.b)); h.addData(sp(0, p.a)); H c2 = assigned<H>(c, h, false); H d = assigned<H>(FRESH(key), c2, true); d.addData(sp(p.a, p.b)); h.addData(sp(p.a, p.b)); d.finalize(); put(o, d.toArray());
      putInt<uint64_t>(o, std::hash<H>()(d)); H e = d; o.d[o.n++] = e == d; e.reset(); e.addData(sp(0, 1)); e.finalize(); put(o, e.toArray()); break; }
    case 11: h.addData(sp(0, p.a)); break;
  }
  h.finalize(); put(o, h.toArray());
  if (p.kind == 8) { putInt<uint8_t>(o, h); putInt<uint16_t>(o, h); putInt<uint32_t>(o, h); putInt<uint64_t>(o, h); putInt<unsigned long long>(o, h); }
  return o;
}
static constexpr int TOTAL = planCount() * NKEY, FROM = TOTAL * CT_PART / CT_PARTS, TO = TOTAL * (CT_PART + 1) / CT_PARTS;
static constexpr H constObject(const int n, const int key) { H h = FRESH(key); h.addData(sp(0, n)); h.finalize(); return h; }
static constexpr H unfinished(const int n, const int key) { H h = FRESH(key); h.addData(sp(0, n)); return h; }
template <int N, int K> struct Const { static constexpr H fin = constObject(N, K), mid = unfinished(N, K); };
template <int N, int K> static std::string checkConst() {   // objects that are constants: read at run time, and copied and continued at run time
  H r = FRESH(K); r.addData(sp(0, N)); H q = r; r.finalize(); const H& f = Const<N, K>::fin;
  if (f.toString() != r.toString() || f.toVector() != r.toVector() || f.toArray() != r.toArray() || !(f == r) || static_cast<uint32_t>(f) != static_cast<uint32_t>(r)) return "a constant object reads differently at run time";
  H m = Const<N, K>::mid; m.addData(sp(N, B + 1)); m.finalize(); q.addData(sp(N, B + 1)); q.finalize(); if (m.toString() != q.toString()) return "a copy of a constant object continues differently";
  H z = assigned<H>(m, Const<N, K>::fin, false); z.reset(); z.addData(sp(0, N)); z.finalize(); return z.toString() == r.toString() ? "" : "a copy of a constant object is different after reset";
}
template <int I> struct At { static constexpr Out v = eval(plan(I / NKEY), I % NKEY); };
template <int... I> static void all(const Out** t, std::integer_sequence<int, I...>) { const Out* x[] = {&At<FROM + I>::v...}; for (int i = 0; i < TO - FROM; ++i) t[i] = x[i]; }
static std::string hx(const Byte_* p, int n) { std::string s; char b[4]; for (int i = 0; i < n; ++i) { snprintf(b, 4, "%02x", p[i]); s += b; } return s; }
int main(int argc, char** argv) {
  static const Out* t[TO - FROM]; all(t, std::make_integer_sequence<int, TO - FROM>());
  int fails = 0; volatile int from = FROM; (void)argc; (void)argv;
  for (int i = from; i < TO; ++i) {
    const Plan p = plan(i / NKEY); const int key = i % NKEY; const Out r = eval(p, key); const Out& c = *t[i - FROM]; std::string why;
    if (r.n != c.n || memcmp(r.d, c.d, r.n)) why = "at compile time " + hx(c.d, c.n) + " at run time " + hx(r.d, r.n);
    if (why.empty() && (p.kind == 0 || p.kind == 1 || p.kind == 5 || p.kind == 7 || p.kind == 8 || p.kind == 9)) {   // and the plainest use: one pointer-and-length call on a heap buffer
      const int n = p.kind == 1 || p.kind == 9 ? p.a + p.b : p.a; Bytes m(MSG.b, MSG.b + n);
#if defined(A_KIND_SIP)
      H h(H::Span<const uint8_t>(KEY[key], 16));
#else
      H h;
#endif
      if (n) feed(h, m.data(), n); h.finalize(); Bytes d = digestOf(h); if (memcmp(d.data(), c.d, d.size())) why = "at compile time " + hx(c.d, c.n) + " at run time in one call " + hx(d.data(), int(d.size()));
      std::string s = h.toString(); if (s != hx(c.d, int(d.size()))) why = "toString";
    }
    if (!why.empty() && ++fails < 4) printf("FAIL plan kind=%d a=%d b=%d key=%d | %s\n", p.kind, p.a, p.b, key, why.c_str());
  }
  for (const std::string& why : {checkConst<0, 0>(), checkConst<B - 1, NKEY - 1>(), checkConst<2 * B + 3, 0>()}) if (!why.empty() && ++fails < 4) printf("FAIL constant objects | %s\n", why.c_str());
  printf("STAT plans %d\nSAMPLE plans %d..%d of %d\nDONE %d\n", TO - FROM, FROM, TO - 1, TOTAL, fails); return fails != 0;
}
