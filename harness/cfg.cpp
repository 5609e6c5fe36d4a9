// A fixed, exhaustive family of histories over one class; prints one fold of all results per group.
// Used to compare build configurations (C14) and machines (C19): the text must be the same everywhere.
// Free of stdio and of anything else that would need a hosted environment.
#define NO_REF 1
#include "alg.hpp"
#include <functional>
#include <new>
extern "C" void cfg_out(const char* p, unsigned long n);
static long g_dump = -1; static long g_group = 0; static uint64_t g_fold; static unsigned long g_cases = 0;
static const char* g_name = "";
static std::string num(uint64_t v) { char b[24]; int i = 24; do { b[--i] = char('0' + v % 10); v /= 10; } while (v); return std::string(b + i, 24 - i); }
static std::string hexOf(const uint8_t* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
static void print(const std::string& s) { cfg_out(s.data(), (unsigned long)s.size()); }
static void result(const std::string& kase, const uint8_t* p, size_t n) {
  ++g_cases; for (size_t i = 0; i < n; ++i) g_fold = (g_fold ^ p[i]) * 0x100000001b3ull; g_fold = (g_fold ^ (n + 1)) * 0x9E3779B97F4A7C15ull; g_fold ^= g_fold >> 29;
  if (g_dump == g_group) print("C " + std::string(g_name) + " " + kase + " " + hexOf(p, n) + "\n");
}
static void result(const std::string& k, const Bytes& b) { result(k, b.data(), b.size()); }
static void begin(const char* n) { g_name = n; g_fold = 0xcbf29ce484222325ull; }
static void end() { uint8_t b[8]; for (int i = 0; i < 8; ++i) b[i] = uint8_t(g_fold >> (56 - 8 * i)); print("G " + num(g_group) + " " + g_name + " " + hexOf(b, 8) + "\n"); ++g_group; }
static uint8_t pat(uint64_t i) { uint64_t z = (i + 1) * 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return uint8_t(z >> 56); }
static uint8_t* g_d;
static Bytes whole(const Param& p, const uint8_t* d, size_t n) { H h = make(p); if (n) feed(h, d, n); h.finalize(); return digestOf(h); }
template <class T> static void ints(Bytes& o, const H& h) { const T v = h; for (size_t i = 0; i < sizeof(T); ++i) o.push_back(uint8_t(v >> (8 * (sizeof(T) - 1 - i)))); }
static Bytes readAll(const H& h) {
  Bytes o = digestOf(h); Bytes v = h.toVector(); o.insert(o.end(), v.begin(), v.end()); std::string s = h.toString(); o.insert(o.end(), s.begin(), s.end());
  ints<uint8_t>(o, h); ints<uint16_t>(o, h); ints<uint32_t>(o, h); ints<uint64_t>(o, h);
  // size_t and std::hash: as wide as the machine; their leading bytes must be those of the digest
  const size_t z = h, q = std::hash<H>()(h); bool ok = z == q; for (size_t i = 0; i < sizeof z; ++i) { const size_t sh = 8 * (sizeof z - 1 - i); const uint8_t b = uint8_t(z >> sh); if (v.size() >= sizeof z && b != v[i]) ok = false; }
  o.push_back(ok); return o;
}
template <class T> static void typed(const Param& p, const char* tn) {
  T a[11]; memcpy(a, g_d + 3, sizeof a);
  { H h = make(p); h.FEED(a); h.finalize(); result(std::string("array ") + tn, digestOf(h)); }
  for (int n = 0; n <= 11; ++n) { H h = make(p); feed(h, g_d, 5); h.FEED(H::Span<T>(a, n)); h.FEED(H::Span<const T>(a, n)); h.finalize(); result(std::string("span ") + tn + " " + num(n), digestOf(h)); }
}
static void seqs(const Param& p, std::string& s, int depth) {
  // f = 1 byte, g = B-1, h = B+1 bytes, r = finalize, read, reset; c = go on with a copy; a = assign-from-copy via reset object
  { H h = make(p); size_t pos = 0; Bytes o;
    H* cur = &h; H* other = nullptr; alignas(H) static unsigned char mem[sizeof(H)];
    for (char c : s) switch (c) {
      case 'f': feed(*cur, g_d + pos, 1); pos += 1; break;
      case 'g': feed(*cur, g_d + pos, B - 1); pos += B - 1; break;
      case 'h': feed(*cur, g_d + pos, B + 1); pos += B + 1; break;
      case 'r': cur->finalize(); { Bytes r = readAll(*cur); o.insert(o.end(), r.begin(), r.end()); } cur->reset(); break;
      case 'c': if (!other) { other = new (mem) H(*cur); o.push_back(*other == *cur); feed(h, g_d, 3); cur = other; } break;
    }
    cur->finalize(); Bytes r = readAll(*cur); o.insert(o.end(), r.begin(), r.end());
    if (other) { h.finalize(); r = readAll(h); o.insert(o.end(), r.begin(), r.end()); o.push_back(h == *other); o.push_back(h != *other); other->~H(); }
    result(s, o);
  }
  if (int(s.size()) < depth) for (char c : {'f', 'g', 'h', 'r', 'c'}) { s.push_back(c); seqs(p, s, depth); s.pop_back(); }
}
extern "C" int cfg_run(long dump, long size) {
  g_dump = dump; const size_t N = 1 << 16; g_d = static_cast<uint8_t*>(operator new(N)); for (size_t i = 0; i < N; ++i) g_d[i] = pat(i);
  const std::vector<Param>& P = params();
  for (size_t pi = 0; pi < P.size(); ++pi) {
    const Param& p = P[pi]; const std::string tag = "p" + num(pi) + " "; const size_t top = size_t(B) * (size ? 9 : pi ? 2 : 4) + 2;
    begin("lengths"); for (size_t n = 0; n <= top; ++n) result(tag + num(n), whole(p, g_d + n, n)); end();
    begin("sequences"); { std::string s; seqs(p, s, size ? (pi ? 4 : 6) : pi ? 2 : 4); } end();
    begin("types"); typed<uint8_t>(p, "u8"); typed<uint16_t>(p, "u16"); typed<uint32_t>(p, "u32"); typed<uint64_t>(p, "u64"); typed<int>(p, "int"); typed<char>(p, "char"); typed<signed char>(p, "schar"); end();
    if (pi == 0 || size) {
      begin("splits"); for (int f = 0; f <= B; ++f) for (int n : {0, 1, B - f - 1, B - f, B - f + 1, B, 2 * B}) if (n >= 0) { H h = make(p); feed(h, g_d, f); feed(h, g_d + f, n); h.finalize(); result(num(f) + "+" + num(n), digestOf(h)); } end();
      begin("alignment"); { uint8_t* big = static_cast<uint8_t*>(operator new(sizeof(H) * 2 + 64 + 8 * B)); for (int a = 0; a < 16; ++a) for (int n : {1, 7, B - 1, B, 2 * B + 3}) { for (int i = 0; i < n; ++i) big[a + i] = g_d[i]; result(num(a) + " " + num(n), whole(p, big + a, n)); }
        for (unsigned a = 0; a < 64; a += alignof(H) <= 8 ? 8 : 64) { H* h = make_at(big + 8 * B / 8 * 8 + a, p); feed(*h, g_d, 2 * B + 5); h->finalize(); result("object " + num(a), digestOf(*h)); h->~H(); } operator delete(big); } end();
      begin("values"); for (int v = 0; v < 256; ++v) { uint8_t b = uint8_t(v); result("byte " + num(v), whole(p, &b, 1)); Bytes m(size_t(B) + 9, b); result("fill " + num(v), whole(p, m.data(), m.size())); } end();
      begin("reading"); for (int i = 0; i < 40; ++i) { H h = make(p); feed(h, g_d + i, i); h.finalize(); result(num(i), readAll(h)); } end();
    }
  }
#if defined(A_KIND_SIP)
  begin("keys"); for (int b = 0; b < 128; ++b) { Param q = P[0]; q.key[b / 8] = char(q.key[b / 8] ^ (1 << (b % 8))); result(num(b), whole(q, g_d, 21)); } end();
#endif
#if defined(A_KIND_SHAKE) || defined(A_KIND_CSHAKE) || defined(A_KIND_TUPLE)
  begin("output lengths"); for (int n = 1; n <= (size ? 3 * B : B + 3); ++n) { Param q = P[0]; q.outLen = n; result(num(n), whole(q, g_d, 9)); } end();
#endif
#if defined(A_KIND_CSHAKE) || defined(A_KIND_TUPLE)
  begin("strings"); for (int n : {0, 1, 7, 8, 31, 32, 33, 255, 256, 257, B - 5, B - 4, B - 3, B - 2, B - 1, B, B + 1, 8191, 8192, 40000}) { Param q = P[0]; q.cust = std::string(size_t(n), char('A' + n % 26)); result("custom " + num(n), whole(q, g_d, 9)); q.name = q.cust; q.cust = "x"; result("name " + num(n), whole(q, g_d, 9)); } end();
#endif
#if defined(A_KIND_TUPLE)
  begin("tuples"); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) for (int k = 0; k < 6; ++k) { const int L[6] = {0, 1, 2, 31, 32, B}; H h = make(0); feed(h, g_d, L[i]); feed(h, g_d, L[j]); feed(h, g_d, L[k]); h.finalize(); result(num(i * 36 + j * 6 + k), digestOf(h)); } end();
#endif
  print("N " + num(g_cases) + "\n"); operator delete(g_d);
  return 0;
}
#ifdef CFG_FREESTANDING
template class std::basic_string<char>;
#elif !defined(CFG_NO_MAIN)
#include <unistd.h>
#include <cstdlib>
static std::string g_buf;
extern "C" void cfg_out(const char* p, unsigned long n) { g_buf.append(p, n); if (g_buf.size() > 60000) { if (write(1, g_buf.data(), g_buf.size()) < 0) _exit(3); g_buf.clear(); } }
int main(int argc, char** argv) {
  long dump = -1, size = 0; for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--dump")) dump = atol(argv[i + 1]); if (!strcmp(argv[i], "--size")) size = atol(argv[i + 1]); }
  int r = cfg_run(dump, size); if (write(1, g_buf.data(), g_buf.size()) < 0) return 3; return r;
}
#endif
