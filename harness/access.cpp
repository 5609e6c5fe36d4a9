// C09: every sequence of accessors to a depth, on a const reference, interleaved with reuse and copies;
// every byte value at every digest position.  Oracle: the digest bytes of an untouched twin object.
#include "alg.hpp"
#include "common.hpp"
#include <functional>
#include <set>
#include <type_traits>
#include <utility>
static Bytes g_pat;
static const size_t ML[6] = {0, 1, 5, size_t(B) - 1, size_t(B) + 3, size_t(3 * B)};
static H fin(int p, int m) { H h = make(p); feed(h, g_pat.data() + 31 * m, ML[m % 6]); h.finalize(); return h; }
static const Bytes& twin(int p, int m) { static std::map<std::pair<int, int>, Bytes> memo; auto& r = memo[{p, m}]; if (r.empty()) { H h = fin(p, m); const H& c = h; r = c.toVector(); } return r; }
template <class T> static T lead(const Bytes& d) { T r = 0; for (size_t i = 0; i < sizeof(T) && i < d.size(); ++i) r = T((r << 8) | d[i]); return r; }
static const char ACC[] = "SVA1248nzhEwdx";
typedef std::decay_t<decltype(std::declval<H&>().finalize())> R;      // what a chain of calls ends with; may be a base of H
template <class X> static std::enable_if_t<std::is_default_constructible<std::hash<X>>::value, size_t> stdHash(const X& h) { return std::hash<X>()(h); }
template <class X> static std::enable_if_t<!std::is_default_constructible<std::hash<X>>::value, size_t> stdHash(const X& h) { return static_cast<size_t>(h); }
template <class X> static Bytes arrayOf(const X& h) {
#if defined(A_NOARRAY)
  return h.toVector();
#else
  auto a = h.toArray(); return Bytes(a.begin(), a.end());
#endif
}
template <class X> static bool one(char a, const X& h, const Bytes& d, std::string& why) {
  switch (a) {
    case 'S': { std::string s = h.toString(), w = hex(d); if (s != w) { why = "toString " + s + " but bytes are " + w; return false; } return true; }
    case 'V': { Bytes v = h.toVector(); if (v != d) { why = "toVector " + hex(v) + " want " + hex(d); return false; } return true; }
    case 'A': { Bytes v = arrayOf(h); if (v != d) { why = "toArray " + hex(v) + " want " + hex(d); return false; } return true; }
#define INT(c, T) case c: { T x = h; T y = static_cast<T>(h); T w = lead<T>(d); if (x != w || y != w) { if (sizeof(T) > 8) { why = "operator " #T " differs from the leading bytes"; return false; } why = std::string("operator " #T " gave ") + std::to_string((unsigned long long)x) + " want " + std::to_string((unsigned long long)w); return false; } return true; }
    INT('1', uint8_t) INT('2', uint16_t) INT('4', uint32_t) INT('8', uint64_t) INT('n', unsigned long long) INT('z', size_t) INT('w', char16_t) INT('d', char32_t) INT('x', unsigned __int128)
    case 'h': { size_t x = stdHash(h); if (x != lead<size_t>(d)) { why = "std::hash"; return false; } return true; }
    case 'E': { if (!(h == h) || h != h) { why = "not equal to itself"; return false; } return true; }
  }
  return true;
}
// sequence letters: accessors, N = reset and hash another message, C = continue with a copy, D = read both object and copy
static std::string desc(int p, int m, const std::string& s) { return "p=" + std::to_string(p) + " m=" + std::to_string(m) + " s=" + s; }
static void runSeq(int p, int m, const std::string& seq) {
  ++g_stat["traces"]; g_stat["transitions"] += seq.size();
  H h = fin(p, m); std::string why; std::vector<H> keep; keep.reserve(8);
  for (char a : seq) {
    if (a == 'N') { m = (m + 1) % 60; h.reset(); feed(h, g_pat.data() + 31 * m, ML[m % 6]); h.finalize(); continue; }
    if (a == 'C') { if (keep.size() < 8) keep.push_back(h); continue; }
    if (!one(a, h, twin(p, m), why)) { fail(desc(p, m, seq), why); return; }
  }
  if (h.toVector() != twin(p, m) || h.toString() != hex(twin(p, m))) fail(desc(p, m, seq), "reading changed the result");
  // copies made earlier still hold what they held
  size_t k = 0; int mm = m; for (char a : seq) if (a == 'N') mm = (mm + 59) % 60; for (char a : seq) { if (a == 'N') mm = (mm + 1) % 60; if (a == 'C' && k < keep.size()) { for (const char* q = ACC; *q; ++q) if (!one(*q, keep[k], twin(p, mm), why)) { fail(desc(p, mm, seq), "copy: " + why); return; } ++k; } }
}
// the result of a chain of calls, by reference and by value
static void chain(int p, int m) {
  const std::string c = "p=" + std::to_string(p) + " chain=" + std::to_string(m); std::string why; current(c);
  H h = make(p); auto& r = h.FEED(g_pat.data() + 31 * m, ML[m % 6]).finalize(); R v(r); const R k = make(p).FEED(g_pat.data() + 31 * m, ML[m % 6]).finalize(); R w(std::move(v)); const H b(k);
  const Bytes& d = twin(p, m); g_stat["transitions"] += 4;
  for (const char* q = ACC; *q; ++q) if (!one<R>(*q, r, d, why) || !one<R>(*q, k, d, why) || !one<R>(*q, w, d, why) || !one<H>(*q, b, d, why)) { fail(c, "result of a chain of calls: " + why); return; }
  w.reset(); w.FEED(g_pat.data() + 31 * m, ML[m % 6]).finalize(); for (const char* q = ACC; *q; ++q) if (!one<R>(*q, w, d, why)) { fail(c, "result of a chain of calls, after reset(): " + why); return; }
}
// one reader, very many times on one object
static void often(int p, char a, long n) {
  const std::string c = "p=" + std::to_string(p) + " often=" + a + " n="; current(c + std::to_string(n)); H h = fin(p, 3); const H& r = h; std::string why; const Bytes& d = twin(p, 3);
  for (long i = 1; i <= n; ++i) { ++g_stat["transitions"]; if (!one(a, r, d, why)) { fail(c + std::to_string(i), why); return; } }
  for (const char* q = ACC; *q; ++q) if (!one(*q, r, d, why)) { fail(c + std::to_string(n), "afterwards: " + why); return; }
  ++g_stat["traces"];
}
// all the ways of reading one digest against each other, once each (many digests)
static Bytes quick1(int p, uint32_t i) {
  H h = make(p); feed(h, &i, sizeof i); h.finalize(); const H& c = h; Bytes d = c.toVector(); std::string why;
  ++g_stat["traces"]; ++g_stat["states"]; g_stat["transitions"] += 9;
  for (const char* q = "SA1248hV"; *q; ++q) if (!one(*q, c, d, why)) { fail("p=" + std::to_string(p) + " q=" + std::to_string(i), why); break; }
  return d;
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0);
  g_pat = pattern(5, 31 * 64 + 4 * B + 64);
  if (const char* c = args(argc, argv, "--case")) {
    int p, m; char s[256] = ""; if (sscanf(c, "p=%d m=%d s=%255s", &p, &m, s) == 3) { runSeq(p, m, s); return finish(); }
    long i; if (sscanf(c, "p=%d q=%ld", &p, &i) == 2) { quick1(p, i); return finish(); }
    if (sscanf(c, "p=%d i=%ld", &p, &i) == 2) {
      H h = make(p); feed(h, &i, sizeof i); h.finalize(); H t = make(p); feed(t, &i, sizeof i); t.finalize(); Bytes d = t.toVector(); std::string why;
      for (const char* q = ACC; *q; ++q) if (!one(*q, h, d, why)) fail(c, why);
      return finish(); }
    { char a; long n; if (sscanf(c, "p=%d often=%c n=%ld", &p, &a, &n) == 3) { often(p, a, n); return finish(); } }
    if (sscanf(c, "p=%d chain=%d", &p, &m) == 2) { chain(p, m); return finish(); }
    if (sscanf(c, "p=%d len", &p) == 1) { H h = fin(p, 3); if (int(h.toVector().size()) != params()[p].outLen || h.toString().size() != 2 * size_t(params()[p].outLen)) fail(c, "digest length"); return finish(); }
    return 3;
  }
  const int NP = params().size();
  std::string al = std::string(ACC) + "NC";
  for (int p = 0; p < NP; ++p) {
    current("p=" + std::to_string(p) + " len");
    for (int m = 0; m < 6; ++m) { H h = fin(p, m); if (int(h.toVector().size()) != params()[p].outLen || h.toString().size() != 2 * size_t(params()[p].outLen) || int(digestOf(h).size()) != params()[p].outLen) fail("p=" + std::to_string(p) + " len", "digest length is " + std::to_string(h.toVector().size()) + ", documented " + std::to_string(params()[p].outLen)); }
    for (int m = 0; m < 60; ++m) chain(p, m);
    if (params()[p].outLen <= 64) for (const char* q = ACC; *q; ++q) often(p, *q, th ? 1100000 : 66000);
    for (int depth = 1; depth <= (th ? 5 : 4); ++depth) for (int m = 0; m < (depth <= 3 ? 6 : 1); ++m) {
      std::vector<size_t> ix(depth, 0); std::string s(depth, 0);
      for (;;) {
        for (int i = 0; i < depth; ++i) s[i] = al[ix[i]];
        if (ix[depth - 1] == 0) current(desc(p, m, s));
        ++g_stat["states"]; runSeq(p, m, s);
        int i = depth - 1; while (i >= 0 && ++ix[i] == al.size()) ix[i--] = 0;
        if (i < 0) break;
      }
    }
    // every byte value at every digest position
    const int D = params()[p].outLen; std::vector<std::set<int>> seen(D); long full = 0; std::string why;
    for (long i = 0; i < (th ? 60000 : 6000) || (full < D && i < 200000); ++i) {
      if ((i & 255) == 0) current("p=" + std::to_string(p) + " i=" + std::to_string(i));
      H h = make(p); feed(h, &i, sizeof i); h.finalize(); H t = make(p); feed(t, &i, sizeof i); t.finalize();
      const Bytes d = t.toVector();
      for (const char* q = ACC; *q; ++q) if (!one(*q, h, d, why)) { fail("p=" + std::to_string(p) + " i=" + std::to_string(i), why); break; }
      for (int j = 0; j < D && j < int(d.size()); ++j) if (seen[j].size() < 256) { seen[j].insert(d[j]); if (seen[j].size() == 256) ++full; }
      ++g_stat["traces"];
    }
    if (D <= 64) {      // every pair of values at adjacent digest positions
      const std::string an = A_NAME; const uint64_t N = th ? (an == "crc_32" ? 1ull << 28 : 1ull << 23) : 1ull << 20; const uint64_t step = 2654435761u;
      std::vector<std::vector<bool>> pr(D - 1, std::vector<bool>(65536)); uint64_t k = 0; const size_t before = g_fails;
      for (uint64_t i = 0; i < N && g_fails < before + 3; ++i) {
        const uint32_t x = uint32_t(i * step); if ((i & 4095) == 0) current("p=" + std::to_string(p) + " q=" + std::to_string(x));
        Bytes d2 = quick1(p, x); if (int(d2.size()) != D) break;
        for (int j = 0; j + 1 < D; ++j) { auto&& b = pr[j][d2[j] << 8 | d2[j + 1]]; if (!b) { b = true; ++k; } }
      }
      g_stat["adjacent_pairs_seen"] += k; g_stat["adjacent_pairs"] += uint64_t(D - 1) * 65536;
    }
    g_stat["digest_positions"] += D; g_stat["digest_positions_with_all_256_values_seen"] += full;
  }
  sample(desc(0, 3, "SN4CA"));
  return finish();
}
