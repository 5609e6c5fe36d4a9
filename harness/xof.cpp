// C04: SHAKE / cSHAKE over exhaustive families of output length, name, customization and message length.
#include "alg.hpp"
#include "common.hpp"
static long g_idx = 0, PART = 0, PARTS = 1;
static bool mine() { return g_idx++ % PARTS == PART; }
struct Q { long out, name, cust, msg; int k; };      // lengths; k selects byte patterns
static std::string desc(const Q& q) { char b[160]; snprintf(b, 160, "out=%ld name=%ld cust=%ld msg=%ld k=%d", q.out, q.name, q.cust, q.msg, q.k); return b; }
static std::string text(long n, int k) { std::string s(n, 0); for (long i = 0; i < n; ++i) s[i] = char(patByte(k, i)); return s; }
static Param par(const Q& q) { return Param{int(q.out), "", text(q.name, q.k), text(q.cust, q.k + 1)}; }
static void one(const Q& q) {
  Param p = par(q); Bytes m = pattern(q.k, q.msg, 7);
  Bytes r = refFlat(p, m.data(), m.size());
  H h = make(p); if (!m.empty() || (q.k & 1)) feed(h, m.data(), m.size()); h.finalize();
  Bytes d = h.toVector(); ++g_stat["traces"]; ++g_stat["states"]; g_stat["transitions"] += 2;
  if (d != r) { size_t i = 0; while (i < d.size() && i < r.size() && d[i] == r[i]) ++i; fail(desc(q), "length " + std::to_string(d.size()) + " want " + std::to_string(r.size()) + ", first difference at byte " + std::to_string(i)); return; }
  if (h.toString().size() != 2 * r.size() || (r.size() < 5000 && h.toString() != hex(r))) fail(desc(q), "toString");
  // the parameters survive reset()
  if (q.msg < 3 * B && q.out < 5000) { h.reset(); feed(h, m.data(), m.size()); h.finalize(); if (h.toVector() != r) fail(desc(q), "after reset()"); }
}
static void byteValue(int v) {
#if defined(A_KIND_CSHAKE)
  const std::string c = "value " + std::to_string(v); current(c); Param a{32, "", std::string(1, char(v)), ""}, b{32, "", "", std::string(1, char(v))}, d{32, "", std::string("a") + char(v) + "b", std::string("x") + char(v)};
      for (auto& p : {a, b, d}) { H h = make(p); feed(h, "msg", 3); h.finalize(); ++g_stat["traces"]; if (h.toVector() != refFlat(p, (const uint8_t*)"msg", 3)) fail(c, "byte value " + std::to_string(v) + " in a string"); } 
#else
  (void)v;
#endif
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0); PART = argl(argc, argv, "--part", 0); PARTS = argl(argc, argv, "--parts", 1);
  if (const char* c = args(argc, argv, "--case")) { int v; if (sscanf(c, "value %d", &v) == 1) { byteValue(v); return finish(); } Q q; if (sscanf(c, "out=%ld name=%ld cust=%ld msg=%ld k=%d", &q.out, &q.name, &q.cust, &q.msg, &q.k) != 5) return 3; one(q); return finish(); }
  auto go = [&](Q q) { if (!mine()) return; current(desc(q)); one(q); };
#if defined(A_KIND_CSHAKE)
  const bool C = true;
#else
  const bool C = false;
#endif
  const long nb = B;
  // F1: every output length x boundary messages (both customized and plain)
  for (long o = 0; o <= (th ? 6 : 3) * nb + 3; ++o) for (long m : {0L, 1L, nb - 1, nb, nb + 1, 2 * nb + 5}) for (int c = 0; c <= int(C); ++c) go({o, c ? 2 : 0, c ? 15 : 0, m, 5});
  // F2: every message length x boundary outputs
  for (long m = 0; m <= (th ? 8 : 4) * nb + 3; ++m) for (long o : {0L, 1L, 32L, nb - 1, nb, nb + 1, 2 * nb, 2 * nb + 1}) for (int c = 0; c <= int(C); ++c) go({o, 0, c ? 3 : 0, m, int(m % 3 + 4)});
  // F3: longer outputs and messages
  for (long o : {511L, 512L, 513L, 8191L, 8192L, 8193L, 65535L, 65536L, 65537L, 1048577L}) for (long m : {0L, 3L, nb}) go({o, 0, 0, m, 5});
  for (long m : {65535L, 65536L, 1048577L}) go({nb + 1, 0, 0, m, 5});
  go({16777217, 0, 0, 3, 5});
  for (int e = 12; e <= (th ? 27 : 24); ++e) for (long o : {(1L << e) - 1, 1L << e, 3L << (e - 1)}) go({o, 0, (e % 2) * 3 * long(C), 3, 5});
  if (th) { go({(1L << 29) + 1, 0, 0, 3, 5}); go({(1L << 28) + 1, 0, 0, 3, 5}); }
  if (C) {
    // F4: every name length x customization lengths, so that the padded prefix takes every residue, and vice versa
    const long lim = th ? 4 * nb : 2 * nb + 2;
    for (long n = 0; n <= lim; ++n) for (long c : {0L, 1L, 2L, 31L, 32L, 33L, nb}) { go({32, n, c, 4, 5}); go({32, c, n, nb - 1, 5}); go({nb + 1, n, c, 0, int(n % 6)}); }
    if (th) for (long n = 0; n <= nb + 40; ++n) for (long c = 0; c <= nb + 40; ++c) go({20, n, c, 1, 5});
    else for (long n = 0; n <= nb + 6; n += 1) for (long c = n % 5; c <= nb + 6; c += 5) go({20, n, c, 1, 5});
    // F5: string lengths where the encoded bit length gains a byte
    for (long n : {31L, 32L, 33L, 8191L, 8192L, 8193L, 2097151L, 2097152L, 2097153L}) { go({32, n, 0, 3, 5}); go({32, 0, n, 3, 5}); if (n < 10000) for (long c : {0L, 31L, 32L, 8191L, 8192L}) go({32, n, c, 3, 5}); }
    for (int e = 12; e <= (th ? 28 : 25); ++e) for (long n : {(1L << e) - 1, 1L << e, (1L << e) + 1, 3L << (e - 1)}) { go({32, n, 0, 3, 5}); go({32, 0, n, 3, 5}); }
    for (int e = 9; e <= (th ? 22 : 18); ++e) for (int f = 0; f < e - 1; ++f) { const long n = (1L << e) + (1L << f); go({32, n, 0, 3, 5}); go({32, 1, n, 3, 5}); }
    go({32, 0, 1L << 29, 3, 0});
    if (th) { go({32, 1L << 29, 0, 3, 5}); go({32, 3, (1L << 29) - 1, 3, 5}); go({32, 0, (1L << 29) + 5, 3, 5}); }
    // F6: every byte value in name and customization
    for (int v = 0; v < 256; ++v) if (mine()) byteValue(v);
  }
  // F7: prefix property on the real class alone
  if (mine()) for (int c = 0; c <= int(C); ++c) { Q q{4 * nb, 0, c ? 4 : 0, nb + 9, 5}; Param p = par(q); Bytes m = pattern(5, q.msg, 7); H h = make(p); feed(h, m.data(), m.size()); h.finalize(); Bytes full = h.toVector();
    for (long o = 0; o <= 4 * nb; ++o) { Param s = p; s.outLen = int(o); H g = make(s); feed(g, m.data(), m.size()); g.finalize(); Bytes d = g.toVector(); ++g_stat["traces"]; Q qq = q; qq.out = o; if (Bytes(full.begin(), full.begin() + o) != d) fail(desc(qq), "not a prefix of the longer output"); } }
  sample(desc({nb + 1, C ? 33 : 0, C ? 8192 : 0, nb - 1, 5}));
  return finish();
}
