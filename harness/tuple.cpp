// C05: all tuples within bounds; reference digests and global injectivity.
#include "alg.hpp"
#include "common.hpp"
#include <unordered_map>
static long g_idx = 0, PART = 0, PARTS = 1;
static bool mine() { return g_idx++ % PARTS == PART; }
// a tuple as text: element lengths, pattern numbers: "out=.. cust=.. t=len/k,len/k,..."
struct E { long n; int k; };
struct Q { long out, cust; std::vector<E> t; };
static std::string desc(const Q& q) { std::string s = "out=" + std::to_string(q.out) + " cust=" + std::to_string(q.cust) + " t="; for (size_t i = 0; i < q.t.size(); ++i) s += (i ? "," : "") + std::to_string(q.t[i].n) + "/" + std::to_string(q.t[i].k); return s; }
static std::unordered_map<std::string, std::string> g_digest;   // 32-byte output -> serialized tuple
static std::string ser(const Chunks& c) { std::string s; for (auto& x : c) { uint64_t n = x.size(); s.append(reinterpret_cast<const char*>(&n), 8); s.append(reinterpret_cast<const char*>(x.data()), x.size()); } return s; }
static void check(const Param& p, const Chunks& c, const std::string& what, bool inj) {
  H h = make(p); for (auto& x : c) feed(h, x.data(), x.size()); h.finalize();
  Bytes d = h.toVector(), r = refChunks(p, c);
  ++g_stat["traces"]; ++g_stat["states"]; g_stat["transitions"] += c.size() + 1;
  if (d != r) { size_t i = 0; while (i < d.size() && i < r.size() && d[i] == r[i]) ++i; fail(what, "length " + std::to_string(d.size()) + " want " + std::to_string(r.size()) + ", first difference at byte " + std::to_string(i)); return; }
  if (inj && p.outLen == 32 && p.cust.empty()) { std::string k(d.begin(), d.end()), s = ser(c); if (s.size() < 400) { auto it = g_digest.find(k); if (it == g_digest.end()) g_digest[k] = s; else if (it->second != s) fail(what, "two different tuples give the same digest"); } }
}
static void one(const Q& q) { Param p{int(q.out), "", "", std::string()}; for (long i = 0; i < q.cust; ++i) p.cust += char(patByte(6, i)); Chunks c; long off = 0; for (auto& e : q.t) { c.push_back(pattern(e.k, e.n, e.k >= 4 ? off : 0)); off += e.n; } check(p, c, desc(q), true); }
static std::string mdesc(long n, long len, long out) { return "many n=" + std::to_string(n) + " len=" + std::to_string(len) + " out=" + std::to_string(out); }
static void many(long n, long len, long out) { Chunks c; for (long i = 0; i < n; ++i) c.push_back(pattern(5, len, i)); check(Param{int(out), "", "", ""}, c, mdesc(n, len, out), true); }
// compositions of a fixed string, including empty parts, given as a list of lengths
static void rec(const Q& base, long left, int partsLeft, std::vector<E>& t) {
  if (partsLeft == 0) { if (left == 0) { Q q = base; q.t = t; if (mine()) { current(desc(q)); one(q); } } return; }
  for (long n = 0; n <= left; ++n) { t.push_back({n, 4}); rec(base, left - n, partsLeft - 1, t); t.pop_back(); }
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0); PART = argl(argc, argv, "--part", 0); PARTS = argl(argc, argv, "--parts", 1);
  if (const char* c = args(argc, argv, "--case")) { long a, b, o; if (sscanf(c, "many n=%ld len=%ld out=%ld", &a, &b, &o) == 3) { many(a, b, o); return finish(); } Q q; int pos = 0; if (sscanf(c, "out=%ld cust=%ld t=%n", &q.out, &q.cust, &pos) != 2) return 3; const char* s = c + pos; E e; int n; while (sscanf(s, "%ld/%d%n", &e.n, &e.k, &n) == 2) { q.t.push_back(e); s += n; if (*s == ',') ++s; } one(q); return finish(); }
  auto go = [&](const Q& q) { if (!mine()) return; current(desc(q)); one(q); };
  const long nb = B;
  // A: all tuples of 0..4 elements over boundary lengths and two contents
  std::vector<E> al = {{0, 0}, {1, 0}, {1, 5}, {2, 5}, {31, 5}, {32, 5}, {nb - 3, 5}, {nb - 2, 5}, {nb, 5}, {nb + 1, 1}};
  const int dep = th ? 5 : 4;
  for (int d = 0; d <= dep; ++d) { std::vector<size_t> ix(d, 0); for (;;) { Q q{32, 0, {}}; for (size_t i : ix) q.t.push_back(al[i]); go(q); if (d <= 2) { q.cust = 12; go(q); q.out = nb + 1; go(q); } int i = d - 1; while (i >= 0 && ++ix[i] == al.size()) ix[i--] = 0; if (i < 0) break; } }
  // B: all ways to cut short strings into parts, with empty parts
  for (long n = 0; n <= (th ? 10 : 7); ++n) for (int parts = 1; parts <= (th ? 7 : 6); ++parts) { std::vector<E> t; rec(Q{32, 0, {}}, n, parts, t); }
  // C: numbers of empty elements
  for (int n = 0; n <= 300; ++n) { Q q{32, 0, std::vector<E>(n, E{0, 0})}; go(q); q.t.push_back({3, 5}); go(q); }
  // D: every element length, first and later, and every output length
  for (long n = 0; n <= (th ? 6 : 3) * nb; ++n) { go({32, 0, {{n, 5}}}); go({32, 5, {{3, 5}, {n, 5}}}); go({32, 0, {{n, 5}, {n, 0}}}); }
  for (long o = 0; o <= (th ? 6 : 3) * nb; ++o) { go({o, 0, {{3, 5}}}); go({o, 9, {}}); go({o, 1, {{0, 0}, {nb, 5}}}); }
  for (long c = 0; c <= 2 * nb + 2; ++c) { go({32, c, {{3, 5}, {0, 0}}}); go({32, c, {}}); }
  // E: lengths where an encoded bit length gains a byte
  for (long n : {31L, 32L, 33L, 8191L, 8192L, 8193L, 2097151L, 2097152L, 2097153L}) { go({32, 0, {{n, 5}}}); go({32, 0, {{1, 5}, {n, 5}, {1, 5}}}); go({n, 0, {{1, 5}}}); if (n < 10000) go({32, n, {{1, 5}}}); }
  // F: element and output beyond 2^32 and 2^31 bits
  go({1L << 28, 0, {{3, 5}}}); 
  go({32, 0, {{1L << 29, 0}, {2, 5}}});
  if (th) { go({(1L << 29) + 1, 0, {{3, 5}}}); go({32, 0, {{(1L << 29) - 1, 0}}}); go({32, 0, {{(1L << 29) + 1, 1}}}); }
  // E2: every bit of an encoded length: powers of two, their neighbours, and sums of two of them
  for (int e = 8; e <= (th ? 28 : 27); ++e) for (long n : {(1L << e) - 1, 1L << e, (1L << e) + 1, 3L << (e - 1)}) { go({32, 0, {{n, e < 24 ? 5 : 0}}}); if (e <= 21) { go({n, 0, {{1, 5}}}); go({32, n, {{1, 5}}}); } else if (th && e <= 28) { go({n, 0, {{1, 5}}}); go({32, n, {{1, 5}}}); } }
  for (int e = 9; e <= (th ? 24 : 20); ++e) for (int f = 0; f < e - 1; ++f) { const long n = (1L << e) + (1L << f); go({32, 0, {{n, 5}}}); if (e <= (th ? 20 : 18)) { go({n, 0, {{1, 5}}}); go({32, n, {{1, 5}}}); } }
  // G: tuples of very many elements
  for (long n : {511L, 512L, 513L, 4095L, 4096L, 32767L, 32768L, 65535L, 65536L, 65537L, 100000L, 1048577L}) for (long len : {0L, 1L, 5L}) { if (!th && n > 200000 && len) continue; if (!mine()) continue; current(mdesc(n, len, 32)); many(n, len, 32); }
  g_stat["distinct_digests"] = g_digest.size();
  sample(desc({32, 12, {{nb - 2, 5}, {0, 0}, {nb + 1, 1}}}));
  return finish();
}
