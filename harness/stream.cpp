// C02: the streaming interface as a transition system.  State = (bytes buffered, blocks done);
// transition = one addData(length).  Every (state, length) transition is executed on the real class
// along several paths, and all sequences over a boundary alphabet are executed to a depth.
// Oracle: the digest of the concatenation given in one call.
#include "alg.hpp"
#include "common.hpp"
static std::vector<std::vector<std::vector<Bytes>>> g_ref;   // [param][pattern][len]
static Bytes g_msg[8];
static size_t MAXL;
static const int PATS[2] = {5, 2};
static const Bytes& refOf(int p, int k, size_t n) {
  Bytes& r = g_ref[p][k][n];
  if (r.empty()) r = freshFlat(params()[p], g_msg[k].data(), n);
  return r;
}
// -1 in a sequence means an empty piece given as (nullptr, 0)
static std::string desc(int p, int k, const std::vector<int>& seq) {
  std::string s = "p=" + std::to_string(p) + " k=" + std::to_string(k) + " seq="; for (size_t i = 0; i < seq.size(); ++i) { if (i) s += ","; s += std::to_string(seq[i]); } return s;
}
static void check(H& h, int p, int k, size_t total, const std::vector<int>& seq) {
  h.finalize();
  ++g_stat["traces"];
  Bytes d = digestOf(h); const Bytes& r = refOf(p, k, total);
  if (d != r) fail(desc(p, k, seq), "total=" + std::to_string(total) + " got " + hex(d) + " want " + hex(r));
}
// big pieces: case "big p=%d f=%d n=%ld t=%d" (f bytes, one piece of n, t bytes) and "many p=%d f=%d c=%ld s=%d" (f bytes, c pieces of s bytes, one byte)
static Bytes bigMsg;
static void needBig(size_t n) {   // no two blocks alike: every 32-bit word is a function of its position
  size_t o = bigMsg.size(); if (o >= n) return; bigMsg.resize((n + 4095) & ~size_t(3));
  for (size_t i = o; i + 4 <= bigMsg.size(); i += 4) { uint32_t x = uint32_t(i) * 2654435761u + 12345u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; memcpy(&bigMsg[i], &x, 4); }
}
static std::map<std::pair<int, size_t>, Bytes> bigRef;
static const Bytes& bigRefOf(int p, size_t n) {
  Bytes& r = bigRef[{p, n}]; if (!r.empty()) return r;
  needBig(n); H h = make(p);
  for (size_t q = 0; q < n;) { size_t m = std::min<size_t>(B, n - q); feed(h, bigMsg.data() + q, m); q += m; if ((q & 0xfffff) < size_t(B)) current("reference " + std::to_string(q)); }
  h.finalize(); return r = digestOf(h);
}
static void runBig(int p, int f, size_t n, int t) {
  std::string c = "big p=" + std::to_string(p) + " f=" + std::to_string(f) + " n=" + std::to_string(n) + " t=" + std::to_string(t); current(c);
  const size_t tot = f + n + t; needBig(tot); H h = make(p);
  if (f) feed(h, bigMsg.data(), f); feed(h, bigMsg.data() + f, n); if (t) feed(h, bigMsg.data() + f + n, t);
  h.finalize(); g_stat["traces"]++; g_stat["big_pieces"]++; g_stat["transitions"] += 3;
  Bytes d = digestOf(h); const Bytes& r = bigRefOf(p, tot); if (d != r) fail(c, "got " + hex(d) + " want " + hex(r));
}
static void runMany(int p, int f, size_t cnt, int s) {
  std::string c = "many p=" + std::to_string(p) + " f=" + std::to_string(f) + " c=" + std::to_string(cnt) + " s=" + std::to_string(s); current(c);
  const size_t tot = f + cnt * s + 1; needBig(tot); H h = make(p); size_t q = 0;
  if (f) { feed(h, bigMsg.data(), f); q = f; }
  for (size_t i = 0; i < cnt; ++i) { feed(h, bigMsg.data() + q, s); q += s; if ((i & 0xffff) == 0xffff) current(c); }
  feed(h, bigMsg.data() + q, 1); h.finalize(); g_stat["traces"]++; g_stat["many_calls"] += cnt; g_stat["transitions"] += cnt + 1;
  Bytes d = digestOf(h); const Bytes& r = bigRefOf(p, tot); if (d != r) fail(c, "got " + hex(d) + " want " + hex(r));
}
static void runSeq(int p, int k, const std::vector<int>& seq) {
  H h = make(p); size_t pos = 0;
  for (int n : seq) { if (n < 0) feed(h, nullptr, 0); else { feed(h, g_msg[k].data() + pos, n); pos += n; } }
  g_stat["transitions"] += seq.size();
  check(h, p, k, pos, seq);
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0);
  MAXL = 40 * B + 2000;
  for (int k = 0; k < 2; ++k) g_msg[k] = pattern(PATS[k], MAXL);
  const int NP = int(params().size());
  g_ref.assign(NP, std::vector<std::vector<Bytes>>(2, std::vector<Bytes>(MAXL + 1)));
  if (const char* c = args(argc, argv, "--case")) {
    { int p, f, t; long n; if (sscanf(c, "big p=%d f=%d n=%ld t=%d", &p, &f, &n, &t) == 4) { runBig(p, f, n, t); return finish(); }
      if (sscanf(c, "many p=%d f=%d c=%ld s=%d", &p, &f, &n, &t) == 4) { runMany(p, f, n, t); return finish(); } }
    int p = 0, k = 0; char buf[60000]; buf[0] = 0; if (sscanf(c, "p=%d k=%d seq=%59999s", &p, &k, buf) < 2) return 3;
    std::vector<int> seq; for (char* t = strtok(buf, ","); t; t = strtok(nullptr, ",")) seq.push_back(atoi(t));
    runSeq(p, k, seq); return finish();
  }
  // A: every (fill f, length len) transition, f reached along 4 paths, followed by each tail class
  for (int p = 0; p < (th ? NP : std::min(NP, 2)); ++p) for (int f = 0; f < B; ++f) for (int path = 0; path < 4; ++path) {
    std::vector<int> pre;
    if (path == 0) { if (f) pre = {f}; }
    else if (path == 1) { if (f < 2) continue; for (int i = 0; i < f; ++i) pre.push_back(1); }
    else if (path == 2) pre = {B + f};
    else pre = {B - 1, f + 1};
    current(desc(p, 0, pre));
    H base = make(p); size_t pos = 0;
    for (int n : pre) { feed(base, g_msg[0].data() + pos, n); pos += n; }
    ++g_stat["states"]; g_stat["transitions"] += pre.size();
    const int maxLen = path == 0 ? (th ? 5 * B + 1 : 3 * B + 1) : (th ? 3 * B + 1 : 2 * B + 1);
    for (int len = 0; len <= maxLen; ++len) {
      // every replay starts from scratch (copying is a property of its own)
      const int fill = int((pos + len) % B);
      const int tails[6] = {0, 1, B - fill, B - fill - 1, B, B + 1};
      for (int t = 0; t < ((path == 0 || th) ? 6 : 3); ++t) {
        if (t && tails[t] == 0) continue;
        H h = make(p); size_t q = 0;
        for (int n : pre) { feed(h, g_msg[0].data() + q, n); q += n; }
        feed(h, g_msg[0].data() + q, len); q += len;
        if (tails[t]) { feed(h, g_msg[0].data() + q, tails[t]); q += tails[t]; }
        g_stat["transitions"] += pre.size() + 2;
        h.finalize(); ++g_stat["traces"];
        const Bytes& r = refOf(p, 0, q); Bytes d = digestOf(h);
        if (d != r) { std::vector<int> s = pre; s.push_back(len); if (tails[t]) s.push_back(tails[t]); fail(desc(p, 0, s), "total=" + std::to_string(q) + " got " + hex(d) + " want " + hex(r)); }
      }
    }
  }
  sample(desc(0, 0, {B - 1, 2 * B + 1, 1}));
  // B: all sequences over the boundary alphabet up to a depth
  std::vector<int> al = {0, -1, 1, 2, B / 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1};
  const int depth = th ? 6 : 4;
  for (int p = 0; p < NP; ++p) {
    const int dp = p == 0 ? depth : depth - 1;
    for (int d = 1; d <= dp; ++d) {
      std::vector<int> ix(d, 0), seq(d);
      for (;;) {
        for (int i = 0; i < d; ++i) seq[i] = al[ix[i]];
        if (ix[d - 1] == 0) current(desc(p, d & 1, seq));
        runSeq(p, d & 1, seq);
        int i = d - 1; while (i >= 0 && ++ix[i] == int(al.size())) ix[i--] = 0;
        if (i < 0) break;
      }
    }
  }
  g_stat["alphabet_depth_sequences"] += 0;
  // C: all compositions of N bytes around a block boundary
  const int N = th ? 16 : 12;
  for (int before : {B - N / 2, B - N + 1, B - 1, 2 * B - N / 2}) {
    if (before < 0) continue;
    for (unsigned mask = 0; mask < (1u << (N - 1)); ++mask) {
      std::vector<int> seq; if (before) seq.push_back(before);
      int run = 1; for (int i = 0; i < N - 1; ++i) { if (mask >> i & 1) { seq.push_back(run); run = 1; } else ++run; } seq.push_back(run);
      if ((mask & 1023) == 0) current(desc(0, 1, seq));
      runSeq(0, 1, seq);
    }
  }
  // D: constant piece size s for every s, messages of several blocks, with an empty piece before each
  for (int s = 1; s <= 2 * B + 1; ++s) for (int total : {B, 3 * B, 5 * B + 3}) {
    std::vector<int> seq; int left = total; while (left > 0) { int n = s < left ? s : left; seq.push_back(n); left -= n; }
    current(desc(0, 0, seq)); runSeq(0, 0, seq);
    std::vector<int> e; for (int n : seq) { e.push_back(0); e.push_back(n); } e.push_back(0); runSeq(0, 1, e);
  }
  // E: one large piece next to every power of two, and next to the number of blocks being one, at boundary fills
  for (int k = 10; k <= (th ? 26 : 20); ++k) for (int f : {0, 1, B - 1}) for (int dl = -1; dl <= 1; ++dl) for (int t = 0; t < 2; ++t) {
    if (k > 16 && (dl || t != (f == 1)) && !th) continue;
    if (f == 1 && B == 2) continue;
    runBig(0, f, (size_t(1) << k) + dl, t);
    if (B != 64 && B != 128 && k + 4 < 23) runBig(0, f, (size_t(1) << (k - 6)) * B + dl, t);
  }
  // F: many calls in one message: counters of calls, of blocks, and of empty pieces
  for (int f : {0, 1, B - 1}) { runMany(0, f, 65537, 1); runMany(0, f, th ? 1 << 20 : 70000, 0); runMany(0, f, th ? 65537 : 4097, B); runMany(0, f, 4097, B - 1); runMany(0, f, 257, 2 * B + 1); }
  return finish();
}
