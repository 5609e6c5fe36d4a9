// C07: every legal history to a depth, then reset(), then each probe message.
// Model: after reset() the object equals a new one with the same parameters (digest of a fresh object).
#include "alg.hpp"
#include "common.hpp"
static Bytes g_pat[2];
// operations: n >= 0: feed n bytes; F finalize; R reset; T read every accessor
enum { F = -1, R = -2, T = -3 };
static std::string opName(int o) { return o == F ? "F" : o == R ? "R" : o == T ? "T" : std::to_string(o); }
static std::string desc(int p, const std::vector<int>& h, const std::vector<int>& probe) {
  std::string s = "p=" + std::to_string(p) + " h="; for (size_t i = 0; i < h.size(); ++i) s += (i ? "," : "") + opName(h[i]);
  s += " probe="; for (size_t i = 0; i < probe.size(); ++i) s += (i ? "," : "") + opName(probe[i]); return s;
}
struct Exp { Bytes d; std::string s; bool set = false; };
static const Exp& refProbe(int p, const std::vector<int>& probe) {
  static std::map<std::pair<int, std::vector<int>>, Exp> memo;
  auto& r = memo[{p, probe}];
  if (!r.set) { r.set = true; Chunks c; size_t pos = 0; for (int n : probe) { c.push_back(Bytes(g_pat[1].begin() + pos, g_pat[1].begin() + pos + n)); pos += n; } H h = make(p); for (auto& x : c) feed(h, x.data(), x.size()); h.finalize(); r.d = digestOf(h); r.s = h.toString(); }
  return r;
}
static void readAll(const H& h) {
  volatile size_t sink = h.toString().size() + h.toVector().size() + size_t(static_cast<uint32_t>(h)) + size_t(static_cast<uint64_t>(h)) + std::hash<H>()(h) + size_t(h == h);
  (void)sink;
}
static void apply(H& h, int op, size_t& pos) {
  if (op >= 0) { feed(h, g_pat[0].data() + pos % 4096, op); pos += op; }
  else if (op == F) h.finalize(); else if (op == R) h.reset(); else readAll(h);
}
static void run(int p, const std::vector<int>& hist, const std::vector<int>& probe) {
  H h = make(p); size_t pos = 0;
  for (int o : hist) apply(h, o, pos);
  h.reset();
  size_t q = 0; for (int n : probe) { feed(h, g_pat[1].data() + q, n); q += n; }
  h.finalize();
  g_stat["transitions"] += hist.size() + probe.size() + 2; ++g_stat["traces"];
  Bytes d = digestOf(h); const Exp& r = refProbe(p, probe);
  if (d != r.d) fail(desc(p, hist, probe), "got " + hex(d) + " want " + hex(r.d));
  std::string s = h.toString();
  if (s != r.s) fail(desc(p, hist, probe), "toString got " + s + " want " + r.s);
}
static std::vector<std::vector<int>> probes() { return {{}, {1}, {B - 1}, {B}, {B / 2, B}, {2 * B + 1}, {B - 1, 1}, {B > 16 ? B - 9 : B - 2}, {3}}; }
// n times the same use of one object, reset() after each; then each probe
static const char* const CYC[] = {"R", "1R", "F", "1F", "BF", "BR", "1FT"};
static void cycles(int p, int kind, long n, const std::vector<int>& probe) {
  H h = make(p); const char* k = CYC[kind]; const std::string c = "p=" + std::to_string(p) + " cyc=" + std::to_string(kind) + " n=";
  for (long i = 1; i <= n; ++i) {
    if (*k == '1') feed(h, g_pat[0].data() + i % 4096, 1); if (*k == 'B') feed(h, g_pat[0].data() + i % 4096, B);
    if (k[strlen(k) - 1] != 'R') h.finalize(); if (strchr(k, 'T')) readAll(h);
    h.reset(); ++g_stat["transitions"];
    if (i == n || i <= 4 || (i & (i - 1)) == 0 || ((i - 1) & (i - 2)) == 0 || ((i + 1) & i) == 0) {
      size_t q = 0; H t = h; for (int m : probe) { feed(t, g_pat[1].data() + q, m); q += m; } t.finalize(); ++g_stat["traces"]; ++g_stat["states"];
      const Exp& r = refProbe(p, probe); if (digestOf(t) != r.d || t.toString() != r.s) { fail(c + std::to_string(i), "got " + hex(digestOf(t)) + " want " + hex(r.d)); return; }
    }
  }
}
static int g_p; static std::vector<std::vector<int>> g_pr;
static void rec(std::vector<int>& h, bool fin, const std::vector<int>& al, int depth, size_t nprobe) {
  ++g_stat["states"];
  current(desc(g_p, h, {}));
  for (size_t i = 0; i < nprobe && i < g_pr.size(); ++i) run(g_p, h, g_pr[i]);
  if (!depth) return;
  for (int o : al) {
    if (fin && (o >= 0 || o == F)) continue;
    if (!fin && o == T) continue;
    if (fin && o == T && h.back() == T) continue;
    h.push_back(o); rec(h, o == F || (fin && o == T), al, depth - 1, nprobe); h.pop_back();
  }
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0);
  g_pat[0] = pattern(6, (size_t(B) << (th ? 18 : 16)) + 8192); g_pat[1] = pattern(5, 300000);
  if (const char* c = args(argc, argv, "--case")) {
    { int p2, k2; long n2; if (sscanf(c, "p=%d cyc=%d n=%ld", &p2, &k2, &n2) == 3) { cycles(p2, k2, n2, {B + 1}); return finish(); } }
    int p = 0; char a[30000] = "", b[30000] = ""; const char* hp = strstr(c, "h="); const char* pp = strstr(c, "probe="); if (sscanf(c, "p=%d", &p) != 1 || !hp || !pp) return 3;
    snprintf(a, sizeof a, "%.*s", int(pp - hp - 3), hp + 2); snprintf(b, sizeof b, "%s", pp + 6);
    std::vector<int> h, pr; for (char* t = strtok(a, ","); t; t = strtok(nullptr, ",")) h.push_back(*t == 'F' ? F : *t == 'R' ? R : *t == 'T' ? T : atoi(t));
    for (char* t = strtok(b, ","); t; t = strtok(nullptr, ",")) pr.push_back(atoi(t));
    run(p, h, pr); return finish();
  }
  g_pr = probes();
  std::vector<int> h;
  for (g_p = 0; g_p < int(params().size()); ++g_p) {
    const int dx = g_p == 0 ? 0 : 1;
    // A: rich alphabet, depth 3 (4): everything incl. empty pieces, many blocks
    rec(h, false, {F, R, T, 0, 1, B / 2, B - 1, B, B + 1, 2 * B, 3 * B + 7}, (th ? 5 : 4) - dx, 9);
    // B: small alphabet, deeper
    rec(h, false, {F, R, T, 1, B - 1, B + 2}, (th ? 8 : 6) - dx, th ? 9 : 3);
    // C: histories with long messages (length counters with several non-zero bytes)
    rec(h, false, {F, R, 70001, 262144}, th ? 5 : 3, 9);
    // D: every buffer fill level left behind, finalized or not, before every probe length
    for (int f = 0; f <= 2 * B; ++f) for (int fin = 0; fin < 2; ++fin) {
      std::vector<int> hh = {f}; if (fin) hh.push_back(F);
      current(desc(g_p, hh, {}));
      for (int l = 0; l <= (th ? 2 * B : B); ++l) run(g_p, hh, {l});
      ++g_stat["states"];
    }
    // E: many resets in a row / reuse of one object for many messages
    for (int rep = 1; rep <= 40; ++rep) { std::vector<int> hh; for (int i = 0; i < rep; ++i) { hh.push_back((i * 37) % (2 * B)); if (i % 3) hh.push_back(F); hh.push_back(R); } for (auto& pr : g_pr) run(g_p, hh, pr); }
    // F: very many uses of one object
    for (int k = 0; k < int(sizeof CYC / sizeof *CYC); ++k) { current("p=" + std::to_string(g_p) + " cyc=" + std::to_string(k) + " n=" + std::to_string(th ? 1 << 20 : 1 << 16)); cycles(g_p, k, th ? (1 << 20) + 3 : (1 << 16) + 3, {B + 1}); }
    // G: powers of two of blocks (counters of blocks that return to 0)
    if (g_p == 0 || th) for (int e = 5; e <= (th ? 18 : 16) && (long(B) << e) <= long(g_pat[0].size()) - 4096; ++e) for (int x : {0, 1}) {
      current(desc(g_p, {B << e, x}, {})); run(g_p, {B << e, x}, {B + 1}); run(g_p, {B << e, F}, {3}); run(g_p, {x, B << e, F}, {3}); ++g_stat["states"];
    }
  }
  sample(desc(0, {B - 1, F, T, R, B + 2}, {B / 2, B}));
  return finish();
}
