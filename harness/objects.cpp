// C08: all operation sequences over slots holding hash objects (copy/move construction and assignment,
// swap, self-assignment, feeding, finalizing, reset, fresh construction with other parameters).
// Model: a slot is (parameters, bytes fed call by call, finalized?, moved-from?).
#include "alg.hpp"
#include "common.hpp"
#include <memory>
#include <type_traits>
#include <utility>
static Bytes g_pat;
struct Model { int p = 0; std::vector<std::pair<uint32_t, uint32_t>> c; bool fin = false, moved = false; };   // (offset, length)
static Bytes refOf(const Model& m) {
  static std::map<std::pair<int, std::vector<std::pair<uint32_t, uint32_t>>>, Bytes> memo;
  auto k = std::make_pair(m.p, m.c); auto it = memo.find(k); if (it != memo.end()) return it->second;
  Chunks ch; for (auto& x : m.c) ch.push_back(Bytes(g_pat.begin() + x.first, g_pat.begin() + x.first + x.second));
  Bytes r = freshChunks(params()[m.p], ch); if (memo.size() < 2000000) memo[k] = r; return r;
}
struct Op { char k; int a, b; };    // slot a, argument b
static std::string str(const Op& o) { return std::string(1, o.k) + std::to_string(o.a) + "." + std::to_string(o.b); }
static const int NS_MAX = 3; static int NS = 2;
struct World { std::unique_ptr<H> s[NS_MAX]; Model m[NS_MAX]; };
static std::string desc(const std::vector<Op>& init, const std::vector<Op>& ops) {
  std::string s = "n=" + std::to_string(NS) + " ops="; bool first = true;
  for (auto* v : {&init, &ops}) for (auto& o : *v) { if (!first) s += ","; first = false; s += str(o); }
  return s;
}
// assignment only where the type offers it
template <class T> static std::enable_if_t<std::is_copy_assignable<T>::value> cpAssign(T& a, const T& b) { a = b; }
template <class T> static std::enable_if_t<!std::is_copy_assignable<T>::value> cpAssign(T&, const T&) { abort(); }
template <class T> static std::enable_if_t<std::is_move_assignable<T>::value> mvAssign(T& a, T& b) { a = std::move(b); }
template <class T> static std::enable_if_t<!std::is_move_assignable<T>::value> mvAssign(T&, T&) { abort(); }
template <class T> static std::enable_if_t<std::is_move_assignable<T>::value> doSwap(T& a, T& b) { using std::swap; swap(a, b); }
template <class T> static std::enable_if_t<!std::is_move_assignable<T>::value> doSwap(T&, T&) { abort(); }
static const bool CA = std::is_copy_assignable<H>::value, MA = std::is_move_assignable<H>::value, CC = std::is_copy_constructible<H>::value, MC = std::is_move_constructible<H>::value;
// the class that the feeding calls return (a base class for the SHA-3 family): its value can be copied or moved into H too
typedef std::remove_reference_t<decltype(std::declval<H&>().finalize())> Ret;
static const bool BASE = !std::is_same<Ret, H>::value;
template <class T> static std::enable_if_t<std::is_assignable<T&, const Ret&>::value && !std::is_same<Ret, T>::value> cpBase(T& a, const T& b) { a = static_cast<const Ret&>(b); }
template <class T> static std::enable_if_t<!std::is_assignable<T&, const Ret&>::value || std::is_same<Ret, T>::value> cpBase(T&, const T&) { abort(); }
template <class T> static std::enable_if_t<std::is_assignable<T&, Ret&&>::value && !std::is_same<Ret, T>::value> mvBase(T& a, T& b) { a = static_cast<Ret&&>(b); }
template <class T> static std::enable_if_t<!std::is_assignable<T&, Ret&&>::value || std::is_same<Ret, T>::value> mvBase(T&, T&) { abort(); }
template <class T> static std::enable_if_t<std::is_copy_assignable<T>::value> cpSub(T& a, const T& b) { a = b; }
template <class T> static std::enable_if_t<!std::is_copy_assignable<T>::value> cpSub(T&, const T&) { abort(); }
static const bool BCA = BASE && std::is_assignable<H&, const Ret&>::value, BMA = BASE && std::is_assignable<H&, Ret&&>::value, SCA = BASE && std::is_copy_assignable<Ret>::value;
static const int LEN[4] = {1, B - 1, B + 1, 0};
static bool legal(const World& w, const Op& o) {
  const Model& x = w.m[o.a];
  switch (o.k) {
    case 'a': return !x.moved && !x.fin;
    case 'f': return !x.moved && !x.fin;
    case 'r': return !x.moved;
    case 'n': return true;
    case 'c': return CA && !w.m[o.b].moved;               // a = b (also a == b)
    case 'm': return MA && o.a != o.b && !w.m[o.b].moved; // a = move(b)
    case 'C': return CC && o.a != o.b && !w.m[o.b].moved; // a destroyed, rebuilt as copy of b
    case 'M': return MC && o.a != o.b && !w.m[o.b].moved;
    case 'd': return BCA && !w.m[o.b].moved;
    case 'e': return BMA && o.a != o.b && !w.m[o.b].moved;
    case 'g': return SCA && !w.m[o.b].moved;
    case 'D': return BASE && o.a != o.b && !w.m[o.b].moved;
    case 'E': return BASE && o.a != o.b && !w.m[o.b].moved;
    case 's': return MA && MC && !w.m[o.a].moved && !w.m[o.b].moved;
  }
  return false;
}
static void apply(World& w, const Op& o) {
  Model& x = w.m[o.a];
  switch (o.k) {
    case 'a': { uint32_t n = LEN[o.b], off = uint32_t(17 * o.a + 29 * x.c.size()); feed(*w.s[o.a], g_pat.data() + off, n); x.c.push_back({off, n}); break; }
    case 'f': w.s[o.a]->finalize(); x.fin = true; break;
    case 'r': w.s[o.a]->reset(); x.c.clear(); x.fin = false; break;
    case 'n': w.s[o.a].reset(); w.s[o.a].reset(new H(make(o.b))); x = Model(); x.p = o.b; break;
    case 'c': cpAssign(*w.s[o.a], *w.s[o.b]); if (o.a != o.b) x = w.m[o.b]; break;
    case 'm': mvAssign(*w.s[o.a], *w.s[o.b]); x = w.m[o.b]; w.m[o.b].moved = true; break;
    case 'C': { std::unique_ptr<H> t(new H(static_cast<const H&>(*w.s[o.b]))); w.s[o.a] = std::move(t); x = w.m[o.b]; break; }
    case 'M': { std::unique_ptr<H> t(new H(std::move(*w.s[o.b]))); w.s[o.a] = std::move(t); x = w.m[o.b]; w.m[o.b].moved = true; break; }
    case 'd': cpBase(*w.s[o.a], *w.s[o.b]); if (o.a != o.b) x = w.m[o.b]; break;
    case 'e': mvBase(*w.s[o.a], *w.s[o.b]); x = w.m[o.b]; w.m[o.b].moved = true; break;
    case 'g': cpSub<Ret>(*w.s[o.a], *w.s[o.b]); if (o.a != o.b) x = w.m[o.b]; break;
    case 'D': { std::unique_ptr<H> t(new H(static_cast<const Ret&>(*w.s[o.b]))); w.s[o.a] = std::move(t); x = w.m[o.b]; break; }
    case 'E': { std::unique_ptr<H> t(new H(static_cast<Ret&&>(*w.s[o.b]))); w.s[o.a] = std::move(t); x = w.m[o.b]; w.m[o.b].moved = true; break; }
    case 's': doSwap(*w.s[o.a], *w.s[o.b]); if (o.a != o.b) std::swap(w.m[o.a], w.m[o.b]); break;
  }
}
static void runSeq(const std::vector<Op>& init, const std::vector<Op>& ops) {
  World w; for (int i = 0; i < NS; ++i) { w.s[i].reset(new H(make(0))); }
  for (auto& o : init) apply(w, o);
  for (auto& o : ops) apply(w, o);
  g_stat["transitions"] += init.size() + ops.size(); ++g_stat["traces"];
  // observe: first the digest of every finalized slot, then continue every other one, then reset and reuse all of them
  for (int i = 0; i < NS; ++i) if (!w.m[i].moved && w.m[i].fin) { Bytes d = digestOf(*w.s[i]), r = refOf(w.m[i]); if (d != r) { fail(desc(init, ops), "slot " + std::to_string(i) + " digest got " + hex(d) + " want " + hex(r)); return; } }
  for (int i = 0; i < NS; ++i) if (!w.m[i].moved && !w.m[i].fin) { apply(w, {'a', i, i == 0 ? 0 : 1}); apply(w, {'f', i, 0}); }
  for (int i = 0; i < NS; ++i) if (!w.m[i].moved) { Bytes d = digestOf(*w.s[i]), r = refOf(w.m[i]); if (d != r) { fail(desc(init, ops), "slot " + std::to_string(i) + " continued: got " + hex(d) + " want " + hex(r)); return; } }
  for (int i = 0; i < NS; ++i) if (!w.m[i].moved) { apply(w, {'r', i, 0}); apply(w, {'a', i, 2}); apply(w, {'f', i, 0}); }
  for (int i = 0; i < NS; ++i) if (!w.m[i].moved) { Bytes d = digestOf(*w.s[i]), r = refOf(w.m[i]); if (d != r) { fail(desc(init, ops), "slot " + std::to_string(i) + " after reset: got " + hex(d) + " want " + hex(r)); return; } }
}
// n times the same transfer between two objects, a byte fed now and then
static const char LONG[] = "CMcmsx";
static void manyTransfers(int p, char k, long n) {
  const std::string c = "p=" + std::to_string(p) + " many=" + k + " n="; current(c + std::to_string(n));
  if (((k == 'c' || k == 'x') && !CA) || ((k == 'm' || k == 's') && !MA)) return;
  World w; w.m[0].p = w.m[1].p = p; for (int i = 0; i < 2; ++i) { w.s[i].reset(new H(make(p))); }
  apply(w, {'a', 0, 1}); int cur = 0;
  for (long i = 1; i <= n; ++i) {
    const int o = 1 - cur; ++g_stat["transitions"];
    if (w.m[o].moved && k == 's') { apply(w, {'n', o, p}); }
    if (k == 'x') apply(w, {'c', cur, cur}); else if (k == 's') { apply(w, {'s', 0, 1}); cur = o; } else { apply(w, {k, o, cur}); cur = o; }
    if (i == n || i == 3 || (i & (i - 1)) == 0 || ((i - 1) & (i - 2)) == 0) {
      apply(w, {'a', cur, 0}); std::unique_ptr<H> t(new H(static_cast<const H&>(*w.s[cur]))); t->finalize(); Bytes d = digestOf(*t), r = refOf(w.m[cur]); ++g_stat["traces"]; ++g_stat["states"];
      if (d != r) { fail(c + std::to_string(i), "got " + hex(d) + " want " + hex(r)); return; }
    }
  }
}
// the model alone decides which sequences are legal
static bool legalM(const std::vector<Model>& m, const Op& o) { World w; for (size_t i = 0; i < m.size(); ++i) w.m[i] = m[i]; return legal(w, o); }
static void applyM(std::vector<Model>& m, const Op& o) {
  Model& x = m[o.a];
  switch (o.k) { case 'a': x.c.push_back({0, 0}); break; case 'f': x.fin = true; break; case 'r': x.fin = false; break; case 'n': x = Model(); x.p = o.b; break;
    case 'c': case 'd': case 'g': if (o.a != o.b) x = m[o.b]; break; case 'C': case 'D': x = m[o.b]; break; case 'm': case 'M': case 'e': case 'E': x = m[o.b]; m[o.b].moved = true; break; case 's': std::swap(m[o.a], m[o.b]); break; }
}
static void rec(const std::vector<Op>& init, std::vector<Op>& ops, const std::vector<Model>& m, const std::vector<Op>& al, int depth) {
  if (!depth) { runSeq(init, ops); return; }
  ++g_stat["states"]; if (depth == 1) current(desc(init, ops));
  for (auto& o : al) {
    if (!legalM(m, o)) continue;
    auto n = m; applyM(n, o); ops.push_back(o); rec(init, ops, n, al, depth - 1); ops.pop_back();
  }
}
static std::vector<Op> alphabet(int ns, int np, bool full) {
  std::vector<Op> al;
  for (int i = 0; i < ns; ++i) {
    al.push_back({'a', i, 0}); al.push_back({'a', i, 1}); if (full) al.push_back({'a', i, 2});
    al.push_back({'f', i, 0}); al.push_back({'r', i, 0});
    for (int p = 0; p < np; ++p) if (full || p == np - 1) al.push_back({'n', i, p});
    al.push_back({'c', i, i});
    for (int j = 0; j < ns; ++j) if (i != j) { al.push_back({'c', i, j}); al.push_back({'m', i, j}); al.push_back({'C', i, j}); al.push_back({'M', i, j}); if (i < j) al.push_back({'s', i, j});
      if (BASE && full) { al.push_back({'d', i, j}); al.push_back({'e', i, j}); al.push_back({'D', i, j}); al.push_back({'E', i, j}); al.push_back({'g', i, j}); } }
    if (full) { al.push_back({'s', i, i}); if (BASE) { al.push_back({'d', i, i}); al.push_back({'g', i, i}); } }
  }
  return al;
}
static Op parse(const char* t) { Op o; o.k = t[0]; sscanf(t + 1, "%d.%d", &o.a, &o.b); return o; }
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0);
  g_pat = pattern(5, 8 * B + 4096);
  if (const char* c = args(argc, argv, "--case")) {
    { int p; char k; long n; if (sscanf(c, "p=%d many=%c n=%ld", &p, &k, &n) == 3) { manyTransfers(p, k, n); return finish(); } }
    if (sscanf(c, "n=%d", &NS) != 1) return 3; const char* q = strstr(c, "ops="); if (!q) return 3;
    static char buf[60000]; snprintf(buf, sizeof buf, "%s", q + 4); std::vector<Op> ops; for (char* t = strtok(buf, ","); t; t = strtok(nullptr, ",")) ops.push_back(parse(t));
    if (ops.empty() && (!CC || !MC || !CA || !MA)) fail(c, "not copyable or assignable");
    runSeq({}, ops); return finish();
  }
  const bool mayBeFixed = !strncmp(A_NAME, "blake2", 6);   // these have a constant member and were never assignable
  if (!CC || !MC || (!mayBeFixed && (!CA || !MA || (BASE && (!BCA || !BMA))))) fail("n=2 ops=", "objects can no longer be copied, moved or assigned");
  const int np = std::min<int>(params().size(), 3);
  auto start = [&](const std::vector<Op>& init) { std::vector<Model> m(NS); for (auto& o : init) applyM(m, o); return m; };
  std::vector<Op> ops;
  // A: from fresh, full alphabet
  NS = 2; rec({}, ops, start({}), alphabet(2, np, true), (th ? 5 : 4) - (np > 1 ? 1 : 0));
  // B: from every pair of prepared slots, depth 3 (4)
  std::vector<std::vector<Op>> prep;
  for (int p = 0; p < np; ++p) for (int st = 0; st < 5; ++st) {
    std::vector<Op> v; if (p) v.push_back({'n', 0, p});
    if (st == 1) v.push_back({'a', 0, 1}); if (st == 2) { v.push_back({'a', 0, 2}); } if (st == 3) { v.push_back({'a', 0, 1}); v.push_back({'f', 0, 0}); } if (st == 4) { v.push_back({'a', 0, 2}); v.push_back({'f', 0, 0}); v.push_back({'r', 0, 0}); v.push_back({'a', 0, 0}); }
    prep.push_back(v);
  }
  for (auto& x : prep) for (auto& y : prep) {
    std::vector<Op> init = x; for (Op o : y) { o.a = 1; init.push_back(o); }
    rec(init, ops, start(init), alphabet(2, np, np > 1), th ? (np == 1 ? 4 : 3) : (np == 1 ? 3 : 2));
  }
  // C: three slots
  NS = 3; rec({}, ops, start({}), alphabet(3, np, false), th ? 4 : 2);
  { std::vector<Op> init = {{'a', 0, 1}, {'n', 1, np - 1}, {'a', 1, 2}, {'a', 2, 0}, {'f', 2, 0}}; rec(init, ops, start(init), alphabet(3, np, false), th ? 4 : 3); }
  NS = 2; for (int p = 0; p < np; ++p) for (const char* k = LONG; *k; ++k) manyTransfers(p, *k, th ? (1 << 20) + 3 : (1 << 16) + 3);
  NS = 2; sample(desc({}, {{'a', 0, 1}, {'C', 1, 0}, {'a', 0, 2}, {'c', 0, 1}}));
  printf("NOTE copy-assignable=%d move-assignable=%d copy-constructible=%d\n", int(CA), int(MA), int(CC));
  return finish();
}
