// C20: every history to a depth; each allocation of its last operation fails in turn.  Conversions to integers, std::hash
// and comparisons do not report failures, so they must not need memory: if they do, the process ends, and that is reported.
// Model: slots with parameters and fed bytes (digest of an undisturbed object); after a failure the objects that were
// not being modified still match it, the modified one is usable again after reset() or assignment, nothing is leaked.
#include "alg.hpp"
#include "common.hpp"
#include <new>
#include <type_traits>
#include <memory>
static long g_live = 0, g_count = 0, g_failAt = -1, g_failed = 0; static bool g_many = false;
static void* take(size_t n) { ++g_count; if (g_failAt >= 0 && (g_count == g_failAt || (g_many && g_count > g_failAt))) { ++g_failed; return nullptr; } void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
static void drop(void* p) { if (p) { --g_live; free(p); } }
static void* takeAl(size_t n, size_t a) { ++g_count; if (g_failAt >= 0 && (g_count == g_failAt || (g_many && g_count > g_failAt))) { ++g_failed; return nullptr; } void* p = nullptr; if (posix_memalign(&p, a < 8 ? 8 : a, n ? n : 1)) return nullptr; ++g_live; return p; }
void* operator new(size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }
void* operator new(size_t n, std::align_val_t a) { void* p = takeAl(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = takeAl(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, std::align_val_t) noexcept { drop(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { drop(p); }
static uint8_t g_d[8 * 256 + 64];
struct Model { bool alive = false, fin = false; int p = 0; Chunks fed; };
static const Bytes& want(int p, const Chunks& c) { static std::map<std::pair<int, Chunks>, Bytes> memo; Bytes& r = memo[{p, c}]; if (r.empty()) { const long s = g_failAt; g_failAt = -1; r = freshChunks(params()[p], c); g_failAt = s; } return r; }
template <class T> static std::enable_if_t<std::is_copy_assignable<T>::value> assign(T& a, const T& b) { a = b; }
template <class T> static std::enable_if_t<!std::is_copy_assignable<T>::value> assign(T&, const T&) {}
static const bool ASSIGN = std::is_copy_assignable<H>::value;
struct World {
  alignas(H) unsigned char mem[2][sizeof(H)]; H* o[2] = {nullptr, nullptr}; Model m[2]; int p0, p1;
  ~World() { for (auto& x : o) if (x) x->~H(); }
  bool legal(char c) const {
    switch (c) {
      case 'N': return !m[0].alive; case 'n': case 'c': return (c == 'n' || m[0].alive) && !m[1].alive;
      case 'f': case 'g': case 'h': case 'F': return m[0].alive && !m[0].fin; case 'S': case 'V': case 'i': return m[0].alive && m[0].fin;
      case 'R': return m[0].alive; case 'a': case 'b': return ASSIGN && m[0].alive && m[1].alive; case 'd': return m[1].alive; case 'x': return m[1].alive && !m[1].fin; case 'q': return m[0].alive && m[1].alive;
    }
    return false;
  }
  // what is being modified: 0, 1 or -1 (nothing)
  static int target(char c) { switch (c) { case 'n': case 'c': case 'b': case 'd': case 'x': return 1; case 'S': case 'V': case 'q': case 'i': return -1; default: return 0; } }
  void feedSlot(int i, size_t n) { feed(*o[i], g_d + m[i].fed.size() * 3, n); }
  void raw(char c, Bytes& out) {       // may throw
    switch (c) {
      case 'N': o[0] = make_at(mem[0], params()[p0]); break;
      case 'n': o[1] = make_at(mem[1], params()[p1]); break;
      case 'c': o[1] = new (mem[1]) H(*o[0]); break;
      case 'f': feedSlot(0, 1); break; case 'g': feedSlot(0, B + 3); break; case 'h': feedSlot(0, 3 * B); break; case 'x': feedSlot(1, 7); break;
      case 'F': o[0]->finalize(); break;
      case 'S': { const std::string s = o[0]->toString(); out.assign(s.begin(), s.end()); break; }
      case 'V': { auto v = o[0]->toVector(); out.swap(v); break; }
      case 'i': { const H& h = *o[0]; const uint64_t a = h; const uint8_t b = h; const size_t s = std::hash<H>()(h); const bool e = h == h, ne = h != h; out = {uint8_t(a >> 56), uint8_t(a >> 48), uint8_t(a >> 40), uint8_t(a >> 32), uint8_t(a >> 24), uint8_t(a >> 16), uint8_t(a >> 8), uint8_t(a), b, uint8_t(s == a), uint8_t(e), uint8_t(ne)}; break; }
      case 'R': o[0]->reset(); break;
      case 'a': assign(*o[0], *o[1]); break; case 'b': assign(*o[1], *o[0]); break;
      case 'd': o[1]->~H(); o[1] = nullptr; break;
      case 'q': { volatile bool e = *o[0] == *o[1]; (void)e; break; }
    }
  }
  void model(char c) {
    auto add = [&](int i, size_t n) { const uint8_t* s = g_d + m[i].fed.size() * 3; m[i].fed.push_back(Bytes(s, s + n)); };
    switch (c) {
      case 'N': m[0] = Model(); m[0].alive = true; m[0].p = p0; break; case 'n': m[1] = Model(); m[1].alive = true; m[1].p = p1; break;
      case 'c': case 'b': m[1] = m[0]; break; case 'a': m[0] = m[1]; break; case 'd': m[1] = Model(); break;
      case 'f': add(0, 1); break; case 'g': add(0, B + 3); break; case 'h': add(0, 3 * B); break; case 'x': add(1, 7); break;
      case 'F': m[0].fin = true; break; case 'R': m[0].fin = false; m[0].fed.clear(); break;
    }
  }
  bool resultOk(char c, const Bytes& out) { const Bytes& w = want(m[0].p, m[0].fed); if (c == 'V') return out == w; if (c == 'i') { uint64_t a = 0; for (size_t i = 0; i < 8 && i < w.size(); ++i) a = a << 8 | w[i]; Bytes x; for (int i = 7; i >= 0; --i) x.push_back(uint8_t(a >> (8 * i))); x.insert(x.end(), {w.empty() ? uint8_t(0) : w[0], 1, 1, 0}); return out == x; } if (c == 'S') { std::string h = hex(w); return out.size() == h.size() && !memcmp(out.data(), h.data(), h.size()); } return true; }
  bool check(int i, std::string& why) {
    if (!m[i].alive) return true;
    H& h = *o[i]; if (!m[i].fin) h.finalize();
    const Bytes d = digestOf(h), &w = want(m[i].p, m[i].fed); if (d != w) { why = "object " + std::to_string(i) + ": " + hex(d) + " want " + hex(w); return false; }
    m[i].fin = true; return true;
  }
};
static std::string desc(int p0, int p1, const std::string& s, long at, bool many, int rec) { return "p=" + std::to_string(p0) + "," + std::to_string(p1) + " h=" + s + " fail=" + std::to_string(at) + (many ? "+" : "") + " then=" + std::to_string(rec); }
// runs the history; the at-th allocation of the last operation fails (and all later ones of it with `many`).
// rec: what is done with the modified object afterwards: 0 destroyed, 1 reset, 2 assigned from the other, 3 tried again (reads)
static long runOne(int p0, int p1, const std::string& s, long at, bool many, int rec) {
  const long live0 = g_live; long n = 0; bool threw = false; std::string why;
  {
    World w; w.p0 = p0; w.p1 = p1; Bytes out; out.reserve(4096);
    for (size_t i = 0; i + 1 < s.size(); ++i) { w.raw(s[i], out); w.model(s[i]); }
    const char c = s.back(); g_count = 0; g_failed = 0; g_failAt = at; g_many = many;
    try { w.raw(c, out); } catch (const std::bad_alloc&) { threw = true; } catch (...) { why = "an exception other than std::bad_alloc"; threw = true; }
    n = g_count; g_failAt = -1; const long failed = g_failed;
    ++g_stat["traces"]; g_stat["transitions"] += s.size(); if (failed) ++g_stat["failures_injected"];
    const int t = World::target(c);
    if (!threw) {      // no failure, or one that was recovered from: then the operation must have worked
      if (!w.resultOk(c, out)) why = "wrong result without an exception";
      w.model(c); for (int i = 0; i < 2 && why.empty(); ++i) w.check(i, why);
    } else if (why.empty()) {
      if (!failed) why = "std::bad_alloc although no allocation failed";
      const bool constructed = !(c == 'N' || c == 'n' || c == 'c');
      if (t >= 0 && !constructed) w.o[t] = nullptr;
      for (int i = 0; i < 2 && why.empty(); ++i) if (i != t && w.m[i].alive) { World& ww = w; if (!ww.check(i, why)) why = "not being modified, but changed: " + why; }
      if (t < 0 && why.empty()) { Bytes o2; w.raw(c, o2); if (!w.resultOk(c, o2)) why = "wrong result when tried again"; }
      if (t >= 0 && constructed && why.empty()) {
        if (rec == 1) { w.o[t]->reset(); w.m[t].fin = false; w.m[t].fed.clear(); feed(*w.o[t], g_d, B + 1); w.m[t].fed.push_back(Bytes(g_d, g_d + B + 1));
          // a failed assignment leaves either object's parameters
          std::string y1, y2; Model keep = w.m[t]; if (!w.check(t, y1)) { if (c == 'a' || c == 'b') { w.m[t] = keep; w.m[t].p = w.m[1 - t].p; w.m[t].fin = true; if (!w.check(t, y2)) why = "after reset: " + y1; } else why = "after reset: " + y1; } }
        else if (rec == 2 && ASSIGN && w.m[1 - t].alive) { assign(*w.o[t], *w.o[1 - t]); w.m[t] = w.m[1 - t]; if (!w.check(t, why)) why = "after assignment: " + why; }
      }
    }
    if (!why.empty()) fail(desc(p0, p1, s, at, many, rec), why);
  }
  return n;
}
static long g_leakSkip = 0;
static long guarded(int p0, int p1, const std::string& s, long at, bool many, int rec) {
  current(desc(p0, p1, s, at, many, rec)); runOne(p0, p1, s, -1, false, 0);       // fill memo tables first
  const long b = g_live; const long n = runOne(p0, p1, s, at, many, rec); const long l = g_live - b;
  // tables of this program may still grow once; a leak shows every time
  if (l > 0) { const long b2 = g_live; runOne(p0, p1, s, at, many, rec); if (g_live - b2 > 0) fail(desc(p0, p1, s, at, many, rec), "leaks " + std::to_string(g_live - b2) + " allocations"); }
  if (l < 0) fail(desc(p0, p1, s, at, many, rec), "frees more than it allocated");
  return n;
}
static void explore(int p0, int p1, std::string& s, int depth, const std::string& alpha, World& probe) {
  (void)probe;
  if (!s.empty()) {
    ++g_stat["states"];
    const long n = guarded(p0, p1, s, -1, false, 0); g_stat["allocations_seen"] += uint64_t(n);
    const char c = s.back(); const int t = World::target(c);
    for (long at = 1; at <= n && g_fails < 5; ++at) for (int rec = 0; rec < (t >= 0 ? 3 : 1); ++rec) { guarded(p0, p1, s, at, false, rec); if (rec == 0 && n > at) guarded(p0, p1, s, at, true, rec); }
  }
  if (int(s.size()) >= depth || g_fails >= 5) return;
  for (char c : alpha) {
    World w; w.p0 = p0; w.p1 = p1; bool ok = true; for (size_t i = 0; i < s.size(); ++i) w.model(s[i]);
    ok = w.legal(c); for (auto& m : w.m) m.alive = false;
    if (!ok) continue;
    s.push_back(c); explore(p0, p1, s, depth, alpha, probe); s.pop_back();
  }
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR")); const bool th = argl(argc, argv, "--thorough", 0);
  for (size_t i = 0; i < sizeof g_d; ++i) g_d[i] = patByte(5, i);
  if (const char* k = args(argc, argv, "--case")) { int p0, p1, rec; char s[64]; char f[32]; if (sscanf(k, "p=%d,%d h=%63s fail=%31s then=%d", &p0, &p1, s, f, &rec) != 5) return 3; guarded(p0, p1, s, atol(f), strchr(f, '+') != nullptr, rec); return finish(); }
  World probe; const int NP = int(params().size());
  for (int p = 0; p < NP; ++p) {
    const int q = (p + 1) % NP; std::string s = "N"; if (p == 0) { std::string e; s = ""; }
    explore(p, q, s, (th ? (p == 0 ? 8 : 7) : (p == 0 ? 6 : 5)) - int(argl(argc, argv, "--less", 0)), "NncfghFSVRabdxqi", probe);
  }
  sample("N,g,F,S: each allocation of toString() fails"); return finish();
}
