// C12: memory confinement and defined behaviour.
// Built twice: with AddressSanitizer+UBSan+library assertions (mode san), and plain (mode guard: inputs that end or
// begin at inaccessible pages, are read-only, and vanish right after the call; objects that end or begin at
// inaccessible pages; memory pre-filled with different bytes).
#include "alg.hpp"
#include "common.hpp"
#include <memory>
#include <functional>
#include <new>
static const Bytes g_pat = pattern(5, 1 << 17);
static const size_t PG = 4096;
static Bytes readAll(const H& h) {
  Bytes out = h.toVector(); std::string s = h.toString(); out.insert(out.end(), s.begin(), s.end());
#if !defined(A_NOARRAY)
  auto a = h.toArray(); out.insert(out.end(), a.begin(), a.end());
#endif
  uint64_t v[6] = {static_cast<uint8_t>(h), static_cast<uint16_t>(h), static_cast<uint32_t>(h), static_cast<uint64_t>(h), std::hash<H>()(h), uint64_t(h == h)};
  out.insert(out.end(), reinterpret_cast<uint8_t*>(v), reinterpret_cast<uint8_t*>(v) + sizeof v); return out;
}
#if defined(GUARD)
// ---- memory with inaccessible neighbours -------------------------------------------
struct Region { uint8_t* base; size_t pages; uint8_t* lo; uint8_t* hi; };       // [lo,hi) usable
static Region mk(size_t n) { size_t p = (n + PG - 1) / PG + (n == 0); uint8_t* b = (uint8_t*)mmap(nullptr, (p + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (b == MAP_FAILED) abort(); if (mprotect(b + PG, p * PG, PROT_READ | PROT_WRITE)) abort(); return {b, p, b + PG, b + PG + p * PG}; }
static void drop(Region& r) { munmap(r.base, (r.pages + 2) * PG); }
static Region g_in = mk(1 << 16), g_objHi, g_objLo;
// feed n bytes that are inaccessible outside [p, p+n), cannot be written and disappear afterwards
static void guardedFeed(H& h, size_t n, size_t off, bool atEnd) {
  uint8_t* p = atEnd ? g_in.hi - n : g_in.lo; memcpy(p, g_pat.data() + off, n);
  if (mprotect(g_in.lo, g_in.pages * PG, PROT_READ)) abort();
  feed(h, p, n);
  if (mprotect(g_in.lo, g_in.pages * PG, PROT_NONE)) abort();
}
static void reopen() { if (mprotect(g_in.lo, g_in.pages * PG, PROT_READ | PROT_WRITE)) abort(); }
static int g_fill = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, g_fill, n); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
static std::string desc(int p, const std::vector<int>& seq, int atEnd) { std::string s = "p=" + std::to_string(p) + " end=" + std::to_string(atEnd) + " seq="; for (size_t i = 0; i < seq.size(); ++i) s += (i ? "," : "") + std::to_string(seq[i]); return s; }
// seq: n >= 0 feed n; -1 finalize+read; -2 reset; -3 continue with a copy
static Bytes runSeq(int p, const std::vector<int>& seq, int atEnd, int fill, bool objEnd) {
  g_fill = fill; Region& R = objEnd ? g_objHi : g_objLo;
  size_t sz = sizeof(H); uint8_t* mem = objEnd ? R.hi - (sz + alignof(H) - 1) / alignof(H) * alignof(H) : R.lo;
  memset(R.lo, fill, R.pages * PG);
  H* h = make_at(mem, params()[p]); size_t off = 0; Bytes out; bool fin = false;
  for (int o : seq) {
    if (o >= 0) { if (fin) { h->reset(); fin = false; } reopen(); guardedFeed(*h, o, off, atEnd); off += o; }
    else if (o == -1) { if (!fin) h->finalize(); fin = true; Bytes r = readAll(*h); out.insert(out.end(), r.begin(), r.end()); }
    else if (o == -2) { h->reset(); fin = false; }
    else { H c(*h); h->~H(); memset(mem, fill ^ 0x3c, sz); h = new (mem) H(std::move(c)); }
  }
  if (!fin) h->finalize(); { Bytes r = readAll(*h); out.insert(out.end(), r.begin(), r.end()); }
  h->~H(); g_fill = 0;
  // the object must not have written outside itself
  uint8_t* a = R.lo; for (; a < R.hi; ++a) if ((a < mem || a >= mem + sz) && *a != uint8_t(fill)) { fail(desc(p, seq, atEnd), "wrote outside the object at offset " + std::to_string(a - mem)); break; }
  ++g_stat["traces"]; ++g_stat["states"]; g_stat["transitions"] += seq.size() + 2;
  return out;
}
static void one(int p, const std::vector<int>& seq) {
  Bytes ref; bool first = true;
  for (int atEnd = 0; atEnd < 2; ++atEnd) for (int fill : {0x00, 0xff, 0xa5}) {
    current(desc(p, seq, atEnd)); Bytes o = runSeq(p, seq, atEnd, fill, fill != 0xff);
    if (first) { ref = o; first = false; } else if (o != ref) { fail(desc(p, seq, atEnd), "results depend on previous memory contents or on where the data lies"); return; }
  }
}
static bool parse(const char* c, int& p, std::vector<int>& seq) { int e, n = 0; if (sscanf(c, "p=%d end=%d seq=%n", &p, &e, &n) < 2 || !n) return false; static char b[60000]; snprintf(b, sizeof b, "%s", c + n); for (char* t = strtok(b, ","); t; t = strtok(nullptr, ",")) seq.push_back(atoi(t)); return true; }
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR")); const bool th = argl(argc, argv, "--thorough", 0);
  g_objHi = mk(sizeof(H) + 64); g_objLo = mk(sizeof(H) + 64);
  if (const char* c = args(argc, argv, "--case")) { int p; std::vector<int> s; if (!parse(c, p, s)) return 3; one(p, s); return finish(); }
  for (int p = 0; p < int(params().size()); ++p) {
    // every length alone, and every (fill, boundary length)
    for (int n = 0; n <= (th ? 6 : 3) * B + 2; ++n) one(p, {n});
    for (int f = 0; f < B; f += (th || B <= 16 || p == 0) ? 1 : 7) for (int n : {0, 1, B - f, B - f - 1, B, B - f + B, B - f + B + 1, 2 * B + 1}) if (n >= 0) one(p, {f, n});
    const std::vector<int> al = {0, 1, B - 1, B, B + 1, 2 * B + 3, -1, -2, -3};
    for (int a : al) for (int b : al) for (int c : al) { one(p, {a, b, c}); if (th) for (int d : al) one(p, {a, b, c, d}); }
    for (int n : {4096, 8191, 40000, 65536}) one(p, {n, 1, -1, -2, n - 1});
  }
  sample(desc(0, {B - 1, 2 * B + 3, -3}, 1) + " fills 00 ff a5");
  return finish();
}
#else
// ---- sanitizer build: exact-size heap blocks ------------------------------------------
static std::string desc(int p, const std::vector<int>& seq) { std::string s = "p=" + std::to_string(p) + " seq="; for (size_t i = 0; i < seq.size(); ++i) s += (i ? "," : "") + std::to_string(seq[i]); return s; }
static void feedHeap(H& h, size_t n, size_t off) { std::unique_ptr<uint8_t[]> b(new uint8_t[n]); if (n) memcpy(b.get(), g_pat.data() + off % 60000, n); feed(h, b.get(), n); }
static void feedSpan(H& h, size_t n, size_t off) { std::vector<uint8_t> b(g_pat.begin() + off % 60000, g_pat.begin() + off % 60000 + n); h.FEED(H::Span<const uint8_t>(b)); }
static void one(int p, const std::vector<int>& seq) {
  std::unique_ptr<H> h(new H(make(p))); size_t off = 0; bool fin = false; volatile size_t sink = 0;
  for (int o : seq) {
    if (o >= 0) { if (fin) { h->reset(); fin = false; } if (off & 1) feedSpan(*h, o, off); else feedHeap(*h, o, off); off += o; }
    else if (o == -1) { if (!fin) h->finalize(); fin = true; sink = sink + readAll(*h).size(); }
    else if (o == -2) { h->reset(); fin = false; }
    else if (o == -3) { std::unique_ptr<H> c(new H(*h)); h = std::move(c); }
    else if (o == -4) { feed(*h, nullptr, 0); if (fin) { h->reset(); fin = false; } }
    else if (o == -5) { h->FEED("ab"); if (fin) { h->reset(); fin = false; } }
  }
  if (!fin) h->finalize(); sink = sink + readAll(*h).size();
  ++g_stat["traces"]; ++g_stat["states"]; g_stat["transitions"] += seq.size() + 2;
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR")); const bool th = argl(argc, argv, "--thorough", 0); const bool small = argl(argc, argv, "--small", 0);
  if (const char* c = args(argc, argv, "--case")) { int p, n = 0; std::vector<int> s; if (sscanf(c, "p=%d seq=%n", &p, &n) < 1 || !n) return 3; static char b[60000]; snprintf(b, sizeof b, "%s", c + n); for (char* t = strtok(b, ","); t; t = strtok(nullptr, ",")) s.push_back(atoi(t)); one(p, s); return finish(); }
  auto go = [&](int p, const std::vector<int>& s) { current(desc(p, s)); one(p, s); };
  for (int p = 0; p < int(params().size()); ++p) {
    if (small) {      // under valgrind: every length modulo the block, and the boundary pairs
      for (int n = 0; n <= B + 1; n += (p || B > 100 ? 5 : 3)) go(p, {n}); for (int f : {1, B - 1}) for (int n : {0, 1, B, B + 1}) go(p, {f, n}); go(p, {3, -1, -2, B + 1, -3, 2 * B}); go(p, {B - 9 > 0 ? B - 9 : 1}); go(p, {B - 8}); continue; }
    for (int n = 0; n <= (th ? 8 : 3) * B + 2; ++n) go(p, {n});
    for (int f = 0; f < B; f += (th || p == 0) ? 1 : 7) for (int n : {0, 1, B - f, B - f - 1, B, B - f + B, B - f + B + 1, 2 * B + 1}) if (n >= 0) go(p, {f, n});
    const std::vector<int> al = {0, 1, B - 1, B, B + 1, 2 * B + 3, -1, -2, -3, -4, -5};
    for (int a : al) for (int b : al) for (int c : al) { auto legal = [](std::initializer_list<int> s) { bool fin = false; for (int o : s) { if (o == -1) fin = true; else if (o == -2 || o >= 0) fin = false; else if (fin && o <= -4) return false; } return true; };
      if (!legal({a, b, c})) continue; go(p, {a, b, c}); if (th) for (int d : al) if (legal({a, b, c, d})) go(p, {a, b, c, d}); }
    for (int n : {4096, 8191, 65536}) go(p, {n, 1, -1, -2, n - 1});
  }
#if defined(A_KIND_SHAKE) || defined(A_KIND_CSHAKE) || defined(A_KIND_TUPLE)
  if (!small) for (int o = 0; o <= 3 * B + 1; ++o) { params().push_back(params()[0]); params().back().outLen = o; const int p = int(params().size()) - 1; params()[0].outLen = o; current("p=0 seq=3"); one(0, {3}); one(p, {B, -1, -2, 1}); params().pop_back(); }
#endif
#if defined(A_KIND_CSHAKE) || defined(A_KIND_TUPLE)
  if (!small) for (int n = 0; n <= 2 * B + 1; ++n) { params()[1].cust = std::string(n, 'c'); current("p=1 seq=3"); one(1, {3}); 
#if defined(A_KIND_CSHAKE)
    params()[1].name = std::string(n, 'n'); one(1, {B});
#endif
  }
#endif
  sample(desc(0, {B - 1, 2 * B + 3, -3}));
  return finish();
}
#endif
