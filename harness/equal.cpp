// C10: all pairs of finalized objects over a family of (parameters, message) reached by different
// histories; birthday collisions of every 32-bit digest word; every single-bit state difference.
#include "alg.hpp"
#include "common.hpp"
#include <functional>
#include <algorithm>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <sys/wait.h>
static Bytes g_pat;
struct Msg { int p; Chunks c; };
static H build(const Msg& m, int hist) {
  H h = make(m.p);
  if (hist == 1) { feed(h, g_pat.data(), 2 * B + 3); h.reset(); }                               // used before
  if (hist == 2) { feed(h, g_pat.data(), B - 1); h.finalize(); (void)h.toString(); h.reset(); }   // finalized before
  if (hist == 6) { feed(h, g_pat.data(), 9 * B + 5); h.finalize(); h.reset(); h.reset(); }
#if defined(A_KIND_TUPLE)
  for (auto& x : m.c) feed(h, x.data(), x.size());
#else
  Bytes f; for (auto& x : m.c) f.insert(f.end(), x.begin(), x.end());
  if (hist == 3) { for (size_t i = 0; i < f.size(); ++i) feed(h, &f[i], 1); }                      // byte by byte
  else if (hist == 4) { size_t k = f.size() / 2; feed(h, f.data(), k); feed(h, nullptr, 0); feed(h, f.data() + k, f.size() - k); }
  else feed(h, f.data(), f.size());
#endif
  if (hist == 5) { H g(h); h.finalize(); g.finalize(); (void)g.toVector(); return g; }           // via a copy
  h.finalize();
  if (hist == 7) { (void)h.toString(); (void)static_cast<uint32_t>(h); (void)h.toVector(); }       // read before
  return h;
}
static const int NH = 8;
static std::vector<Msg> family(bool th) {
  std::vector<Msg> v;
  for (int p = 0; p < int(params().size()); ++p) {
    std::vector<size_t> L = {0, 1, 2, 7, 8, size_t(B) - 1, size_t(B), size_t(B) + 1, size_t(2 * B), size_t(2 * B) + 5}; if (th) for (size_t n = 3; n < size_t(3 * B); n += 5) L.push_back(n);
    for (size_t n : L) for (int k : {0, 5}) { if (n == 0 && k) continue; v.push_back({p, {pattern(k, n)}}); }
    Bytes m = pattern(5, B + 4); for (int pos : {0, 3, B / 2, B - 1, B + 3}) for (int x : {1, 0x80}) { Bytes q = m; q[pos] ^= x; v.push_back({p, {q}}); }
#if defined(A_KIND_TUPLE)
    v.push_back({p, {}}); v.push_back({p, {{}, {}}}); v.push_back({p, {{1}, {2}}}); v.push_back({p, {{1, 2}}}); v.push_back({p, {{1, 2}, {}}});
#endif
  }
  return v;
}
typedef std::decay_t<decltype(std::declval<H&>().finalize())> R;      // what a chain of calls ends with; may be a base of H
template <class X> static std::enable_if_t<std::is_default_constructible<std::hash<X>>::value, size_t> stdHash(const X& h) { return std::hash<X>()(h); }
template <class X> static std::enable_if_t<!std::is_default_constructible<std::hash<X>>::value, size_t> stdHash(const X& h) { return static_cast<size_t>(h); }
template <class X = H> static bool pairOk(const X& a, const X& b, bool same, bool diff, std::string& why) {
  const bool e = a == b, e2 = b == a, n = a != b, n2 = b != a;
  if (e == n || e2 == n2) { why = "!= is not the negation of =="; return false; }
  if (e != e2) { why = "== is not symmetric"; return false; }
  if (same && !e) { why = "same data and parameters but not equal"; return false; }
  if (diff && e) { why = "digests differ but objects compare equal"; return false; }
  if (same && stdHash(a) != stdHash(b)) { why = "same data but std::hash differs"; return false; }
  return true;
}
static bool tiny(long i, long j, std::string& why) {
  H a = make(0), b = make(0); feed(a, &i, 8); feed(b, &j, 8); a.finalize(); b.finalize();
  return pairOk(a, b, i == j, a.toVector() != b.toVector(), why);
}
template <class T> static std::enable_if_t<std::is_trivially_copyable<T>::value> flips() {
  // Flip each bit of the finalized object; record whether the digest and equality notice it.
  // Done in a child: representations where this is not meaningful must not take the check down.
  int fd[2]; if (pipe(fd)) return; pid_t pid = fork();
  if (pid == 0) {
    alarm(120); long both = 0, onlyDigest = 0, onlyEq = 0, first = -1, sets = 0, bad = 0, b1 = -1, b2 = -1, b3 = -1; std::vector<size_t> rel;
    T base = make(0); feed(base, g_pat.data(), B + 3); base.finalize();
    const Bytes d0 = base.toVector();
    for (size_t bit = 0; bit < 8 * sizeof(T); ++bit) {
      alignas(T) unsigned char mem[sizeof(T)]; memcpy(mem, &base, sizeof(T)); mem[bit / 8] ^= (unsigned char)(1u << (bit % 8));
      const T& o = *reinterpret_cast<const T*>(mem);
      const bool dd = o.toVector() != d0, ee = o != base || base != o;
      if (dd && ee) { ++both; rel.push_back(bit); } else if (dd) { ++onlyDigest; if (first < 0) first = long(bit); } else if (ee) ++onlyEq;
    }
    // differences that could cancel in an accumulating comparison: every two of the relevant bits, every three at the same place of different words, every two words inverted
    for (const size_t more : {size_t(0), size_t(3)}) {
      T obj = make(0); feed(obj, g_pat.data() + more, B + 3 + more); obj.finalize(); const Bytes d1 = obj.toVector();
      alignas(T) unsigned char mem[sizeof(T)]; const T& o = *reinterpret_cast<const T*>(mem); memcpy(mem, &obj, sizeof(T));
      auto flip = [&](size_t bit) { mem[bit / 8] ^= (unsigned char)(1u << (bit % 8)); };
      auto test = [&](size_t x, size_t y, long z) { ++sets; if ((o == obj || obj == o || !(o != obj)) && o.toVector() != d1) { if (!bad++) b1 = long(x), b2 = long(y), b3 = z; } };
      for (size_t i = 0; i < rel.size(); ++i) for (size_t j = i + 1; j < rel.size(); ++j) {
        flip(rel[i]); flip(rel[j]); test(rel[i], rel[j], -1);
        if ((rel[j] - rel[i]) % 32 == 0) for (size_t k = j + 1; k < rel.size(); ++k) if ((rel[k] - rel[j]) % 32 == 0) { flip(rel[k]); test(rel[i], rel[j], long(rel[k])); flip(rel[k]); }
        flip(rel[i]); flip(rel[j]);
      }
      for (size_t i = 0; i + 32 <= 8 * sizeof(T); i += 32) for (size_t j = i + 32; j + 32 <= 8 * sizeof(T); j += 32) {
        bool in = true; for (size_t w : {i, j}) for (size_t b = 0; b < 32; ++b) in = in && std::binary_search(rel.begin(), rel.end(), w + b);
        if (!in) continue;
        for (size_t b = 0; b < 32; ++b) { flip(i + b); flip(j + b); }
        test(i, j, -2);
        for (size_t b = 0; b < 32; ++b) { flip(i + b); flip(j + b); }
      }
    }
    long r[10] = {1, both, onlyDigest, onlyEq, first, sets, bad, b1, b2, b3}; if (write(fd[1], r, sizeof r) != sizeof r) _exit(1); _exit(0);
  }
  close(fd[1]); long r[10] = {}; ssize_t n = read(fd[0], r, sizeof r); close(fd[0]); int st; waitpid(pid, &st, 0);
  if (n != sizeof r || !r[0]) { printf("NOTE state bit flips not meaningful for this representation\n"); return; }
  g_stat["state_bits_flipped"] += 8 * sizeof(T); g_stat["bits_seen_by_both"] += r[1];
  g_stat["bit_sets_flipped"] += r[5];
  if (r[6]) fail("flips", std::to_string(r[6]) + " combined state differences change the digest but not equality, first is bits " + std::to_string(r[7]) + ", " + std::to_string(r[8]) + (r[9] >= 0 ? ", " + std::to_string(r[9]) : r[9] == -2 ? " (whole words)" : "") + " of the object");
  // equality and digest are computed from the same state, yet some digest-relevant bits are ignored by equality
  if (r[1] && r[2]) fail("flips", std::to_string(r[2]) + " state bits change the digest but not equality, first is bit " + std::to_string(r[4]) + " of the object");
}
template <class T> static std::enable_if_t<!std::is_trivially_copyable<T>::value> flips() {}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0);
  g_pat = pattern(6, 16 * B + 16);
  auto fam = family(th); std::string why;
  if (const char* c = args(argc, argv, "--case")) {
    long i, j; int hi, hj;
    if (sscanf(c, "tiny %ld %ld", &i, &j) == 2) { if (!tiny(i, j, why)) fail(c, why); return finish(); }
    if (!strncmp(c, "flips", 5)) { flips<H>(); return finish(); }
    if (sscanf(c, "pair %ld/%d %ld/%d", &i, &hi, &j, &hj) == 4) { H a = build(fam[i], hi), b = build(fam[j], hj); Bytes x = a.toVector(), y = b.toVector(); if (!pairOk(a, b, i == j, x != y, why) || !pairOk<R>(a, b, i == j, x != y, why)) fail(c, why); return finish(); }
    if (sscanf(c, "hash %ld/%d", &i, &hi) == 2) { H a = build(fam[i], hi); if (std::hash<H>()(a) != static_cast<size_t>(a) || stdHash<R>(a) != static_cast<size_t>(a)) fail(c, "std::hash is not the conversion to size_t"); return finish(); }
    return 3;
  }
  // A: all pairs over the family and histories
  struct O { long i; int h; H o; Bytes d; };
  std::vector<O> os; os.reserve(fam.size() * NH);
  for (size_t i = 0; i < fam.size(); ++i) for (int h = 0; h < NH; ++h) {
    current("hash " + std::to_string(i) + "/" + std::to_string(h));
    H x = build(fam[i], h); Bytes d = x.toVector(); os.push_back({long(i), h, x, d});
    if (std::hash<H>()(x) != static_cast<size_t>(x) || stdHash<R>(x) != static_cast<size_t>(x)) fail("hash " + std::to_string(i) + "/" + std::to_string(h), "std::hash is not the conversion to size_t");
    ++g_stat["states"];
  }
  const size_t N = os.size(); std::vector<std::vector<bool>> eq(N, std::vector<bool>(N));
  for (size_t a = 0; a < N; ++a) {
    current("pair " + std::to_string(os[a].i) + "/" + std::to_string(os[a].h) + " 0/0");
    for (size_t b = 0; b < N; ++b) {
      ++g_stat["transitions"]; ++g_stat["traces"];
      eq[a][b] = os[a].o == os[b].o;
      if (!pairOk(os[a].o, os[b].o, os[a].i == os[b].i, os[a].d != os[b].d, why) || !pairOk<R>(os[a].o, os[b].o, os[a].i == os[b].i, os[a].d != os[b].d, why)) { char s[96]; snprintf(s, 96, "pair %ld/%d %ld/%d", os[a].i, os[a].h, os[b].i, os[b].h); fail(s, why); }
    }
  }
  for (size_t a = 0; a < N; ++a) for (size_t b = 0; b < N; ++b) if (eq[a][b] && eq[a] != eq[b]) { char s[96]; snprintf(s, 96, "pair %ld/%d %ld/%d", os[a].i, os[a].h, os[b].i, os[b].h); fail(s, "== is not transitive"); a = N; break; }
  // B: pairs of digests that agree in some 32-bit word (or 16 bits) but not all
  { const long M = th ? (1 << 20) : (1 << 17); std::vector<Bytes> dg(M);
    for (long i = 0; i < M; ++i) { if ((i & 4095) == 0) current("tiny " + std::to_string(i) + " 0"); H h = make(0); feed(h, &i, 8); h.finalize(); dg[i] = h.toVector(); }
    const int D = int(dg[0].size());
    for (int w = 0; w + 4 <= D; w += 4) {
      std::unordered_map<uint32_t, std::vector<long>> g; g.reserve(2 * M);
      for (long i = 0; i < M; ++i) { uint32_t k; memcpy(&k, dg[i].data() + w, 4); g[k].push_back(i); }
      long done = 0;
      for (auto& x : g) if (x.second.size() > 1 && done < 2000) for (size_t q = 1; q < x.second.size(); ++q) { ++done; ++g_stat["collision_pairs"]; if (!tiny(x.second[0], x.second[q], why)) fail("tiny " + std::to_string(x.second[0]) + " " + std::to_string(x.second[q]), why); }
    }
    // agree in the first (or last) 16 bits / in a middle byte
    for (int w : {0, D - 2, D / 2}) { std::unordered_map<uint32_t, long> g; long done = 0; for (long i = 0; i < 20000; ++i) { uint32_t k = uint32_t(dg[i][w] << 8 | dg[i][w + 1]); auto it = g.find(k); if (it == g.end()) g[k] = i; else if (done < 3000) { ++done; ++g_stat["collision_pairs"]; if (!tiny(it->second, i, why)) fail("tiny " + std::to_string(it->second) + " " + std::to_string(i), why); } } }
    if (D >= 4) sample("all colliding 32-bit words of " + std::to_string(M) + " digests");
  }
  current("flips"); flips<H>();
  return finish();
}
