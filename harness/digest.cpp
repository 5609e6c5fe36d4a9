// C01: exhaustive enumeration of bounded input spaces, each digest compared with the reference.
#include "alg.hpp"
#include "common.hpp"
#include <unordered_set>
static const Param& P() { return params()[0]; }
static std::unordered_set<uint64_t> g_seen;
static bool one(const Bytes& m, const std::string& desc) {
  H h = make(P());
  if (!m.empty()) feed(h, m.data(), m.size());
  h.finalize();
  Bytes d = digestOf(h), r = refFlat(P(), m.data(), m.size());
  ++g_stat["evaluations"];
  uint64_t key = 1469598103934665603ULL; for (size_t i = 0; i < r.size(); ++i) key = (key ^ r[i]) * 1099511628211ULL;
  if (g_seen.size() < 400000) g_seen.insert(key);
  if (d != r) { fail(desc, "len=" + std::to_string(m.size()) + " got " + hex(d) + " want " + hex(r)); return false; }
  return true;
}
// case := "len:<n>:<pattern>" | "hex:<..>" | "sub:<n>:<pattern>:<pos>:<xor>[:<pos>:<xor>]" (xor of single bytes) |
//         "words:<n>:<pattern>:<w>:<value>:<w>:<value>"
static Bytes fromHex(const std::string& s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(uint8_t(strtol(s.substr(i, 2).c_str(), nullptr, 16))); return b; }
static void runCase(const std::string& c) {
  std::vector<std::string> f; size_t i = 0; for (;;) { size_t j = c.find(':', i); f.push_back(c.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; }
  if (f[0] == "hex") { one(f.size() > 1 ? fromHex(f[1]) : Bytes(), c); return; }
  Bytes m = pattern(atoi(f[2].c_str()), strtoul(f[1].c_str(), 0, 10));
  if (f[0] == "sub") for (size_t k = 3; k + 1 < f.size(); k += 2) m[atoi(f[k].c_str())] ^= uint8_t(atoi(f[k + 1].c_str()));
  if (f[0] == "words") for (size_t k = 3; k + 1 < f.size(); k += 2) { uint64_t v = strtoull(f[k + 1].c_str(), 0, 16); for (int q = 0; q < 4; ++q) m[4 * atoi(f[k].c_str()) + q] = uint8_t(v >> (8 * q)); }
  one(m, c);
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  if (const char* c = args(argc, argv, "--case")) { runCase(c); return finish(); }
  const bool th = argl(argc, argv, "--thorough", 0);
  auto S = [](long v) { return std::to_string(v); };
  // F1: every length, several fills
  long maxLen = th ? 20 * B + 5 : 8 * B + 5; if (maxLen < (th ? 4200 : 1200)) maxLen = th ? 4200 : 1200;
  for (int k = 0; k < 7; ++k) { current("len:0:" + S(k)); for (long n = 0; n <= maxLen; ++n) { std::string c = "len:" + S(n) + ":" + S(k); if (n % 64 == 0) current(c); one(pattern(k, n), c); } }
  sample("len:" + S(B - 1) + ":5 -> " + hex(refFlat(P(), pattern(5, B - 1).data(), B - 1)));
  // F2: every message of length <= 2 (quick), <= 3 on a coarser third byte (thorough)
  one(Bytes(), "hex:");
  for (int a = 0; a < 256; ++a) {
    char b[16]; snprintf(b, 16, "hex:%02x", a); current(b); one(Bytes{uint8_t(a)}, b);
    for (int c = 0; c < 256; ++c) { snprintf(b, 16, "hex:%02x%02x", a, c); one(Bytes{uint8_t(a), uint8_t(c)}, b); }
    if (th) for (int c = 0; c < 256; ++c) for (int d : {0, 1, 0x7f, 0x80, 0xaa, 0xff}) { snprintf(b, 16, "hex:%02x%02x%02x", a, c, d); one(Bytes{uint8_t(a), uint8_t(c), uint8_t(d)}, b); }
  }
  // F3: every byte value at every position of messages filling 1 (with padding), 1 and 2 (3) blocks
  std::vector<long> lens = {B - 9 > 0 ? B - 9 : B, B, 2 * B}; if (th) { lens.push_back(2 * B - 1); lens.push_back(3 * B + 1); }
  if (B < 32) lens.push_back(4 * B);
  for (int k : {0, 1, 5}) for (long n : lens) {
    Bytes m = pattern(k, n);
    for (long pos = 0; pos < n; ++pos) {
      current("sub:" + S(n) + ":" + S(k) + ":" + S(pos) + ":1");
      for (int x = 1; x < 256; ++x) { m[pos] ^= uint8_t(x); one(m, "sub:" + S(n) + ":" + S(k) + ":" + S(pos) + ":" + S(x)); m[pos] ^= uint8_t(x); }
    }
  }
  sample("sub:" + S(2 * B) + ":5:" + S(B) + ":128");
  // F4: every pair of 32-bit words of a block set to extreme values
  { long n = 2 * B; static const uint32_t V[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff};
    const int W = (th ? 2 * B : B) / 4;
    for (int k : {0, 5}) for (int i = 0; i < W; ++i) for (int j = i + 1; j < W; ++j) {
      Bytes m = pattern(k, n);
      for (uint32_t a : V) for (uint32_t b : V) {
        for (int q = 0; q < 4; ++q) { m[4 * i + q] = uint8_t(a >> (8 * q)); m[4 * j + q] = uint8_t(b >> (8 * q)); }
        char c[96]; snprintf(c, 96, "words:%ld:%d:%d:%x:%d:%x", n, k, i, a, j, b); one(m, c);
      }
    } }
  // F5: long dense messages: saturate every table entry and every carry pattern class
  for (int e = 11; e <= (th ? 22 : 17); ++e) for (int dl : {-17, -9, -1, 0, 1, 63}) { long n = (1L << e) + dl; std::string c = "len:" + S(n) + ":5"; current(c); one(pattern(5, n), c); }
  for (long n : {4095L, 65536L, 1048576L + 7, 16777216L + 5}) for (int k : {1, 5, 6}) { std::string c = "len:" + S(n) + ":" + S(k); current(c); one(pattern(k, n), c); }
  g_stat["distinct_digests"] = g_seen.size();
  return finish();
}
