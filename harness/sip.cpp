// C06: SipHash key and length coverage.
#include "alg.hpp"
#include "common.hpp"
#include <array>
#include <unordered_set>
static std::string khex(const Bytes& k) { return hex(k); }
static Bytes fromHex(const std::string& s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(uint8_t(strtol(s.substr(i, 2).c_str(), nullptr, 16))); return b; }
static Bytes run(const Bytes& key, long len, int k, int form) {
  // the key buffer is destroyed before anything else happens
  Bytes m = pattern(k, len);
  std::vector<uint8_t>* kb = new std::vector<uint8_t>(key); std::array<uint8_t, 16> ka; memcpy(ka.data(), key.data(), 16); alignas(16) uint8_t raw[32]; memcpy(raw + form % 16, key.data(), 16);
  H h = form == 1 ? H(*kb) : form == 2 ? H(ka) : form == 3 ? H(H::Span<const uint8_t>(raw + 3, 16)) : H(H::Span<const uint8_t>(kb->data(), 16));
  memset(kb->data(), 0xAA, 16); memset(ka.data(), 0x55, 16); memset(raw, 0x33, sizeof raw); delete kb;
  feed(h, m.data(), m.size()); h.finalize(); Bytes d = digestOf(h);
  h.reset(); feed(h, m.data(), m.size()); h.finalize(); if (digestOf(h) != d) return Bytes{0};
  return d;
}
static void one(const Bytes& key, long len, int k, int form) {
  std::string c = "key=" + khex(key) + " len=" + std::to_string(len) + " k=" + std::to_string(k) + " form=" + std::to_string(form);
  Bytes m = pattern(k, len), r = ref::siphash24(key.data(), m.data(), m.size()), d = run(key, len, k, form);
  ++g_stat["traces"]; ++g_stat["states"]; g_stat["transitions"] += 4;
  if (d != r) fail(c, "got " + hex(d) + " want " + hex(r));
}
int main(int argc, char** argv) {
  openCurrent(getenv("VERIF_CUR"));
  const bool th = argl(argc, argv, "--thorough", 0);
  if (const char* c = args(argc, argv, "--case")) { char kx[64]; long l; int k, f; if (sscanf(c, "key=%63s len=%ld k=%d form=%d", kx, &l, &k, &f) != 4) return 3; one(fromHex(kx), l, k, f); return finish(); }
  std::vector<Bytes> bases; for (int q : {0, 1, 2, 5, 6}) bases.push_back(pattern(q, 16));
  current("key=00 len=0 k=0 form=0");
  for (auto& b : bases) for (long len = 0; len <= (th ? 5000 : 1100); ++len) for (int k : {0, 1, 2, 5}) one(b, len, k, int(len % 4));
  for (auto& b : bases) for (long len : {0L, 7L, 8L, 15L, 255L, 256L}) {
    for (int pos = 0; pos < 16; ++pos) for (int x = 1; x < 256; ++x) { Bytes q = b; q[pos] ^= x; one(q, len, 5, pos % 4); }
    std::unordered_set<std::string> seen; Bytes m = pattern(5, len);
    for (int i = 0; i < 128; ++i) for (int j = i; j < 128; ++j) { Bytes q = b; q[i / 8] ^= uint8_t(1 << i % 8); if (j != i) q[j / 8] ^= uint8_t(1 << j % 8); one(q, len, 5, 0); }
    for (int i = 0; i < 128; ++i) { Bytes q = b; q[i / 8] ^= uint8_t(1 << i % 8); Bytes d = run(q, len, 5, 0); if (!seen.insert(hex(d)).second) fail("key=" + khex(q) + " len=" + std::to_string(len) + " k=5 form=0", "a key bit has no influence"); }
  }
  for (auto& b : bases) for (long len : {7L, 8L, 16L, 24L, 263L}) for (int pos = 0; pos < len && pos < 32; ++pos) for (int v = 0; v < 256; ++v) {
    Bytes m = pattern(5, len); m[pos] = uint8_t(v); H h{H::Span<const uint8_t>(b.data(), 16)}; feed(h, m.data(), m.size()); h.finalize(); Bytes d = digestOf(h), r = ref::siphash24(b.data(), m.data(), m.size()); ++g_stat["traces"];
    if (d != r) fail("key=" + khex(b) + " len=" + std::to_string(len) + " k=5 form=0", "message byte " + std::to_string(pos) + "=" + std::to_string(v)); }
  for (auto& b : bases) for (long len : {65535L, 65536L, 1048579L}) one(b, len, 5, 0);
  sample("key=" + khex(bases[2]) + " len=263 k=5 form=3");
  return finish();
}
