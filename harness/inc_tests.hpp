// C16: included after the library headers; -DT_<header> says which classes exist.
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#ifndef INC_NS
#define INC_NS inc_tests_main
#endif
namespace INC_NS { namespace {
inline void fold(uint64_t& f, const void* p, size_t n) { const unsigned char* b = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) f = (f ^ b[i]) * 0x100000001b3ull; f = (f ^ (n + 1)) * 0x9E3779B97F4A7C15ull; f ^= f >> 31; }
inline std::string hex(uint64_t v) { std::string s; for (int i = 60; i >= 0; i -= 4) s += "0123456789abcdef"[v >> i & 15]; return s; }
template <class H> auto put(H& h, const void* p, size_t n, int) -> decltype(h.nextData(p, n), void()) { h.nextData(p, n); }
template <class H> auto put(H& h, const void* p, size_t n, long) -> decltype(h.addData(p, n), void()) { h.addData(p, n); }
template <class H> auto arr(const H& h, uint64_t& f, int) -> decltype(h.toArray(), void()) { const auto a = h.toArray(); fold(f, a.data(), a.size()); }
template <class H> void arr(const H&, uint64_t&, long) {}
template <class H> void rd(const H& h, uint64_t& f) {
  const auto v = h.toVector(); fold(f, v.data(), v.size()); const std::string s = h.toString(); fold(f, s.data(), s.size()); arr(h, f, 0);
  const uint32_t a = h; const uint64_t b = h; const size_t c = std::hash<H>()(h); fold(f, &a, 4); fold(f, &b, 8); fold(f, &c, sizeof c);
}
template <class M> std::string run(const char* name, M mk, int B) {
  uint64_t f = 0xcbf29ce484222325ull; std::vector<uint8_t> d(size_t(6 * B + 80)); for (size_t i = 0; i < d.size(); ++i) d[i] = uint8_t(i * 37 + (i >> 3) * 11 + 5);
  for (int n = 0; n <= 2 * B + 2; ++n) { auto h = mk(); put(h, d.data() + n, size_t(n), 0); h.finalize(); rd(h, f); }
  for (int a : {0, 1, B / 2, B - 1, B}) for (int b : {0, 1, B - 1, B, B + 1, 2 * B}) { auto h = mk(); put(h, d.data(), size_t(a), 0); put(h, d.data() + a, size_t(b), 0); auto c = h; c.finalize(); rd(c, f); h.reset(); put(h, d.data(), size_t(b), 0); h.finalize(); rd(h, f); const bool e = h == c, q = h != c; fold(f, &e, 1); fold(f, &q, 1); }
  return std::string(name) + " " + hex(f) + "\n";
}
#define T0(N, TYPE, B) s += run(#N, [] { return TYPE(); }, B);
#define T1(N, EXPR, B) s += run(#N, [] { return EXPR; }, B);
inline std::string tests() {
  std::string s;
#ifdef T_blake1_224
  T0(blake1_224, Chocobo1::Blake1_224, 64)
#endif
#ifdef T_blake1_256
  T0(blake1_256, Chocobo1::Blake1_256, 64)
#endif
#ifdef T_blake1_384
  T0(blake1_384, Chocobo1::Blake1_384, 128)
#endif
#ifdef T_blake1_512
  T0(blake1_512, Chocobo1::Blake1_512, 128)
#endif
#ifdef T_blake2
  T0(blake2, Chocobo1::Blake2, 128)
#endif
#ifdef T_blake2s
  T0(blake2s, Chocobo1::Blake2s, 64)
#endif
#ifdef T_crc_32
  T0(crc_32, Chocobo1::CRC_32, 16)
#endif
#ifdef T_fnv
  T0(fnv32_0, Chocobo1::FNV32_0, 8) T0(fnv32_1, Chocobo1::FNV32_1, 8) T0(fnv32_1a, Chocobo1::FNV32_1a, 8) T0(fnv64_0, Chocobo1::FNV64_0, 8) T0(fnv64_1, Chocobo1::FNV64_1, 8) T0(fnv64_1a, Chocobo1::FNV64_1a, 8)
#endif
#ifdef T_has_160
  T0(has_160, Chocobo1::HAS_160, 64)
#endif
#ifdef T_md2
  T0(md2, Chocobo1::MD2, 16)
#endif
#ifdef T_md4
  T0(md4, Chocobo1::MD4, 64)
#endif
#ifdef T_md5
  T0(md5, Chocobo1::MD5, 64)
#endif
#ifdef T_ripemd_128
  T0(ripemd_128, Chocobo1::RIPEMD_128, 64)
#endif
#ifdef T_ripemd_160
  T0(ripemd_160, Chocobo1::RIPEMD_160, 64)
#endif
#ifdef T_ripemd_256
  T0(ripemd_256, Chocobo1::RIPEMD_256, 64)
#endif
#ifdef T_ripemd_320
  T0(ripemd_320, Chocobo1::RIPEMD_320, 64)
#endif
#ifdef T_sha1
  T0(sha1, Chocobo1::SHA1, 64)
#endif
#ifdef T_sha2_224
  T0(sha2_224, Chocobo1::SHA2_224, 64)
#endif
#ifdef T_sha2_256
  T0(sha2_256, Chocobo1::SHA2_256, 64)
#endif
#ifdef T_sha2_384
  T0(sha2_384, Chocobo1::SHA2_384, 128)
#endif
#ifdef T_sha2_512
  T0(sha2_512, Chocobo1::SHA2_512, 128)
#endif
#ifdef T_sha2_512_224
  T0(sha2_512_224, Chocobo1::SHA2_512_224, 128)
#endif
#ifdef T_sha2_512_256
  T0(sha2_512_256, Chocobo1::SHA2_512_256, 128)
#endif
#ifdef T_sm3
  T0(sm3, Chocobo1::SM3, 64)
#endif
#ifdef T_tiger
  T0(tiger1_128, Chocobo1::Tiger1_128, 64) T0(tiger1_160, Chocobo1::Tiger1_160, 64) T0(tiger1_192, Chocobo1::Tiger1_192, 64) T0(tiger2_128, Chocobo1::Tiger2_128, 64) T0(tiger2_160, Chocobo1::Tiger2_160, 64) T0(tiger2_192, Chocobo1::Tiger2_192, 64)
#endif
#ifdef T_whirlpool
  T0(whirlpool, Chocobo1::Whirlpool, 64)
#endif
#ifdef T_sha3
  T0(sha3_224, Chocobo1::SHA3_224, 144) T0(sha3_256, Chocobo1::SHA3_256, 136) T0(sha3_384, Chocobo1::SHA3_384, 104) T0(sha3_512, Chocobo1::SHA3_512, 72) T1(shake_128, Chocobo1::SHAKE_128(200), 168) T1(shake_256, Chocobo1::SHAKE_256(33), 136)
#endif
#ifdef T_cshake
  T1(cshake_128, Chocobo1::CSHAKE_128(32, "", "Email Signature"), 168) T1(cshake_256, Chocobo1::CSHAKE_256(170, "N", ""), 136) T1(cshake_128e, Chocobo1::CSHAKE_128(32, "", ""), 168)
#endif
#ifdef T_tuple_hash
  T1(tuple_hash_128, Chocobo1::TupleHash_128(32, ""), 168) T1(tuple_hash_256, Chocobo1::TupleHash_256(140, "My Tuple App"), 136)
#endif
#ifdef T_siphash
  s += run("siphash", [] { static const uint8_t k[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}; return Chocobo1::SipHash(Chocobo1::SipHash::Span<const uint8_t>(k, 16)); }, 8);
#endif
  return s;
}
// and once before main
const std::string g_early = tests();
} }
std::string INC_FN() { const std::string late = INC_NS::tests(); return INC_NS::g_early == late ? late : "early " + INC_NS::g_early + "late " + late; }
