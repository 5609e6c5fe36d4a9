// Per-algorithm adapter.  Compiled once per algorithm with -DALG_<name>; includes only the
// header of that algorithm, so every run also exercises the header standing alone.
// Only the public API is used.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>

#if defined(ALG_blake1_224)
#include "blake1_224.h"
#define A_TYPE Chocobo1::Blake1_224
#define A_NAME "blake1_224"
#define A_B 64
#define A_D 28
#elif defined(ALG_blake1_256)
#include "blake1_256.h"
#define A_TYPE Chocobo1::Blake1_256
#define A_NAME "blake1_256"
#define A_B 64
#define A_D 32
#elif defined(ALG_blake1_384)
#include "blake1_384.h"
#define A_TYPE Chocobo1::Blake1_384
#define A_NAME "blake1_384"
#define A_B 128
#define A_D 48
#elif defined(ALG_blake1_512)
#include "blake1_512.h"
#define A_TYPE Chocobo1::Blake1_512
#define A_NAME "blake1_512"
#define A_B 128
#define A_D 64
#elif defined(ALG_blake2)
#include "blake2.h"
#define A_TYPE Chocobo1::Blake2
#define A_NAME "blake2"
#define A_B 128
#define A_D 64
#elif defined(ALG_blake2s)
#include "blake2s.h"
#define A_TYPE Chocobo1::Blake2s
#define A_NAME "blake2s"
#define A_B 64
#define A_D 32
#elif defined(ALG_crc_32)
#include "crc_32.h"
#define A_TYPE Chocobo1::CRC_32
#define A_NAME "crc_32"
#define A_B 16
#define A_D 4
#elif defined(ALG_fnv32_0)
#include "fnv.h"
#define A_TYPE Chocobo1::FNV32_0
#define A_NAME "fnv32_0"
#define A_B 8
#define A_D 4
#elif defined(ALG_fnv32_1)
#include "fnv.h"
#define A_TYPE Chocobo1::FNV32_1
#define A_NAME "fnv32_1"
#define A_B 8
#define A_D 4
#elif defined(ALG_fnv32_1a)
#include "fnv.h"
#define A_TYPE Chocobo1::FNV32_1a
#define A_NAME "fnv32_1a"
#define A_B 8
#define A_D 4
#elif defined(ALG_fnv64_0)
#include "fnv.h"
#define A_TYPE Chocobo1::FNV64_0
#define A_NAME "fnv64_0"
#define A_B 8
#define A_D 8
#elif defined(ALG_fnv64_1)
#include "fnv.h"
#define A_TYPE Chocobo1::FNV64_1
#define A_NAME "fnv64_1"
#define A_B 8
#define A_D 8
#elif defined(ALG_fnv64_1a)
#include "fnv.h"
#define A_TYPE Chocobo1::FNV64_1a
#define A_NAME "fnv64_1a"
#define A_B 8
#define A_D 8
#elif defined(ALG_has_160)
#include "has_160.h"
#define A_TYPE Chocobo1::HAS_160
#define A_NAME "has_160"
#define A_B 64
#define A_D 20
#define A_NOCONSTEXPR 1
#elif defined(ALG_md2)
#include "md2.h"
#define A_TYPE Chocobo1::MD2
#define A_NAME "md2"
#define A_B 16
#define A_D 16
#elif defined(ALG_md4)
#include "md4.h"
#define A_TYPE Chocobo1::MD4
#define A_NAME "md4"
#define A_B 64
#define A_D 16
#elif defined(ALG_md5)
#include "md5.h"
#define A_TYPE Chocobo1::MD5
#define A_NAME "md5"
#define A_B 64
#define A_D 16
#elif defined(ALG_ripemd_128)
#include "ripemd_128.h"
#define A_TYPE Chocobo1::RIPEMD_128
#define A_NAME "ripemd_128"
#define A_B 64
#define A_D 16
#elif defined(ALG_ripemd_160)
#include "ripemd_160.h"
#define A_TYPE Chocobo1::RIPEMD_160
#define A_NAME "ripemd_160"
#define A_B 64
#define A_D 20
#elif defined(ALG_ripemd_256)
#include "ripemd_256.h"
#define A_TYPE Chocobo1::RIPEMD_256
#define A_NAME "ripemd_256"
#define A_B 64
#define A_D 32
#elif defined(ALG_ripemd_320)
#include "ripemd_320.h"
#define A_TYPE Chocobo1::RIPEMD_320
#define A_NAME "ripemd_320"
#define A_B 64
#define A_D 40
#elif defined(ALG_sha1)
#include "sha1.h"
#define A_TYPE Chocobo1::SHA1
#define A_NAME "sha1"
#define A_B 64
#define A_D 20
#elif defined(ALG_sha2_224)
#include "sha2_224.h"
#define A_TYPE Chocobo1::SHA2_224
#define A_NAME "sha2_224"
#define A_B 64
#define A_D 28
#elif defined(ALG_sha2_256)
#include "sha2_256.h"
#define A_TYPE Chocobo1::SHA2_256
#define A_NAME "sha2_256"
#define A_B 64
#define A_D 32
#elif defined(ALG_sha2_384)
#include "sha2_384.h"
#define A_TYPE Chocobo1::SHA2_384
#define A_NAME "sha2_384"
#define A_B 128
#define A_D 48
#elif defined(ALG_sha2_512)
#include "sha2_512.h"
#define A_TYPE Chocobo1::SHA2_512
#define A_NAME "sha2_512"
#define A_B 128
#define A_D 64
#elif defined(ALG_sha2_512_224)
#include "sha2_512_224.h"
#define A_TYPE Chocobo1::SHA2_512_224
#define A_NAME "sha2_512_224"
#define A_B 128
#define A_D 28
#elif defined(ALG_sha2_512_256)
#include "sha2_512_256.h"
#define A_TYPE Chocobo1::SHA2_512_256
#define A_NAME "sha2_512_256"
#define A_B 128
#define A_D 32
#elif defined(ALG_sm3)
#include "sm3.h"
#define A_TYPE Chocobo1::SM3
#define A_NAME "sm3"
#define A_B 64
#define A_D 32
#elif defined(ALG_tiger1_128)
#include "tiger.h"
#define A_TYPE Chocobo1::Tiger1_128
#define A_NAME "tiger1_128"
#define A_B 64
#define A_D 16
#elif defined(ALG_tiger1_160)
#include "tiger.h"
#define A_TYPE Chocobo1::Tiger1_160
#define A_NAME "tiger1_160"
#define A_B 64
#define A_D 20
#elif defined(ALG_tiger1_192)
#include "tiger.h"
#define A_TYPE Chocobo1::Tiger1_192
#define A_NAME "tiger1_192"
#define A_B 64
#define A_D 24
#elif defined(ALG_tiger2_128)
#include "tiger.h"
#define A_TYPE Chocobo1::Tiger2_128
#define A_NAME "tiger2_128"
#define A_B 64
#define A_D 16
#elif defined(ALG_tiger2_160)
#include "tiger.h"
#define A_TYPE Chocobo1::Tiger2_160
#define A_NAME "tiger2_160"
#define A_B 64
#define A_D 20
#elif defined(ALG_tiger2_192)
#include "tiger.h"
#define A_TYPE Chocobo1::Tiger2_192
#define A_NAME "tiger2_192"
#define A_B 64
#define A_D 24
#elif defined(ALG_whirlpool)
#include "whirlpool.h"
#define A_TYPE Chocobo1::Whirlpool
#define A_NAME "whirlpool"
#define A_B 64
#define A_D 64
#elif defined(ALG_sha3_224)
#include "sha3.h"
#define A_TYPE Chocobo1::SHA3_224
#define A_NAME "sha3_224"
#define A_B 144
#define A_D 28
#define A_NOARRAY 1
#elif defined(ALG_sha3_256)
#include "sha3.h"
#define A_TYPE Chocobo1::SHA3_256
#define A_NAME "sha3_256"
#define A_B 136
#define A_D 32
#define A_NOARRAY 1
#elif defined(ALG_sha3_384)
#include "sha3.h"
#define A_TYPE Chocobo1::SHA3_384
#define A_NAME "sha3_384"
#define A_B 104
#define A_D 48
#define A_NOARRAY 1
#elif defined(ALG_sha3_512)
#include "sha3.h"
#define A_TYPE Chocobo1::SHA3_512
#define A_NAME "sha3_512"
#define A_B 72
#define A_D 64
#define A_NOARRAY 1
// ---- parameterised -----------------------------------------------------------
#elif defined(ALG_siphash)
#include "siphash.h"
#define A_TYPE Chocobo1::SipHash
#define A_NAME "siphash"
#define A_B 8
#define A_D 8
#define A_KIND_SIP 1
#elif defined(ALG_shake_128)
#include "sha3.h"
#define A_TYPE Chocobo1::SHAKE_128
#define A_NAME "shake_128"
#define A_B 168
#define A_NOARRAY 1
#define A_KIND_SHAKE 128
#elif defined(ALG_shake_256)
#include "sha3.h"
#define A_TYPE Chocobo1::SHAKE_256
#define A_NAME "shake_256"
#define A_B 136
#define A_NOARRAY 1
#define A_KIND_SHAKE 256
#elif defined(ALG_cshake_128)
#include "cshake.h"
#define A_TYPE Chocobo1::CSHAKE_128
#define A_NAME "cshake_128"
#define A_B 168
#define A_NOARRAY 1
#define A_KIND_CSHAKE 128
#elif defined(ALG_cshake_256)
#include "cshake.h"
#define A_TYPE Chocobo1::CSHAKE_256
#define A_NAME "cshake_256"
#define A_B 136
#define A_NOARRAY 1
#define A_KIND_CSHAKE 256
#elif defined(ALG_tuple_hash_128)
#include "tuple_hash.h"
#define A_TYPE Chocobo1::TupleHash_128
#define A_NAME "tuple_hash_128"
#define A_B 168
#define A_NOARRAY 1
#define A_KIND_TUPLE 128
#elif defined(ALG_tuple_hash_256)
#include "tuple_hash.h"
#define A_TYPE Chocobo1::TupleHash_256
#define A_NAME "tuple_hash_256"
#define A_B 136
#define A_NOARRAY 1
#define A_KIND_TUPLE 256
#else
#error "no algorithm selected"
#endif

#ifndef NO_REF
#include "ref/ref.hpp"
#include "ref/registry.hpp"
#endif

typedef A_TYPE H;
typedef std::vector<uint8_t> Bytes;
typedef std::vector<Bytes> Chunks;    // what was fed, call by call
static const int B = A_B;

#if defined(A_KIND_SIP) || defined(A_KIND_SHAKE) || defined(A_KIND_CSHAKE) || defined(A_KIND_TUPLE)
#define A_PARAM 1
#endif

// ---- parameter instances: make(p) and the reference for parameter set p ------------
struct Param { int outLen; std::string key, name, cust; };
static std::vector<Param>& params() {
  static std::vector<Param> v = [] {
    std::vector<Param> r;
#if defined(A_KIND_SIP)
    for (int k = 0; k < 3; ++k) { Param p; p.outLen = 8; for (int i = 0; i < 16; ++i) p.key += char(k == 0 ? i : k == 1 ? 0xff - 17 * i : 0); r.push_back(p); }
#elif defined(A_KIND_SHAKE)
    for (int n : {32, 1, A_B, A_B + 1, 2 * A_B + 9}) r.push_back({n, "", "", ""});
#elif defined(A_KIND_CSHAKE)
    r.push_back({32, "", "", "Email Signature"}); r.push_back({32, "", "", ""}); r.push_back({A_B + 1, "", "N", std::string(200, 's')}); r.push_back({16, "", "fn", ""});
#elif defined(A_KIND_TUPLE)
    r.push_back({32, "", "", ""}); r.push_back({32, "", "", "My Tuple App"}); r.push_back({A_B + 1, "", "", std::string(200, 's')});
#else
    r.push_back({A_D, "", "", ""});
#endif
    return r;
  }();
  return v;
}
static inline H make(const Param& p) {
#if defined(A_KIND_SIP)
  return H(H::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(p.key.data()), p.key.size()));
#elif defined(A_KIND_SHAKE)
  return H(p.outLen);
#elif defined(A_KIND_CSHAKE)
  return H(p.outLen, p.name, p.cust);
#elif defined(A_KIND_TUPLE)
  return H(p.outLen, p.cust);
#else
  (void)p; return H();
#endif
}
static inline H make(int p = 0) { return make(params()[p]); }
// placement construction in caller-provided memory
static inline H* make_at(void* mem, const Param& p) {
#if defined(A_KIND_SIP)
  return new (mem) H(H::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(p.key.data()), p.key.size()));
#elif defined(A_KIND_SHAKE)
  return new (mem) H(p.outLen);
#elif defined(A_KIND_CSHAKE)
  return new (mem) H(p.outLen, p.name, p.cust);
#elif defined(A_KIND_TUPLE)
  return new (mem) H(p.outLen, p.cust);
#else
  (void)p; return new (mem) H();
#endif
}
#ifndef NO_REF
static inline Bytes refFlat(const Param& p, const uint8_t* d, uint64_t n) {  // one call with the whole message
#if defined(A_KIND_SIP)
  return ref::siphash24((const uint8_t*)p.key.data(), d, n);
#elif defined(A_KIND_SHAKE)
  return ref::shake(A_KIND_SHAKE, p.outLen, d, n);
#elif defined(A_KIND_CSHAKE)
  return ref::cshake(A_KIND_CSHAKE, p.outLen, p.name, p.cust, d, n);
#elif defined(A_KIND_TUPLE)
  return ref::tuple_hash(A_KIND_TUPLE, p.outLen, p.cust, {Bytes(d, d + n)});
#else
  (void)p; Bytes o; if (!ref::digest(A_NAME, d, n, o)) abort(); return o;
#endif
}
static inline Bytes refChunks(const Param& p, const Chunks& c) {
#if defined(A_KIND_TUPLE)
  return ref::tuple_hash(A_KIND_TUPLE, p.outLen, p.cust, c);
#else
  Bytes m; for (auto& x : c) m.insert(m.end(), x.begin(), x.end());
  return refFlat(p, m.data(), m.size());
#endif
}
#endif
static inline H& feed(H& h, const void* p, size_t n) {
#if defined(A_KIND_TUPLE)
  return static_cast<H&>(h.nextData(p, n));
#else
  return static_cast<H&>(h.addData(p, n));
#endif
}
#if defined(A_KIND_TUPLE)
#define FEED nextData
#else
#define FEED addData
#endif
static inline Bytes digestOf(const H& h) {
#if defined(A_NOARRAY)
  return h.toVector();
#else
  auto a = h.toArray(); return Bytes(a.begin(), a.end());
#endif
}

// The oracle of the relational properties: a newly constructed object given the same data in the plainest way.
static inline Bytes freshChunks(const Param& p, const Chunks& c) {
  H h = make(p);
#if defined(A_KIND_TUPLE)
  for (auto& x : c) feed(h, x.data(), x.size());
#else
  Bytes m; for (auto& x : c) m.insert(m.end(), x.begin(), x.end());
  if (!m.empty()) feed(h, m.data(), m.size());
#endif
  h.finalize(); return digestOf(h);
}
static inline Bytes freshFlat(const Param& p, const uint8_t* d, uint64_t n) { H h = make(p); if (n) feed(h, d, n); h.finalize(); return digestOf(h); }
