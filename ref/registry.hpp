// name -> reference digest
#pragma once
#include "ref.hpp"
namespace ref {
// prefixBlocks/base: see run(); only meaningful for counter-carrying constructions.
static inline bool digest(const std::string& a, const u8* p, u64 n, Bytes& o, u64 prefixBlocks = 0, u128 base = 0) {
#define R(name, expr) if (a == name) { o = run(expr, p, n, prefixBlocks, base); return true; }
  R("blake1_224", Blake1_224()) R("blake1_256", Blake1_256()) R("blake1_384", Blake1_384()) R("blake1_512", Blake1_512())
  R("blake2", Blake2b()) R("blake2s", Blake2s()) R("crc_32", CRC32())
  R("fnv32_0", FNV(32, 0)) R("fnv32_1", FNV(32, 1)) R("fnv32_1a", FNV(32, 2))
  R("fnv64_0", FNV(64, 0)) R("fnv64_1", FNV(64, 1)) R("fnv64_1a", FNV(64, 2))
  R("has_160", HAS160()) R("md2", MD2()) R("md4", MD4()) R("md5", MD5())
  R("ripemd_128", RIPEMD(128)) R("ripemd_160", RIPEMD(160)) R("ripemd_256", RIPEMD(256)) R("ripemd_320", RIPEMD(320))
  R("sha1", SHA1()) R("sha2_224", SHA2_224()) R("sha2_256", SHA2_256()) R("sha2_384", SHA2_384()) R("sha2_512", SHA2_512())
  R("sha2_512_224", SHA2_512_224()) R("sha2_512_256", SHA2_512_256()) R("sm3", SM3())
  R("tiger1_128", Tiger(1, 16)) R("tiger1_160", Tiger(1, 20)) R("tiger1_192", Tiger(1, 24))
  R("tiger2_128", Tiger(2, 16)) R("tiger2_160", Tiger(2, 20)) R("tiger2_192", Tiger(2, 24))
  R("whirlpool", Whirlpool())
#undef R
  if (a == "sha3_224") { o = sha3(224, p, n); return true; }
  if (a == "sha3_256") { o = sha3(256, p, n); return true; }
  if (a == "sha3_384") { o = sha3(384, p, n); return true; }
  if (a == "sha3_512") { o = sha3(512, p, n); return true; }
  return false;
}
}
