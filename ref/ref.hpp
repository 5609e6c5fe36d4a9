// Reference implementations, written from the published specifications.
// Deliberately boring: one message-block function per algorithm, padding done by
// building the padded tail explicitly.  Nothing here is taken from /repo.
// All functions take the *whole* message (ptr,len); there is no streaming state.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <functional>

namespace ref {
#include "tables.inc"
typedef std::vector<uint8_t> Bytes;
typedef unsigned __int128 u128;
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

static inline u32 rl(u32 x, unsigned s) { s &= 31; return s ? (x << s) | (x >> (32 - s)) : x; }
static inline u32 rr(u32 x, unsigned s) { return rl(x, 32 - s); }
static inline u64 rl64(u64 x, unsigned s) { s &= 63; return s ? (x << s) | (x >> (64 - s)) : x; }
static inline u64 rr64(u64 x, unsigned s) { return rl64(x, 64 - s); }
static inline u32 le32(const u8* p) { return u32(p[0]) | u32(p[1]) << 8 | u32(p[2]) << 16 | u32(p[3]) << 24; }
static inline u32 be32(const u8* p) { return u32(p[3]) | u32(p[2]) << 8 | u32(p[1]) << 16 | u32(p[0]) << 24; }
static inline u64 le64(const u8* p) { return u64(le32(p)) | u64(le32(p + 4)) << 32; }
static inline u64 be64(const u8* p) { return u64(be32(p + 4)) | u64(be32(p)) << 32; }
static inline void put(Bytes& o, u128 v, int n, bool be) {
  for (int i = 0; i < n; ++i) o.push_back(u8(v >> (8 * (be ? n - 1 - i : i))));
}

// ---- Merkle-Damgard driver --------------------------------------------------
// A: static const int B; void block(const u8*, u128 messageBytesSoFar)
//    Bytes finish(const u8* tail, size_t n, u128 total)
// `base` is added to every byte count (used only to model very long messages).
template <class A> Bytes run(A a, const u8* p, u64 len, u64 prefixBlocks = 0, u128 base = 0) {
  u64 i = 0, k = 0;
  const int B = A::B;
  const u64 keep = A::KEEP_LAST ? 1 : 0;      // BLAKE2 keeps a full last block for finalisation
  for (; len - i >= u64(B) + keep; i += B, ++k)
    a.block(p + i, u128(i + B) + (k >= prefixBlocks ? base : 0));
  return a.finish(p + i, size_t(len - i), u128(len) + base);
}
template <class A> Bytes md_finish(A& a, const u8* tail, size_t n, u128 total, u8 first, int lenBytes, bool be) {
  Bytes m(tail, tail + n);
  m.push_back(first);
  while ((m.size() + lenBytes) % A::B) m.push_back(0);
  u128 bits = total * 8;
  if (lenBytes == 32) { // 256-bit counter (Whirlpool): top half is (total >> 125)
    for (int i = 0; i < 15; ++i) m.push_back(0);
    m.push_back(u8(total >> 125));
    put(m, bits, 16, be);
  } else put(m, bits, lenBytes, be);
  for (size_t i = 0; i < m.size(); i += A::B) a.block(m.data() + i, 0);
  return a.out();
}
#define MD(B_, first, lenb, be) \
  static const int B = B_; static const bool KEEP_LAST = false; \
  Bytes finish(const u8* t, size_t n, u128 total) { return md_finish(*this, t, n, total, first, lenb, be); }

// ---- MD2 (RFC 1319) ---------------------------------------------------------
struct MD2 {
  static const int B = 16; static const bool KEEP_LAST = false;
  u8 X[48]; u8 C[16];
  MD2() { memset(X, 0, 48); memset(C, 0, 16); }
  void block(const u8* p, u128) {
    u8 L = C[15];
    for (int j = 0; j < 16; ++j) { C[j] ^= MD2_S[p[j] ^ L]; L = C[j]; }
    mix(p);
  }
  void mix(const u8* p) {
    for (int j = 0; j < 16; ++j) { X[16 + j] = p[j]; X[32 + j] = u8(p[j] ^ X[j]); }
    unsigned t = 0;
    for (int j = 0; j < 18; ++j) { for (int k = 0; k < 48; ++k) { X[k] ^= MD2_S[t]; t = X[k]; } t = (t + j) & 255; }
  }
  Bytes finish(const u8* tail, size_t n, u128) {
    u8 pad[16]; memcpy(pad, tail, n); memset(pad + n, int(16 - n), 16 - n);
    block(pad, 0);
    u8 c[16]; memcpy(c, C, 16); mix(c);
    return Bytes(X, X + 16);
  }
};
// ---- MD4 (RFC 1320) ---------------------------------------------------------
struct MD4 {
  MD(64, 0x80, 8, false)
  u32 h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  void block(const u8* p, u128) {
    u32 v[4]; memcpy(v, h, 16);
    static const int s[3][4] = {{3,7,11,19},{3,5,9,13},{3,9,11,15}};
    for (int i = 0; i < 48; ++i) {
      int r = i / 16, j = i % 16, k;
      u32 b = v[1], c = v[2], d = v[3], f;
      if (r == 0) { k = j; f = (b & c) | (~b & d); }
      else if (r == 1) { k = (j % 4) * 4 + j / 4; f = ((b & c) | (b & d) | (c & d)) + 0x5a827999; }
      else { static const int o[16] = {0,8,4,12,2,10,6,14,1,9,5,13,3,11,7,15}; k = o[j]; f = (b ^ c ^ d) + 0x6ed9eba1; }
      u32 t = rl(v[0] + f + le32(p + 4 * k), s[r][j % 4]);
      v[0] = d; v[3] = c; v[2] = b; v[1] = t;
    }
    for (int i = 0; i < 4; ++i) h[i] += v[i];
  }
  Bytes out() { Bytes o; for (u32 x : h) put(o, x, 4, false); return o; }
};
// ---- MD5 (RFC 1321) ---------------------------------------------------------
struct MD5 {
  MD(64, 0x80, 8, false)
  u32 h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  void block(const u8* p, u128) {
    u32 v[4]; memcpy(v, h, 16);
    static const int s[4][4] = {{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
    for (int i = 0; i < 64; ++i) {
      int r = i / 16, k; u32 b = v[1], c = v[2], d = v[3], f;
      if (r == 0) { f = (b & c) | (~b & d); k = i; }
      else if (r == 1) { f = (b & d) | (c & ~d); k = (1 + 5 * i) % 16; }
      else if (r == 2) { f = b ^ c ^ d; k = (5 + 3 * i) % 16; }
      else { f = c ^ (b | ~d); k = (7 * i) % 16; }
      u32 t = b + rl(v[0] + f + le32(p + 4 * k) + MD5_T[i], s[r][i % 4]);
      v[0] = d; v[3] = c; v[2] = b; v[1] = t;
    }
    for (int i = 0; i < 4; ++i) h[i] += v[i];
  }
  Bytes out() { Bytes o; for (u32 x : h) put(o, x, 4, false); return o; }
};
// ---- SHA-1 (FIPS 180-4) -----------------------------------------------------
struct SHA1 {
  MD(64, 0x80, 8, true)
  u32 h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
  void block(const u8* p, u128) {
    u32 w[80];
    for (int i = 0; i < 16; ++i) w[i] = be32(p + 4 * i);
    for (int i = 16; i < 80; ++i) w[i] = rl(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
    u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; ++i) {
      u32 f, k;
      if (i < 20) { f = (b & c) ^ (~b & d); k = 0x5a827999; }
      else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
      else if (i < 60) { f = (b & c) ^ (b & d) ^ (c & d); k = 0x8f1bbcdc; }
      else { f = b ^ c ^ d; k = 0xca62c1d6; }
      u32 t = rl(a, 5) + f + e + k + w[i];
      e = d; d = c; c = rl(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  Bytes out() { Bytes o; for (u32 x : h) put(o, x, 4, true); return o; }
};
// ---- SHA-2 (FIPS 180-4) -----------------------------------------------------
struct SHA256core {
  MD(64, 0x80, 8, true)
  u32 h[8]; int outWords;
  SHA256core(const u32* iv, int ow) : outWords(ow) { memcpy(h, iv, 32); }
  void block(const u8* p, u128) {
    u32 w[64];
    for (int i = 0; i < 16; ++i) w[i] = be32(p + 4 * i);
    for (int i = 16; i < 64; ++i) {
      u32 s0 = rr(w[i-15], 7) ^ rr(w[i-15], 18) ^ (w[i-15] >> 3), s1 = rr(w[i-2], 17) ^ rr(w[i-2], 19) ^ (w[i-2] >> 10);
      w[i] = w[i-16] + s0 + w[i-7] + s1;
    }
    u32 v[8]; memcpy(v, h, 32);
    for (int i = 0; i < 64; ++i) {
      u32 S1 = rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      u32 t1 = v[7] + S1 + ch + SHA256_K[i] + w[i];
      u32 S0 = rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      u32 t2 = S0 + mj;
      for (int j = 7; j > 0; --j) v[j] = v[j - 1];
      v[4] += t1; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  Bytes out() { Bytes o; for (int i = 0; i < outWords; ++i) put(o, h[i], 4, true); return o; }
};
struct SHA2_256 : SHA256core { SHA2_256() : SHA256core(SHA256_IV, 8) {} };
struct SHA2_224 : SHA256core { SHA2_224() : SHA256core(SHA224_IV, 7) {} };
struct SHA512core {
  MD(128, 0x80, 16, true)
  u64 h[8]; int outBytes;
  SHA512core(const u64* iv, int ob) : outBytes(ob) { memcpy(h, iv, 64); }
  void block(const u8* p, u128) {
    u64 w[80];
    for (int i = 0; i < 16; ++i) w[i] = be64(p + 8 * i);
    for (int i = 16; i < 80; ++i) {
      u64 s0 = rr64(w[i-15], 1) ^ rr64(w[i-15], 8) ^ (w[i-15] >> 7), s1 = rr64(w[i-2], 19) ^ rr64(w[i-2], 61) ^ (w[i-2] >> 6);
      w[i] = w[i-16] + s0 + w[i-7] + s1;
    }
    u64 v[8]; memcpy(v, h, 64);
    for (int i = 0; i < 80; ++i) {
      u64 S1 = rr64(v[4], 14) ^ rr64(v[4], 18) ^ rr64(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      u64 t1 = v[7] + S1 + ch + SHA512_K[i] + w[i];
      u64 S0 = rr64(v[0], 28) ^ rr64(v[0], 34) ^ rr64(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      u64 t2 = S0 + mj;
      for (int j = 7; j > 0; --j) v[j] = v[j - 1];
      v[4] += t1; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  Bytes out() { Bytes o; for (int i = 0; i < 8; ++i) put(o, h[i], 8, true); o.resize(outBytes); return o; }
};
struct SHA2_512 : SHA512core { SHA2_512() : SHA512core(SHA512_IV, 64) {} };
struct SHA2_384 : SHA512core { SHA2_384() : SHA512core(SHA384_IV, 48) {} };
static inline std::vector<u64> sha512t_iv(const char* name) {
  u64 iv[8]; for (int i = 0; i < 8; ++i) iv[i] = SHA512_IV[i] ^ 0xa5a5a5a5a5a5a5a5ULL;
  Bytes d = run(SHA512core(iv, 64), (const u8*)name, strlen(name));
  std::vector<u64> r; for (int i = 0; i < 8; ++i) r.push_back(be64(&d[8 * i]));
  return r;
}
struct SHA2_512_224 : SHA512core { SHA2_512_224() : SHA512core(iv().data(), 28) {} static const std::vector<u64>& iv() { static const std::vector<u64> v = sha512t_iv("SHA-512/224"); return v; } };
struct SHA2_512_256 : SHA512core { SHA2_512_256() : SHA512core(iv().data(), 32) {} static const std::vector<u64>& iv() { static const std::vector<u64> v = sha512t_iv("SHA-512/256"); return v; } };
// ---- SM3 (GB/T 32905) -------------------------------------------------------
struct SM3 {
  MD(64, 0x80, 8, true)
  u32 h[8] = {0x7380166f,0x4914b2b9,0x172442d7,0xda8a0600,0xa96f30bc,0x163138aa,0xe38dee4d,0xb0fb0e4e};
  static u32 P0(u32 x) { return x ^ rl(x, 9) ^ rl(x, 17); }
  static u32 P1(u32 x) { return x ^ rl(x, 15) ^ rl(x, 23); }
  void block(const u8* p, u128) {
    u32 w[68], w1[64];
    for (int i = 0; i < 16; ++i) w[i] = be32(p + 4 * i);
    for (int i = 16; i < 68; ++i) w[i] = P1(w[i-16] ^ w[i-9] ^ rl(w[i-3], 15)) ^ rl(w[i-13], 7) ^ w[i-6];
    for (int i = 0; i < 64; ++i) w1[i] = w[i] ^ w[i + 4];
    u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], q = h[7];
    for (int j = 0; j < 64; ++j) {
      u32 T = j < 16 ? 0x79cc4519 : 0x7a879d8a;
      u32 ss1 = rl(rl(a, 12) + e + rl(T, j % 32), 7), ss2 = ss1 ^ rl(a, 12);
      u32 ff = j < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c);
      u32 gg = j < 16 ? e ^ f ^ g : (e & f) | (~e & g);
      u32 tt1 = ff + d + ss2 + w1[j], tt2 = gg + q + ss1 + w[j];
      d = c; c = rl(b, 9); b = a; a = tt1; q = g; g = rl(f, 19); f = e; e = P0(tt2);
    }
    h[0] ^= a; h[1] ^= b; h[2] ^= c; h[3] ^= d; h[4] ^= e; h[5] ^= f; h[6] ^= g; h[7] ^= q;
  }
  Bytes out() { Bytes o; for (u32 x : h) put(o, x, 4, true); return o; }
};
// ---- HAS-160 (TTAS.KO-12.0011) ----------------------------------------------
struct HAS160 {
  MD(64, 0x80, 8, false)
  u32 h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
  void block(const u8* p, u128) {
    static const int ord[4][20] = {
      {18,0,1,2,3,19,4,5,6,7,16,8,9,10,11,17,12,13,14,15},
      {18,3,6,9,12,19,15,2,5,8,16,11,14,1,4,17,7,10,13,0},
      {18,12,5,14,7,19,0,9,2,11,16,4,13,6,15,17,8,1,10,3},
      {18,7,2,13,8,19,3,14,9,4,16,15,10,5,0,17,11,6,1,12}};
    static const int s1[20] = {5,11,7,15,6,13,8,14,7,12,9,11,8,15,6,12,9,14,5,13};
    static const int s2[4] = {10,17,25,30};
    static const u32 K[4] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc};
    u32 x[20]; for (int i = 0; i < 16; ++i) x[i] = le32(p + 4 * i);
    u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int r = 0; r < 4; ++r) {
      for (int g = 0; g < 4; ++g) { const int* o = ord[r] + 5 * g; x[16 + g] = x[o[1]] ^ x[o[2]] ^ x[o[3]] ^ x[o[4]]; }
      for (int j = 0; j < 20; ++j) {
        u32 f = r == 0 ? ((b & c) | (~b & d)) : r == 2 ? (c ^ (b | ~d)) : (b ^ c ^ d);
        u32 t = rl(a, s1[j]) + f + e + x[ord[r][j]] + K[r];
        e = d; d = c; c = rl(b, s2[r]); b = a; a = t;
      }
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  Bytes out() { Bytes o; for (u32 x : h) put(o, x, 4, false); return o; }
};
// ---- RIPEMD family ----------------------------------------------------------
static const u8 RMD_RL[80] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
  3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
static const u8 RMD_RR[80] = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
  15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
static const u8 RMD_SL[80] = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
  11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
static const u8 RMD_SR[80] = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
  9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
static inline u32 rmdf(int j, u32 x, u32 y, u32 z) {
  switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
}
struct RIPEMD {            // kind = 128, 160, 256, 320
  MD(64, 0x80, 8, false)
  int kind; u32 h[10];
  RIPEMD(int k) : kind(k) {
    static const u32 a[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    static const u32 b[5] = {0x76543210, 0xfedcba98, 0x89abcdef, 0x01234567, 0x3c2d1e0f};
    int n = (k == 128 || k == 256) ? 4 : 5;
    for (int i = 0; i < n; ++i) { h[i] = a[i]; h[n + i] = b[i]; }
  }
  void block(const u8* p, u128) {
    bool five = kind == 160 || kind == 320, dbl = kind >= 256;
    int n = five ? 5 : 4, rounds = n;
    u32 L[5], R[5];
    for (int i = 0; i < n; ++i) { L[i] = h[i]; R[i] = dbl ? h[n + i] : h[i]; }
    for (int r = 0; r < rounds; ++r) {
      for (int j = 16 * r; j < 16 * r + 16; ++j) {
        if (five) {
          u32 t = rl(L[0] + rmdf(r, L[1], L[2], L[3]) + le32(p + 4 * RMD_RL[j]) + RMD_KL[r], RMD_SL[j]) + L[4];
          L[0] = L[4]; L[4] = L[3]; L[3] = rl(L[2], 10); L[2] = L[1]; L[1] = t;
          t = rl(R[0] + rmdf(4 - r, R[1], R[2], R[3]) + le32(p + 4 * RMD_RR[j]) + RMD_KR[r], RMD_SR[j]) + R[4];
          R[0] = R[4]; R[4] = R[3]; R[3] = rl(R[2], 10); R[2] = R[1]; R[1] = t;
        } else {
          u32 t = rl(L[0] + rmdf(r, L[1], L[2], L[3]) + le32(p + 4 * RMD_RL[j]) + RMD_KL[r], RMD_SL[j]);
          L[0] = L[3]; L[3] = L[2]; L[2] = L[1]; L[1] = t;
          u32 kr = r == 3 ? 0 : RMD_KR[r];
          t = rl(R[0] + rmdf(3 - r, R[1], R[2], R[3]) + le32(p + 4 * RMD_RR[j]) + kr, RMD_SR[j]);
          R[0] = R[3]; R[3] = R[2]; R[2] = R[1]; R[1] = t;
        }
      }
      if (dbl) { // exchange one chaining variable after each round
        static const int x4[4] = {0, 1, 2, 3}, x5[5] = {1, 3, 0, 2, 4};
        int k = five ? x5[r] : x4[r];
        std::swap(L[k], R[k]);
      }
    }
    if (dbl) { for (int i = 0; i < n; ++i) { h[i] += L[i]; h[n + i] += R[i]; } }
    else if (five) { u32 t = h[1] + L[2] + R[3]; h[1] = h[2] + L[3] + R[4]; h[2] = h[3] + L[4] + R[0]; h[3] = h[4] + L[0] + R[1]; h[4] = h[0] + L[1] + R[2]; h[0] = t; }
    else { u32 t = h[1] + L[2] + R[3]; h[1] = h[2] + L[3] + R[0]; h[2] = h[3] + L[0] + R[1]; h[3] = h[0] + L[1] + R[2]; h[0] = t; }
  }
  Bytes out() { Bytes o; for (int i = 0; i < kind / 32; ++i) put(o, h[i], 4, false); return o; }
};
// ---- Tiger ------------------------------------------------------------------
struct Tiger {
  static const int B = 64; static const bool KEEP_LAST = false;
  int ver, outBytes;
  u64 h[3] = {0x0123456789ABCDEFULL, 0xFEDCBA9876543210ULL, 0xF096A5B4C3B2E187ULL};
  Tiger(int v, int ob) : ver(v), outBytes(ob) {}
  Bytes finish(const u8* t, size_t n, u128 total) { return md_finish(*this, t, n, total, ver == 1 ? 0x01 : 0x80, 8, false); }
  void block(const u8* p, u128) {
    u64 x[8]; for (int i = 0; i < 8; ++i) x[i] = le64(p + 8 * i);
    u64 s[3] = {h[0], h[1], h[2]};
    for (int pass = 0; pass < 3; ++pass) {
      if (pass) {
        x[0] -= x[7] ^ 0xA5A5A5A5A5A5A5A5ULL; x[1] ^= x[0]; x[2] += x[1]; x[3] -= x[2] ^ (~x[1] << 19);
        x[4] ^= x[3]; x[5] += x[4]; x[6] -= x[5] ^ (~x[4] >> 23); x[7] ^= x[6];
        x[0] += x[7]; x[1] -= x[0] ^ (~x[7] << 19); x[2] ^= x[1]; x[3] += x[2];
        x[4] -= x[3] ^ (~x[2] >> 23); x[5] ^= x[4]; x[6] += x[5]; x[7] -= x[6] ^ 0x0123456789ABCDEFULL;
      }
      // pass uses (a,b,c), then (c,a,b), then (b,c,a); within a pass rounds rotate (a,b,c)->(b,c,a)
      for (int i = 0; i < 8; ++i) {
        int base = (3 - pass) % 3;
        int ia = (base + i) % 3, ib = (base + i + 1) % 3, ic = (base + i + 2) % 3;
        u64 c = s[ic] ^= x[i];
        u8 by[8]; for (int k = 0; k < 8; ++k) by[k] = u8(c >> (8 * k));
        s[ia] -= TIGER_S[by[0]] ^ TIGER_S[256 + by[2]] ^ TIGER_S[512 + by[4]] ^ TIGER_S[768 + by[6]];
        s[ib] += TIGER_S[768 + by[1]] ^ TIGER_S[512 + by[3]] ^ TIGER_S[256 + by[5]] ^ TIGER_S[by[7]];
        s[ib] *= pass == 0 ? 5 : pass == 1 ? 7 : 9;
      }
    }
    h[0] ^= s[0]; h[1] = s[1] - h[1]; h[2] += s[2];
  }
  Bytes out() { Bytes o; for (u64 x : h) put(o, x, 8, false); o.resize(outBytes); return o; }
};
// ---- Whirlpool (ISO/IEC 10118-3, final version) -----------------------------
static inline const u64 (*whirl_tables())[256] {
  static u64 T[8][256]; static bool done = false;
  if (!done) {
    static const int cir[8] = {1, 1, 4, 1, 8, 5, 2, 9};
    for (int t = 0; t < 8; ++t) for (int b = 0; b < 256; ++b) {
      u64 v = 0;
      for (int j = 0; j < 8; ++j) { // contribution of column t to output column j: S[b] * cir[(j - t) mod 8]
        int m = cir[(j - t + 8) & 7]; unsigned a = WHIRL_S[b], r = 0;
        for (int k = 0; k < 4; ++k) { if (m >> k & 1) r ^= a; a <<= 1; if (a & 0x100) a ^= 0x11d; }
        v |= u64(u8(r)) << (8 * j);
      }
      T[t][b] = v;
    }
    done = true;
  }
  return T;
}
struct Whirlpool {
  MD(64, 0x80, 32, true)
  u8 h[64]; const u64 (*T)[256];
  Whirlpool() { memset(h, 0, 64); T = whirl_tables(); }
  // one round on an 8x8 byte matrix (row major): SubBytes, ShiftColumns, MixRows, AddKey
  void round(u8* s, const u8* key) {
    u8 o[64];
    for (int i = 0; i < 8; ++i) {
      u64 v = 0;
      for (int j = 0; j < 8; ++j) v ^= T[j][s[8 * ((i - j + 8) & 7) + j]];
      for (int j = 0; j < 8; ++j) o[8 * i + j] = u8(u8(v >> (8 * j)) ^ key[8 * i + j]);
    }
    memcpy(s, o, 64);
  }
  void block(const u8* p, u128) {
    u8 k[64], s[64];
    memcpy(k, h, 64);
    for (int i = 0; i < 64; ++i) s[i] = u8(p[i] ^ k[i]);
    for (int r = 0; r < 10; ++r) {
      u8 rc[64] = {0}; memcpy(rc, WHIRL_S + 8 * r, 8);
      round(k, rc); round(s, k);
    }
    for (int i = 0; i < 64; ++i) h[i] = u8(h[i] ^ s[i] ^ p[i]);
  }
  Bytes out() { return Bytes(h, h + 64); }
};
// ---- BLAKE (SHA-3 finalist, v1.2: 14/16 rounds) ------------------------------
static const u8 BLAKE_SIGMA[10][16] = {
  {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},
  {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
  {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},
  {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
template <class W> struct BlakeT {
  static const int B = sizeof(W) * 16; static const bool KEEP_LAST = false;
  W h[8]; bool full; int outBytes;
  BlakeT(const W* iv, bool f, int ob) : full(f), outBytes(ob) { memcpy(h, iv, sizeof h); }
  static W rot(W x, int s) { return (x >> s) | (x << (sizeof(W) * 8 - s)); }
  static W c(int i) { return sizeof(W) == 4 ? W(BLAKE_C32[i]) : W(BLAKE_C64[i]); }
  static W ld(const u8* p) { return sizeof(W) == 4 ? W(be32(p)) : W(be64(p)); }
  void compress(const u8* p, u128 t) {   // t: number of message bits hashed so far incl. this block
    const bool w32 = sizeof(W) == 4;
    W m[16], v[16];
    for (int i = 0; i < 16; ++i) m[i] = ld(p + sizeof(W) * i);
    for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[8 + i] = c(i); }
    W t0 = W(t), t1 = W(t >> (sizeof(W) * 8));
    v[12] ^= t0; v[13] ^= t0; v[14] ^= t1; v[15] ^= t1;
    int R1 = w32 ? 16 : 32, R2 = w32 ? 12 : 25, R3 = w32 ? 8 : 16, R4 = w32 ? 7 : 11;
    static const int ix[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
    for (int r = 0; r < (w32 ? 14 : 16); ++r) {
      const u8* s = BLAKE_SIGMA[r % 10];
      for (int i = 0; i < 8; ++i) {
        W &a = v[ix[i][0]], &b = v[ix[i][1]], &cc = v[ix[i][2]], &d = v[ix[i][3]];
        a += b + (m[s[2*i]] ^ c(s[2*i+1])); d = rot(d ^ a, R1); cc += d; b = rot(b ^ cc, R2);
        a += b + (m[s[2*i+1]] ^ c(s[2*i])); d = rot(d ^ a, R3); cc += d; b = rot(b ^ cc, R4);
      }
    }
    for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
  }
  void block(const u8* p, u128 bytes) { compress(p, bytes * 8); }
  Bytes finish(const u8* tail, size_t n, u128 total) {
    const int lenB = sizeof(W) * 2;
    Bytes m(tail, tail + n);
    m.push_back(0x80);
    while ((m.size() + lenB) % B) m.push_back(0);
    if (full) m[m.size() - 1] |= 1;       // 224/384 variants end the padding with a 0 bit instead of 1
    put(m, total * 8, lenB, true);
    for (size_t i = 0; i < m.size(); i += B) {
      u128 t;
      if (n <= i) t = 0;                              // block holds no message bit
      else t = total * 8;                             // block holds the last message bits
      compress(&m[i], t);
    }
    Bytes o; for (W x : h) put(o, x, sizeof(W), true); o.resize(outBytes); return o;
  }
};
struct Blake1_256 : BlakeT<u32> { Blake1_256() : BlakeT(SHA256_IV, true, 32) {} };
struct Blake1_224 : BlakeT<u32> { Blake1_224() : BlakeT(SHA224_IV, false, 28) {} };
struct Blake1_512 : BlakeT<u64> { Blake1_512() : BlakeT(SHA512_IV, true, 64) {} };
struct Blake1_384 : BlakeT<u64> { Blake1_384() : BlakeT(SHA384_IV, false, 48) {} };
// ---- BLAKE2 (RFC 7693), unkeyed, full digest ---------------------------------
template <class W> struct Blake2T {
  static const int B = sizeof(W) * 16; static const bool KEEP_LAST = true;
  W h[8];
  Blake2T() {
    for (int i = 0; i < 8; ++i) h[i] = sizeof(W) == 4 ? W(SHA256_IV[i]) : W(SHA512_IV[i]);
    h[0] ^= 0x01010000 ^ W(sizeof(W) * 8);
  }
  static W rot(W x, int s) { return (x >> s) | (x << (sizeof(W) * 8 - s)); }
  void compress(const u8* p, u128 t, bool last) {
    const bool w32 = sizeof(W) == 4;
    W m[16], v[16];
    for (int i = 0; i < 16; ++i) m[i] = w32 ? W(le32(p + 4 * i)) : W(le64(p + 8 * i));
    for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[8 + i] = w32 ? W(SHA256_IV[i]) : W(SHA512_IV[i]); }
    v[12] ^= W(t); v[13] ^= W(t >> (sizeof(W) * 8)); if (last) v[14] = ~v[14];
    int R1 = 32, R2 = 24, R3 = 16, R4 = 63;
    if (w32) { R1 = 16; R2 = 12; R3 = 8; R4 = 7; }
    static const int ix[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
    for (int r = 0; r < (w32 ? 10 : 12); ++r) {
      const u8* s = BLAKE_SIGMA[r % 10];
      for (int i = 0; i < 8; ++i) {
        W &a = v[ix[i][0]], &b = v[ix[i][1]], &c = v[ix[i][2]], &d = v[ix[i][3]];
        a += b + m[s[2*i]]; d = rot(d ^ a, R1); c += d; b = rot(b ^ c, R2);
        a += b + m[s[2*i+1]]; d = rot(d ^ a, R3); c += d; b = rot(b ^ c, R4);
      }
    }
    for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
  }
  void block(const u8* p, u128 bytes) { compress(p, bytes, false); }
  Bytes finish(const u8* tail, size_t n, u128 total) {
    Bytes m(tail, tail + n); m.resize(B, 0);
    compress(m.data(), total, true);
    Bytes o; for (W x : h) put(o, x, sizeof(W), false); return o;
  }
};
typedef Blake2T<u64> Blake2b; typedef Blake2T<u32> Blake2s;
// ---- CRC-32 (IEEE 802.3, reflected) ------------------------------------------
struct CRC32 {
  static const int B = 1; static const bool KEEP_LAST = false;
  u32 c = 0xffffffff;
  void block(const u8* p, u128) { c ^= *p; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ ((c & 1) ? 0xedb88320u : 0); }
  Bytes finish(const u8*, size_t, u128) { Bytes o; put(o, u32(~c), 4, true); return o; }
};
// ---- FNV (draft-eastlake-fnv) -------------------------------------------------
struct FNV {
  static const int B = 1; static const bool KEEP_LAST = false;
  int bits, kind; u64 h;    // kind 0: FNV-0, 1: FNV-1, 2: FNV-1a
  FNV(int b, int k) : bits(b), kind(k) {
    // offset basis = FNV-0 of the famous string, computed below (not hard coded)
    h = 0;
    if (k) { static const char s[] = "chongo <Landon Curt Noll> /\\../\\"; FNV z(b, 0); for (int i = 0; s[i]; ++i) z.block((const u8*)s + i, 0); h = z.h; }
  }
  void block(const u8* p, u128) {
    u64 prime = bits == 32 ? 0x01000193ULL : 0x100000001b3ULL;
    if (kind == 2) { h ^= *p; h *= prime; } else { h *= prime; h ^= *p; }
    if (bits == 32) h = u32(h);
  }
  Bytes finish(const u8*, size_t, u128) { Bytes o; put(o, h, bits / 8, true); return o; }
};
// ---- Keccak (FIPS 202), SP 800-185 ---------------------------------------------
static inline void keccak_f(u64* A) {
  for (int r = 0; r < 24; ++r) {
    u64 C[5], D[5], Bm[25];
    for (int x = 0; x < 5; ++x) C[x] = A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20];
    for (int x = 0; x < 5; ++x) D[x] = C[(x + 4) % 5] ^ rl64(C[(x + 1) % 5], 1);
    for (int i = 0; i < 25; ++i) A[i] ^= D[i % 5];
    for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) Bm[y + 5 * ((2 * x + 3 * y) % 5)] = rl64(A[x + 5 * y], KECCAK_ROT[x + 5 * y]);
    for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x + 5 * y] = Bm[x + 5 * y] ^ (~Bm[(x + 1) % 5 + 5 * y] & Bm[(x + 2) % 5 + 5 * y]);
    A[0] ^= KECCAK_RC[r];
  }
}
// message = prefix || data
static inline Bytes keccak(int rate, u8 suffix, size_t outLen, const Bytes& prefix, const u8* p, u64 len) {
  u64 A[25] = {0}; int pos = 0;
  auto xorb = [&](int i, u8 b) { A[i / 8] ^= u64(b) << (8 * (i % 8)); };
  auto absorb = [&](u8 b) { xorb(pos, b); if (++pos == rate) { keccak_f(A); pos = 0; } };
  for (u8 b : prefix) absorb(b);
  u64 i = 0;
  for (; i < len && pos; ++i) absorb(p[i]);
  for (; len - i >= u64(rate); i += rate) { for (int k = 0; k < rate / 8; ++k) A[k] ^= le64(p + i + 8 * k); keccak_f(A); }
  for (; i < len; ++i) absorb(p[i]);
  xorb(pos, suffix); xorb(rate - 1, 0x80);
  keccak_f(A);
  Bytes o;
  for (;;) {
    for (int k = 0; k < rate; ++k) { if (o.size() == outLen) return o; o.push_back(u8(A[k / 8] >> (8 * (k % 8)))); }
    if (o.size() == outLen) return o;
    keccak_f(A);
  }
}
static inline Bytes left_encode(u64 v) { Bytes o; int n = 1; while (n < 8 && (v >> (8 * n))) ++n; o.push_back(u8(n)); put(o, v, n, true); return o; }
static inline Bytes right_encode(u64 v) { Bytes o; int n = 1; while (n < 8 && (v >> (8 * n))) ++n; put(o, v, n, true); o.push_back(u8(n)); return o; }
static inline void app(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
static inline Bytes encode_string(const std::string& s) { Bytes o = left_encode(u64(s.size()) * 8); o.insert(o.end(), s.begin(), s.end()); return o; }
static inline Bytes bytepad(const Bytes& x, int w) { Bytes o = left_encode(w); app(o, x); while (o.size() % w) o.push_back(0); return o; }
static inline Bytes shake(int bits, size_t outLen, const u8* p, u64 len) { return keccak(bits == 128 ? 168 : 136, 0x1f, outLen, Bytes(), p, len); }
static inline Bytes cshake(int bits, size_t outLen, const std::string& N, const std::string& S, const u8* p, u64 len) {
  if (N.empty() && S.empty()) return shake(bits, outLen, p, len);
  int rate = bits == 128 ? 168 : 136;
  Bytes pre = encode_string(N); app(pre, encode_string(S));
  return keccak(rate, 0x04, outLen, bytepad(pre, rate), p, len);
}
static inline Bytes tuple_hash(int bits, size_t outLen, const std::string& S, const std::vector<Bytes>& X) {
  Bytes z;
  for (const Bytes& x : X) { app(z, left_encode(u64(x.size()) * 8)); app(z, x); }
  app(z, right_encode(u64(outLen) * 8));
  return cshake(bits, outLen, "TupleHash", S, z.data(), z.size());
}
static inline Bytes sha3(int bits, const u8* p, u64 len) { return keccak(200 - bits / 4, 0x06, bits / 8, Bytes(), p, len); }
// ---- SipHash-2-4 -----------------------------------------------------------------
static inline Bytes siphash24(const u8* key, const u8* p, u64 len) {
  u64 k0 = le64(key), k1 = le64(key + 8);
  u64 v0 = k0 ^ 0x736f6d6570736575ULL, v1 = k1 ^ 0x646f72616e646f6dULL, v2 = k0 ^ 0x6c7967656e657261ULL, v3 = k1 ^ 0x7465646279746573ULL;
  auto rnd = [&]() {
    v0 += v1; v2 += v3; v1 = rl64(v1, 13); v3 = rl64(v3, 16); v1 ^= v0; v3 ^= v2; v0 = rl64(v0, 32);
    v2 += v1; v0 += v3; v1 = rl64(v1, 17); v3 = rl64(v3, 21); v1 ^= v2; v3 ^= v0; v2 = rl64(v2, 32);
  };
  u64 i = 0;
  for (; len - i >= 8; i += 8) { u64 m = le64(p + i); v3 ^= m; rnd(); rnd(); v0 ^= m; }
  u64 b = u64(u8(len)) << 56;
  for (int k = 0; i + k < len; ++k) b |= u64(p[i + k]) << (8 * k);
  v3 ^= b; rnd(); rnd(); v0 ^= b;
  v2 ^= 0xff; rnd(); rnd(); rnd(); rnd();
  Bytes o; put(o, v0 ^ v1 ^ v2 ^ v3, 8, true); return o;
}
} // namespace ref
