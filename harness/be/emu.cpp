// Interpreter for statically linked MIPS32 and MIPS64 programs (release 2, no floating point), big or little endian.
// Unaligned accesses, undefined instructions, traps and accesses outside memory end the run with an error.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
static bool g_be, g_64; static uint8_t* g_mem; static const uint64_t MEM = 1ull << 31; static uint64_t g_icount = 0;
static uint64_t g_pc;
[[noreturn]] static void die(const char* m, uint64_t v = 0) { fflush(stdout); fprintf(stderr, "emulator: %s %llx at pc %llx\n", m, (unsigned long long)v, (unsigned long long)g_pc); printf("\nCRASH %s\n", m); fflush(stdout); _exit(70); }
static inline uint8_t* at(uint64_t a, unsigned n) { if (!g_64) a = uint32_t(a); if (__builtin_expect(a < 4096 || a > MEM - 64, 0)) die("access outside memory", a); if (__builtin_expect(a & (n - 1), 0)) die("unaligned access", a); return g_mem + a; }
static inline uint16_t b16(uint16_t v) { return g_be ? __builtin_bswap16(v) : v; } static inline uint32_t b32(uint32_t v) { return g_be ? __builtin_bswap32(v) : v; } static inline uint64_t b64(uint64_t v) { return g_be ? __builtin_bswap64(v) : v; }
static inline uint16_t l16(uint64_t a) { uint16_t v; memcpy(&v, at(a, 2), 2); return b16(v); } static inline uint32_t l32(uint64_t a) { uint32_t v; memcpy(&v, at(a, 4), 4); return b32(v); } static inline uint64_t l64(uint64_t a) { uint64_t v; memcpy(&v, at(a, 8), 8); return b64(v); }
static inline void s16(uint64_t a, uint16_t v) { v = b16(v); memcpy(at(a, 2), &v, 2); } static inline void s32(uint64_t a, uint32_t v) { v = b32(v); memcpy(at(a, 4), &v, 4); } static inline void s64(uint64_t a, uint64_t v) { v = b64(v); memcpy(at(a, 8), &v, 8); }
static uint64_t R[32], HI, LO;
static inline uint64_t sx(uint32_t v) { return uint64_t(int64_t(int32_t(v))); }
template <class T> static T fld(const uint8_t* p) { T v; memcpy(&v, p, sizeof v); if (sizeof v == 2) return T(b16(uint16_t(v))); if (sizeof v == 4) return T(b32(uint32_t(v))); return T(b64(uint64_t(v))); }
int main(int argc, char** argv) {
  const char* file = nullptr; long dump = -1, size = 0; uint64_t limit = 0;
  for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--dump")) dump = atol(argv[++i]); else if (!strcmp(argv[i], "--size")) size = atol(argv[++i]); else if (!strcmp(argv[i], "--limit")) limit = strtoull(argv[++i], nullptr, 10); else file = argv[i]; }
  FILE* f = file ? fopen(file, "rb") : nullptr; if (!f) return 3; std::vector<uint8_t> e; uint8_t tmp[65536]; size_t k; while ((k = fread(tmp, 1, sizeof tmp, f)) > 0) e.insert(e.end(), tmp, tmp + k); fclose(f);
  if (e.size() < 64 || memcmp(e.data(), "\177ELF", 4)) return 3; g_64 = e[4] == 2; g_be = e[5] == 2;
  g_mem = (uint8_t*)mmap(nullptr, MEM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_mem == MAP_FAILED) return 3;
  const uint8_t* E = e.data(); if (fld<uint16_t>(E + 18) != 8) return 3;
  uint64_t entry = g_64 ? fld<uint64_t>(E + 24) : fld<uint32_t>(E + 24), ph = g_64 ? fld<uint64_t>(E + 32) : fld<uint32_t>(E + 28); int pes = fld<uint16_t>(E + (g_64 ? 54 : 42)), pn = fld<uint16_t>(E + (g_64 ? 56 : 44));
  for (int i = 0; i < pn; ++i) { const uint8_t* p = E + ph + uint64_t(i) * pes; if (fld<uint32_t>(p) != 1) continue;
    uint64_t off = g_64 ? fld<uint64_t>(p + 8) : fld<uint32_t>(p + 4), va = g_64 ? fld<uint64_t>(p + 16) : fld<uint32_t>(p + 8), fs = g_64 ? fld<uint64_t>(p + 32) : fld<uint32_t>(p + 16); if (va + fs > MEM || off + fs > e.size()) return 3; memcpy(g_mem + va, E + off, fs); }
  R[29] = MEM - 65536; R[4] = uint64_t(int64_t(dump)); R[5] = uint64_t(size); if (!g_64) { R[4] = sx(uint32_t(R[4])); }
  uint64_t pc = entry, npc = entry + 4; std::string out;
#define RS R[(w >> 21) & 31]
#define RT R[(w >> 16) & 31]
#define RD R[(w >> 11) & 31]
#define SA ((w >> 6) & 31)
#define IMM (uint64_t(int64_t(int16_t(w))))
#define EA (RS + IMM)
#define BR(c) { if (c) nn = pc + 4 + (IMM << 2); }
#define BRL(c) { if (c) nn = pc + 4 + (IMM << 2); else { pc = npc + 4; npc = pc + 4; R[0] = 0; continue; } }
  for (;;) {
    g_pc = pc; const uint32_t w = l32(pc); uint64_t nn = npc + 4; ++g_icount; if (limit && g_icount > limit) die("too many instructions");
    switch (w >> 26) {
      case 0: switch (w & 63) {
        case 0: RD = sx(uint32_t(RT) << SA); break;
        case 1: die("floating point", w);
        case 2: { uint32_t v = uint32_t(RT); RD = sx((w >> 21 & 1) ? (SA ? v >> SA | v << (32 - SA) : v) : v >> SA); break; }
        case 3: RD = sx(uint32_t(int32_t(RT) >> SA)); break;
        case 4: RD = sx(uint32_t(RT) << (RS & 31)); break;
        case 6: { uint32_t v = uint32_t(RT); unsigned s = RS & 31; RD = sx((w >> 6 & 1) ? (s ? v >> s | v << (32 - s) : v) : v >> s); break; }
        case 7: RD = sx(uint32_t(int32_t(RT) >> (RS & 31))); break;
        case 8: nn = RS; break;
        case 9: { uint64_t t = RS; RD = g_64 ? pc + 8 : sx(uint32_t(pc + 8)); nn = t; break; }
        case 10: if (!RT) RD = RS; break;
        case 11: if (RT) RD = RS; break;
        case 12: { const uint64_t n = R[2], a = R[4], b = R[5];
          if (uint32_t(n) == 1) { fwrite(out.data(), 1, out.size(), stdout); fflush(stdout); fprintf(stderr, "INSTRUCTIONS %llu\n", (unsigned long long)g_icount); return int(a); }
          if (uint32_t(n) == 3) {   // floating point, on the host: b points to two operands and a result, all 64 bits
            double x, y, r = 0; uint64_t ux = l64(b), uy = l64(b + 8), ur; memcpy(&x, &ux, 8); memcpy(&y, &uy, 8); bool isInt = false;
            switch (uint32_t(a)) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break;
              case 4: r = double(ux); break; case 5: r = double(int64_t(ux)); break; case 6: ur = uint64_t(int64_t(x)); isInt = true; break; case 7: ur = uint64_t(x); isInt = true; break;
              case 8: ur = uint64_t(x < y ? -1ll : x == y ? 0ll : x > y ? 1ll : 2ll); isInt = true; break;
              case 9: r = log2(x); break; case 10: r = log(x); break; case 11: r = ceil(x); break; case 12: r = floor(x); break; case 13: r = round(x); break; case 14: r = trunc(x); break; case 15: r = pow(x, y); break; case 16: r = sqrt(x); break; case 17: r = log10(x); break; case 18: r = exp2(x); break;
              case 19: ur = uint64_t(llround(x)); isInt = true; break; case 20: { float f = float(x); uint32_t q; memcpy(&q, &f, 4); ur = q; isInt = true; break; } case 21: { uint32_t q = uint32_t(ux); float f; memcpy(&f, &q, 4); r = f; break; }
              default: die("undefined instruction: floating point operation", a); }
            if (!isInt) memcpy(&ur, &r, 8); s64(b + 16, ur); break; }
          if (uint32_t(n) == 2) { const uint64_t aa = g_64 ? a : uint32_t(a); if (aa + b > MEM) die("write outside memory", a); out.append((const char*)g_mem + aa, b); if (out.size() > 60000) { fwrite(out.data(), 1, out.size(), stdout); out.clear(); } R[2] = b; break; }
          die("unknown system call", n); }
        case 13: die("break", w);
        case 15: break;
        case 16: RD = HI; break; case 17: HI = RS; break; case 18: RD = LO; break; case 19: LO = RS; break;
        case 20: RD = RT << (RS & 63); break;
        case 22: { unsigned s = RS & 63; RD = (w >> 6 & 1) ? (s ? RT >> s | RT << (64 - s) : RT) : RT >> s; break; }
        case 23: RD = uint64_t(int64_t(RT) >> (RS & 63)); break;
        case 24: { int64_t p = int64_t(int32_t(RS)) * int32_t(RT); LO = sx(uint32_t(p)); HI = sx(uint32_t(uint64_t(p) >> 32)); break; }
        case 25: { uint64_t p = uint64_t(uint32_t(RS)) * uint32_t(RT); LO = sx(uint32_t(p)); HI = sx(uint32_t(p >> 32)); break; }
        case 26: { int32_t a = int32_t(RS), b = int32_t(RT); if (b && !(a == INT32_MIN && b == -1)) { LO = sx(uint32_t(a / b)); HI = sx(uint32_t(a % b)); } break; }
        case 27: { uint32_t a = uint32_t(RS), b = uint32_t(RT); if (b) { LO = sx(a / b); HI = sx(a % b); } break; }
        case 28: { __int128 p = (__int128)(int64_t)RS * (int64_t)RT; LO = uint64_t(p); HI = uint64_t((unsigned __int128)p >> 64); break; }
        case 29: { unsigned __int128 p = (unsigned __int128)RS * RT; LO = uint64_t(p); HI = uint64_t(p >> 64); break; }
        case 30: { int64_t a = int64_t(RS), b = int64_t(RT); if (b && !(a == INT64_MIN && b == -1)) { LO = uint64_t(a / b); HI = uint64_t(a % b); } break; }
        case 31: { uint64_t a = RS, b = RT; if (b) { LO = a / b; HI = a % b; } break; }
        case 32: case 33: RD = sx(uint32_t(RS) + uint32_t(RT)); break;
        case 34: case 35: RD = sx(uint32_t(RS) - uint32_t(RT)); break;
        case 36: RD = RS & RT; break; case 37: RD = RS | RT; break; case 38: RD = RS ^ RT; break; case 39: RD = ~(RS | RT); break;
        case 42: RD = int64_t(RS) < int64_t(RT); break; case 43: RD = RS < RT; break;
        case 44: case 45: RD = RS + RT; break; case 46: case 47: RD = RS - RT; break;
        case 48: if (int64_t(RS) >= int64_t(RT)) die("trap"); break; case 49: if (RS >= RT) die("trap"); break; case 52: if (RS == RT) die("trap"); break; case 54: if (RS != RT) die("trap"); break;
        case 56: RD = RT << SA; break;
        case 58: RD = (w >> 21 & 1) ? (SA ? RT >> SA | RT << (64 - SA) : RT) : RT >> SA; break;
        case 59: RD = uint64_t(int64_t(RT) >> SA); break;
        case 60: RD = RT << (SA + 32); break;
        case 62: { unsigned s = SA + 32; RD = (w >> 21 & 1) ? (RT >> s | RT << (64 - s)) : RT >> s; break; }
        case 63: RD = uint64_t(int64_t(RT) >> (SA + 32)); break;
        default: die("undefined instruction", w);
      } break;
      case 1: switch ((w >> 16) & 31) {
        case 0: BR(int64_t(RS) < 0) break; case 1: BR(int64_t(RS) >= 0) break;
        case 2: BRL(int64_t(RS) < 0) break; case 3: BRL(int64_t(RS) >= 0) break;
        case 16: { bool c = int64_t(RS) < 0; R[31] = pc + 8; BR(c) break; } case 17: { bool c = int64_t(RS) >= 0; R[31] = pc + 8; BR(c) break; }
        case 12: if (RS == IMM) die("trap"); break; case 14: if (RS != IMM) die("trap"); break;
        case 31: break;
        default: die("undefined instruction", w);
      } break;
      case 2: nn = (npc & ~0xfffffffull) | (uint64_t(w & 0x3ffffff) << 2); break;
      case 3: R[31] = g_64 ? pc + 8 : sx(uint32_t(pc + 8)); nn = (npc & ~0xfffffffull) | (uint64_t(w & 0x3ffffff) << 2); break;
      case 4: BR(RS == RT) break; case 5: BR(RS != RT) break; case 6: BR(int64_t(RS) <= 0) break; case 7: BR(int64_t(RS) > 0) break;
      case 20: BRL(RS == RT) break; case 21: BRL(RS != RT) break; case 22: BRL(int64_t(RS) <= 0) break; case 23: BRL(int64_t(RS) > 0) break;
      case 8: case 9: RT = sx(uint32_t(RS) + uint32_t(IMM)); break;
      case 10: RT = int64_t(RS) < int64_t(IMM); break; case 11: RT = RS < IMM; break;
      case 12: RT = RS & (w & 0xffff); break; case 13: RT = RS | (w & 0xffff); break; case 14: RT = RS ^ (w & 0xffff); break; case 15: RT = sx(w << 16); break;
      case 24: case 25: RT = RS + IMM; break;
      case 28: switch (w & 63) {
        case 0: { int64_t p = int64_t(int32_t(RS)) * int32_t(RT) + int64_t((uint64_t(uint32_t(HI)) << 32) | uint32_t(LO)); LO = sx(uint32_t(p)); HI = sx(uint32_t(uint64_t(p) >> 32)); break; }
        case 1: { uint64_t p = uint64_t(uint32_t(RS)) * uint32_t(RT) + ((uint64_t(uint32_t(HI)) << 32) | uint32_t(LO)); LO = sx(uint32_t(p)); HI = sx(uint32_t(p >> 32)); break; }
        case 2: RD = sx(uint32_t(RS) * uint32_t(RT)); break;
        case 4: { uint64_t p = ((uint64_t(uint32_t(HI)) << 32) | uint32_t(LO)) - uint64_t(int64_t(int32_t(RS)) * int32_t(RT)); LO = sx(uint32_t(p)); HI = sx(uint32_t(p >> 32)); break; }
        case 5: { uint64_t p = ((uint64_t(uint32_t(HI)) << 32) | uint32_t(LO)) - uint64_t(uint32_t(RS)) * uint32_t(RT); LO = sx(uint32_t(p)); HI = sx(uint32_t(p >> 32)); break; }
        case 32: RD = uint32_t(RS) ? __builtin_clz(uint32_t(RS)) : 32; break; case 33: RD = ~uint32_t(RS) ? __builtin_clz(~uint32_t(RS)) : 32; break;
        case 36: RD = RS ? __builtin_clzll(RS) : 64; break; case 37: RD = ~RS ? __builtin_clzll(~RS) : 64; break;
        default: die("undefined instruction", w);
      } break;
      case 31: { const unsigned lsb = SA, m = (w >> 11) & 31; auto ones = [](unsigned n) { return n >= 64 ? ~0ull : (1ull << n) - 1; };
        switch (w & 63) {
          case 0: RT = sx(uint32_t((uint32_t(RS) >> lsb) & ones(m + 1))); break;
          case 1: RT = (RS >> lsb) & ones(m + 33); break; case 2: RT = (RS >> (lsb + 32)) & ones(m + 1); break; case 3: RT = (RS >> lsb) & ones(m + 1); break;
          case 4: { uint64_t k2 = ones(m - lsb + 1) << lsb; RT = sx(uint32_t((RT & ~k2) | ((RS << lsb) & k2))); break; }
          case 5: { uint64_t k2 = ones(m + 32 - lsb + 1) << lsb; RT = (RT & ~k2) | ((RS << lsb) & k2); break; }
          case 6: { uint64_t k2 = ones(m - lsb + 1) << (lsb + 32); RT = (RT & ~k2) | ((RS << (lsb + 32)) & k2); break; }
          case 7: { uint64_t k2 = ones(m - lsb + 1) << lsb; RT = (RT & ~k2) | ((RS << lsb) & k2); break; }
          case 32: { uint32_t v = uint32_t(RT); switch (SA) { case 2: RD = sx((v & 0x00ff00ff) << 8 | (v >> 8 & 0x00ff00ff)); break; case 16: RD = uint64_t(int64_t(int8_t(v))); break; case 24: RD = uint64_t(int64_t(int16_t(v))); break; default: die("undefined instruction", w); } break; }
          case 36: { uint64_t v = RT; switch (SA) { case 2: RD = (v & 0x00ff00ff00ff00ffull) << 8 | (v >> 8 & 0x00ff00ff00ff00ffull); break; case 5: v = (v & 0x0000ffff0000ffffull) << 16 | (v >> 16 & 0x0000ffff0000ffffull); RD = v << 32 | v >> 32; break; default: die("undefined instruction", w); } break; }
          case 59: RT = 0; break;
          default: die("undefined instruction", w);
        } break; }
      case 32: RT = uint64_t(int64_t(int8_t(*at(EA, 1)))); break; case 36: RT = *at(EA, 1); break;
      case 33: RT = uint64_t(int64_t(int16_t(l16(EA)))); break; case 37: RT = l16(EA); break;
      case 35: RT = sx(l32(EA)); break; case 39: RT = l32(EA); break; case 55: RT = l64(EA); break;
      case 48: RT = sx(l32(EA)); break; case 52: RT = l64(EA); break;
      case 40: *at(EA, 1) = uint8_t(RT); break; case 41: s16(EA, uint16_t(RT)); break; case 43: s32(EA, uint32_t(RT)); break; case 63: s64(EA, RT); break;
      case 56: s32(EA, uint32_t(RT)); RT = 1; break; case 60: s64(EA, RT); RT = 1; break;
      case 34: case 38: case 42: case 46: {   // lwl lwr swl swr: bytes from the address to the end (l) or start (r) of the word
        const uint64_t a = EA, base = a & ~3ull; uint8_t* m = at(base, 4); unsigned o = a & 3; uint32_t v = uint32_t(RT); const unsigned op = w >> 26; const bool left = op == 34 || op == 42;
        // position i of the word, in order of significance (0 = most significant)
        for (unsigned i = 0; i < 4; ++i) { const unsigned mi = g_be ? i : 3 - i; const unsigned oi = g_be ? o : 3 - o;   // oi: significance index of the addressed byte
          unsigned ri; if (left) { if (i < oi) continue; ri = i - oi; } else { if (i > oi) continue; ri = i + (3 - oi); }
          const unsigned sh = 8 * (3 - ri); if (op < 40) v = (v & ~(0xffu << sh)) | uint32_t(m[mi]) << sh; else m[mi] = uint8_t(v >> sh); }
        if (op < 40) RT = sx(v); break; }
      case 26: case 27: case 44: case 45: {   // ldl ldr sdl sdr
        const uint64_t a = EA, base = a & ~7ull; uint8_t* m = at(base, 8); unsigned o = a & 7; uint64_t v = RT; const unsigned op = w >> 26; const bool left = op == 26 || op == 44;
        for (unsigned i = 0; i < 8; ++i) { const unsigned mi = g_be ? i : 7 - i; const unsigned oi = g_be ? o : 7 - o;
          unsigned ri; if (left) { if (i < oi) continue; ri = i - oi; } else { if (i > oi) continue; ri = i + (7 - oi); }
          const unsigned sh = 8 * (7 - ri); if (op < 40) v = (v & ~(0xffull << sh)) | uint64_t(m[mi]) << sh; else m[mi] = uint8_t(v >> sh); }
        if (op < 40) RT = v; break; }
      case 47: case 51: break;
      default: die("undefined instruction", w);
    }
    R[0] = 0; pc = npc; npc = nn;
  }
}
