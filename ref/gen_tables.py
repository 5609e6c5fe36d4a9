#!/usr/bin/env python3
"""Generate ref/tables.inc: every constant the reference implementations use that has
a published derivation, computed from that derivation (never copied from /repo).
  primes            -> SHA-2 / BLAKE / BLAKE2 IVs and K (FIPS 180-4), SHA-512/t IVs in ref.hpp
  pi                -> BLAKE-1 constants, MD2 S-box (RFC 1319)
  sin               -> MD5 T table (RFC 1321)
  sqrt/cbrt         -> RIPEMD constants
  mini-boxes        -> Whirlpool S-box (ISO 10118-3)
  gen algorithm     -> Tiger S-boxes (Anderson/Biham gen.c)
  LFSR              -> Keccak round constants and rotations (FIPS 202)
"""
import sys, math
from math import isqrt

def primes(n):
    r = []; c = 2
    while len(r) < n:
        if all(c % p for p in r): r.append(c)
        c += 1
    return r

def icbrt(n):
    x = 1 << ((n.bit_length() + 2) // 3 + 1)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x: return x
        x = y

def frac_sqrt(p, bits): return isqrt(p << (2 * bits)) & ((1 << bits) - 1)
def frac_cbrt(p, bits): return icbrt(p << (3 * bits)) & ((1 << bits) - 1)

def pi_fixed(bits):
    # Machin
    one = 1 << (bits + 64)
    def atan_inv(x):
        t = one // x; s = t; n = 3; sgn = -1
        while t:
            t //= x * x
            s += sgn * (t // n); n += 2; sgn = -sgn
        return s
    return (4 * (4 * atan_inv(5) - atan_inv(239))) >> 64

P = primes(80)
out = []
def arr(name, typ, vals, w):
    out.append(f"static const {typ} {name}[{len(vals)}] = {{")
    per = 8 if w <= 8 else 4
    suf = "ULL" if w == 16 else ("U" if w == 8 else "")
    for i in range(0, len(vals), per):
        out.append("  " + ",".join(f"0x{v:0{w}x}{suf}" for v in vals[i:i + per]) + ",")
    out.append("};")

arr("SHA256_K", "uint32_t", [frac_cbrt(p, 32) for p in P[:64]], 8)
arr("SHA512_K", "uint64_t", [frac_cbrt(p, 64) for p in P[:80]], 16)
arr("SHA256_IV", "uint32_t", [frac_sqrt(p, 32) for p in P[:8]], 8)
arr("SHA512_IV", "uint64_t", [frac_sqrt(p, 64) for p in P[:8]], 16)
arr("SHA384_IV", "uint64_t", [frac_sqrt(p, 64) for p in P[8:16]], 16)
arr("SHA224_IV", "uint32_t", [frac_sqrt(p, 64) & 0xffffffff for p in P[8:16]], 8)
# pi
bits = 64 * 16
pif = pi_fixed(bits) & ((1 << bits) - 1)
arr("BLAKE_C32", "uint32_t", [(pif >> (bits - 32 * (i + 1))) & 0xffffffff for i in range(16)], 8)
arr("BLAKE_C64", "uint64_t", [(pif >> (bits - 64 * (i + 1))) & (2**64 - 1) for i in range(16)], 16)
# MD2
def pidigits(n):
    b = 4 * n
    v = pi_fixed(b)
    ds = []
    for _ in range(n):
        d = v >> b; ds.append(d); v = (v - (d << b)) * 10
    return ds
D = pidigits(1000); pos = 0
def nxt():
    global pos
    pos += 1
    return D[pos - 1]
def rnd(n):
    while True:
        x = nxt(); y = 10
        if n > 10: x = x * 10 + nxt(); y = 100
        if n > 100: x = x * 10 + nxt(); y = 1000
        if x < n * (y // n): return x % n
S = list(range(256))
for i in range(2, 257):
    j = rnd(i)
    S[j], S[i - 1] = S[i - 1], S[j]
arr("MD2_S", "uint8_t", S, 2)
# MD5
from decimal import Decimal, getcontext
getcontext().prec = 60
def dsin(x):
    x = Decimal(x); t = x; s = x; n = 1
    while abs(t) > Decimal(10) ** -50:
        t = -t * x * x / ((2 * n) * (2 * n + 1)); s += t; n += 1
    return s
arr("MD5_T", "uint32_t", [int(abs(dsin(i)) * 2**32) for i in range(1, 65)], 8)
# RIPEMD
arr("RMD_KL", "uint32_t", [0] + [isqrt(p << 60) & 0xffffffff for p in (2, 3, 5, 7)], 8)
arr("RMD_KR", "uint32_t", [icbrt(p << 90) & 0xffffffff for p in (2, 3, 5, 7)] + [0], 8)
# Whirlpool
E = [0x1,0xB,0x9,0xC,0xD,0x6,0xF,0x3,0xE,0x8,0x7,0x4,0xA,0x2,0x5,0x0]
Ei = [E.index(i) for i in range(16)]
R = [0x7,0xC,0xB,0xD,0xE,0x4,0x9,0xF,0x6,0x3,0x8,0xA,0x2,0x5,0x1,0x0]
W = []
for x in range(256):
    a, b = E[x >> 4], Ei[x & 15]
    c = R[a ^ b]
    W.append((E[a ^ c] << 4) | Ei[b ^ c])
arr("WHIRL_S", "uint8_t", W, 2)
# Tiger
M64 = 2**64 - 1
tab = [[i & 255] * 8 for i in range(1024)]     # bytes, little-endian columns
def word(i): return int.from_bytes(bytes(tab[i]), "little")
def tiger_compress(block, st):
    x = [int.from_bytes(block[8*i:8*i+8], "little") for i in range(8)]
    T = lambda k, v: word(256 * k + v)
    a, b, c = st; aa, bb, cc = a, b, c
    def rnd_(a, b, c, x, mul):
        c ^= x
        by = [(c >> (8 * i)) & 255 for i in range(8)]
        a = (a - (T(0, by[0]) ^ T(1, by[2]) ^ T(2, by[4]) ^ T(3, by[6]))) & M64
        b = (b + (T(3, by[1]) ^ T(2, by[3]) ^ T(1, by[5]) ^ T(0, by[7]))) & M64
        b = (b * mul) & M64
        return a, b, c
    def pas(a, b, c, mul):
        a, b, c = rnd_(a, b, c, x[0], mul); b, c, a = rnd_(b, c, a, x[1], mul)
        c, a, b = rnd_(c, a, b, x[2], mul); a, b, c = rnd_(a, b, c, x[3], mul)
        b, c, a = rnd_(b, c, a, x[4], mul); c, a, b = rnd_(c, a, b, x[5], mul)
        a, b, c = rnd_(a, b, c, x[6], mul); b, c, a = rnd_(b, c, a, x[7], mul)
        return a, b, c
    def ks():
        inv = lambda v: v ^ M64
        x[0] = (x[0] - (x[7] ^ 0xA5A5A5A5A5A5A5A5)) & M64
        x[1] ^= x[0]
        x[2] = (x[2] + x[1]) & M64
        x[3] = (x[3] - (x[2] ^ ((inv(x[1]) << 19) & M64))) & M64
        x[4] ^= x[3]
        x[5] = (x[5] + x[4]) & M64
        x[6] = (x[6] - (x[5] ^ (inv(x[4]) >> 23))) & M64
        x[7] ^= x[6]
        x[0] = (x[0] + x[7]) & M64
        x[1] = (x[1] - (x[0] ^ ((inv(x[7]) << 19) & M64))) & M64
        x[2] ^= x[1]
        x[3] = (x[3] + x[2]) & M64
        x[4] = (x[4] - (x[3] ^ (inv(x[2]) >> 23))) & M64
        x[5] ^= x[4]
        x[6] = (x[6] + x[5]) & M64
        x[7] = (x[7] - (x[6] ^ 0x0123456789ABCDEF)) & M64
    a, b, c = pas(a, b, c, 5); ks()
    c, a, b = pas(c, a, b, 7); ks()
    b, c, a = pas(b, c, a, 9)
    return [a ^ aa, (b - bb) & M64, (c + cc) & M64]
st = [0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xF096A5B4C3B2E187]
seed = b"Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham"
assert len(seed) == 64
abc = 2
for cnt in range(5):
    for i in range(256):
        for sb in range(0, 1024, 256):
            abc += 1
            if abc == 3:
                abc = 0
                st = tiger_compress(seed, st)
            for col in range(8):
                v = (st[abc] >> (8 * col)) & 255
                tab[sb + i][col], tab[sb + v][col] = tab[sb + v][col], tab[sb + i][col]
arr("TIGER_S", "uint64_t", [word(i) for i in range(1024)], 16)
# Keccak
def rc_bits():
    R = 1
    while True:
        yield R & 1
        R <<= 1
        if R & 0x100: R ^= 0x171
g = rc_bits(); RC = []
for r in range(24):
    v = 0
    for j in range(7):
        if next(g): v |= 1 << (2**j - 1)
    RC.append(v)
arr("KECCAK_RC", "uint64_t", RC, 16)
rot = [0] * 25; x, y = 1, 0
for t in range(24):
    rot[x + 5 * y] = ((t + 1) * (t + 2) // 2) % 64
    x, y = y, (2 * x + 3 * y) % 5
arr("KECCAK_ROT", "uint8_t", rot, 2)

text = "// GENERATED by ref/gen_tables.py from published derivations - do not edit\n" + "\n".join(out) + "\n"
sys.stdout.write(text)
