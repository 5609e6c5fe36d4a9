// What the library itself says: one line per job (option, arguments, file, separated by 0x1f), one digest per line.
#include "blake1_224.h"
#include "blake1_256.h"
#include "blake1_384.h"
#include "blake1_512.h"
#include "blake2.h"
#include "blake2s.h"
#include "crc_32.h"
#include "cshake.h"
#include "fnv.h"
#include "has_160.h"
#include "md2.h"
#include "md4.h"
#include "md5.h"
#include "ripemd_128.h"
#include "ripemd_160.h"
#include "ripemd_256.h"
#include "ripemd_320.h"
#include "siphash.h"
#include "sha1.h"
#include "sha2_224.h"
#include "sha2_256.h"
#include "sha2_384.h"
#include "sha2_512.h"
#include "sha2_512_224.h"
#include "sha2_512_256.h"
#include "sha3.h"
#include "sm3.h"
#include "tiger.h"
#include "tuple_hash.h"
#include "whirlpool.h"
#include <cstdio>
#include <iostream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
template <class H> static std::string d(H h, const void* p, size_t n) { if (n) h.addData(p, n); h.finalize(); return h.toString(); }
template <class H> static std::string t(H h, const void* p, size_t n) { h.nextData(p, n); h.finalize(); return h.toString(); }
int main() {
  std::string l; std::string lastName; const void* p = nullptr; size_t n = 0;
  while (std::getline(std::cin, l)) {
    std::vector<std::string> f(1); for (char c : l) if (c == 0x1f) f.emplace_back(); else f.back() += c;
    const std::string& o = f[0]; const std::string& name = f.back();
    if (name != lastName) { int fd = open(name.c_str(), O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) return 2; if (p && n) munmap(const_cast<void*>(p), n); n = size_t(st.st_size); static const char none[1] = {0}; p = n ? mmap(nullptr, n, PROT_READ, MAP_PRIVATE, fd, 0) : none; if (p == MAP_FAILED) return 2; close(fd); lastName = name; }
    const int len = f.size() > 2 ? std::stoi(f[1]) : 0; const std::string cust = f.size() > 3 ? f[2] : ""; std::string r = "?";
    if (o == "-siphash") { const unsigned char key[16] = {}; r = d(Chocobo1::SipHash(key), p, n); }
    else if (o == "-shake-128") r = d(Chocobo1::SHAKE_128(len), p, n); else if (o == "-shake-256") r = d(Chocobo1::SHAKE_256(len), p, n);
    else if (o == "-cshake-128") r = d(Chocobo1::CSHAKE_128(len, {}, cust), p, n); else if (o == "-cshake-256") r = d(Chocobo1::CSHAKE_256(len, {}, cust), p, n);
    else if (o == "-tuple-hash-128") r = t(Chocobo1::TupleHash_128(len, cust), p, n); else if (o == "-tuple-hash-256") r = t(Chocobo1::TupleHash_256(len, cust), p, n);
    else if (o == "-blake1-224") r = d(Chocobo1::Blake1_224(), p, n);
    else if (o == "-blake1-256") r = d(Chocobo1::Blake1_256(), p, n);
    else if (o == "-blake1-384") r = d(Chocobo1::Blake1_384(), p, n);
    else if (o == "-blake1-512") r = d(Chocobo1::Blake1_512(), p, n);
    else if (o == "-blake2") r = d(Chocobo1::Blake2(), p, n);
    else if (o == "-blake2s") r = d(Chocobo1::Blake2s(), p, n);
    else if (o == "-crc-32") r = d(Chocobo1::CRC_32(), p, n);
    else if (o == "-fnv32_1a") r = d(Chocobo1::FNV32_1a(), p, n);
    else if (o == "-fnv64_1a") r = d(Chocobo1::FNV64_1a(), p, n);
    else if (o == "-has160") r = d(Chocobo1::HAS_160(), p, n);
    else if (o == "-md2") r = d(Chocobo1::MD2(), p, n);
    else if (o == "-md4") r = d(Chocobo1::MD4(), p, n);
    else if (o == "-md5") r = d(Chocobo1::MD5(), p, n);
    else if (o == "-ripemd-128") r = d(Chocobo1::RIPEMD_128(), p, n);
    else if (o == "-ripemd-160") r = d(Chocobo1::RIPEMD_160(), p, n);
    else if (o == "-ripemd-256") r = d(Chocobo1::RIPEMD_256(), p, n);
    else if (o == "-ripemd-320") r = d(Chocobo1::RIPEMD_320(), p, n);
    else if (o == "-sha1") r = d(Chocobo1::SHA1(), p, n);
    else if (o == "-sha2-224") r = d(Chocobo1::SHA2_224(), p, n);
    else if (o == "-sha2-256") r = d(Chocobo1::SHA2_256(), p, n);
    else if (o == "-sha2-384") r = d(Chocobo1::SHA2_384(), p, n);
    else if (o == "-sha2-512") r = d(Chocobo1::SHA2_512(), p, n);
    else if (o == "-sha2-512-224") r = d(Chocobo1::SHA2_512_224(), p, n);
    else if (o == "-sha2-512-256") r = d(Chocobo1::SHA2_512_256(), p, n);
    else if (o == "-sha3-224") r = d(Chocobo1::SHA3_224(), p, n);
    else if (o == "-sha3-256") r = d(Chocobo1::SHA3_256(), p, n);
    else if (o == "-sha3-384") r = d(Chocobo1::SHA3_384(), p, n);
    else if (o == "-sha3-512") r = d(Chocobo1::SHA3_512(), p, n);
    else if (o == "-sm3") r = d(Chocobo1::SM3(), p, n);
    else if (o == "-tiger1-128") r = d(Chocobo1::Tiger1_128(), p, n);
    else if (o == "-tiger1-160") r = d(Chocobo1::Tiger1_160(), p, n);
    else if (o == "-tiger1-192") r = d(Chocobo1::Tiger1_192(), p, n);
    else if (o == "-tiger2-128") r = d(Chocobo1::Tiger2_128(), p, n);
    else if (o == "-tiger2-160") r = d(Chocobo1::Tiger2_160(), p, n);
    else if (o == "-tiger2-192") r = d(Chocobo1::Tiger2_192(), p, n);
    else if (o == "-whirlpool") r = d(Chocobo1::Whirlpool(), p, n);
    printf("%s\n", r.c_str());
  }
}
