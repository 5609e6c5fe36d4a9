// C19: messages whose size in bits (and beyond) exceeds the word of a 32-bit machine.  Runs hosted (reference) and freestanding.
#define NO_REF 1
#include "alg.hpp"
extern "C" void cfg_out(const char* p, unsigned long n);
extern "C" uint8_t* big_map(unsigned long n, unsigned long period, void (*fillIt)(uint8_t*, unsigned long));
static const unsigned long PERIOD = 4096ul * 16411;   // a prime number of pages
static void fillIt(uint8_t* p, unsigned long n) { for (unsigned long i = 0; i < n; i += 4) { uint32_t x = uint32_t(i) * 2654435761u + 12345u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; for (int j = 0; j < 4; ++j) p[i + j] = uint8_t(x >> (8 * j)); } }
static void show(const char* what, const Bytes& d) { static const char* h = "0123456789abcdef"; std::string s(what); s += ' '; for (uint8_t b : d) { s += h[b >> 4]; s += h[b & 15]; } s += '\n'; cfg_out(s.data(), (unsigned long)s.size()); }
extern "C" int cfg_run(long, long size) {
  const unsigned long big = size ? 0x7ffff000ul - 64 : (1ul << 29) + B + 5, n = big + 64;
  const uint8_t* d = big_map(n, PERIOD, fillIt);
  { H h = make(0); feed(h, d, 3); const int rounds = size ? 3 : 1; for (int i = 0; i < rounds; ++i) feed(h, d + i, big - i); feed(h, d + 7, 10); h.finalize(); show("message", digestOf(h)); }
#if defined(A_KIND_CSHAKE) || defined(A_KIND_TUPLE)
  if (!size) { Param q = params()[0]; q.cust = std::string(reinterpret_cast<const char*>(d), (size_t(1) << 29) + 3); H h = make(q); feed(h, d, 5); h.finalize(); show("customization", digestOf(h)); }
#endif
  return 0;
}
#ifdef CFG_FREESTANDING
template class std::basic_string<char>;
#endif
#ifndef CFG_FREESTANDING
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
extern "C" void cfg_out(const char* p, unsigned long n) { if (write(1, p, n) != (long)n) _exit(3); }
extern "C" uint8_t* big_map(unsigned long n, unsigned long period, void (*f)(uint8_t*, unsigned long)) {
  const size_t span = (n + period - 1) / period * period; int fd = memfd_create("big", 0); if (fd < 0 || ftruncate(fd, long(period))) abort();
  uint8_t* r = (uint8_t*)mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r == MAP_FAILED) abort();
  for (size_t o = 0; o < span; o += period) { if (mmap(r + o, period, o ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort(); if (!o) f(r, period); }
  return r;
}
int main(int argc, char** argv) { long size = 0; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--size")) size = atol(argv[i + 1]); return cfg_run(-1, size); }
#endif
