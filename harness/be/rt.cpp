// Freestanding runtime of the emulated machine: memory, output, exit.
#include <stddef.h>
#include <stdint.h>
extern "C" {
long mc_sys(long n, long a, long b, long c);
#if defined(__i386__)
__attribute__((naked)) long mc_sys6(long n, long* a) { __asm__("pushl %ebp\npushl %ebx\npushl %esi\npushl %edi\nmovl 20(%esp), %eax\nmovl 24(%esp), %ebp\nmovl 0(%ebp), %ebx\nmovl 4(%ebp), %ecx\nmovl 8(%ebp), %edx\nmovl 12(%ebp), %esi\nmovl 16(%ebp), %edi\nmovl 20(%ebp), %ebp\nint $0x80\npopl %edi\npopl %esi\npopl %ebx\npopl %ebp\nret\n"); }
long mc_sys(long n, long a, long b, long c) {
  if (n == 1) { long v[6] = {a, 0, 0, 0, 0, 0}; for (;;) mc_sys6(252, v); }
  while (b > 0) { long v[6] = {1, a, b, 0, 0, 0}; long r = mc_sys6(4, v); if (r <= 0) { long e[6] = {3, 0, 0, 0, 0, 0}; mc_sys6(252, e); } a += r; b -= r; } (void)c; return 0;
}
#endif
int cfg_run(long dump, long size);
void mc_exit(long c) { for (;;) mc_sys(1, c, 0, 0); }
static const char* g_why = "abort";
void abort() { size_t n = 0; while (g_why[n]) ++n; mc_sys(2, (long)g_why, (long)n, 0); mc_exit(134); }
void cfg_out(const char* p, unsigned long n) { mc_sys(2, (long)p, (long)n, 0); }
void* memcpy(void* d, const void* s, size_t n) { char* a = (char*)d; const char* b = (const char*)s; while (n--) *a++ = *b++; return d; }
void* memmove(void* d, const void* s, size_t n) { char* a = (char*)d; const char* b = (const char*)s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void* memset(void* d, int c, size_t n) { char* a = (char*)d; while (n--) *a++ = (char)c; return d; }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y; for (; n--; ++a, ++b) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* a = (const unsigned char*)s; for (; n--; ++a) if (*a == (unsigned char)c) return (void*)a; return 0; }
void __assert_fail(const char* e, const char*, unsigned, const char*) { g_why = e; abort(); }
void __cxa_pure_virtual() { abort(); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
void* __dso_handle = 0;
extern char _end[];
// allocator: power-of-two classes
struct Node { Node* next; }; static Node* g_free[40]; static char* g_top = 0;
static int cls(size_t n) { int k = 5; while (((size_t)1 << k) < n + 16) ++k; return k; }
#if defined(__i386__)
static void* os_map(size_t n, int fd) { long a[6] = {0, (long)((n + 4095) & ~(size_t)4095), 3, fd < 0 ? 0x4022 : 1, fd, 0}; return (void*)mc_sys6(192, a); }
void* mc_alloc(size_t n) { const bool big = n > (size_t)32 << 20; int k = big ? 100 : cls(n); char* p; if (big) { p = (char*)os_map(n + 4096, -1); if ((uintptr_t)p >= (uintptr_t)-4095) { g_why = "out of memory"; abort(); } *(size_t*)p = n; p += 4080; }
  else if (g_free[k]) { p = (char*)g_free[k]; g_free[k] = g_free[k]->next; } else { if (!g_top) { g_top = (char*)os_map((size_t)256 << 20, -1); } p = g_top; g_top += (size_t)1 << k; } *(uint64_t*)p = (uint64_t)k; return p + 16; }
void mc_release(void* q) { if (!q) return; char* p = (char*)q - 16; int k = (int)*(uint64_t*)p; if (k == 100) { p -= 4080; long a[6] = {(long)p, (long)((*(size_t*)p + 4096 + 4095) & ~(size_t)4095), 0, 0, 0, 0}; mc_sys6(91, a); return; } ((Node*)p)->next = g_free[k]; g_free[k] = (Node*)p; }
// n bytes whose contents repeat every `period` bytes (a multiple of the page size); the first period is filled by the caller
uint8_t* big_map(unsigned long n, unsigned long period, void (*fillIt)(uint8_t*, unsigned long)) {
  const size_t span = (n + period - 1) / period * period; long a[6] = {(long)"big", 0, 0, 0, 0, 0}; const int fd = (int)mc_sys6(356, a); long t[6] = {fd, (long)period, 0, 0, 0, 0}; mc_sys6(93, t);
  uint8_t* r; { long m[6] = {0, (long)span, 0, 0x4022, -1, 0}; r = (uint8_t*)mc_sys6(192, m); } if ((uintptr_t)r >= (uintptr_t)-4095) { g_why = "out of address space"; abort(); }
  for (size_t o = 0; o < span; o += period) { long m[6] = {(long)(r + o), (long)period, o ? 1 : 3, 0x11, fd, 0}; if ((uintptr_t)mc_sys6(192, m) >= (uintptr_t)-4095) { g_why = "mapping failed"; abort(); } if (!o) fillIt(r, period); }
  return r;
}
#else
void* mc_alloc(size_t n) { int k = cls(n); char* p; if (g_free[k]) { p = (char*)g_free[k]; g_free[k] = g_free[k]->next; } else { if (!g_top) g_top = (char*)(((uintptr_t)_end + 4095) & ~(uintptr_t)4095); p = g_top; g_top += (size_t)1 << k; } *(uint64_t*)p = (uint64_t)k; return p + 16; }
void mc_release(void* q) { if (!q) return; char* p = (char*)q - 16; int k = (int)*(uint64_t*)p; ((Node*)p)->next = g_free[k]; g_free[k] = (Node*)p; }
#endif
#if __SIZEOF_POINTER__ == 4
// 64-bit division helpers
static uint64_t udm(uint64_t a, uint64_t b, uint64_t* r) { uint64_t q = 0, m = 0; for (int i = 63; i >= 0; --i) { m = m << 1 | (a >> i & 1); if (m >= b) { m -= b; q |= (uint64_t)1 << i; } } *r = m; return q; }
uint64_t __udivdi3(uint64_t a, uint64_t b) { uint64_t r; return udm(a, b, &r); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; udm(a, b, &r); return r; }
int64_t __divdi3(int64_t a, int64_t b) { uint64_t r; uint64_t q = udm(a < 0 ? -(uint64_t)a : a, b < 0 ? -(uint64_t)b : b, &r); return (a < 0) != (b < 0) ? -(int64_t)q : (int64_t)q; }
int64_t __moddi3(int64_t a, int64_t b) { uint64_t r; udm(a < 0 ? -(uint64_t)a : a, b < 0 ? -(uint64_t)b : b, &r); return a < 0 ? -(int64_t)r : (int64_t)r; }
union U { uint64_t v; struct {
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
  uint32_t hi, lo;
#else
  uint32_t lo, hi;
#endif
} w; };
uint64_t __lshrdi3(uint64_t a, int s) { U u; u.v = a; if (s >= 32) { u.w.lo = u.w.hi >> (s - 32); u.w.hi = 0; } else if (s) { u.w.lo = u.w.lo >> s | u.w.hi << (32 - s); u.w.hi >>= s; } return u.v; }
uint64_t __ashldi3(uint64_t a, int s) { U u; u.v = a; if (s >= 32) { u.w.hi = u.w.lo << (s - 32); u.w.lo = 0; } else if (s) { u.w.hi = u.w.hi << s | u.w.lo >> (32 - s); u.w.lo <<= s; } return u.v; }
int64_t __ashrdi3(int64_t a, int s) { U u; u.v = (uint64_t)a; if (s >= 32) { u.w.lo = (uint32_t)((int32_t)u.w.hi >> (s - 32)); u.w.hi = (uint32_t)((int32_t)u.w.hi >> 31); } else if (s) { u.w.lo = u.w.lo >> s | u.w.hi << (32 - s); u.w.hi = (uint32_t)((int32_t)u.w.hi >> s); } return (int64_t)u.v; }
#else
// 128-bit helpers, should the code use the compiler's own 128-bit integers
typedef unsigned __int128 u128; typedef __int128 s128;
static u128 udm(u128 a, u128 b, u128* r) { u128 q = 0, m = 0; for (int i = 127; i >= 0; --i) { m = m << 1 | (unsigned)((uint64_t)(i >= 64 ? (uint64_t)(a >> 64) >> (i - 64) : (uint64_t)a >> i) & 1); if (m >= b) { m -= b; q |= (u128)1 << i; } } *r = m; return q; }
u128 __udivti3(u128 a, u128 b) { u128 r; return udm(a, b, &r); }
u128 __umodti3(u128 a, u128 b) { u128 r; udm(a, b, &r); return r; }
#endif
#if defined(__i386__)
static long double xlog2(long double x) { long double r; __asm__("fyl2x" : "=t"(r) : "0"(x), "u"(1.0L) : "st(1)"); return r; }
static long double xrnd(long double x, int mode) { unsigned short o, w; __asm__ volatile("fnstcw %0" : "=m"(o)); w = (unsigned short)((o & ~0x0c00) | (mode << 10)); long double r; __asm__ volatile("fldcw %2\nfrndint\nfldcw %3" : "=t"(r) : "0"(x), "m"(w), "m"(o)); return r; }
static long double xexp2(long double y) { long double i = xrnd(y, 0), f = y - i, r; __asm__("f2xm1" : "=t"(r) : "0"(f)); r += 1.0L; __asm__("fscale" : "=t"(r) : "0"(r), "u"(i)); return r; }
static long double xround(long double x) { long double t = xrnd(x, 3), d = x - t; if (d >= 0.5L) return t + 1; if (d <= -0.5L) return t - 1; return t; }
#define M1(n, ex) double n(double x) { return (double)(ex); } float n##f(float x) { return (float)(ex); }
M1(log2, xlog2(x)) M1(log, xlog2(x) * 0.693147180559945309417232121458176568L) M1(log10, xlog2(x) * 0.301029995663981195213738894724493027L) M1(ceil, xrnd(x, 2)) M1(floor, xrnd(x, 1)) M1(trunc, xrnd(x, 3)) M1(round, xround(x)) M1(exp2, xexp2(x))
double sqrt(double x) { long double r; __asm__("fsqrt" : "=t"(r) : "0"((long double)x)); return (double)r; } float sqrtf(float x) { return (float)sqrt(x); }
double pow(double a, double b) { return (double)xexp2(b * xlog2(a)); } double fabs(double a) { return a < 0 ? -a : a; }
long lround(double d) { return (long)xround(d); } long long llround(double d) { return (long long)xround(d); }
#else
// double precision arithmetic: done by the emulator
struct FP { uint64_t x, y, r; }; static uint64_t fpu(long op, uint64_t x, uint64_t y = 0) { FP f = {x, y, 0}; mc_sys(3, op, (long)&f, 0); return *(volatile uint64_t*)&f.r; }
union D { double d; uint64_t u; }; union F { float f; uint32_t u; };
static uint64_t db(double d) { D x; x.d = d; return x.u; } static double bd(uint64_t u) { D x; x.u = u; return x.d; } static uint64_t fb(float f) { F x; x.f = f; return fpu(21, x.u); } static float bf(uint64_t u) { F x; x.u = (uint32_t)fpu(20, u); return x.f; }
#define F2(n, k) double __##n##df3(double a, double b) { return bd(fpu(k, db(a), db(b))); } float __##n##sf3(float a, float b) { return bf(fpu(k, fb(a), fb(b))); }
F2(add, 0) F2(sub, 1) F2(mul, 2) F2(div, 3)
double __floatunsidf(uint32_t v) { return bd(fpu(4, v)); } double __floatundidf(uint64_t v) { return bd(fpu(4, v)); } double __floatsidf(int32_t v) { return bd(fpu(5, (uint64_t)(int64_t)v)); } double __floatdidf(int64_t v) { return bd(fpu(5, (uint64_t)v)); }
float __floatunsisf(uint32_t v) { return bf(fpu(4, v)); } float __floatsisf(int32_t v) { return bf(fpu(5, (uint64_t)(int64_t)v)); }
int32_t __fixdfsi(double d) { return (int32_t)fpu(6, db(d)); } int64_t __fixdfdi(double d) { return (int64_t)fpu(6, db(d)); } uint32_t __fixunsdfsi(double d) { return (uint32_t)fpu(7, db(d)); } uint64_t __fixunsdfdi(double d) { return fpu(7, db(d)); }
int32_t __fixsfsi(float d) { return (int32_t)fpu(6, fb(d)); } uint32_t __fixunssfsi(float d) { return (uint32_t)fpu(7, fb(d)); }
static int cmpd(double a, double b) { return (int)(int64_t)fpu(8, db(a), db(b)); }
int __eqdf2(double a, double b) { return cmpd(a, b) != 0; } int __nedf2(double a, double b) { return cmpd(a, b) != 0; } int __ltdf2(double a, double b) { return cmpd(a, b) == -1 ? -1 : 1; } int __ledf2(double a, double b) { int c = cmpd(a, b); return c == 2 ? 1 : c; } int __gtdf2(double a, double b) { return cmpd(a, b) == 1 ? 1 : -1; } int __gedf2(double a, double b) { int c = cmpd(a, b); return c == 2 ? -1 : c; } int __unorddf2(double a, double b) { return cmpd(a, b) == 2; }
double __extendsfdf2(float f) { return bd(fb(f)); } float __truncdfsf2(double d) { return bf(db(d)); }
#define M1(n, k) double n(double a) { return bd(fpu(k, db(a))); } float n##f(float a) { return bf(fpu(k, fb(a))); }
M1(log2, 9) M1(log, 10) M1(ceil, 11) M1(floor, 12) M1(round, 13) M1(trunc, 14) M1(sqrt, 16) M1(log10, 17) M1(exp2, 18)
double pow(double a, double b) { return bd(fpu(15, db(a), db(b))); } double fabs(double a) { return bd(db(a) & ~((uint64_t)1 << 63)); }
long lround(double d) { return (long)(int64_t)fpu(19, db(d)); } long long llround(double d) { return (int64_t)fpu(19, db(d)); }
#endif
typedef void (*Ctor)();
extern Ctor __init_array_start[], __init_array_end[];
void mc_main(long dump, long size) { for (Ctor* c = __init_array_start; c != __init_array_end; ++c) (*c)(); mc_exit(cfg_run(dump, size)); }
}
void* operator new(size_t n) { return mc_alloc(n); }
void* operator new[](size_t n) { return mc_alloc(n); }
void operator delete(void* p) noexcept { mc_release(p); }
void operator delete[](void* p) noexcept { mc_release(p); }
void operator delete(void* p, size_t) noexcept { mc_release(p); }
void operator delete[](void* p, size_t) noexcept { mc_release(p); }
namespace std { 
[[noreturn]] void terminate() noexcept { g_why = "terminate"; abort(); __builtin_unreachable(); }
#define THROW(n, ...) [[noreturn]] void n(__VA_ARGS__) { g_why = #n; abort(); __builtin_unreachable(); }
THROW(__throw_length_error, const char*) THROW(__throw_logic_error, const char*) THROW(__throw_out_of_range, const char*) THROW(__throw_out_of_range_fmt, const char*, ...) THROW(__throw_bad_alloc) THROW(__throw_bad_array_new_length) THROW(__throw_bad_function_call) THROW(__throw_invalid_argument, const char*)
[[noreturn]] void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { g_why = c; abort(); __builtin_unreachable(); }
}
extern "C" { long __stack_chk_guard; }
#if defined(__i386__)
// arguments: --dump n --size n
extern "C" __attribute__((used)) void mc_entry(long* sp) { long dump = -1, size = 0; const long argc = sp[0]; char** argv = (char**)(sp + 1);
  for (long i = 1; i + 1 < argc; ++i) { long v = 0; const char* p = argv[i + 1]; bool neg = *p == '-'; if (neg) ++p; for (; *p >= '0' && *p <= '9'; ++p) v = v * 10 + (*p - '0'); if (neg) v = -v; if (argv[i][0] == '-' && argv[i][2] == 'd') dump = v; if (argv[i][0] == '-' && argv[i][2] == 's') size = v; }
  mc_main(dump, size); }
__asm__(".text\n.globl _start\n_start:\nxorl %ebp, %ebp\nmovl %esp, %eax\nandl $-16, %esp\nsubl $12, %esp\npushl %eax\ncall mc_entry\nhlt\n");
#else
__asm__(".text\n.globl _start\n.ent _start\n_start:\n.set noreorder\nmove $a0, $a0\njal mc_main\nnop\nbreak\n.end _start\n"
        ".globl mc_sys\n.ent mc_sys\nmc_sys:\nmove $v0, $a0\nmove $a0, $a1\nmove $a1, $a2\nmove $a2, $a3\nsyscall\njr $ra\nnop\n.end mc_sys\n.set reorder\n");
#endif
