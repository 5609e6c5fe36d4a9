// LD_PRELOAD library: every read and open system call of the program under test is trapped (seccomp) and
// answered according to a plan, whichever library function it came from.
//   RF_READ = comma separated actions for the successive reads of input descriptors: f full, s<n> at most n bytes,
//             e<errno> fail; the last action repeats when it is prefixed with '*' (otherwise: full).
//   RF_WRITE = the same for the successive writes to descriptor 1 (not trapped when unset)
//   RF_OPEN = <n>:<errno>  fail the n-th open of RF_PATH
//   RF_LOG  = file that receives one byte per read ('r' data, 'z' end of file, 'x' failed), per open ('o') and per write to
//             descriptor 1 ('W' written, 'X' failed)
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
long rf_sys(long n, long a, long b, long c, long d, long e, long f);
extern char rf_lo[], rf_hi[];
__asm__(".text\n.p2align 12\n.globl rf_lo\nrf_lo:\n.globl rf_sys\nrf_sys:\nmov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nret\n.p2align 12\n.globl rf_hi\nrf_hi:\nnop\n");
struct act { char k; long n; };
struct plan { struct act a[4096]; int n, rep, i; };
static struct plan g_r, g_w; static int g_log = -1, g_openAt, g_openErr, g_opens; static const char* g_path;
static void logc(char c) { if (g_log >= 0) rf_sys(SYS_write, g_log, (long)&c, 1, 0, 0, 0); }
static struct act next(struct plan* p) { struct act a = {'f', 0}; if (p->i < p->n) a = p->a[p->i++]; else if (p->rep && p->n) a = p->a[p->n - 1]; return a; }
static void parse(struct plan* q, const char* p) { while (p && *p && q->n < 4096) { if (*p == '*') { q->rep = 1; ++p; } q->a[q->n].k = *p++; q->a[q->n].n = strtol(p, (char**)&p, 10); ++q->n; if (*p == ',') ++p; } }
static int isWrite(long nr) { return nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev || nr == SYS_pwritev || nr == SYS_pwritev2; }
static void onSys(int s, siginfo_t* si, void* ctx) {
  (void)s; (void)si; greg_t* r = ((ucontext_t*)ctx)->uc_mcontext.gregs; const int saved = errno; const long nr = r[REG_RAX]; long ret;
  const long a0 = r[REG_RDI], a1 = r[REG_RSI], a2 = r[REG_RDX], a3 = r[REG_R10], a4 = r[REG_R8], a5 = r[REG_R9];
  if (nr == SYS_open || nr == SYS_openat) {
    const char* p = (const char*)(nr == SYS_open ? a0 : a1); int mine = g_path && !strcmp(p, g_path);
    if (mine && ++g_opens == g_openAt) { logc('x'); ret = -g_openErr; }
    else { if (mine) logc('o'); ret = rf_sys(nr, a0, a1, a2, a3, a4, a5); }
  } else if (isWrite(nr) && a0 != 1) {
    ret = rf_sys(nr, a0, a1, a2, a3, a4, a5);
  } else {
    const int wr = isWrite(nr); struct act a = next(wr ? &g_w : &g_r); long cap = a.k == 's' ? a.n : LONG_MAX;
    if (a.k == 'e') ret = -a.n;
    else if (nr == SYS_read || nr == SYS_pread64 || nr == SYS_write || nr == SYS_pwrite64) ret = rf_sys(nr, a0, a1, a2 < cap ? a2 : cap, a3, a4, a5);
    else {   // the vector calls: shorten the vector
      struct iovec v[64]; int n = a2 > 64 ? 64 : (int)a2; long left = cap; memcpy(v, (void*)a1, n * sizeof *v);
      for (int i = 0; i < n; ++i) { if ((long)v[i].iov_len > left) v[i].iov_len = left; left -= v[i].iov_len; }
      ret = rf_sys(nr, a0, (long)v, n, a3, a4, a5);
    }
    logc(wr ? ret < 0 ? 'X' : 'W' : ret < 0 ? 'x' : ret == 0 ? 'z' : 'r');
  }
  r[REG_RAX] = ret; errno = saved;
}
__attribute__((constructor)) static void init(void) {
  const char* w = getenv("RF_WRITE"); const char* o = getenv("RF_OPEN"); const char* l = getenv("RF_LOG"); g_path = getenv("RF_PATH");
  parse(&g_r, getenv("RF_READ")); parse(&g_w, w);
  if (o) { char* e; g_openAt = strtol(o, &e, 10); g_openErr = strtol(e + 1, 0, 10); }
  if (l) g_log = open(l, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (g_log >= 0) { int hi = fcntl(g_log, F_DUPFD, 500); if (hi >= 0) { close(g_log); g_log = hi; } }
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = onSys; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &a, 0);
  const unsigned long lo = (unsigned long)rf_lo, hi = (unsigned long)rf_hi;
  static const int rd[] = { SYS_read, SYS_pread64, SYS_readv, SYS_preadv, SYS_preadv2, SYS_open, SYS_openat, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_pwritev2 };
  const int k = w ? 12 : 7; struct sock_filter f[32]; int n = 0;
#define OP(...) f[n++] = (struct sock_filter)__VA_ARGS__
  OP(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
  for (int i = 0; i < k; ++i) OP(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)rd[i], (unsigned char)(k - i), 0));
  OP(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  OP(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4)); OP(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(lo >> 32), 0, 4));
  OP(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer))); OP(BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (unsigned)lo, 0, 2));
  OP(BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (unsigned)hi, 1, 0)); OP(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)); OP(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  struct sock_fprog pr = {(unsigned short)n, f};
  // filters of processes that just ended may still be charged against the kernel's limit: wait for them
  int rc = (lo >> 32) != (hi >> 32) ? -2 : prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  for (int t = 0; !rc && (rc = prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) && t < 1000; ++t) { struct timespec ts = {0, 10000000}; nanosleep(&ts, 0); rc = 0; if (t == 999) rc = -1; }
  if (rc) { dprintf(2, "readfault: cannot install (%d, errno %d)\n", rc, errno); _exit(99); }
  logc('I');
}
