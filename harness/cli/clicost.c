// counts the basic blocks of the instrumented program and reports them, with the peak memory, when it ends
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
static unsigned long long n;
void __sanitizer_cov_trace_pc(void) { ++n; }
__attribute__((destructor)) static void done(void) {
  const char* p = getenv("COST_OUT"); if (!p) return; int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) return;
  // VmHWM, as the peak of getrusage() starts with that of the parent
  static char st[8192]; long kb = -1; int s = open("/proc/self/status", O_RDONLY); if (s >= 0) { ssize_t z = read(s, st, sizeof st - 1); if (z > 0) { st[z] = 0; char* q = strstr(st, "VmHWM:"); if (q) kb = atol(q + 6); } close(s); }
  char b[64]; int k = snprintf(b, sizeof b, "%llu %ld\n", n, kb); if (write(fd, b, k) < 0) {} close(fd);
}
