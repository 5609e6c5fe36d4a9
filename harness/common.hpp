// Reporting shared by all harnesses.
// Output protocol (stdout): "STAT key value" lines, "FAIL <case>" lines (case = replayable text), "DONE".
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>

static std::map<std::string, uint64_t> g_stat;
static int g_fails = 0;
static std::vector<std::string> g_samples;
static inline std::string hex(const std::vector<uint8_t>& v) { std::string s; char b[3]; for (uint8_t c : v) { snprintf(b, 3, "%02x", c); s += b; } return s; }
static inline void sample(const std::string& s) { if (g_samples.size() < 4) g_samples.push_back(s); }
// "current case" is kept in a shared mapping so that a crash can be attributed and replayed
static char* g_cur = nullptr;
// a case that makes no progress for WATCH_CPU_S seconds of processor time is a hang
#ifndef WATCH_CPU_S
#define WATCH_CPU_S 40
#endif
static volatile unsigned g_progress = 0, g_progressSeen = 0; static volatile int g_ticks = 0;
static void watchTick(int) {
  if (g_progress != g_progressSeen) { g_progressSeen = g_progress; g_ticks = 0; return; }
  if (++g_ticks < 4) return;
  static char b[66000]; size_t n = 0; auto put = [&](const char* t) { while (*t && n < sizeof b - 100) b[n++] = *t++; };
  put("\nFAIL "); put(g_cur && *g_cur ? g_cur : "the case given"); put(" | no progress: the operation does not end\n");
  if (write(1, b, n) < 0) {} _exit(1);
}
static inline void openCurrent(const char* path) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = watchTick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
  itimerval tv; memset(&tv, 0, sizeof tv); tv.it_interval.tv_sec = tv.it_value.tv_sec = WATCH_CPU_S / 4; setitimer(ITIMER_PROF, &tv, nullptr);
  if (!path) return;
  int fd = open(path, O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, 65536)) return;
  g_cur = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
}
static inline void current(const std::string& s) { ++g_progress; if (g_cur) { size_t n = s.size() < 65000 ? s.size() : 65000; memcpy(g_cur, s.data(), n); g_cur[n] = 0; } }
static inline void fail(const std::string& kase, const std::string& why) {
  ++g_fails; ++g_progress;
  if (g_fails <= 5) { printf("FAIL %s | %s\n", kase.c_str(), why.c_str()); fflush(stdout); }
}
static inline int finish() {
  for (auto& k : g_stat) printf("STAT %s %llu\n", k.first.c_str(), (unsigned long long)k.second);
  for (auto& s : g_samples) printf("SAMPLE %s\n", s.c_str());
  printf("DONE %d\n", g_fails); fflush(stdout);
  return g_fails ? 1 : 0;
}
// deterministic byte patterns
static inline uint8_t patByte(int k, uint64_t i) {
  switch (k) {
    case 0: return 0x00; case 1: return 0xff; case 2: return uint8_t(i); case 3: return 0x80; case 4: return uint8_t('a' + i % 26);
    default: { uint64_t z = (i + 1) * 0x9E3779B97F4A7C15ULL + uint64_t(k) * 0xD1B54A32D192ED03ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return uint8_t(z >> 56); }
  }
}
static inline std::vector<uint8_t> pattern(int k, size_t n, uint64_t off = 0) { std::vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = patByte(k, i + off); return v; }
static inline long argl(int argc, char** argv, const char* name, long def) { for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return atol(argv[i + 1]); return def; }
static inline const char* args(int argc, char** argv, const char* name) { for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1]; return nullptr; }
