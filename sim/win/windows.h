// windows.h: what the library uses of the Windows API, on the simulator.
#ifndef SIM_WINDOWS_H_
#define SIM_WINDOWS_H_
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
typedef long long __int64;
typedef struct { unsigned dwNumberOfProcessors; } SYSTEM_INFO;
typedef struct { unsigned lo, hi; } FILETIME;
inline void GetSystemInfo(SYSTEM_INFO* s) { s->dwNumberOfProcessors = (unsigned)sysconf(_SC_NPROCESSORS_CONF); }
inline void GetSystemTimeAsFileTime(FILETIME* f) {
  timespec t; clock_gettime(CLOCK_REALTIME, &t);
  long long v = 116444736000000000LL + (long long)t.tv_sec * 10000000LL + t.tv_nsec / 100;
  f->lo = (unsigned)v; f->hi = (unsigned)(v >> 32);
}
inline void* _aligned_malloc(size_t size, size_t alignment) { void* p = nullptr; return posix_memalign(&p, alignment, size) ? nullptr : p; }
inline void _aligned_free(void* p) { free(p); }
#endif
