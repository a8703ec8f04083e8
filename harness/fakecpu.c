// LD_PRELOAD: libprimesieve's view of the processor comes from the directory $FAKECPU.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const char* map(const char* p, char* buf, size_t n)
{
  const char* d = getenv("FAKECPU");
  const char* sys = "/sys/devices/system/cpu/";
  if (!d || !p)
    return p;
  if (!strncmp(p, sys, strlen(sys)))
  {
    char t[512];
    if (strlen(p) >= sizeof(t))
      return p;
    strcpy(t, p + strlen(sys));
    for (char* c = t; *c; c++)
      if (*c == '/')
        *c = '_';
    snprintf(buf, n, "%s/%s", d, t);
    return buf;
  }
  if (!strcmp(p, "/proc/cpuinfo"))
  {
    snprintf(buf, n, "%s/cpuinfo", d);
    return buf;
  }
  return p;
}

#define FO(name) \
  FILE* name(const char* p, const char* m) \
  { \
    static FILE* (*real)(const char*, const char*); \
    char b[1024]; \
    if (!real) real = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, #name); \
    return real(map(p, b, sizeof(b)), m); \
  }
FO(fopen)
FO(fopen64)
#define OP(name) \
  int name(const char* p, int f, ...) \
  { \
    static int (*real)(const char*, int, ...); \
    char b[1024]; \
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); \
    if (!real) real = (int (*)(const char*, int, ...)) dlsym(RTLD_NEXT, #name); \
    return real(map(p, b, sizeof(b)), f, m); \
  }
OP(open)
OP(open64)
