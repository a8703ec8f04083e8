/* Preloaded into an unmodified program: memory requests made by the program itself, by the C++
 * library and by the C library fail as told by OOM_MODE (once, from, some, count) and OOM_AT.
 * Requests before main() and requests of libgomp and of the dynamic linker, which end the
 * program by themselves with a message, never fail.  OOM_OUT: file for the number of requests.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);

static atomic_int armed;
static atomic_ulong counter, failed;
static int mode;
static unsigned long at, seed;
static struct { uintptr_t a, b; } ok[64];
static int nok;

static int note(struct dl_phdr_info* i, size_t n, void* d)
{
  const char* s = i->dlpi_name;
  (void) n; (void) d;
  if (strstr(s, "libgomp") || strstr(s, "ld-linux") || strstr(s, "linux-vdso") || strstr(s, "oomlib") || strstr(s, "libgcc") || strstr(s, "/libm.")) return 0;
  for (int k = 0; k < i->dlpi_phnum && nok < 64; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
    {
      ok[nok].a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      ok[nok].b = ok[nok].a + i->dlpi_phdr[k].p_memsz;
      nok++;
    }
  return 0;
}
static int fails(void* caller)
{
  uintptr_t c = (uintptr_t) caller;
  int in = 0;
  if (!atomic_load_explicit(&armed, memory_order_relaxed)) return 0;
  for (int k = 0; k < nok; k++) in |= c >= ok[k].a && c < ok[k].b;
  if (!in) return 0;
  unsigned long k = atomic_fetch_add(&counter, 1) + 1;
  int f = 0;
  if (mode == 1) f = k == at;
  if (mode == 2) f = k >= at;
  if (mode == 3) { uint64_t h = (k + seed) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; f = (h >> 32) % 1000 < at; }
  if (f) atomic_fetch_add(&failed, 1);
  return f;
}
void* malloc(size_t n) { if (fails(__builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { if (fails(__builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (n && fails(__builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }
void* aligned_alloc(size_t a, size_t n) { if (fails(__builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n)
{
  if (fails(__builtin_return_address(0))) return ENOMEM;
  void* q = __libc_memalign(a, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
/* a new thread needs a stack */
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
  static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!real) *(void**) &real = dlsym(RTLD_NEXT, "pthread_create");
  if (fails(__builtin_return_address(0))) return EAGAIN;
  return real(t, a, f, arg);
}
static int (*real_main)(int, char**, char**);
static int my_main(int c, char** v, char** e)
{
  const char* m = getenv("OOM_MODE");
  if (m) mode = !strcmp(m, "once") ? 1 : !strcmp(m, "from") ? 2 : !strcmp(m, "some") ? 3 : 0;
  if ((m = getenv("OOM_AT"))) at = strtoul(m, NULL, 10);
  if ((m = getenv("OOM_SEED"))) seed = strtoul(m, NULL, 10);
  dl_iterate_phdr(note, NULL);
  atomic_store(&armed, 1);
  int r = real_main(c, v, e);
  atomic_store(&armed, 0);
  return r;
}
int __libc_start_main(int (*m)(int, char**, char**), int argc, char** argv, void (*init)(void), void (*fini)(void), void (*rtld)(void), void* end)
{
  int (*real)(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*);
  *(void**) &real = dlsym(RTLD_NEXT, "__libc_start_main");
  real_main = m;
  return real(my_main, argc, argv, init, fini, rtld, end);
}
__attribute__((destructor)) static void report(void)
{
  const char* f = getenv("OOM_OUT");
  char b[64];
  atomic_store(&armed, 0);
  if (!f) return;
  int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  int n = snprintf(b, sizeof b, "%lu %lu\n", (unsigned long) counter, (unsigned long) failed);
  if (fd >= 0) { if (write(fd, b, (size_t) n) < 0) {} close(fd); }
}
