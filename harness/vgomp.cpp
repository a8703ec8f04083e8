// A small OpenMP run-time library (the GOMP interface used by GCC).
//
// Concurrent mode: every team member is a new pthread, all synchronisation goes through
// pthread primitives and atomics which ThreadSanitizer understands.
// Serial mode: every team member is a fiber; the running fiber is chosen by a seeded
// generator at each run-time call, so a schedule can be repeated.
#include "vgomp.hpp"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <vector>

extern "C" { struct vgomp_control vgomp; }

namespace {
typedef void (*fn_t)(void*);

struct Share
{
  bool ready = false, shuffled = false;
  long start = 0, end = 0, incr = 1, chunk = 1;
  long next = 0, total = 0;          // chunk numbers
  std::vector<long> order;
  bool single = false;
};
struct Team;
struct Member
{
  Team* team = nullptr;
  int id = 0;
  size_t nshare = 0;
  Share* cur = nullptr;
  pthread_t thread;
  ucontext_t ctx;
  char* stack = nullptr;
  bool done = false;
  uint64_t rng = 0;
};
struct Team
{
  int n = 1;
  fn_t fn = nullptr;
  void* data = nullptr;
  std::vector<Member> m;
  pthread_mutex_t mtx;
  pthread_cond_t cond;
  std::vector<Share*> shares;
  int waiting = 0;
  uint64_t gen = 0;
  bool serial = false;
  ucontext_t back;
  Member* parent = nullptr;
};

__thread Member* self;
__thread uint64_t trng;
pthread_mutex_t atomic_mtx = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t crit_mtx = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t table_mtx = PTHREAD_MUTEX_INITIALIZER;
int req_threads = 0;

uint64_t mix(uint64_t& s)
{
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t& master() { static uint64_t s; return s; }
uint64_t lastseed = ~0ull;
pthread_mutex_t rnd_mtx = PTHREAD_MUTEX_INITIALIZER;
uint64_t rnd_unlocked();
uint64_t rnd()
{
  pthread_mutex_lock(&rnd_mtx);
  uint64_t v = rnd_unlocked();
  pthread_mutex_unlock(&rnd_mtx);
  return v;
}
uint64_t rnd_unlocked()
{
  if (vgomp.seed != lastseed) { lastseed = vgomp.seed; master() = vgomp.seed * 77777 + 5; }
  return mix(master());
}
// the library is not part of the program under observation
#if defined(__SANITIZE_THREAD__)
  #define NOTSAN __attribute__((no_sanitize("thread")))
}
extern "C" {
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
void AnnotateIgnoreSyncBegin(const char*, int);
void AnnotateIgnoreSyncEnd(const char*, int);
}
namespace {
// What the library does inside orders nothing: sharing out the iterations of a loop does
// not synchronise the threads which take them, so ThreadSanitizer must not see the locks
// used for it.  Fork, join, barriers, critical and atomic sections stay visible.
struct Quiet
{
  Quiet() { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); AnnotateIgnoreSyncBegin(__FILE__, __LINE__); }
  ~Quiet() { AnnotateIgnoreSyncEnd(__FILE__, __LINE__); AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); }
};
#else
  #define NOTSAN
struct Quiet { Quiet() {} ~Quiet() {} };
#endif
NOTSAN __attribute__((noinline)) void note(uint64_t v) { vgomp.hash = (vgomp.hash ^ v) * 1099511628211ull; }

void bump(uint64_t* p) { __atomic_fetch_add(p, 1, __ATOMIC_RELAXED); }

// switch to a random fiber that is not done (possibly this one)
void reschedule(Team* t)
{
  std::vector<int> live;
  for (int i = 0; i < t->n; i++) if (!t->m[i].done) live.push_back(i);
  Member* from = self;
  if (live.empty()) { self = t->parent; swapcontext(&from->ctx, &t->back); return; }
  int k = live[rnd() % live.size()];
  note(k + 1);
  if (&t->m[k] == from) return;
  bump(&vgomp.switches);
  self = &t->m[k];
  swapcontext(&from->ctx, &t->m[k].ctx);
}
void fiber_main(unsigned lo, unsigned hi)
{
  Member* m = (Member*) (((uintptr_t) hi << 32) | lo);
  m->team->fn(m->team->data);
  m->done = true;
  reschedule(m->team);
}
NOTSAN void jitter()
{
  if (vgomp.delay_us <= 0) return;
  if (!trng) trng = (uint64_t) pthread_self() + vgomp.seed * 31 + 1;
  uint64_t r = mix(trng);
  if (r % 4 == 0) sched_yield();
  else if (r % 4 == 1) { struct timespec ts = {0, (long) ((r >> 8) % (uint64_t) vgomp.delay_us) * 1000}; nanosleep(&ts, 0); }
}
// point where another thread may run
void point()
{
  Member* s = self;
  if (!s || !s->team || s->team->n == 1) return;
  if (s->team->serial) reschedule(s->team); else jitter();
}
void* thread_main(void* p)
{
  Member* m = (Member*) p;
  self = m;
  jitter();
  m->team->fn(m->team->data);
  jitter();
  self = nullptr;
  return nullptr;
}
bool in_parallel() { return self && self->team && self->team->n > 1; }

Share* get_share(Team* t, Member* m)
{
  // call with the team locked
  while (t->shares.size() <= m->nshare) t->shares.push_back(new Share);
  return t->shares[m->nshare++];
}
void lock_team(Team* t) { if (!t->serial) pthread_mutex_lock(&t->mtx); }
void unlock_team(Team* t) { if (!t->serial) pthread_mutex_unlock(&t->mtx); }

void init_share(Share* s, long start, long end, long incr, long chunk, bool any_order)
{
  s->ready = true;
  s->start = start; s->end = end; s->incr = incr; s->chunk = std::max(1l, chunk);
  long n = 0;
  if (incr > 0 && end > start) n = (end - start + incr - 1) / incr;
  if (incr < 0 && end < start) n = (start - end - incr - 1) / -incr;
  s->total = (n + s->chunk - 1) / s->chunk;
  if (any_order && vgomp.shuffle && s->total < 2000000)
  {
    s->order.resize(s->total);
    for (long i = 0; i < s->total; i++) s->order[i] = i;
    uint64_t kind = rnd() % 3;
    if (kind == 1) std::reverse(s->order.begin(), s->order.end());
    if (kind == 2) for (long i = s->total - 1; i > 0; i--) std::swap(s->order[i], s->order[rnd() % (uint64_t) (i + 1)]);
    s->shuffled = true;
  }
}
bool take(Share* s, long* istart, long* iend)
{
  if (s->next >= s->total) return false;
  long k = s->next++;
  if (s->shuffled) k = s->order[k];
  *istart = s->start + k * s->chunk * s->incr;
  long e = *istart + s->chunk * s->incr;
  if (s->incr > 0 ? e > s->end : e < s->end) e = s->end;
  *iend = e;
  return true;
}
Team solo;             // outside of any region
Member* me()
{
  if (self) return self;
  static __thread Member* outside;
  if (!outside)
  {
    outside = new Member;
    outside->team = new Team;
    outside->team->n = 1;
    outside->team->serial = true;
  }
  return outside;
}

bool loop_start(long start, long end, long incr, long chunk, long* is, long* ie, bool any)
{
  Quiet q;
  Member* m = me();
  Team* t = m->team;
  point();
  lock_team(t);
  Share* s = get_share(t, m);
  if (!s->ready) init_share(s, start, end, incr, chunk, any && t->n > 1);
  m->cur = s;
  bool r = take(s, is, ie);
  if (r) { bump(&vgomp.chunks); note((uint64_t) *is * 64 + m->id); }
  unlock_team(t);
  return r;
}
bool loop_next(long* is, long* ie)
{
  Quiet q;
  Member* m = me();
  Team* t = m->team;
  point();
  lock_team(t);
  bool r = m->cur && take(m->cur, is, ie);
  if (r) { bump(&vgomp.chunks); note((uint64_t) *is * 64 + m->id); }
  unlock_team(t);
  return r;
}
void barrier()
{
  Member* m = me();
  Team* t = m->team;
  if (t->n == 1) return;
  if (t->serial)
  {
    uint64_t g = t->gen;
    if (++t->waiting == t->n) { t->waiting = 0; t->gen++; }
    while (t->gen == g) reschedule(t);
    return;
  }
  pthread_mutex_lock(&t->mtx);
  uint64_t g = t->gen;
  if (++t->waiting == t->n) { t->waiting = 0; t->gen++; pthread_cond_broadcast(&t->cond); }
  else while (t->gen == g) pthread_cond_wait(&t->cond, &t->mtx);
  pthread_mutex_unlock(&t->mtx);
}

struct LoopInit { long start, end, incr, chunk; bool any; };

void run_team(fn_t fn, void* data, unsigned num, const LoopInit* init)
{
  Team* t;
  int n;
  Member* parent = self;
  {
  Quiet q;
  n = num ? (int) num : (req_threads ? req_threads : vgomp.max_threads);
  if (n < 1) n = 1;
  if (in_parallel()) n = 1;
  if (n > 1 && vgomp.shrink && rnd() % 3 == 0) { int g = 1 + (int) (rnd() % (uint64_t) n); if (g < n) { n = g; bump(&vgomp.granted_fewer); } }
  t = new Team;
  t->n = n; t->fn = fn; t->data = data;
  t->serial = vgomp.serial || n == 1;
  t->parent = parent;
  pthread_mutex_init(&t->mtx, 0);
  pthread_cond_init(&t->cond, 0);
  t->m.resize(n);
  if (!parent || parent->team->n == 1)
  {
    bump(&vgomp.regions);
    if (n > 1) bump(&vgomp.multi_regions);
    note(n * 1000003ull);
  }
  for (int i = 0; i < n; i++) { t->m[i].team = t; t->m[i].id = i; }
  if (init)
  {
    Share* s = new Share;
    init_share(s, init->start, init->end, init->incr, init->chunk, init->any && n > 1);
    t->shares.push_back(s);
    for (auto& m : t->m) { m.cur = s; m.nshare = 1; }
  }
  }
  if (n == 1)
  {
    self = &t->m[0];
    fn(data);
    self = parent;
  }
  else if (t->serial)
  {
    const size_t SS = 1 << 20;
    for (auto& m : t->m)
    {
      m.stack = (char*) malloc(SS);
      getcontext(&m.ctx);
      m.ctx.uc_stack.ss_sp = m.stack;
      m.ctx.uc_stack.ss_size = SS;
      m.ctx.uc_link = &t->back;
      uintptr_t p = (uintptr_t) &m;
      makecontext(&m.ctx, (void (*)()) fiber_main, 2, (unsigned) p, (unsigned) (p >> 32));
    }
    int k = (int) (rnd() % (uint64_t) n);
    note(k + 1);
    self = &t->m[k];
    swapcontext(&t->back, &t->m[k].ctx);
    self = parent;
    for (auto& m : t->m) free(m.stack);
  }
  else
  {
    int started = 0;
    for (int i = 1; i < n; i++)
      if (pthread_create(&t->m[i].thread, 0, thread_main, &t->m[i]) == 0) started++;
      else { fprintf(stderr, "vgomp: pthread_create failed\n"); _exit(3); }
    self = &t->m[0];
    jitter();
    fn(data);
    for (int i = 1; i < n; i++) pthread_join(t->m[i].thread, 0);
    self = parent;
  }
  Quiet q;
  for (auto* s : t->shares) delete s;
  pthread_mutex_destroy(&t->mtx);
  pthread_cond_destroy(&t->cond);
  delete t;
}

struct Init
{
  Init()
  {
    const char* e = getenv("OMP_NUM_THREADS");
    vgomp.max_threads = e ? atoi(e) : 8;
    if ((e = getenv("VGOMP_SERIAL"))) vgomp.serial = atoi(e);
    if ((e = getenv("VGOMP_SEED"))) vgomp.seed = strtoull(e, 0, 10);
    if ((e = getenv("VGOMP_SHRINK"))) vgomp.shrink = atoi(e);
    if ((e = getenv("VGOMP_SHUFFLE"))) vgomp.shuffle = atoi(e);
    if ((e = getenv("VGOMP_DELAY"))) vgomp.delay_us = atoi(e);
    if (vgomp.max_threads < 1) vgomp.max_threads = 8;
    report = getenv("VGOMP_REPORT");
  }
  ~Init()
  {
    if (!report) return;
    FILE* f = fopen(report, "a");
    if (!f) return;
    fprintf(f, "%llu %llu %llu %llu %llu %llu\n", (unsigned long long) vgomp.regions, (unsigned long long) vgomp.multi_regions,
            (unsigned long long) vgomp.switches, (unsigned long long) vgomp.chunks, (unsigned long long) vgomp.granted_fewer,
            (unsigned long long) vgomp.hash);
    fclose(f);
  }
  const char* report = nullptr;
} init_vgomp __attribute__((init_priority(101)));
} // namespace

extern "C" {
void GOMP_parallel(fn_t fn, void* data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }
#define PLOOP(NAME, ANY) \
  void GOMP_parallel_loop_##NAME(fn_t fn, void* data, unsigned n, long start, long end, long incr, long chunk, unsigned) \
  { LoopInit i = {start, end, incr, chunk, ANY}; run_team(fn, data, n, &i); }
PLOOP(dynamic, false) PLOOP(guided, false) PLOOP(nonmonotonic_dynamic, true) PLOOP(nonmonotonic_guided, true)
#define PLOOPR(NAME, ANY) \
  void GOMP_parallel_loop_##NAME(fn_t fn, void* data, unsigned n, long start, long end, long incr, unsigned) \
  { LoopInit i = {start, end, incr, 1, ANY}; run_team(fn, data, n, &i); }
PLOOPR(runtime, false) PLOOPR(nonmonotonic_runtime, true) PLOOPR(maybe_nonmonotonic_runtime, true)
#define LOOP(NAME, ANY) \
  bool GOMP_loop_##NAME##_start(long a, long b, long c, long d, long* s, long* e) { return loop_start(a, b, c, d, s, e, ANY); } \
  bool GOMP_loop_##NAME##_next(long* s, long* e) { return loop_next(s, e); }
LOOP(static, false) LOOP(dynamic, false) LOOP(guided, false) LOOP(nonmonotonic_dynamic, true) LOOP(nonmonotonic_guided, true)
#define LOOPR(NAME, ANY) \
  bool GOMP_loop_##NAME##_start(long a, long b, long c, long* s, long* e) { return loop_start(a, b, c, 1, s, e, ANY); } \
  bool GOMP_loop_##NAME##_next(long* s, long* e) { return loop_next(s, e); }
LOOPR(runtime, false) LOOPR(nonmonotonic_runtime, true) LOOPR(maybe_nonmonotonic_runtime, true)
typedef unsigned long long ull;
#define LOOPU(NAME, ANY) \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull a, ull b, ull c, ull d, ull* s, ull* e) \
  { (void) up; return loop_start((long) a, (long) b, (long) c, (long) d, (long*) s, (long*) e, ANY); } \
  bool GOMP_loop_ull_##NAME##_next(ull* s, ull* e) { return loop_next((long*) s, (long*) e); }
LOOPU(static, false) LOOPU(dynamic, false) LOOPU(guided, false) LOOPU(nonmonotonic_dynamic, true) LOOPU(nonmonotonic_guided, true)
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { barrier(); }
void GOMP_barrier() { barrier(); }
bool GOMP_single_start()
{
  Quiet q;
  Member* m = me();
  point();
  lock_team(m->team);
  Share* s = get_share(m->team, m);
  bool first = !s->single;
  s->single = true;
  unlock_team(m->team);
  return first;
}
unsigned GOMP_sections_start(unsigned count)
{
  long s, e;
  return loop_start(1, (long) count + 1, 1, 1, &s, &e, false) ? (unsigned) s : 0;
}
unsigned GOMP_sections_next() { long s, e; return loop_next(&s, &e) ? (unsigned) s : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(fn_t fn, void* data, unsigned n, unsigned count, unsigned)
{
  LoopInit i = {1, (long) count + 1, 1, 1, false};
  run_team(fn, data, n, &i);
}
static __thread int dummy;
// in serial mode no other fiber runs between start and end of an atomic section
void GOMP_atomic_start() { point(); if (!(self && self->team->serial)) pthread_mutex_lock(&atomic_mtx); }
void GOMP_atomic_end() { if (!(self && self->team->serial)) pthread_mutex_unlock(&atomic_mtx); }
static void crit_enter(pthread_mutex_t* mtx)
{
  point();
  if (self && self->team->serial) { while (pthread_mutex_trylock(mtx)) { if (self->team->n == 1) sched_yield(); else reschedule(self->team); } }
  else pthread_mutex_lock(mtx);
}
void GOMP_critical_start() { crit_enter(&crit_mtx); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit_mtx); }
static pthread_mutex_t* named(void** p)
{
  Quiet q;
  pthread_mutex_lock(&table_mtx);
  static std::map<void**, pthread_mutex_t*>* tab = new std::map<void**, pthread_mutex_t*>;
  pthread_mutex_t*& m = (*tab)[p];
  if (!m) { m = new pthread_mutex_t; pthread_mutex_init(m, 0); }
  pthread_mutex_t* r = m;
  pthread_mutex_unlock(&table_mtx);
  return r;
}
void GOMP_critical_name_start(void** p) { crit_enter(named(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(named(p)); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_taskwait() {}
void GOMP_taskyield() {}

int omp_get_max_threads() { return req_threads ? req_threads : vgomp.max_threads; }
int omp_get_num_threads() { return me()->team->n; }
int omp_get_thread_num() { return me()->id; }
int omp_get_num_procs() { return vgomp.max_threads; }
int omp_in_parallel() { return in_parallel(); }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_num_threads(int n) { req_threads = n; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_level() { return in_parallel(); }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
void omp_destroy_lock(int*) {}
int omp_test_lock(int* l)
{
  point();
  int z = 0;
  return __atomic_compare_exchange_n(l, &z, 1, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
}
void omp_set_lock(int* l)
{
  while (!omp_test_lock(l)) { if (self && self->team->serial) { if (self->team->n > 1) reschedule(self->team); } else sched_yield(); }
}
void omp_unset_lock(int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); point(); }
}
