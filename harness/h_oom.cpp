// Makes memory requests fail during library calls: the call has to report an error or to give
// the right result, and the next call has to work.
#include "oom.hpp"
#include <primesieve.h>
#include <primesieve.hpp>
#include <errno.h>
#include <atomic>
#include <new>
#include <typeinfo>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace hv;
using orc::u64; using orc::Rng;
typedef unsigned long long ull;

// ---- the failing allocator
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
}
namespace {
enum { NONE, ONCE, FROM, SOME, SIZE };
std::atomic<int> armed{0};            // 0: nothing counted
std::atomic<int> mode{NONE};
std::atomic<u64> counter{0}, fail_at{0}, failed{0}, seed{0};
thread_local int off = 0;

bool fails(size_t n)
{
  if (!armed.load(std::memory_order_relaxed) || off) return false;
  u64 k = counter.fetch_add(1, std::memory_order_relaxed) + 1;
  bool f = false;
  switch (mode.load(std::memory_order_relaxed))
  {
    case ONCE: f = k == fail_at; break;
    case FROM: f = k >= fail_at; break;
    case SOME: { u64 h = (k + seed) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; f = (h >> 32) % 1000 < fail_at; break; }
    case SIZE: f = n >= fail_at; break;
  }
  if (f) failed.fetch_add(1, std::memory_order_relaxed);
  return f;
}
}
namespace oom {
Off::Off() { off++; }
Off::~Off() { off--; }
}
extern "C" {
void* __wrap_malloc(size_t n) { if (fails(n)) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (fails(a * b)) { errno = ENOMEM; return nullptr; } return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { if (n && fails(n)) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (fails(n)) { errno = ENOMEM; return nullptr; } return __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (fails(n)) return ENOMEM; return __real_posix_memalign(p, a, n); }
}
void* operator new(size_t n)
{
  if (fails(n)) throw std::bad_alloc();
  void* p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a)
{
  if (fails(n)) throw std::bad_alloc();
  void* p = nullptr;
  if (__real_posix_memalign(&p, std::max<size_t>((size_t) a, sizeof(void*)), n ? n : 1)) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }

// ---- one call
struct Outcome { bool error; std::string text; u64 requests, failures; };

static Outcome run(const oom::Call& c, int m, u64 at, u64 sd)
{
  Outcome o{false, "", 0, 0};
  std::string bad;
  counter = 0; failed = 0; fail_at = at; seed = sd; mode = m;
  armed = 1;
  try { o.text = c.fn(); }
  catch (oom::CError&) { o.error = true; }
  catch (oom::BadError& e) { armed = 0; bad = "wrong error report: " + e.what; }
  catch (std::exception& e)
  {
    o.error = true;
    // nothing may be thrown by a function of the C interface
    if (c.name.compare(0, 2, "c_") == 0) { armed = 0; o.error = false; bad = std::string("the exception ") + e.what() + " leaves a C function"; }
  }
  catch (...) { armed = 0; bad = "an exception which is no std::exception"; }
  armed = 0;
  o.requests = counter;
  o.failures = failed;
  if (!bad.empty()) o.text = bad;
  return o;
}

static const char* MODE[] = {"none", "once", "from", "some", "size"};

static void one_call(const oom::Call& c, Rng& r, u64 cap)
{
  at("%s without failures", c.name.c_str());
  Outcome clean = run(c, NONE, 0, 0), again = run(c, NONE, 0, 0);
  std::string key = c.name.substr(0, c.name.find(' '));
  if (clean.error || again.error || clean.text != again.text)
  {
    violation("oom:" + key, fmt("%s without failures: %s, then %s", c.name.c_str(), clean.error ? "error" : clean.text.c_str(), again.error ? "error" : again.text.c_str()));
    return;
  }
  // the second run shows what a call requests when the tables built by the first call are there
  u64 n = std::max(clean.requests, again.requests);
  count("calls");
  count("requests_of_clean_calls", n);
  if (n == 0) { count("calls_without_requests"); eval(1, 0); return; }
  auto trial = [&](int m, u64 at_, u64 sd)
  {
    at("%s failing %s %llu", c.name.c_str(), MODE[m], (ull) at_);
    Outcome o = run(c, m, at_, sd);
    eval(1, o.failures ? 1 : 0);
    count(std::string("mode_") + MODE[m]);
    if (o.failures) count("requests_failed", o.failures);
    if (o.error) count("errors_reported");
    else if (o.failures) count("completed_in_spite_of_failures");
    if (o.error && !o.failures)
      violation("oom:" + key, fmt("%s: error although no request failed", c.name.c_str()));
    if (!o.error && o.text != clean.text)
      violation("oom:" + key, fmt("%s failing request %s %llu of %llu: result %s, right %s", c.name.c_str(), MODE[m], (ull) at_, (ull) n, o.text.c_str(), clean.text.c_str()));
    // and now without failures
    at("%s after failing %s %llu", c.name.c_str(), MODE[m], (ull) at_);
    Outcome p = run(c, NONE, 0, 0);
    count("calls_after_a_failure");
    if (p.error || p.text != clean.text)
      violation("oom_later:" + key, fmt("%s after a call with failing request %s %llu of %llu: %s, right %s", c.name.c_str(), MODE[m], (ull) at_, (ull) n, p.error ? "error" : p.text.c_str(), clean.text.c_str()));
  };
  cap = std::max<u64>(4, (u64) ((double) cap * c.weight));
  for (int m : {ONCE, FROM})
  {
    if (n <= cap) for (u64 k = 1; k <= n; k++) trial(m, k, 0);
    else
      for (u64 j = 0; j < cap; j++)
        // the first ones, the last ones and some between
        trial(m, j < cap / 3 ? j + 1 : j < cap / 2 ? n - (j - cap / 3) : 1 + r.below(n), 0);
    if (n <= cap) count(std::string("calls_with_every_request_failed_") + MODE[m]);
  }
  for (u64 j = 0; j < cap / 4 + 1; j++) trial(SOME, r.pick(std::vector<u64>{1, 5, 20, 100, 400, 900}), r.next());
  for (u64 s = 16; s <= (1u << 22); s *= 4) trial(SIZE, s + 1, 0);
}

// ---- the very first call of a process: every trial is a process of its own
struct Shared { bool error, bad; u64 requests, failures; char text[2000]; };
static Shared* sh;

static void put(const Outcome& o)
{
  sh->error = o.error;
  sh->requests = o.requests;
  sh->failures = o.failures;
  snprintf(sh->text, sizeof sh->text, "%s", o.text.c_str());
}
// false: the child has died
static bool child(const std::function<void()>& f)
{
  memset(sh, 0, sizeof *sh);
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) return false;
  if (p == 0) { alarm(120); f(); _exit(0); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
  if (WIFSIGNALED(st)) snprintf(sh->text, sizeof sh->text, "signal %d", WTERMSIG(st));
  else snprintf(sh->text, sizeof sh->text, "exit status %d", WEXITSTATUS(st));
  return false;
}
static void cold(const oom::Call& c, Rng& r, u64 cap)
{
  std::string key = c.name.substr(0, c.name.find(' '));
  auto died = [&](const std::string& how) { violation("oom_crash:" + key, fmt("%s, first call of the process, %s: %s", c.name.c_str(), how.c_str(), sh->text)); };
  at("%s first call without failures", c.name.c_str());
  if (!child([&] { put(run(c, NONE, 0, 0)); })) return died("without failures");
  if (sh->error) return violation("oom:" + key, fmt("%s, first call of the process, without failures: error", c.name.c_str()));
  std::string want = sh->text;
  u64 n = sh->requests;
  count("cold_calls");
  count("requests_of_clean_cold_calls", n);
  if (n <= cap) count("cold_calls_with_every_request_failed");
  for (u64 j = 1; j <= std::min(n, cap); j++)
    for (int m : {ONCE, FROM})
    {
      u64 k = n <= cap || j <= cap / 2 ? j : 1 + r.below(n);
      at("%s first call failing %s %llu", c.name.c_str(), MODE[m], (ull) k);
      std::string how = fmt("failing request %s %llu of %llu", MODE[m], (ull) k, (ull) n);
      bool ok = child([&] {
        Outcome o = run(c, m, k, 0);
        put(o);
        if (!o.error && o.text != want) return;
        Outcome p = run(c, NONE, 0, 0);
        if (p.error || p.text != want) { put(p); sh->bad = true; }
      });
      if (!ok) { died(how); continue; }
      eval(1, 1);
      count("cold_trials");
      if (sh->bad) violation("oom_later:" + key, fmt("%s after a first call with %s: %s, right %s", c.name.c_str(), how.c_str(), sh->error ? "error" : sh->text, want.c_str()));
      else if (!sh->error && want != sh->text)
        violation("oom:" + key, fmt("%s, first call of the process, %s: result %s, right %s", c.name.c_str(), how.c_str(), sh->text, want.c_str()));
      else count(sh->error ? "cold_errors_reported" : "cold_completed");
    }
}

// ---- iterators: random histories, the failures fall anywhere
struct Ref
{
  // primes around the place
  u64 lo, hi;
  std::vector<u64> p;
  void build(u64 a, u64 b) { lo = a; hi = b; p = orc::primes_in(a, b); }
  u64 next(u64 v) const { return *std::upper_bound(p.begin(), p.end(), v); }
  u64 prev(u64 v) const { auto i = std::lower_bound(p.begin(), p.end(), v); return i == p.begin() ? 0 : *--i; }
};

template <class It> struct Api;
struct CppIt
{
  primesieve::iterator it;
  void skip(u64 a, u64 h) { it.skipto(a, h); }
  u64 next() { return it.next_prime(); }
  u64 prev() { return it.prev_prime(); }
};
struct CIt
{
  primesieve_iterator it;
  CIt() { primesieve_init(&it); }
  ~CIt() { primesieve_free_iterator(&it); }
  void skip(u64 a, u64 h) { primesieve_skipto(&it, a, h); }
  static u64 check(primesieve_iterator& it, u64 v)
  {
    if (v != PRIMESIEVE_ERROR) return v;
    if (!it.is_error) throw oom::BadError{"PRIMESIEVE_ERROR without is_error"};
    if (errno != EDOM) throw oom::BadError{"PRIMESIEVE_ERROR without EDOM"};
    throw oom::CError();
  }
  u64 next() { errno = 0; return check(it, primesieve_next_prime(&it)); }
  u64 prev() { errno = 0; return check(it, primesieve_prev_prime(&it)); }
};

template <class It> static void history(const char* api, const Ref& ref, Rng r0, int m, u64 at_, u64 sd, u64* requests, bool* stop)
{
  Rng r = r0;
  counter = 0; failed = 0; fail_at = at_; seed = sd; mode = m;
  std::string log;
  u64 v = 0, steps = 0, errors = 0, resumed = 0;
  {
    It it;
    int segs = 12;
    bool lasterr = false;
    int row = 0;
    auto step = [&](bool fwd, bool arm)
    {
      if (fwd ? v + 3000 > ref.hi : v < ref.lo + 3000 && ref.lo > 0) return true;
      if (fwd && v < ref.lo) return true;
      u64 want = fwd ? ref.next(v) : ref.prev(v), got = 0;
      bool err = false;
      u64 f0 = failed;
      armed = arm;
      try { got = fwd ? it.next() : it.prev(); }
      catch (oom::CError&) { err = true; }
      catch (std::exception& e)
      {
        armed = 0;
        err = true;
        if (std::is_same<It, CIt>::value) { violation("oom_iterator:C", fmt("the exception %s leaves the C iterator; %s", e.what(), at_buf())); return false; }
      }
      catch (oom::BadError& e) { armed = 0; violation(std::string("oom_iterator:") + api, fmt("%s: %s", e.what.c_str(), at_buf())); return false; }
      armed = 0;
      steps++;
      if (err)
      {
        errors++;
        row++;
        lasterr = true;
        if (failed == f0) { violation(std::string("oom_iterator:") + api, fmt("error of %s although no request failed, position %llu, %s%s", fwd ? "next" : "prev", (ull) v, at_buf(), log.c_str())); return false; }
        return true;
      }
      if (got != want)
      {
        violation(std::string("oom_iterator:") + api, fmt("%s from %llu gave %llu, right %llu; %s; history:%s", fwd ? "next" : "prev", (ull) v, (ull) got, (ull) want, at_buf(), log.c_str()));
        return false;
      }
      if (lasterr) { resumed++; lasterr = false; row = 0; }
      v = got;
      return true;
    };
    auto skip = [&]
    {
      v = r.below(3) == 0 && ref.lo == 0 ? r.below(100) : r.range(ref.lo + 5000, ref.hi - 5000);
      u64 hint = r.below(3) == 0 ? v + r.logu(1, 1e5) : r.below(2) ? ~0ull : v - std::min(v, (u64) r.logu(1, 1e5));
      log += fmt(" skipto(%llu,%llu)", (ull) v, (ull) hint);
      armed = 1;
      it.skip(v, hint);
      armed = 0;
      lasterr = false;
    };
    bool ok = true;
    for (int s = 0; s < segs && ok; s++)
    {
      if (s == 0 ? r.below(4) != 0 || ref.lo > 0 : r.below(4) == 0) skip();
      bool fwd = r.below(2);
      int k = (int) r.pick(std::vector<int>{1, 2, 5, 60, 400, 900});
      log += fmt(" %s*%d", fwd ? "next" : "prev", k);
      for (int i = 0; i < k && ok && row < 30; i++) ok = step(fwd, true);
      row = 0;
    }
    *requests = counter;
    // afterwards without failures
    for (int i = 0; i < 20 && ok; i++) ok = step(i < 10, false);
    if (!ok) *stop = true;
  }
  eval(1, failed ? 1 : 0);
  count(std::string("histories_") + api);
  count("history_steps", steps);
  count("history_errors", errors);
  count("history_resumed_after_error", resumed);
}

template <class It> static void histories(const char* api, Rng& r, int n, u64 cap)
{
  for (int i = 0; i < n; i++)
  {
    Ref ref;
    u64 a = r.below(2) ? 0 : r.logu(1e4, 1e11);
    ref.build(a, a + 120000);
    Rng h(r.next());
    if (r.below(2)) primesieve::set_sieve_size(8 << r.below(6));
    u64 req = 0, dummy;
    bool stop = false;
    at("%s history %d without failures", api, i);
    history<It>(api, ref, h, NONE, 0, 0, &req, &stop);
    count("requests_of_clean_histories", req);
    auto trial = [&](int m, u64 k, u64 sd)
    {
      if (stop) return;
      at("%s history %d failing %s %llu", api, i, MODE[m], (ull) k);
      history<It>(api, ref, h, m, k, sd, &dummy, &stop);
    };
    for (u64 k = 1; k <= std::min(req, cap); k++) trial(ONCE, req <= cap ? k : 1 + r.below(req), 0);
    for (u64 k = 1; k <= std::min(req, cap / 3); k++) trial(FROM, 1 + r.below(req), 0);
    for (u64 k = 0; k < cap / 3; k++) trial(SOME, r.pick(std::vector<u64>{5, 20, 100, 300}), r.next());
  }
}

int main(int argc, char** argv)
{
  install();
  Args A(argc, argv);
  Rng r(A.u("seed", 1));
  std::string what = A.get("mode", "calls");
  u64 cap = A.u("cap", 100);
  int n = (int) A.num("n", 1);
  sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (what == "calls" || what == "cold")
  {
    oom::Calls calls;
    std::string only = A.get("only");
    for (int i = 0; i < n; i++) for (auto f : oom::makers()) f(calls, r);
    // every process starts with another one, so that the first use of each table may fail
    for (size_t i = calls.size(); i > 1; i--) std::swap(calls[i - 1], calls[r.below(i)]);
    double secs = A.num("secs", 1e9), t0 = (double) time(nullptr);
    for (auto& c : calls)
    {
      if (!only.empty() && c.name.compare(0, only.size(), only)) continue;
      if ((double) time(nullptr) - t0 > secs) { count("calls_left_out"); continue; }
      if (what == "cold") cold(c, r, cap); else one_call(c, r, cap);
      count("call_" + c.name.substr(0, c.name.find(' ')));
    }
    if (!calls.empty()) sample(calls[0].name);
  }
  else
  {
    histories<CppIt>("C++", r, n, cap);
    histories<CIt>("C", r, n, cap);
  }
  return finish();
}
