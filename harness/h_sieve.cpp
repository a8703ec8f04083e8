// Monitors libprimesieve: counts, n-th primes, stored primes, iterators, printed primes.
#include "hv.hpp"
#include "window.hpp"
#include <primesieve.h>
#include <primesieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <errno.h>
#include <iostream>
#include <memory>
#include <deque>
#include <list>
#include <thread>
using namespace hv;
using namespace orc;
typedef unsigned long long ull;
static const u64 MAX = ~0ull;

// a window at an interesting place
static u64 place(Rng& r, double maxx)
{
  u64 n = r.logu(1, maxx);
  switch (r.below(7))
  {
    case 0: { u64 q = isqrt(n); while (!is_prime(q)) q++; n = q * q; break; }
    case 1: n = 1ull << r.range(1, 63); break;
    case 2: n = n / 30 * 30; break;
    case 3: { u64 q = 30ull * (1024ull << r.below(12)); n = n / q * q; break; }   // borders of sieve arrays
    case 4: { u64 q = isqrt(n); n = q * q; break; }
    case 5: { u64 t = 1; for (u64 i = r.range(1, 19); i; i--) t *= 10; n = t; break; }
    default: break;
  }
  return (double) n > maxx ? r.logu(1, maxx) : n;
}
static bool small_sizes = false;   // several segments in a short interval
static int random_size(Rng& r) { return small_sizes && r.below(3) ? 8 << r.below(3) : r.below(3) == 0 ? (int) r.range(0, 5000) : r.below(5) == 0 ? -7 : 8 << r.below(10); }

static u64 c_count(int k, u64 a, u64 b)
{
  switch (k)
  {
    case 0: return primesieve_count_primes(a, b);
    case 1: return primesieve_count_twins(a, b);
    case 2: return primesieve_count_triplets(a, b);
    case 3: return primesieve_count_quadruplets(a, b);
    case 4: return primesieve_count_quintuplets(a, b);
    default: return primesieve_count_sextuplets(a, b);
  }
}
static u64 cpp_count(int k, u64 a, u64 b)
{
  using namespace primesieve;
  switch (k)
  {
    case 0: return count_primes(a, b);
    case 1: return count_twins(a, b);
    case 2: return count_triplets(a, b);
    case 3: return count_quadruplets(a, b);
    case 4: return count_quintuplets(a, b);
    default: return count_sextuplets(a, b);
  }
}

static void check_counts(const Window& w, u64 a, u64 b, Rng& r, primesieve::ParallelSieve* reuse)
{
  int size = random_size(r), threads = (int) (r.below(4) ? r.range(1, 9) : r.below(2) ? 1 : 0);
  at("count [%llu, %llu] size %d threads %d", (ull) a, (ull) b, size, threads);
  primesieve::set_sieve_size(size);
  primesieve::set_num_threads(threads);
  u64 nt = 0;
  auto bad = [&](int k, const char* how, u64 g)
  {
    u64 e = w.count(k, a, b);
    nt += e > 0;
    if (g != e)
      violation(fmt("count:%s", NAMES[k]), fmt("%s in [%llu, %llu] (%s, sieve size %d, threads %d) = %llu, expected %llu", NAMES[k], (ull) a, (ull) b, how, size, threads, (ull) g, (ull) e));
  };
  u64 n = 0;
  switch (r.below(4))
  {
    case 0: { int k = (int) r.below(6); bad(k, "C", c_count(k, a, b)); n = 1; break; }
    case 1: { int k = (int) r.below(6); bad(k, "C++", cpp_count(k, a, b)); n = 1; break; }
    case 2:
    {
      // one object for all, possibly used before
      primesieve::ParallelSieve own;
      primesieve::ParallelSieve& ps = reuse && r.below(2) ? *reuse : own;
      int flags = 1 + (int) r.below(63);
      if (r.below(3) == 0) flags = 63;
      ps.setSieveSize(size);
      ps.setNumThreads(threads ? threads : 4);
      ps.sieve(a, b, flags);
      for (int k = 0; k < 6; k++)
        if (flags >> k & 1) { bad(k, "ParallelSieve", ps.getCount(k)); n++; }
        else if (ps.getCount(k) != 0) violation("count:unrequested", fmt("%s not requested in [%llu, %llu] but counted", NAMES[k], (ull) a, (ull) b));
      break;
    }
    default:
    {
      primesieve::PrimeSieve ps;
      ps.setSieveSize(size);
      ps.sieve(a, b, 63);
      for (int k = 0; k < 6; k++) { bad(k, "PrimeSieve", ps.getCount(k)); n++; }
      bad(0, "countPrimes", ps.countPrimes(a, b));
      break;
    }
  }
  eval(n, nt);
  hv::count("counts", n);
  if (b > MAX - 1000) hv::count("counts_up_to_2^64");
}

static void m_count(Args& A, Rng& r)
{
  int n = (int) A.num("n", 30);
  double maxx = A.num("max", 1e15);
  u64 len = (u64) A.num("len", 3e6);
  primesieve::ParallelSieve reuse;
  if (A.u("exh", 0))
  {
    Window w(0, 3000);
    u64 lim = A.u("exh", 0);
    for (u64 a = A.u("lo", 0); a <= lim; a += A.u("stride", 1)) for (u64 b = a ? a - 1 : 0; b <= lim; b++) check_counts(w, a, b, r, &reuse);
    // an empty interval
    for (int i = 0; i < 50; i++) check_counts(w, r.next() | 1ull << 60, r.below(3000), r, &reuse);
  }
  for (int it = 0; it < n; it++)
  {
    u64 c = A.u("top", 0) ? MAX : place(r, maxx);
    u64 L = A.u("full", 0) ? len : r.logu(100, (double) len);
    u64 before = A.u("top", 0) ? L : r.below(4) ? r.below(L) : std::min<u64>(L, 40);
    u64 a = c > before ? c - before : 0, b = MAX - a < L ? MAX : a + L;
    at("window [%llu, %llu]", (ull) a, (ull) b);
    Window w(a, b);
    int q = (int) A.num("q", 12);
    for (int j = 0; j < q; j++)
    {
      u64 s = r.below(3) ? a + r.below(b - a + 1) : a, e = r.below(3) ? a + r.below(b - a + 1) : b;
      // borders at members of constellations
      if (r.below(3) == 0 && !w.p.empty()) { auto& t = w.tup[1 + r.below(5)]; if (!t.empty()) { auto& x = r.pick(t); s = x.first + r.below(3) - 1; if (r.below(2)) { e = x.second + r.below(3) - 1; if (r.below(2)) s = std::max(a, s - std::min(s, r.below(200))); } } }
      if (r.below(4) == 0) { s = s / 30 * 30 + r.below(3) - 1; e = e / 30 * 30 + r.below(3) - 1; }
      s = std::min(std::max(s, a), b); e = std::min(std::max(e, a), b);
      if (j == 0) { s = a; e = b; }
      if (s > e && r.below(8)) std::swap(s, e);
      check_counts(w, s, e, r, &reuse);
    }
  }
  if (A.u("top", 0) == 0)
  {
    // additivity over adjacent intervals far from any table
    for (int i = 0; i < (int) A.num("add", 4); i++)
    {
      u64 a = r.logu(10, maxx), l1 = r.logu(1, 1e6), l2 = r.logu(1, 1e6);
      u64 x = primesieve::count_primes(a, a + l1), y = primesieve::count_primes(a + l1 + 1, a + l1 + l2), z = primesieve::count_primes(a, a + l1 + l2);
      if (x + y != z) violation("count:additive", fmt("[%llu, +%llu] %llu + %llu != %llu", (ull) a, (ull) l1, (ull) x, (ull) y, (ull) z));
      eval(1, 1);
      hv::count("additivity");
    }
  }
}

// ---------------------------------------------------------------- n-th prime
static void check_nth(i64 n, u64 start, bool exists, u64 e, Rng& r)
{
  int size = random_size(r), threads = (int) r.range(1, 8);
  primesieve::set_sieve_size(size);
  primesieve::set_num_threads(threads);
  at("nth_prime(%lld, %llu) size %d threads %d", (long long) n, (ull) start, size, threads);
  u64 g = 0;
  bool err = false;
  const char* how = "C++";
  switch (r.below(4))
  {
    case 0: how = "C"; errno = 0; g = primesieve_nth_prime(n, start); err = g == PRIMESIEVE_ERROR;
      if (err && errno != EDOM) violation("nth:errno", fmt("primesieve_nth_prime(%lld, %llu) fails without EDOM", (long long) n, (ull) start)); break;
    case 1: how = "PrimeSieve"; { primesieve::PrimeSieve ps; if (size > 0) ps.setSieveSize(size); try { g = ps.nthPrime(n, start); } catch (std::exception&) { err = true; } } break;
    default: try { g = primesieve::nth_prime(n, start); } catch (std::exception&) { err = true; }
  }
  if (err == exists || (exists && g != e))
    violation("nth", fmt("nth_prime(%lld, %llu) (%s, sieve size %d, threads %d): %s %llu, expected %s %llu", (long long) n, (ull) start, how, size, threads,
      err ? "error" : "", (ull) g, exists ? "" : "an error", (ull) e));
  eval(1, 1);
  hv::count(exists ? (n < 0 ? "nth_backwards" : n ? "nth_forwards" : "nth_zero") : "nth_impossible");
}
// a number larger than n, of any order of magnitude
static i64 beyond(u64 n, Rng& r)
{
  u64 k = (u64) 1 << (r.below(63));
  k += r.below(k);
  if (k <= n) k = n + 1 + r.below(1000);
  return (i64) (k > (u64) INT64_MAX ? INT64_MAX : k);
}
// every start and number in a small range
static void nth_exh(Args& A, Rng& r)
{
  Window w(0, 60000);
  i64 lim = (i64) A.u("exh", 0), m = (i64) A.num("m", 60);
  for (u64 s = A.u("lo", 0); s <= (u64) lim; s += A.u("stride", 1))
  {
    size_t up = w.after(s), lo = w.first(s);
    for (i64 n = -m; n <= m; n++)
    {
      if (s >= 200 && (n < -6 || n > 6) && r.below(6)) continue;
      if (n == 0) check_nth(0, s, true, w.p[lo], r);
      else if (n > 0) check_nth(n, s, true, w.p[up + n - 1], r);
      else check_nth(n, s, (size_t) -n <= lo, (size_t) -n <= lo ? w.p[lo + n] : 0, r);
    }
  }
}
static void m_nth(Args& A, Rng& r)
{
  if (A.u("exh", 0)) return nth_exh(A, r);
  int n = (int) A.num("n", 20);
  double maxx = A.num("max", 1e15);
  u64 len = (u64) A.num("len", 2e6);
  bool top = A.u("top", 0);
  for (int it = 0; it < n; it++)
  {
    u64 c = top ? MAX : it % 3 == 0 ? r.below(2) ? 0 : r.logu(1, 1e6) : place(r, maxx), L = A.u("full", 0) ? len : r.logu(2000, (double) len);
    u64 before = top ? L : r.below(L);
    u64 a = c > before ? c - before : 0, b = MAX - a < L ? MAX : a + L;
    at("window [%llu, %llu]", (ull) a, (ull) b);
    Window w(a, b);
    if (w.p.size() < 3) continue;
    for (int j = 0; top && j < 2; j++)
      check_nth((i64) r.logu(2.1e8, 9.2e18), MAX - r.logu(1, 1e9), false, 0, r);
    for (int j = 0; j < (int) A.num("q", 20); j++)
    {
      u64 s = r.below(2) ? a + r.below(b - a + 1) : r.pick(w.p) + r.below(3) - 1;
      if (a == 0 && r.below(4) == 0) s = r.below(4);
      if (b == MAX && r.below(3) == 0) s = MAX - r.below(200);
      if (s < a || s > b) s = a;
      size_t up = w.after(s), lo = w.first(s);       // primes > s from up, primes < s before lo
      size_t nu = w.p.size() - up, nl = lo;
      int kind = (int) r.below(8);
      if (kind == 0)
      {
        // the first prime >= s
        if (lo < w.p.size()) check_nth(0, s, true, w.p[lo], r);
        else if (b == MAX) check_nth(0, s, false, 0, r);
      }
      else if (kind < 4)
      {
        if (!nu) { if (b == MAX) check_nth(1 + (i64) r.below(5), s, false, 0, r); continue; }
        u64 k = r.below(2) ? r.range(1, nu) : r.logu(1, (double) nu);
        check_nth((i64) k, s, true, w.p[up + k - 1], r);
        if (b == MAX && r.below(2)) check_nth((i64) (nu + 1 + r.below(100)), s, false, 0, r);
        if (b == MAX && r.below(4) == 0) check_nth(INT64_MAX - (i64) r.below(3), s, false, 0, r);
        if (b == MAX) check_nth(beyond(nu, r), s, false, 0, r);
      }
      else if (kind < 7)
      {
        if (!nl) { if (a == 0) check_nth(-1 - (i64) r.below(5), s, false, 0, r); continue; }
        u64 k = r.below(2) ? r.range(1, nl) : r.logu(1, (double) nl);
        check_nth(-(i64) k, s, true, w.p[lo - k], r);
        if (a == 0 && r.below(2)) check_nth(-(i64) (nl + 1 + r.below(100)), s, false, 0, r);
        if (a == 0 && r.below(4) == 0) check_nth(INT64_MIN + (i64) r.below(3), s, false, 0, r);
        if (a == 0) check_nth(-beyond(nl, r), s, false, 0, r);
      }
      else if (nu && nl)
      {
        // borders of the window
        check_nth((i64) nu, s, true, w.p.back(), r);
        check_nth(-(i64) nl, s, true, w.p[0], r);
      }
    }
  }
  if (A.u("known", 0))
  {
    static const u64 kn[][2] = {{1000000, 15485863}, {10000000, 179424673}, {100000000, 2038074743}, {1000000000, 22801763489ull}};
    for (u64 i = 0; i < A.u("known", 0); i++)
    {
      check_nth((i64) kn[i][0], 0, true, kn[i][1], r);
      check_nth(-(i64) kn[i][0], kn[i][1] + 1, true, 2, r);
      check_nth(-(i64) kn[i][0], kn[i][1], false, 0, r);
    }
  }
}

// ---------------------------------------------------------------- stored primes
template <typename T, typename C> static void check_vec(const Window& w, u64 a, u64 b, Rng& r, const char* name)
{
  C v;
  size_t had = 0;
  if (r.below(4) == 0) { v.push_back((T) 1); v.push_back((T) 4); had = 2; }
  size_t i0 = w.first(a), i1 = w.after(b);
  if (i1 < i0) i1 = i0;
  if (a > b) i1 = i0;
  u64 most = i1 > i0 ? w.p[i1 - 1] : 0;
  int dg = std::numeric_limits<T>::digits;
  bool fits = dg >= 64 || most <= (1ull << dg) - 1;
  bool err = false;
  at("generate_primes<%s>(%llu, %llu)", name, (ull) a, (ull) b);
  try { if (a == 0 && r.below(2)) primesieve::generate_primes(b, &v); else primesieve::generate_primes(a, b, &v); } catch (std::exception&) { err = true; }
  bool ok = err == !fits;
  if (ok && !err)
  {
    ok = v.size() == had + (i1 - i0) && (!had || (v[0] == (T) 1 && v[1] == (T) 4));
    for (size_t i = i0; ok && i < i1; i++) ok = v[had + i - i0] == (T) w.p[i];
  }
  if (!ok) violation(fmt("store:%s", name), fmt("generate_primes(%llu, %llu) into %s: %s, %zu elements, expected %s %zu", (ull) a, (ull) b, name, err ? "error" : "no error",
    v.size() - had, fits ? "" : "an error,", i1 - i0));
  eval(1, i1 > i0);
  hv::count(fits ? "stored_arrays" : "refused_arrays");
}
template <typename T, typename C> static void check_n(const Window& w, u64 n, u64 a, Rng& r, const char* name)
{
  C v;
  size_t had = 0;
  if (r.below(4) == 0) { v.push_back((T) 1); had = 1; }
  size_t i0 = w.first(a);
  if (i0 + n > w.p.size() && w.b != MAX) n = w.p.size() - i0;
  int dg = std::numeric_limits<T>::digits;
  bool fits = n == 0 || (i0 + n <= w.p.size() && (dg >= 64 || w.p[i0 + n - 1] <= (1ull << dg) - 1));
  bool err = false;
  at("generate_n_primes<%s>(%llu, %llu)", name, (ull) n, (ull) a);
  try { if (a == 0 && r.below(2)) primesieve::generate_n_primes(n, &v); else primesieve::generate_n_primes(n, a, &v); } catch (std::exception&) { err = true; }
  bool ok = err == !fits;
  if (ok && !err)
  {
    ok = v.size() == had + n;
    for (size_t i = 0; ok && i < n; i++) ok = v[had + i] == (T) w.p[i0 + i];
  }
  if (!ok) violation(fmt("store_n:%s", name), fmt("generate_n_primes(%llu, %llu) into %s: %s, %zu elements, expected %s", (ull) n, (ull) a, name, err ? "error" : "no error",
    v.size() - had, fits ? "the primes" : "an error"));
  eval(1, n > 0);
  hv::count(fits ? "stored_n_arrays" : "refused_n_arrays");
}
template <typename T> static void check_c(const Window& w, u64 a, u64 b, u64 n, bool byn, int type, const char* name, Rng& r)
{
  size_t i0 = w.first(a), i1;
  bool exists = true;
  if (byn)
  {
    if (i0 + n > w.p.size()) { if (w.b == MAX) exists = false; else n = w.p.size() - i0; }
    i1 = std::min(i0 + n, w.p.size());
  }
  else { i1 = a > b ? i0 : w.after(b); if (i1 < i0) i1 = i0; }
  u64 most = i1 > i0 ? w.p[i1 - 1] : 0;
  int dg = std::numeric_limits<T>::digits;
  bool fits = exists && (dg >= 64 || most <= (1ull << dg) - 1);
  at("primesieve_generate_%sprimes(%llu, %llu) type %s", byn ? "n_" : "", (ull) (byn ? n : a), (ull) (byn ? a : b), name);
  size_t size = 12345;
  errno = 0;
  T* p = (T*) (byn ? primesieve_generate_n_primes(n, a, type) : primesieve_generate_primes(a, b, r.below(8) ? &size : nullptr, type));
  int er = errno;
  if (byn || size == 12345) size = i1 - i0;
  bool ok;
  if (!fits) ok = p == nullptr && er == EDOM && (byn || size == 0 || size == i1 - i0);
  else
  {
    ok = size == i1 - i0 && (p != nullptr || i1 == i0) && !(p == nullptr && er == EDOM);
    for (size_t i = i0; ok && i < i1; i++) ok = p[i - i0] == (T) w.p[i];
  }
  if (!ok) violation(fmt("store_c:%s", name), fmt("primesieve_generate_%sprimes(%llu, %llu) type %s: pointer %s, errno %d, size %zu, expected %s %zu", byn ? "n_" : "", (ull) (byn ? n : a),
    (ull) (byn ? a : b), name, p ? "set" : "null", er, size, fits ? "" : "an error,", i1 - i0));
  primesieve_free(p);
  eval(1, i1 > i0);
  hv::count(fits ? "stored_c_arrays" : "refused_c_arrays");
}
static void c_type(const Window& w, u64 a, u64 b, u64 n, bool byn, Rng& r)
{
  int t = (int) r.below(14);
#define CT(T, ID) case ID: check_c<T>(w, a, b, n, byn, ID, #ID, r); break;
  switch (t)
  {
    CT(short, SHORT_PRIMES) CT(unsigned short, USHORT_PRIMES) CT(int, INT_PRIMES) CT(unsigned int, UINT_PRIMES) CT(long, LONG_PRIMES)
    CT(unsigned long, ULONG_PRIMES) CT(long long, LONGLONG_PRIMES) CT(unsigned long long, ULONGLONG_PRIMES) CT(int16_t, INT16_PRIMES)
    CT(uint16_t, UINT16_PRIMES) CT(int32_t, INT32_PRIMES) CT(uint32_t, UINT32_PRIMES) CT(int64_t, INT64_PRIMES) CT(uint64_t, UINT64_PRIMES)
  }
  if (r.below(200) == 0)
  {
    size_t size = 5;
    errno = 0;
    int bt = r.below(2) ? -1 : 14 + (int) r.below(5);
    void* p = byn ? primesieve_generate_n_primes(5, 0, bt) : primesieve_generate_primes(0, 100, &size, bt);
    if (p || errno != EDOM || (!byn && size)) violation("store_c:badtype", fmt("type %d is accepted", bt));
  }
}
static void store_one(int t, const Window& w, u64 s, u64 e, u64 k, Rng& r)
{
  switch (t)
  {
    case 0: check_vec<int16_t, std::vector<int16_t>>(w, s, e, r, "vector<int16_t>"); break;
    case 1: check_vec<uint16_t, std::vector<uint16_t>>(w, s, e, r, "vector<uint16_t>"); break;
    case 2: check_vec<int32_t, std::vector<int32_t>>(w, s, e, r, "vector<int32_t>"); break;
    case 3: check_vec<uint32_t, std::vector<uint32_t>>(w, s, e, r, "vector<uint32_t>"); break;
    case 4: check_vec<int64_t, std::vector<int64_t>>(w, s, e, r, "vector<int64_t>"); break;
    case 5: check_vec<uint64_t, std::vector<uint64_t>>(w, s, e, r, "vector<uint64_t>"); break;
    case 6: check_vec<double, std::vector<double>>(w, s, e, r, "vector<double>"); break;
    case 7: check_vec<float, std::vector<float>>(w, s, e, r, "vector<float>"); break;
    case 8: check_vec<int8_t, std::vector<int8_t>>(w, s, e, r, "vector<int8_t>"); break;
    case 9: check_n<uint64_t, std::vector<uint64_t>>(w, k, s, r, "vector<uint64_t>"); break;
    case 10: check_n<int32_t, std::vector<int32_t>>(w, k, s, r, "vector<int32_t>"); break;
    case 11: check_n<uint16_t, std::vector<uint16_t>>(w, k, s, r, "vector<uint16_t>"); break;
    case 12: check_n<int64_t, std::vector<int64_t>>(w, k, s, r, "vector<int64_t>"); break;
    case 13: c_type(w, s, e, k, false, r); break;
    default: c_type(w, s, e, k, true, r); break;
  }
}
// every interval in a small range and every number of primes from a small start, into any type
static void store_exh(Args& A, Rng& r)
{
  Window w(0, 60000);
  u64 lim = A.u("exh", 0);
  static const u64 ns[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 54, 64, 127, 128, 129, 167, 168, 169, 200, 257};
  for (u64 s = A.u("lo", 0); s <= lim; s += A.u("stride", 1))
  {
    primesieve::set_sieve_size(random_size(r));
    for (u64 e = s ? s - 1 : 0; e <= lim; e += s < 40 || e < s + 40 ? 1 : r.range(1, 9))
    {
      int t = (int) r.below(13);
      store_one(t < 9 ? t : 13, w, s, e, 0, r);
    }
    for (u64 n : ns)
    {
      static const int ts[] = {9, 10, 11, 12, 14};
      store_one(ts[r.below(5)], w, s, 0, n, r);
    }
  }
}
static void m_store(Args& A, Rng& r)
{
  if (A.u("exh", 0)) return store_exh(A, r);
  int n = (int) A.num("n", 30);
  double maxx = A.num("max", 1e15);
  u64 len = (u64) A.num("len", 300000);
  bool top = A.u("top", 0);
  for (int it = 0; it < n; it++)
  {
    // windows around the limits of the types too
    static const u64 lims[] = {127, 255, 32767, 65535, 2147483647ull, 4294967295ull, 1ull << 24, 1ull << 53};
    u64 c = top ? MAX : it % 3 == 0 ? lims[r.below(it % 4 ? 7 : 8)] : it % 3 == 1 ? r.logu(1, 3e5) : place(r, maxx);
    u64 L = A.u("full", 0) ? len : r.logu(50, (double) len), before = top ? L : r.below(L);
    u64 a = c > before ? c - before : 0, b = MAX - a < L ? MAX : a + L;
    Window w(a, b);
    for (int j = 0; j < (int) A.num("q", 24); j++)
    {
      primesieve::set_sieve_size(random_size(r));
      u64 s = r.below(3) ? a + r.below(b - a + 1) : a, e = r.below(3) ? a + r.below(b - a + 1) : b;
      if (!w.p.empty() && r.below(2)) { s = r.pick(w.p) + r.below(3) - 1; e = r.pick(w.p) + r.below(3) - 1; }
      if (!top && r.below(4) == 0) e = std::min(b, std::max(s, c + r.below(3) - 1));
      if (b == MAX && r.below(3) == 0) e = MAX - r.below(3);
      s = std::min(std::max(s, a), b); e = std::min(std::max(e, a), b);
      if (s > e && r.below(10)) std::swap(s, e);
      u64 k = r.below(3) ? r.below(300) : r.logu(1, 20000);
      if (b != MAX && w.first(s) + k > w.p.size()) k = w.p.size() - w.first(s);
      store_one((int) r.below(15), w, s, e, k, r);
      if (j % 2) c_type(w, s, e, k, r.below(2), r);
    }
  }
  // null pointers are ignored
  primesieve::generate_primes(100, (std::vector<int>*) nullptr);
  primesieve::generate_n_primes(100, 5, (std::vector<int>*) nullptr);
  primesieve_free(nullptr);
}

// ---------------------------------------------------------------- iterators
// The model: a cursor pos; next = the smallest prime > pos (2^64-1 if there is none),
// prev = the largest prime < pos (0 if there is none).
struct Cursor
{
  std::unique_ptr<Window> w;
  u64 width;
  const Window& at(u64 x, bool up)
  {
    if (!w || x < w->a || x > w->b)
    {
      u64 a = up ? (x > 2000 ? x - 2000 : 0) : (x > width ? x - width : 0);
      u64 b = up ? (MAX - x > width ? x + width : MAX) : (MAX - x > 2000 ? x + 2000 : MAX);
      w.reset(new Window(a, b));
    }
    return *w;
  }
  u64 next(u64 x)
  {
    while (true)
    {
      const Window& v = at(x, true);
      size_t i = v.after(x);
      if (i < v.p.size()) return v.p[i];
      if (v.b == MAX) return MAX;
      x = v.b + 1;   // no prime in (x, v.b]
      if (is_prime(x)) return x;
    }
  }
  u64 prev(u64 x)
  {
    while (true)
    {
      const Window& v = at(x, false);
      size_t i = v.first(x);
      if (i > 0) return v.p[i - 1];
      if (v.a <= 2) return 0;
      x = v.a - 1;
      if (is_prime(x)) return x;
    }
  }
};
struct AnyIter
{
  virtual ~AnyIter() {}
  virtual u64 next() = 0;
  virtual u64 prev() = 0;
  virtual void skipto(u64 s, int mode, u64 hint) = 0;
  bool broken = false;
  virtual u64 other(Rng&, u64 pos) { return pos; }
  virtual bool error() { return false; }
};
struct CppIter : AnyIter
{
  std::unique_ptr<primesieve::iterator> it;
  CppIter(u64 s, int mode, u64 hint) { it.reset(mode == 0 ? (s == 0 ? new primesieve::iterator() : new primesieve::iterator(s)) : new primesieve::iterator(s, hint)); }
  u64 next() { return it->next_prime(); }
  u64 prev() { return it->prev_prime(); }
  void skipto(u64 s, int mode, u64 hint) { if (mode == 0) it->skipto(s); else it->skipto(s, hint); }
  u64 other(Rng& r, u64 pos)
  {
    switch (r.below(3))
    {
      case 0: { auto n = new primesieve::iterator(std::move(*it)); it.reset(n); break; }                      // the moved-from one is destroyed
      case 1: { primesieve::iterator o(r.below(1000)); for (u64 k = r.below(5); k; k--) o.next_prime(); o = std::move(*it); it->skipto(5); if (it->next_prime() != 7) broken = true; *it = std::move(o); break; }
      default: { primesieve::iterator o; o = std::move(*it); std::swap(o, *it); break; }
    }
    hv::count("iterator_moves");
    return pos;
  }
};
struct CIter : AnyIter
{
  primesieve_iterator it;
  CIter(u64 s, int mode, u64 hint) { primesieve_init(&it); if (s || mode) skipto(s, mode, hint); }
  ~CIter() { primesieve_free_iterator(&it); }
  u64 next() { return primesieve_next_prime(&it); }
  u64 prev() { return primesieve_prev_prime(&it); }
  void skipto(u64 s, int mode, u64 hint) { primesieve_skipto(&it, s, mode == 0 ? primesieve_get_max_stop() : hint); }
  u64 other(Rng& r, u64)
  {
    hv::count("iterator_frees");
    primesieve_free_iterator(&it);
    if (r.below(3) == 0) primesieve_free_iterator(&it);
    if (r.below(2)) { primesieve_init(&it); return 0; }
    u64 s = r.below(5000);
    primesieve_skipto(&it, s, primesieve_get_max_stop());
    return s;
  }
  bool error() { return it.is_error != 0; }
};
// Every start in a range (and around distinguished numbers): both interfaces, short histories in both
// directions, without a hint and with hints on both sides of the start.
static void iter_exh(Args& A, Rng& r)
{
  u64 lo = A.u("lo", 0), hi = A.u("exh", 0), stride = A.u("stride", 1);
  std::vector<u64> pos;
  for (u64 s = lo; s < hi; s += stride) pos.push_back(s);
  u64 small = pos.size();
  for (int i = 0; i < (int) A.num("around", 0); i++)
  {
    u64 c;
    switch (r.below(4))
    {
      case 0: c = (u64) 1 << r.range(8, 44); break;
      case 1: { u64 q = r.logu(20, 2e6); c = q * q; break; }
      case 2: { c = 10; for (u64 j = r.below(12); j; j--) c *= 10; break; }
      default: c = 30 * r.logu(20, 1e9);
    }
    for (int j = -3; j <= 3; j++) pos.push_back(c + j);
  }
  Cursor m;
  m.width = 4000;
  u64 total = 0, hist = 0;
  static const int pat[5][4] = { {1, 1, 1, 1}, {-1, -1, -1, -1}, {1, -1, -1, 1}, {-1, 1, 1, -1}, {-1, -1, 1, 1} };
  for (u64 k = 0; k < pos.size(); k++)
    for (int v = 0; v < (k < small ? 20 : 4); v++)
    {
      u64 s = pos[k], h = 0;
      int p = k < small ? v % 5 : (int) r.below(5), how = k < small ? v / 5 : v;
      if (how == 1) h = s + r.below(4);
      if (how == 2) h = s - std::min<u64>(s, r.below(2) ? r.below(4) : r.below(1000));
      if (how == 3) h = s + r.below(2000);
      std::unique_ptr<AnyIter> x;
      bool skip = r.below(3) == 0, c = (k + v / 5 + v) & 1;
      u64 start = skip ? r.below(2) ? 0 : r.below(3000) : s;
      if (c) x.reset(new CIter(start, how > 0, skip ? start + r.below(500) : h)); else x.reset(new CppIter(start, how > 0, skip ? start + r.below(500) : h));
      if (skip)
      {
        if (r.below(2)) { if (r.below(2)) x->next(); else x->prev(); }
        x->skipto(s, how > 0, h);
      }
      u64 at_ = s;
      hist++;
      for (int o = 0; o < 4; o++)
      {
        u64 e = pat[p][o] > 0 ? m.next(at_) : m.prev(at_), g;
        bool err = false;
        try { g = pat[p][o] > 0 ? x->next() : x->prev(); } catch (std::exception&) { g = 0; err = true; }
        total++;
        if (err || g != e || x->error())
        {
          violation("iterator", fmt("%s%s at %llu, stop hint %s%llu, directions %d %d %d %d: call %d gives %llu%s, the cursor model gives %llu", c ? "C iterator" : "iterator", skip ? " after skipto" : "",
                                    (ull) s, how ? "" : "none ", (ull) h, pat[p][0], pat[p][1], pat[p][2], pat[p][3], o + 1, (ull) g, err ? " (exception)" : "", (ull) e));
          break;
        }
        at_ = e;
      }
    }
  eval(total, hist);
  hv::count("iterator_calls", total);
  hv::count("histories", hist);
  hv::count("starts_enumerated", pos.size());
}
static void m_iter(Args& A, Rng& r)
{
  if (A.u("exh", 0)) return iter_exh(A, r);
  int n = (int) A.num("n", 40);
  double maxx = A.num("max", 1e14);
  int ops = (int) A.num("ops", 60);
  u64 runlen = (u64) A.num("run", 3000);
  bool top = A.u("top", 0);
  bool low = A.u("low", 0);
  u64 total = 0, hist = 0, beyond = 0, below = 0;
  for (int it = 0; it < n; it++)
  {
    Cursor m;
    m.width = (u64) A.num("width", 60000);
    auto where = [&]() -> u64
    {
      if (top) return r.below(3) ? MAX - r.below(3000) : MAX - r.logu(1, 1e6);
      if (low) return r.below(3) ? r.below(4) : r.below(20000);
      switch (r.below(6)) { case 0: return r.below(30); case 1: return r.logu(1, 1e5); case 2: { u64 q = place(r, maxx) + 1; return is_prime(q) ? q : q + r.below(3) - 1; } default: return place(r, maxx); }
    };
    auto hint = [&](u64 s) -> u64
    {
      switch (r.below(8)) { case 0: return 0; case 1: return s; case 2: return s - std::min<u64>(s, r.logu(1, 1e5)); case 3: return MAX; case 4: return r.below(4) ? r.next() >> r.range(8, 60) : r.next(); case 5: return r.below(6) ? s + std::min<u64>(MAX - s, r.below(3)) : MAX - 1;
        default: { u64 d = r.logu(1, 1e6); return MAX - s < d ? MAX : s + d; } }
    };
    u64 pos = where();
    if (A.u("up", 0)) pos = MAX - r.below(1500);   // and first of all beyond the end
    std::string h;
    int mode = (int) r.below(2);
    u64 hi = hint(pos);
    std::unique_ptr<AnyIter> x;
    if (r.below(2)) { x.reset(new CppIter(pos, mode, hi)); h = fmt("iterator(%llu", (ull) pos); } else { x.reset(new CIter(pos, mode, hi)); h = fmt("C iterator(%llu", (ull) pos); }
    h += mode ? fmt(", hint %llu)", (ull) hi) : ")";
    int lastdir = 0, turns = 0;
    for (int o = 0; o < ops; o++)
    {
      int k = (int) r.below(10);
      if (k < 8)
      {
        int dir = k < 4 ? 1 : -1;
        u64 cnt = r.below(4) == 0 ? r.logu(1, (double) runlen) : r.below(3) ? r.range(1, 4) : r.range(250, 262);
        if (top && dir > 0) cnt = r.below(2) ? 100 : std::min<u64>(cnt, 300);
        if (o == 0 && A.u("up", 0)) { dir = 1; cnt = 300; }
        if (h.size() < 3000) h += fmt(" %s*%llu", dir > 0 ? "next" : "prev", (ull) cnt);
        at("%s", h.c_str());
        if (dir != lastdir) turns++;
        lastdir = dir;
        for (u64 i = 0; i < cnt; i++)
        {
          u64 e = dir > 0 ? m.next(pos) : m.prev(pos), g;
          bool err = false;
          try { g = dir > 0 ? x->next() : x->prev(); } catch (std::exception& ex) { g = 0; err = true; }
          total++;
          beyond += e == MAX;
          below += e == 0;
          if (err || g != e || x->error())
          {
            violation("iterator", fmt("%s: call number %llu of the last run gives %llu%s, the cursor model gives %llu", h.c_str(), (ull) i + 1, (ull) g, err ? " (exception)" : x->error() ? " (error)" : "", (ull) e));
            goto next_history;
          }
          pos = e;
          if (e == MAX && r.below(2)) break;
          if (e == 0 && r.below(3)) break;
        }
      }
      else if (k == 8)
      {
        pos = where();
        if (r.below(3) == 0 && m.w && !m.w->p.empty() && (top || m.w->p[0] < (u64) 2e18)) pos = r.pick(m.w->p) + r.below(3) - 1;
        int md = (int) r.below(2);
        u64 hh = hint(pos);
        if (h.size() < 3000) h += md ? fmt(" skipto(%llu, %llu)", (ull) pos, (ull) hh) : fmt(" skipto(%llu)", (ull) pos);
        at("%s", h.c_str());
        x->skipto(pos, md, hh);
        lastdir = 0;
      }
      else if (!top || r.below(4) == 0)
      {
        if (h.size() < 3000) h += " other";
        u64 q = x->other(r, pos);
        if (x->broken) { violation("iterator:moved", "a moved-from iterator does not work after skipto"); break; }
        pos = q;
      }
    }
    next_history:
    hist++;
    eval(0, turns > 1);
  }
  eval(total, 0);
  hv::count("iterator_calls", total);
  hv::count("histories", hist);
  hv::count("calls_beyond_2^64", beyond);
  hv::count("calls_below_2", below);
}

// ---------------------------------------------------------------- printed primes
static std::string capture(const std::function<void()>& f)
{
  fflush(stdout);
  std::cout.flush();
  FILE* t = tmpfile();
  int save = dup(1);
  dup2(fileno(t), 1);
  f();
  std::cout.flush();
  fflush(stdout);
  dup2(save, 1);
  close(save);
  std::string s;
  rewind(t);
  char b[65536];
  size_t k;
  while ((k = fread(b, 1, sizeof b, t)) > 0) s.append(b, k);
  fclose(t);
  return s;
}
static void print_one(int k, u64 a, u64 b, bool c)
{
  using namespace primesieve;
  if (c) switch (k)
  {
    case 0: primesieve_print_primes(a, b); return;
    case 1: primesieve_print_twins(a, b); return;
    case 2: primesieve_print_triplets(a, b); return;
    case 3: primesieve_print_quadruplets(a, b); return;
    case 4: primesieve_print_quintuplets(a, b); return;
    default: primesieve_print_sextuplets(a, b); return;
  }
  switch (k)
  {
    case 0: print_primes(a, b); return;
    case 1: print_twins(a, b); return;
    case 2: print_triplets(a, b); return;
    case 3: print_quadruplets(a, b); return;
    case 4: print_quintuplets(a, b); return;
    default: print_sextuplets(a, b); return;
  }
}
static void check_print(const Window& w, int k, u64 s, u64 e, int size, bool cc)
{
  std::string g = capture([&] { print_one(k, s, e, cc); }), x = w.text(k, s, e);
  if (g != x)
  {
    size_t i = 0;
    while (i < g.size() && i < x.size() && g[i] == x[i]) i++;
    while (i && g[i - 1] != '\n') i--;
    violation(fmt("print:%s", NAMES[k]), fmt("print %s in [%llu, %llu], sieve size %d: at offset %zu of %zu: '%s', expected '%s' (%zu bytes)", NAMES[k], (ull) s, (ull) e, size, i,
      g.size(), g.substr(i, 60).c_str(), x.substr(i, 60).c_str(), x.size()));
  }
  eval(1, !x.empty());
  hv::count("printed_lists");
  hv::count("printed_lines", (u64) std::count(g.begin(), g.end(), '\n'));
}
// every small interval
static void print_exh(Args& A, Rng& r)
{
  Window w(0, 3000);
  u64 lim = A.u("exh", 0);
  for (u64 s = A.u("lo", 0); s <= lim; s += A.u("stride", 1))
    for (u64 e = s ? s - 1 : 0; e <= lim; e++)
      for (int k = 0; k < 6; k++)
      {
        int size = random_size(r);
        primesieve::set_sieve_size(size);
        at("print %s [%llu, %llu] size %d", NAMES[k], (ull) s, (ull) e, size);
        check_print(w, k, s, e, size, r.below(2));
      }
}
static void m_print(Args& A, Rng& r)
{
  if (A.u("exh", 0)) return print_exh(A, r);
  int n = (int) A.num("n", 40);
  double maxx = A.num("max", 1e14);
  u64 len = (u64) A.num("len", 1e6);
  bool top = A.u("top", 0);
  for (int it = 0; it < n; it++)
  {
    u64 c = top ? MAX : it % 4 == 0 ? r.below(100) : place(r, maxx), L = A.u("full", 0) ? len : r.logu(20, (double) len), before = top ? L : r.below(3) ? r.below(L) : 20;
    u64 a = c > before ? c - before : 0, b = MAX - a < L ? MAX : a + L;
    at("window [%llu, %llu]", (ull) a, (ull) b);
    Window w(a, b);
    for (int j = 0; j < (int) A.num("q", 10); j++)
    {
      u64 s = r.below(3) ? a + r.below(b - a + 1) : a, e = r.below(3) ? a + r.below(b - a + 1) : b;
      int k = (int) r.below(6);
      if (r.below(3) == 0 && k && !w.tup[k].empty()) { auto& t = r.pick(w.tup[k]); if (r.below(2)) s = t.first + r.below(3) - 1; else e = t.second + r.below(3) - 1; }
      s = std::min(std::max(s, a), b); e = std::min(std::max(e, a), b);
      if (s > e && r.below(10)) std::swap(s, e);
      int size = random_size(r);
      primesieve::set_sieve_size(size);
      bool cc = r.below(2);
      at("print %s [%llu, %llu] size %d", NAMES[k], (ull) s, (ull) e, size);
      check_print(w, k, s, e, size, cc);
    }
  }
}

int main(int argc, char** argv)
{
  install();
  Args A(argc, argv);
  small_sizes = A.u("top", 0);
  Rng r(A.u("seed", 1));
  for (auto& m : A.list("mode", ""))
  {
    if (m == "count") m_count(A, r);
    else if (m == "nth") m_nth(A, r);
    else if (m == "store") m_store(A, r);
    else if (m == "iter") m_iter(A, r);
    else if (m == "print") m_print(A, r);
  }
  return finish();
}
