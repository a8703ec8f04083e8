// libprimesieve: counting, n-th primes, arrays
#include "oom.hpp"
#include <primesieve.h>
#include <primesieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <errno.h>
#include <iostream>
using namespace oom;
// takes what is printed to std::cout
struct Catch : std::streambuf
{
  std::streambuf* old;
  uint64_t n = 0, h = 14695981039346656037ull;
  Catch() { old = std::cout.rdbuf(this); }
  ~Catch() { std::cout.rdbuf(old); }
  int overflow(int c) override { n++; h = (h ^ (uint64_t) c) * 1099511628211ull; return c; }
  std::string text() { Off off; return "characters=" + std::to_string(n) + " hash=" + std::to_string(h); }
};
typedef uint64_t u64;

static std::string n2s(u64 v) { Off off; return std::to_string(v); }
// result of a C function
static std::string cres(u64 v)
{
  if (v != PRIMESIEVE_ERROR) return n2s(v);
  if (errno != EDOM) throw BadError{"PRIMESIEVE_ERROR with errno " + std::to_string(errno)};
  throw CError();
}
template <class T> static std::string carray(void* p, size_t n, int type_size)
{
  Off off;
  (void) type_size;
  std::vector<u64> v((T*) p, (T*) p + n);
  primesieve_free(p);
  return text(v);
}

static void make(Calls& v, orc::Rng& r)
{
  auto add = [&](const std::string& what, std::function<std::string()> f, double w = 1)
  {
    int size = 8 << r.below(6), th = (int) r.pick(std::vector<int>{1, 1, 2, 4, 8});
    v.push_back({what + hv::fmt(" sieve_size=%d threads=%d", size, th), [=] { { Off o; primesieve::set_sieve_size(size); primesieve::set_num_threads(th); } errno = 0; return f(); }, w});
  };
  for (int i = 0; i < 3; i++)
  {
    u64 a = r.below(4) ? r.logu(1, 1e7) : r.logu(1, 1e13);
    if (r.below(4) == 0) a = 0;
    u64 b = a + r.logu(1, r.below(4) ? 1e5 : 2.5e7);
    std::string I = hv::fmt(" [%llu, %llu]", (unsigned long long) a, (unsigned long long) b);
    add("count_primes" + I, [=] { return n2s(primesieve::count_primes(a, b)); });
    add("count_twins" + I, [=] { return n2s(primesieve::count_twins(a, b)); });
    add("count_sextuplets" + I, [=] { return n2s(primesieve::count_sextuplets(a, b)); });
    add("c_count_primes" + I, [=] { return cres(primesieve_count_primes(a, b)); });
    add("c_count_twins" + I, [=] { return cres(primesieve_count_twins(a, b)); });
    add("c_count_triplets" + I, [=] { return cres(primesieve_count_triplets(a, b)); });
    add("c_count_quadruplets" + I, [=] { return cres(primesieve_count_quadruplets(a, b)); });
    add("c_count_quintuplets" + I, [=] { return cres(primesieve_count_quintuplets(a, b)); });
    add("c_count_sextuplets" + I, [=] { return cres(primesieve_count_sextuplets(a, b)); });
    {
      int p = (int) r.below(6);
      static void (*const cpp[])(uint64_t, uint64_t) = {primesieve::print_primes, primesieve::print_twins, primesieve::print_triplets, primesieve::print_quadruplets, primesieve::print_quintuplets, primesieve::print_sextuplets};
      static void (*const cc[])(uint64_t, uint64_t) = {primesieve_print_primes, primesieve_print_twins, primesieve_print_triplets, primesieve_print_quadruplets, primesieve_print_quintuplets, primesieve_print_sextuplets};
      u64 e = a + r.logu(1, 2e5);
      std::string P = hv::fmt(" kind %d [%llu, %llu]", p, (unsigned long long) a, (unsigned long long) e);
      add("print" + P, [=] { Catch k; cpp[p](a, e); if (!std::cout) throw BadError{"std::cout failed"}; return k.text(); });
      add("c_print" + P, [=] { Catch k; cc[p](a, e); if (errno == EDOM) throw CError(); if (!std::cout) throw BadError{"std::cout failed"}; return k.text(); });
    }
    // really parallel
    u64 c = r.logu(1, 1e9);
    add(hv::fmt("parallel count [%llu, +3e7]", (unsigned long long) c), [=] {
      primesieve::ParallelSieve ps;
      ps.setSieveSize(64);
      ps.setNumThreads(3);
      ps.sieve(c, c + 30000000, primesieve::COUNT_PRIMES | primesieve::COUNT_TWINS);
      Off off;
      return std::to_string(ps.getCount(0)) + " " + std::to_string(ps.getCount(1));
    }, 0.3);
    add(hv::fmt("c_parallel count [%llu, +3e7]", (unsigned long long) c), [=] { primesieve::set_num_threads(4); return cres(primesieve_count_primes(c, c + 30000000)); }, 0.3);
    int64_t n = (int64_t) r.logu(1, 30000) * (r.below(3) ? 1 : -1);
    u64 s = r.logu(1, 1e9) + 500000;
    std::string N = hv::fmt(" n=%lld start=%llu", (long long) n, (unsigned long long) s);
    add("nth_prime" + N, [=] { return n2s(primesieve::nth_prime(n, s)); });
    add("c_nth_prime" + N, [=] { return cres(primesieve_nth_prime(n, s)); });
    b = a + r.logu(1, 1e5);
    add("generate_primes<u64>" + I, [=] { std::vector<u64> p; primesieve::generate_primes(a, b, &p); Off off; return text(p); });
    u64 k = r.logu(1, 20000);
    std::string K = hv::fmt(" n=%llu start=%llu", (unsigned long long) k, (unsigned long long) s);
    add("generate_n_primes<u64>" + K, [=] { std::vector<u64> p; primesieve::generate_n_primes(k, s, &p); Off off; return text(p); });
    // appended to what is there already
    add("generate_primes<u64> appended" + I, [=] {
      std::vector<u64> p;
      { Off off; p = {1, 2, 3, 4, 5}; }
      try { primesieve::generate_primes(a, b, &p); }
      catch (std::bad_alloc&)
      {
        Off off;
        for (size_t j = 0; j < 5; j++) if (p.size() < 5 || p[j] != j + 1) throw BadError{"the primes stored before were lost"};
        throw;
      }
      Off off; return text(p);
    });
    u64 hi = std::min<u64>(b, 4000000000ull), lo = std::min(a, hi);
    add("generate_primes<int32>" + I, [=] { std::vector<uint32_t> p; primesieve::generate_primes(lo, hi, &p); Off off; return text(p); });
    add("c_generate_primes u64" + I, [=] {
      size_t m = 77;
      void* p = primesieve_generate_primes(a, b, &m, UINT64_PRIMES);
      if (!p && errno) { if (errno != EDOM) throw BadError{"no EDOM"}; if (m) throw BadError{"nullptr with size != 0"}; throw CError(); }
      return carray<u64>(p, m, 8);
    }, 2);
    add("c_generate_primes u32" + I, [=] {
      size_t m = 77;
      void* p = primesieve_generate_primes(lo, hi, &m, UINT_PRIMES);
      if (!p && errno) { if (errno != EDOM) throw BadError{"no EDOM"}; if (m) throw BadError{"nullptr with size != 0"}; throw CError(); }
      return carray<uint32_t>(p, m, 4);
    });
    add("c_generate_primes without size" + I, [=] {
      void* p = primesieve_generate_primes(0, 1000, nullptr, SHORT_PRIMES);
      if (!p) { if (errno != EDOM) throw BadError{"no EDOM"}; throw CError(); }
      return carray<short>(p, 168, 2);
    });
    add("c_generate_n_primes u64" + K, [=] {
      void* p = primesieve_generate_n_primes(k, s, UINT64_PRIMES);
      if (!p) { if (errno != EDOM) throw BadError{"no EDOM"}; throw CError(); }
      return carray<u64>(p, k, 8);
    });
    add("c_generate_n_primes u32" + K, [=] {
      void* p = primesieve_generate_n_primes(k, s, UINT32_PRIMES);
      if (!p) { if (errno != EDOM) throw BadError{"no EDOM"}; throw CError(); }
      return carray<uint32_t>(p, k, 4);
    });
  }
}
static Maker m(make);
