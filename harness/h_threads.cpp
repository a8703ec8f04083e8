// Independent library objects and calls used by several threads at the same time, from the
// very first library call of the process on.  ThreadSanitizer is the observer.
#include "hv.hpp"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <primesieve.h>
#include <primesieve.hpp>
#include <primesieve/ParallelSieve.hpp>
#include <sstream>
#include <memory>
#include <thread>
#ifdef VGOMP
  #include "vgomp.hpp"
#endif
using namespace orc;
typedef unsigned long long ull;

struct Job { int op; u64 a, b, c; };

// every thread does its jobs alone, nothing is shared
static void work(const std::vector<Job>* jobs, u64* result)
{
  u64 h = 0;
  auto add = [&](u64 v) { h = h * 1099511628211ull + v; };
  std::unique_ptr<primesieve::iterator> it;
  for (auto& j : *jobs)
    try
    {
      switch (j.op)
      {
        case 0:
          if (!it || j.c % 3 == 0) it.reset(new primesieve::iterator(j.a, j.c & 8 ? j.a + 1000 : ~0ull)); else it->skipto(j.a);
          for (u64 i = 0; i < 300; i++) add(j.c & 1 ? it->next_prime() : it->prev_prime());
          break;
        case 1:
        {
          primesieve_iterator x;
          primesieve_init(&x);
          primesieve_skipto(&x, j.a, j.a + 5000);
          for (u64 i = 0; i < 200; i++) add(j.c & 1 ? primesieve_next_prime(&x) : primesieve_prev_prime(&x));
          primesieve_free_iterator(&x);
          break;
        }
        case 2: { std::vector<u64> v; primesieve::generate_primes(j.a, j.b, &v); add(v.size()); break; }
        case 3: { std::vector<u64> v; primesieve::generate_n_primes(j.c % 500, j.a, &v); add(v.size()); break; }
        case 4: { size_t n; void* p = primesieve_generate_primes(j.a, j.b, &n, UINT64_PRIMES); add(n); primesieve_free(p); break; }
        case 5: add(primesieve::nth_prime((int64_t) (j.c % 2000) - 500, j.a + 20000)); break;
        case 6: add(primesieve::count_primes(j.a, j.b)); break;
        case 7: add(primesieve_count_twins(j.a, j.b) + primesieve_count_sextuplets(j.a, j.b)); break;
        case 8: add((u64) primesieve::get_sieve_size()); add((u64) primesieve_get_sieve_size()); add((u64) primesieve::get_num_threads()); add((u64) primesieve_get_num_threads()); break;
        case 9: { primesieve::PrimeSieve ps; ps.setSieveSize((int) (8 << j.c % 8)); ps.sieve(j.a, j.b, primesieve::COUNT_PRIMES | primesieve::COUNT_TWINS); add(ps.getCount(0)); break; }
        case 10: { primesieve::ParallelSieve ps; ps.setNumThreads((int) (1 + j.c % 5)); ps.sieve(j.a, j.a + 25000000, primesieve::COUNT_PRIMES); add(ps.getCount(0)); break; }
        case 11: { std::ostringstream o; o << primesum::pi((primesum::int128_t) (j.a % 20000000), (int) (1 + j.c % 4)); add(o.str().size()); break; }
        case 12: add((u64) primesum::phi((int64_t) (j.a % 50000000), (int64_t) (j.c % 300), (int) (1 + j.c % 3))); break;
        case 13: { std::ostringstream o; o << primesum::pi_lmo((primesum::int128_t) (j.a % 5000000), (int) (1 + j.c % 4)); add(o.str().size()); break; }
        case 14: add((u64) primesum::nth_prime((int64_t) (j.c % 3000 + 10))); break;
        case 15: { std::string s = primesum::pi(std::to_string(j.a % 1000000)); add(s.size()); break; }
        case 16: add((u64) primesum::pi_legendre((int64_t) (j.a % 3000000), (int) (1 + j.c % 3))); break;
        case 17: add((u64) primesum::prime_sum_tiny((int64_t) (j.a % 100000))); break;
        case 18: add((u64) (primesum::to_int128("3*(" + std::to_string(j.c % 1000) + "+2)^2%1000"))); break;
        case 19: add((u64) primesum::phi_sum((int64_t) (j.a % 1000000), (int64_t) (j.c % 40))); break;
      }
    }
    catch (std::exception&) { add(1); }
  *result = h;
}

int main(int argc, char** argv)
{
  hv::install();
  hv::Args A(argc, argv);
  Rng r(A.u("seed", 1));
  int rounds = (int) A.num("n", 4), nj = (int) A.num("jobs", 12);
  auto ops = A.list("ops", "");
#ifdef VGOMP
  vgomp.serial = 0;
  vgomp.delay_us = (int) A.u("delay", 0);
  vgomp.seed = A.u("seed", 1);
#endif
  std::string mix;
  for (int k = 0; k < rounds; k++)
  {
    // after the first round: settings, but only while no other thread runs
    if (k > 0 && r.below(2)) primesieve::set_sieve_size((int) (8 << r.below(8)));
    if (k > 0 && r.below(2)) primesieve::set_num_threads((int) r.range(1, 8));
    if (k > 0 && r.below(2)) primesum::set_alpha(1 + r.real() * 4);
    int n = (int) r.range(2, 6);
    bool same = r.below(3) == 0;           // all threads do the same at the same time
    std::vector<std::vector<Job>> jobs(n);
    for (int t = 0; t < n; t++)
    {
      if (same && t) { jobs[t] = jobs[0]; continue; }
      for (int i = 0; i < nj; i++)
      {
        Job j;
        j.op = ops.empty() ? (int) r.below(20) : atoi(r.pick(ops).c_str());
        if (j.op == 10 && r.below(2)) j.op = 0;
        j.a = r.below(4) ? r.logu(1, 1e9) : r.logu(1, 1e12);
        j.b = j.a + r.logu(1, 1e6);
        j.c = r.next() >> 1;
        jobs[t].push_back(j);
        hv::count("op_" + std::to_string(j.op));
      }
    }
    std::vector<u64> res(n);
    std::vector<std::thread> th;
    for (int t = 0; t < n; t++) th.emplace_back(work, &jobs[t], &res[t]);
    for (auto& t : th) t.join();
    // the same jobs one after another
    for (int t = 0; t < n; t++)
    {
      if (same && t) { if (res[t] != res[0]) hv::violation("threads", "two threads get different results"); continue; }
      if (A.u("again", 0) == 0) continue;
      u64 x;
      work(&jobs[t], &x);
      if (x != res[t]) hv::violation("threads", hv::fmt("round %d: thread %d got other results than a repetition alone", k, t));
    }
    hv::eval((u64) n * nj, (u64) n * nj);
    hv::count("rounds");
    hv::count("threads", n);
    if (same) hv::count("rounds_with_the_same_calls_in_all_threads");
  }
  return hv::finish();
}
