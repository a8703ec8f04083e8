// Sources of x values together with their true prime sums.
#ifndef VERIF_XSRC_HPP
#define VERIF_XSRC_HPP
#include "hv.hpp"
#include <memory>

struct XSource
{
  orc::Small small;
  orc::Truth truth;
  orc::Rng rng;
  std::map<orc::u64, std::string> cache;
  double lucy_max;
  XSource(uint64_t smalln, const std::string& truthfile, uint64_t seed, double lucy_max_)
    : small(smalln), rng(seed), lucy_max(lucy_max_)
  {
    if (!truthfile.empty()) truth.load(truthfile);
  }
  // true sum, or "" if not known
  std::string sum(int64_t x)
  {
    if (x < 2) return "0";
    orc::u64 u = (orc::u64) x;
    if (u <= small.n) return orc::str((orc::u128) small.sum[u]);
    auto it = cache.find(u);
    if (it != cache.end()) return it->second;
    std::string s;
    if (!truth.a.empty() && truth.distance(u) <= 300000) s = orc::str(truth.sum(u));
    else if (x <= lucy_max) { orc::Lucy l(u); s = orc::str(l.at_k(1)); }
    if (!s.empty()) cache[u] = s;
    return s;
  }
  orc::u64 prime_near(orc::u64 n) { while (!orc::is_prime(n)) n++; return n; }
  // special values <= maxx: squares, cubes, ... of primes, products, powers, +- 0..2
  int64_t special(double maxx)
  {
    for (;;)
    {
      double v = 0;
      int kind = (int) rng.below(12);
      auto P = [&](int e) { return (double) prime_near(rng.logu(2, std::max(3.0, std::pow(maxx, 1.0 / e)))); };
      orc::u64 n = 1;
      if (kind < 6) { int e = kind + 1; double p = P(e); v = std::pow(p, e); for (int i = 0; i < e; i++) n *= (orc::u64) p; }
      else if (kind == 6) { double p = P(2), q = P(2); v = p * q; n = (orc::u64) p * (orc::u64) q; }
      else if (kind == 7) { double p = P(3), q = P(3); v = p * p * q; n = (orc::u64) p * (orc::u64) p * (orc::u64) q; }
      else if (kind == 8) { int b = (int) rng.range(1, 62); v = std::ldexp(1, b); n = 1ull << b; }
      else if (kind == 9) { int b = (int) rng.range(1, 18); v = std::pow(10, b); for (int i = 0; i < b; i++) n *= 10; }
      else if (kind == 10) { orc::u64 q = rng.logu(2, std::pow(maxx, 1.0 / 3)); v = std::pow((double) q, 3); n = q * q * q; }
      else { orc::u64 q = rng.logu(2, std::pow(maxx, 0.5)); v = (double) q * q; n = q * q; }
      if (v > maxx || v < 1) continue;
      int64_t x = (int64_t) n + (int64_t) rng.below(5) - 2;
      if (x >= 0) return x;
    }
  }
  int64_t random(double maxx) { return (int64_t) rng.logu(1, maxx); }
  // near a known value
  int64_t anchor(double minx, double maxx)
  {
    for (int i = 0; i < 10000; i++)
    {
      orc::u64 v = rng.pick(truth.a).first;
      if ((double) v < minx || (double) v > maxx) continue;
      int64_t d = 0;
      switch (rng.below(4))
      {
        case 0: d = 0; break;
        case 1: d = (int64_t) rng.below(7) - 3; break;
        case 2: d = (int64_t) rng.below(2001) - 1000; break;
        case 3: d = (int64_t) rng.below(200001) - 100000; break;
      }
      return (int64_t) v + d;
    }
    return 2;
  }
};
#endif
