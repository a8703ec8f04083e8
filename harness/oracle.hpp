// Independent reference implementations.  Nothing here uses code of primesum or primesieve.
#ifndef VERIF_ORACLE_HPP
#define VERIF_ORACLE_HPP
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include <vector>

namespace orc {
typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

inline u64 mulmod(u64 a, u64 b, u64 m) { return (u64) ((u128) a * b % m); }
inline u64 powmod(u64 a, u64 e, u64 m)
{
  u64 r = 1;
  a %= m;
  for (; e; e >>= 1) { if (e & 1) r = mulmod(r, a, m); a = mulmod(a, a, m); }
  return r;
}

// deterministic Miller-Rabin for 64-bit numbers
inline bool is_prime(u64 n)
{
  static const u64 b[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
  if (n < 2) return false;
  for (u64 p : b) { if (n == p) return true; if (n % p == 0) return false; }
  u64 d = n - 1; int s = 0;
  while (!(d & 1)) { d >>= 1; s++; }
  for (u64 a : b)
  {
    u64 x = powmod(a, d, n);
    if (x == 1 || x == n - 1) continue;
    bool ok = false;
    for (int i = 1; i < s && !ok; i++) { x = mulmod(x, x, n); ok = (x == n - 1); }
    if (!ok) return false;
  }
  return true;
}

inline u64 isqrt(u128 n)
{
  u64 r = (u64) std::sqrt((double) n);
  while ((u128) r * r > n) r--;
  while ((u128) (r + 1) * (r + 1) <= n) r++;
  return r;
}

// primes <= n
inline std::vector<uint32_t> small_primes(u64 n)
{
  std::vector<uint32_t> p;
  std::vector<bool> c(n + 1, false);
  for (u64 i = 2; i <= n; i++)
  {
    if (c[i]) continue;
    p.push_back((uint32_t) i);
    for (u64 j = i * i; j <= n; j += i) c[j] = true;
  }
  return p;
}

// All primes in [a, b], b - a moderate, any 64-bit numbers.
// Sieve with the primes below 10^6, then Miller-Rabin if that is not sufficient.
inline std::vector<u64> primes_in(u64 a, u64 b)
{
  static const std::vector<uint32_t> base = small_primes(1000000);
  std::vector<u64> r;
  if (a < 2) a = 2;
  if (a > b) return r;
  u64 lim = isqrt(b);
  const u64 seg = 1 << 20;
  std::vector<char> c;
  for (u64 lo = a;; lo += seg)
  {
    u64 hi = (b - lo < seg) ? b : lo + seg - 1;
    c.assign(hi - lo + 1, 0);
    for (u64 p : base)
    {
      if (p > lim || p * p > hi) break;
      u64 off = lo % p;                 // first multiple >= lo
      u64 i = off ? p - off : 0;
      if (lo <= p * p) i = p * p - lo;  // p*p <= hi
      for (; i <= hi - lo; i += p) c[i] = 1;
    }
    bool full = lim <= 1000000;
    for (u64 i = 0; i <= hi - lo; i++)
      if (!c[i] && (full || is_prime(lo + i)))
        r.push_back(lo + i);
    if (hi == b) break;
  }
  return r;
}

// Tables up to n
struct Small
{
  u64 n;
  std::vector<u64> sum;       // sum of primes <= i
  std::vector<uint32_t> pi;   // number of primes <= i
  std::vector<uint32_t> lpf;  // least prime factor, lpf[1] = 0 here
  std::vector<int8_t> mu;
  std::vector<uint32_t> primes;
  explicit Small(u64 n_) : n(n_), sum(n + 1), pi(n + 1), lpf(n + 1, 0), mu(n + 1, 1)
  {
    for (u64 i = 2; i <= n; i++)
      if (!lpf[i])
        for (u64 j = i; j <= n; j += i) if (!lpf[j]) lpf[j] = (uint32_t) i;
    for (u64 i = 2; i <= n; i++)
    {
      u64 m = i / lpf[i];
      mu[i] = (m % lpf[i] == 0) ? 0 : -mu[m];
      bool p = lpf[i] == i;
      sum[i] = sum[i - 1] + (p ? i : 0);
      pi[i] = pi[i - 1] + (p ? 1 : 0);
      if (p) primes.push_back((uint32_t) i);
    }
  }
};

// Sums of the primes <= X / k for all k (Lucy Hedgehog), O(X^(3/4))
struct Lucy
{
  u64 X, r;
  std::vector<u128> lo, hi;   // lo[v] = S(v), hi[k] = S(X / k)
  explicit Lucy(u64 X_, int threads = 1) : X(X_), r(isqrt(X_)), lo(r + 1), hi(r + 2)
  {
    (void) threads;
    u64 K = X / (r + 1);      // hi is used for k <= K
    for (u64 v = 1; v <= r; v++) lo[v] = tri(v);
    for (u64 k = 1; k <= K; k++) hi[k] = tri(X / k);
    for (u64 p = 2; p <= r; p++)
    {
      if (lo[p] == lo[p - 1]) continue;
      u128 sp = lo[p - 1];
      u64 p2 = p * p;
      u64 kend = std::min(K, X / p2);
      u64 kmid = std::min(kend, K / p);
      u64 a = 1;
      while (a <= kmid)
      {
        u64 e = std::min(kmid, a * p - 1);
        #pragma omp parallel for num_threads(threads) if (e - a > 4096)
        for (u64 k = a; k <= e; k++) hi[k] -= p * (hi[k * p] - sp);
        a = e + 1;
      }
      u64 xp = X / p;
      #pragma omp parallel for num_threads(threads) if (kend - kmid > 4096 && kend > kmid)
      for (u64 k = kmid + 1; k <= kend; k++) hi[k] -= p * (lo[div(xp, k)] - sp);
      if (r >= p2)
      {
        u64 b = r;
        while (b >= p2)
        {
          u64 e = std::max(p2, b / p + 1);
          #pragma omp parallel for num_threads(threads) if (b - e > 4096)
          for (u64 i = 0; i <= b - e; i++) { u64 v = b - i; lo[v] -= p * (lo[v / p] - sp); }
          b = e - 1;
        }
      }
    }
  }
  static u64 div(u64 a, u64 b)
  {
    if (a >> 52) return a / b;
    return (u64) ((double) a / (double) b);   // exact for a < 2^53
  }
  static u128 tri(u64 v)
  {
    u128 a = v, b = (u128) v + 1;
    if (v & 1) b /= 2; else a /= 2;
    return a * b - 1;
  }
  u128 at_k(u64 k) const { u64 v = X / k; return v <= r ? lo[v] : hi[k]; }
};

inline std::string str(u128 v)
{
  if (!v) return "0";
  std::string s;
  for (; v; v /= 10) s += char('0' + (int) (v % 10));
  std::reverse(s.begin(), s.end());
  return s;
}
inline std::string str(i128 v)
{
  if (v < 0) return "-" + str((u128) 0 - (u128) v);
  return str((u128) v);
}
inline u128 parse(const char* s)
{
  u128 v = 0;
  for (; *s >= '0' && *s <= '9'; s++) v = v * 10 + (*s - '0');
  return v;
}

// Sums of primes from committed anchor values; x must be near an anchor
struct Truth
{
  std::vector<std::pair<u64, u128>> a;
  bool load(const std::string& path)
  {
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return false;
    char x[64], s[64];
    while (fscanf(f, "%63s %63s", x, s) == 2) a.push_back({(u64) parse(x), parse(s)});
    fclose(f);
    std::sort(a.begin(), a.end());
    return !a.empty();
  }
  // distance to the nearest anchor
  u64 distance(u64 x) const { return (u64) std::llabs((long long) (x - nearest(x).first)); }
  const std::pair<u64, u128>& nearest(u64 x) const
  {
    auto it = std::lower_bound(a.begin(), a.end(), std::make_pair(x, (u128) 0));
    if (it == a.end()) return a.back();
    if (it == a.begin()) return *it;
    auto pr = it - 1;
    return (it->first - x < x - pr->first) ? *it : *pr;
  }
  u128 sum(u64 x) const
  {
    auto n = nearest(x);
    u128 s = n.second;
    if (x > n.first) for (u64 p : primes_in(n.first + 1, x)) s += p;
    if (x < n.first) for (u64 p : primes_in(x + 1, n.first)) s -= p;
    return s;
  }
};

// xorshift-based generator, same on every platform
struct Rng
{
  u64 s;
  explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 8; i++) next(); }
  u64 next()
  {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return (b - a == ~0ull) ? next() : a + below(b - a + 1); }
  double real() { return (double) (next() >> 11) / 9007199254740992.0; }
  // log-uniform in [a, b]
  u64 logu(double a, double b) { return (u64) std::exp(std::log(a) + real() * (std::log(b) - std::log(a))); }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
} // namespace orc
#endif
