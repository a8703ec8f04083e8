// partial sieve functions, prime counting, n-th prime, small prime sums
#include "hb.hpp"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <PhiTiny.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#ifdef PRIMESUM_VERIF
  #include <primesum_verif.hpp>
#endif
#include <sstream>
#include <boost/multiprecision/cpp_int.hpp>
using namespace hv;
using namespace orc;
typedef boost::multiprecision::cpp_int Big;
typedef primesum::int128_t S128;

static std::string s256(const primesum::int256_t& v) { std::ostringstream o; o << v; return o.str(); }
static Big big(u128 v) { return (Big((u64) (v >> 64)) << 64) + Big((u64) v); }

static void hooks(Rng& r)
{
#ifdef PRIMESUM_VERIF
  primesum::verif::hooks().divisor = r.below(2) ? (i64) r.logu(1, 1e10) : 1;
#endif
}

// number of n in [1, X/k] not divisible by the first a primes, and their sum, for all k (by sieving)
struct Partial
{
  u64 X, r, K;
  std::vector<u64> cl, ch;
  std::vector<u128> sl, sh;
  u64 a = 0;          // primes removed so far
  u64 sump = 0;       // their sum
  explicit Partial(u64 X_) : X(X_), r(isqrt(X_)), K(X_ / (r + 1)), cl(r + 1), ch(K + 1), sl(r + 1), sh(K + 1)
  {
    for (u64 v = 1; v <= r; v++) { cl[v] = v - 1; sl[v] = Lucy::tri(v); }
    for (u64 k = 1; k <= K; k++) { ch[k] = X / k - 1; sh[k] = Lucy::tri(X / k); }
  }
  void remove(u64 p)  // the next prime
  {
    a++;
    sump += p;
    if ((u128) p * p > X) return;
    u64 c0 = cl[p - 1]; u128 s0 = sl[p - 1];
    for (u64 k = 1; k <= K && X / k >= p * p; k++)
    {
      u64 c; u128 s;
      if (k * p <= K) { c = ch[k * p]; s = sh[k * p]; } else { u64 v = X / k / p; c = cl[v]; s = sl[v]; }
      ch[k] -= c - c0; sh[k] -= p * (s - s0);
    }
    for (u64 v = r; v >= p * p; v--) { cl[v] -= cl[v / p] - c0; sl[v] -= p * (sl[v / p] - s0); }
  }
};

static void check_phi(i64 x, i64 a, int threads, u64 e, const char* how)
{
  at("phi(%lld, %lld) threads %d", (long long) x, (long long) a, threads);
  i64 g = primesum::phi(x, a, threads);
  HB_CHECK((u64) g == e, fmt("phi:%lld:%lld", (long long) x, (long long) a), "phi(%lld, %lld, threads %d) = %lld, expected %llu (%s)",
           (long long) x, (long long) a, threads, (long long) g, (unsigned long long) e, how);
  eval(1, x > 1 && a > 0);
  count("phi_values");
}
static void check_phi_sum(i64 x, i64 a, u128 e, const char* how)
{
  at("phi_sum(%lld, %lld)", (long long) x, (long long) a);
  S128 g = primesum::phi_sum(x, a);
  HB_CHECK(g == (S128) e, fmt("phi_sum:%lld:%lld", (long long) x, (long long) a), "phi_sum(%lld, %lld) = %s, expected %s (%s)",
           (long long) x, (long long) a, str((i128) g).c_str(), str(e).c_str(), how);
  // the wide interface
  std::string w = s256(primesum::phi_sum((S128) x, a));
  HB_CHECK(w == str(e), fmt("phi_sum_w:%lld:%lld", (long long) x, (long long) a), "phi_sum(int128 %lld, %lld) = %s, expected %s (%s)",
           (long long) x, (long long) a, w.c_str(), str(e).c_str(), how);
  eval(2, x > 1 && a > 0);
  count("phi_sum_values", 2);
}

// all a for small x, by brute force
static void phi_small(Args& a, Rng& r)
{
  u64 N = 3000;
  static Small s(300000);
  int n = (int) a.num("n", 60);
  for (int it = 0; it < n; it++)
  {
    i64 x = it < 20 ? (i64) it - 3 : (i64) r.below(it % 3 ? N : 60000);
    std::vector<i64> as;
    for (i64 i = -1; i < 40; i++) as.push_back(i);
    if (x > 0) for (i64 d = -2; d <= 2; d++) { as.push_back((i64) s.pi[x] + d); as.push_back((i64) s.pi[isqrt((u64) x)] + d); as.push_back(x + d); }
    for (int k = 0; k < 10; k++) as.push_back((i64) r.below(2500));
    for (i64 v : as)
    {
      if (v < -1) continue;
      u64 e = 0; u128 se = 0;
      u64 pa = v < 1 ? 1 : s.primes[std::min<u64>((u64) v, s.primes.size()) - 1];
      for (i64 m = 1; m <= x; m++) if (m == 1 || s.lpf[(u64) m] > pa) { e++; se += (u64) m; }
      hooks(r);
      check_phi(x, v, (int) r.range(1, 8), e, "brute force");
      if (v >= 0) check_phi_sum(x, v, se, "brute force");
    }
  }
}
static HbReg r1("phi_small", phi_small);

// medium x: partial sieving
static void phi_medium(Args& a, Rng& r)
{
  int n = (int) a.num("n", 4);
  double maxx = a.num("max", 3e10);
  auto primes = small_primes(2000000);
  for (int it = 0; it < n; it++)
  {
    u64 X = r.logu(1e5, maxx);
    if (it % 3 == 0) { u64 q = isqrt(X); while (!is_prime(q)) q++; X = q * q + r.below(3) - 1; }
    if (it % 3 == 1) { u64 q = (u64) std::cbrt((double) X); while (!is_prime(q)) q++; X = q * q * q + r.below(3) - 1; }
    Partial P(X);
    u64 sq = P.r;
    for (size_t i = 0; i < primes.size(); i++)
    {
      u64 p = primes[i];
      // compare before removing the prime number i + 1
      bool edge = p > sq && primes[i ? i - 1 : 0] <= sq;
      if (i < 12 || edge || r.below(i < 300 ? 12 : 60 + i / 8) == 0)
      {
        for (int k = 0; k < 3; k++)
        {
          u64 kk = k == 0 ? 1 : k == 1 ? 1 + r.below(std::min<u64>(P.K, 1000)) : 1 + r.below(P.K);
          u64 v = X / kk;
          u64 last = i ? primes[i - 1] : 0;
          u64 e; u128 se;
          if (last > v) { e = 1; se = 1; }
          else { e = P.ch[kk] + 1 - i; se = P.sh[kk] + 1 - P.sump; }
          hooks(r);
          check_phi((i64) v, (i64) i, (int) r.range(1, 8), e, "partial sieve");
          // exponential run time: the number of products of the first i primes <= v
          if (i <= 8 || v < 20000 || (i < 20 && v < 100000000)) check_phi_sum((i64) v, (i64) i, se, "partial sieve");
        }
      }
      if (p > 4 * sq || p > primes.back() - 100) break;
      P.remove(p);
    }
  }
}
static HbReg r2("phi_medium", phi_medium);

// large x, few primes: inclusion and exclusion
static void phi_large(Args& a, Rng& r)
{
  int n = (int) a.num("n", 60);
  auto primes = small_primes(1000);
  for (int it = 0; it < n; it++)
  {
    int na = (int) r.below(12);
    bool wide = it % 2;
    u128 x = wide ? ((((u128) r.next() << 64) | r.next()) >> (1 + r.below(66))) : (u128) (r.next() >> (1 + r.below(30)));
    if (it % 5 == 0) x = ((u128) 1 << (wide ? r.range(61, 126) : r.range(31, 62))) + r.below(3) - 1;
    if (it % 10 == 6) x = ((u128) 1 << 63) - 1 - r.below(2);
    if (it % 10 == 7) x = ((u128) 1 << 127) - 1 - r.below(100);
    Big cnt = 0, sum = 0;
    for (u64 m = 0; m < (1ull << na); m++)
    {
      u128 d = 1;
      int sg = 1;
      for (int i = 0; i < na; i++) if (m >> i & 1) { d *= primes[i]; sg = -sg; }
      Big q = big(x / d), t = big(d) * q * (q + 1) / 2;
      if (sg > 0) { cnt += q; sum += t; } else { cnt -= q; sum -= t; }
    }
    std::string se = sum.str(), xs = str(x);
    at("phi_sum(%s, %d)", xs.c_str(), na);
    std::string g = s256(primesum::phi_sum((S128) x, (i64) na));
    HB_CHECK(g == se, "phi_sum_wide:" + xs, "phi_sum(int128 %s, %d) = %s, expected %s (inclusion-exclusion)", xs.c_str(), na, g.c_str(), se.c_str());
    if (x < (u128) 1 << 63)
    {
      check_phi((i64) x, na <= 6 ? na : na - 5, 1, (u64) (na <= 6 ? cnt : [&] {
        Big c = 0; int nb = na - 5;
        for (u64 m = 0; m < (1ull << nb); m++) { u128 d = 1; int sg = 1; for (int i = 0; i < nb; i++) if (m >> i & 1) { d *= primes[i]; sg = -sg; } if (sg > 0) c += big(x / d); else c -= big(x / d); }
        return c; }()), "inclusion-exclusion");
      std::string h = str((i128) primesum::phi_sum((i64) x, (i64) na));
      HB_CHECK(h == se, "phi_sum_narrow:" + xs, "phi_sum(int64 %s, %d) = %s, expected %s", xs.c_str(), na, h.c_str(), se.c_str());
      eval(1, 1);
    }
    if (na <= 6)
    {
      Big t = big((u128) primesum::phi_tiny<S128>((S128) x, na));
      HB_CHECK(t == cnt, "phi_tiny:" + xs, "phi_tiny<int128>(%s, %d) = %s, expected %s", xs.c_str(), na, t.str().c_str(), cnt.str().c_str());
      if (x < (u128) 1 << 63)
        HB_CHECK(Big(primesum::phi_tiny<i64>((i64) x, na)) == cnt, "phi_tiny64:" + xs, "phi_tiny<int64>(%s, %d)", xs.c_str(), na);
      count("phi_tiny_values", 2);
      eval(2, 2);
    }
    eval(1, 1);
    count("phi_sum_wide_values");
  }
  // c(y)
  for (i64 y = 0; y < 200; y++)
  {
    i64 e = 0;
    for (int i = 0; i < 6; i++) if ((i64) primes[i] <= y) e++;
    HB_CHECK(primesum::PhiTiny::get_c(y) == e, "get_c", "PhiTiny::get_c(%lld)", (long long) y);
  }
}
static HbReg r3("phi_large", phi_large);

// the recursion of the definition for many primes and larger x
static void phi_rec(Args& a, Rng& r)
{
  int n = (int) a.num("n", 20);
  double maxx = a.num("max", 1e13);
  auto primes = small_primes(200000);
  for (int it = 0; it < n; it++)
  {
    i64 x = (i64) r.logu(1e6, maxx);
    i64 m = (i64) (r.below(2) ? r.range(7, 110) : r.logu(7, 6000));
    int t1 = (int) r.range(1, 8);
    at("phi recursion x=%lld a=%lld", (long long) x, (long long) m);
    hooks(r);
    i64 p = primes[m - 1];
    i64 u = primesum::phi(x, m, t1), v = primesum::phi(x, m - 1, 1), w = primesum::phi(x / p, m - 1, t1);
    HB_CHECK(u == v - w, fmt("phi_rec:%lld:%lld", (long long) x, (long long) m), "phi(%lld, %lld) = %lld but phi(x, a - 1) - phi(x / p, a - 1) = %lld - %lld",
             (long long) x, (long long) m, (long long) u, (long long) v, (long long) w);
    eval(1, 1);
    count("phi_recursions");
  }
}
static HbReg r4("phi_rec", phi_rec);

static void counting(Args& a, Rng& r)
{
  int n = (int) a.num("n", 300);
  double maxx = a.num("max", 2e10);
  static Small s(2000000);
  auto pc = [&](i64 x, u64 e, const char* how)
  {
    int t = (int) r.range(1, 8);
    hooks(r);
    at("pi_legendre(%lld, %d)", (long long) x, t);
    i64 g = primesum::pi_legendre(x, t);
    HB_CHECK((u64) g == e, fmt("pi_legendre:%lld", (long long) x), "pi_legendre(%lld, threads %d) = %lld, expected %llu (%s)", (long long) x, t,
             (long long) g, (unsigned long long) e, how);
    eval(1, x > 1);
    count("pi_legendre_values");
  };
  for (i64 x = -5; x < 3000; x++) pc(x, x < 2 ? 0 : s.pi[x], "table");
  for (int i = 0; i < n; i++) { i64 x = (i64) r.below(s.n); if (i % 2) { u64 p = r.below(1400); x = (i64) (p * p) + (i64) r.below(3) - 1; if (x < 0) x = 0; } pc(x, s.pi[x], "table"); }
  for (int i = 0; i < n / 30; i++)
  {
    u64 x = r.logu(2e6, maxx);
    if (i % 2) { u64 q = isqrt(x); while (!is_prime(q)) q++; x = q * q + r.below(3) - 1; }
    Partial P(x);
    for (u64 p = 2; p * p <= x; p++) if (s.lpf[p] == p) P.remove(p);
    pc((i64) x, P.ch[1], "sieve");
    for (int k = 0; k < 5; k++) { u64 kk = 1 + r.below(P.K); pc((i64) (x / kk), P.ch[kk], "sieve"); }
  }
  static const u64 known[] = {4, 25, 168, 1229, 9592, 78498, 664579, 5761455, 50847534, 455052511, 4118054813ull, 37607912018ull, 346065536839ull, 3204941750802ull};
  u64 t = 1;
  for (int i = 0; i < (int) a.num("known", 12); i++) { t *= 10; pc((i64) t, known[i], "literature"); }
  // sum of the primes by the iterator
  for (i64 x = -3; x < 3000; x++) { S128 g = primesum::prime_sum_tiny(x); HB_CHECK(g == (S128) (x < 2 ? 0 : s.sum[x]), fmt("prime_sum_tiny:%lld", (long long) x), "prime_sum_tiny(%lld) = %s", (long long) x, str((i128) g).c_str()); eval(1, x > 1); }
  for (int i = 0; i < n / 4; i++) { i64 x = (i64) r.below(s.n); S128 g = primesum::prime_sum_tiny(x); HB_CHECK(g == (S128) s.sum[x], fmt("prime_sum_tiny:%lld", (long long) x), "prime_sum_tiny(%lld) = %s", (long long) x, str((i128) g).c_str()); eval(1, 1); count("prime_sum_tiny_values"); }
  // n-th prime: exact, or refused
  for (i64 i = 1; i < 300; i++)
  {
    at("nth_prime(%lld)", (long long) i);
    try { i64 g = primesum::nth_prime(i); HB_CHECK(g == (i64) s.primes[i - 1], fmt("nth_prime:%lld", (long long) i), "nth_prime(%lld) = %lld", (long long) i, (long long) g); count("nth_primes"); }
    catch (const std::exception&) { HB_CHECK(i >= 10, fmt("nth_prime:%lld", (long long) i), "nth_prime(%lld) is refused", (long long) i); }
    eval(1, 1);
  }
}
static HbReg r5("counting", counting);
