// PiTable, FactorTable and the generate functions
#include "hb.hpp"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <PiTable.hpp>
#include <FactorTable.hpp>
#include <generate.hpp>
#ifdef PRIMESUM_VERIF
  #include <primesum_verif.hpp>
#endif
using namespace hv;
using namespace orc;

static const Small& S(u64 n)
{
  static Small* s = nullptr;
  if (!s || s->n < n) s = new Small(std::max<u64>(n, 300000));
  return *s;
}

static void pitable(Args& a, Rng& r)
{
  u64 maxn = (u64) a.num("max", 3e6);
  int n = (int) a.num("n", 60);
  S(maxn);
  for (int it = 0; it < n; it++)
  {
    u64 max = it < 40 ? r.below(1200) : r.logu(2, (double) maxn);
    if (it % 5 == 0) max = max / 64 * 64 + 63 + r.below(3) - 1;
    max = std::min(max, maxn);
    at("PiTable(%llu)", (unsigned long long) max);
    primesum::PiTable pi(max);
    HB_CHECK((u64) pi.size() == max + 1, "pitable:size", "PiTable(%llu).size() = %lld", (unsigned long long) max, (long long) pi.size());
    for (u64 i = 0; i <= max; i++)
      if ((u64) pi[i] != S(max).pi[i])
      {
        violation("pitable", fmt("PiTable(%llu)[%llu] = %lld, pi = %u", (unsigned long long) max, (unsigned long long) i, (long long) pi[i], S(max).pi[i]));
        break;
      }
    eval(max + 1, 1);
    count("pitable_entries", max + 1);
  }
}
static HbReg r1("pitable", pitable);

template <typename T> static void factor_one(i64 y, int threads, const char* name)
{
  at("FactorTable<%s>(%lld, %d)", name, (long long) y, threads);
  primesum::FactorTable<T> f(y, threads);
  const Small& s = S((u64) std::max<i64>(y, 8));
  u64 sy = isqrt((u128) y);
  u64 composite = 0;
  for (i64 i = 0;; i++)
  {
    i64 n = f.get_number((u64) i);
    if (n > y) break;
    if (f.get_index((u64) n) != i)
    {
      violation("factor:index", fmt("get_index(get_number(%lld)) = %lld", (long long) i, (long long) f.get_index((u64) n)));
      return;
    }
    if (i == 0) continue;
    i64 L = f.lpf(i);
    int mu = s.mu[(u64) n];
    u64 lp = s.lpf[(u64) n];
    bool ok = (L == 0) == (mu == 0);
    if (ok && mu)
    {
      ok = f.mu(i) == mu;
      // largest prime smaller than the least prime factor
      u64 q = lp > 2 ? s.primes[s.pi[lp - 1] - 1] : 1;
      if (lp == (u64) n) ok = ok && L > (i64) std::min(q, sy);
      else { ok = ok && L > (i64) q && L <= (i64) lp; composite++; }
    }
    if (!ok)
    {
      violation(fmt("factor:%s", name), fmt("FactorTable<%s>(%lld, threads %d): number %lld, lpf() = %lld, least factor %llu, moebius %d%s",
        name, (long long) y, threads, (long long) n, (long long) L, (unsigned long long) lp, mu,
        mu && L ? fmt(", mu() = %lld", (long long) f.mu(i)).c_str() : ""));
      return;
    }
  }
  eval(1, composite > 0);
  count("factor_tables");
  count("factor_composites", composite);
}

static void factor(Args& a, Rng& r)
{
  u64 maxy = (u64) a.num("max", 2e6);
  int n = (int) a.num("n", 60);
  S(maxy);
  // the index functions on all residues, also far away
  for (int it = 0; it < 3000; it++)
  {
    u64 m = it < 1000 ? it + 1 : r.logu(1, 4e18);
    u64 k = m;
    auto cop = [](u64 v) { return v % 2 && v % 3 && v % 5 && v % 7; };
    while (!cop(k)) k--;
    i64 i = primesum::AbstractFactorTable::get_index(m);
    i64 t = (i64) m;
    primesum::AbstractFactorTable::to_index(&t);
    HB_CHECK((u64) primesum::AbstractFactorTable::get_number((u64) i) == k && t == i, "factor:number",
             "get_number(get_index(%llu)) = %lld, expected %llu", (unsigned long long) m,
             (long long) primesum::AbstractFactorTable::get_number((u64) i), (unsigned long long) k);
    eval(1, 1);
  }
  for (int it = 0; it < n; it++)
  {
    i64 y = it < n / 2 ? (i64) r.below(4000) + 1 : (i64) r.logu(8, (double) maxy);
    if (it % 7 == 0) { u64 q = r.logu(2, std::sqrt((double) maxy)); y = (i64) (q * q) + (i64) r.below(3) - 1; if (y < 1) y = 1; }
    if (it % 7 == 1) y = y / 210 * 210 + (i64) r.below(3);
    if (y < 1) y = 1;
    int threads = r.below(3) ? (int) r.range(1, 9) : 1;
#ifdef PRIMESUM_VERIF
    primesum::verif::hooks().divisor = r.below(3) ? (i64) r.logu(1, 1e7) : 1;
#endif
    if (r.below(2)) factor_one<uint16_t>(y, threads, "uint16_t"); else factor_one<uint32_t>(y, threads, "uint32_t");
  }
  if (primesum::FactorTable<uint16_t>::max() != (primesum::int128_t) 65534 * 65534 - 1)
    violation("factor:max", "FactorTable<uint16_t>::max()");
}
static HbReg r2("factor", factor);

template <typename V, typename W> static bool same_primes(const V& v, const W& p, size_t n)
{
  if (v.size() != n + 1 || v[0] != 0) return false;
  for (size_t i = 0; i < n; i++) if ((u64) v[i + 1] != p[i]) return false;
  return true;
}

static void generate(Args& a, Rng& r)
{
  u64 maxn = (u64) a.num("max", 1e6);
  int n = (int) a.num("n", 200);
  const Small& s = S(std::max<u64>(maxn, 300000));
  for (int it = 0; it < n; it++)
  {
    u64 m = it < 60 ? it : it < 120 ? r.below(3000) : r.logu(2, (double) maxn);
    if (it % 4 == 0 && it >= 60) { u64 q = r.logu(2, std::sqrt((double) maxn)); m = q * q + r.below(3) - 1; }
    m = std::min(m, maxn);
    at("generate max %llu", (unsigned long long) m);
    i64 im = (i64) m;
    size_t cnt = s.pi[m];
    HB_CHECK(same_primes(primesum::generate_primes(im), s.primes, cnt), "generate_primes", "generate_primes(%llu)", (unsigned long long) m);
    HB_CHECK(same_primes(primesum::generate_primes<int64_t>(im), s.primes, cnt), "generate_primes<int64>", "generate_primes<int64_t>(%llu)", (unsigned long long) m);
    HB_CHECK(same_primes(primesum::generate_primes<uint32_t>(im), s.primes, cnt), "generate_primes<uint32>", "generate_primes<uint32_t>(%llu)", (unsigned long long) m);
    auto ps = primesum::generate_prime_sums<primesum::int128_t>(im);
    bool ok = ps.size() == cnt + 1 && ps[0] == 0;
    for (size_t i = 1; ok && i <= cnt; i++) ok = ps[i] == (primesum::int128_t) s.sum[s.primes[i - 1]];
    HB_CHECK(ok, "generate_prime_sums", "generate_prime_sums<int128_t>(%llu)", (unsigned long long) m);
    auto ps64 = primesum::generate_prime_sums<int64_t>(im);
    ok = ps64.size() == cnt + 1;
    for (size_t i = 1; ok && i <= cnt; i++) ok = ps64[i] == (i64) s.sum[s.primes[i - 1]];
    HB_CHECK(ok, "generate_prime_sums64", "generate_prime_sums<int64_t>(%llu)", (unsigned long long) m);
    u64 k = r.below(std::min<u64>(s.primes.size() - 1, 20000));
    if (it < 30) k = it;
    HB_CHECK(same_primes(primesum::generate_n_primes((i64) k), s.primes, k), "generate_n_primes", "generate_n_primes(%llu)", (unsigned long long) k);
    auto pi = primesum::generate_pi(im);
    auto mu = primesum::generate_moebius(im);
    auto lpf = primesum::generate_lpf(im);
    HB_CHECK(pi.size() == m + 1 && mu.size() == m + 1 && lpf.size() == m + 1, "generate:size", "size of pi/moebius/lpf for %llu", (unsigned long long) m);
    if (pi.size() == m + 1 && mu.size() == m + 1 && lpf.size() == m + 1)
      for (u64 i = 0; i <= m; i++)
      {
        if ((u64) pi[i] != s.pi[i]) { violation("generate_pi", fmt("generate_pi(%llu)[%llu] = %d", (unsigned long long) m, (unsigned long long) i, pi[i])); break; }
        if (i && mu[i] != s.mu[i]) { violation("generate_moebius", fmt("generate_moebius(%llu)[%llu] = %d", (unsigned long long) m, (unsigned long long) i, mu[i])); break; }
        if (i > 1 && (u64) lpf[i] != s.lpf[i]) { violation("generate_lpf", fmt("generate_lpf(%llu)[%llu] = %d", (unsigned long long) m, (unsigned long long) i, lpf[i])); break; }
        // 1 has no prime factor: larger than every prime
        if (i == 1 && (u64) lpf[i] <= m) { violation("generate_lpf:1", fmt("generate_lpf(%llu)[1] = %d", (unsigned long long) m, lpf[i])); break; }
      }
    eval(8, 1);
    count("generated_arrays", 9);
  }
}
static HbReg r3("generate", generate);
