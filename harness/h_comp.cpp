// Compares the partial sums (P2, ordinary leaves, trivial, easy and hard special leaves)
// with sums computed from their definitions, leaf by leaf.
#include "xsrc.hpp"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <imath.hpp>
#include <PhiTiny.hpp>
#include <S1.hpp>
#include <S2.hpp>
#ifdef PRIMESUM_VERIF
  #include <primesum_verif.hpp>
#endif
// after primesum's headers, it defines INT128_MAX
#include <boost/multiprecision/cpp_int.hpp>
#include <sstream>

using namespace hv;
using orc::u64; using orc::u128; using orc::i128;
typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<
  512, 512, boost::multiprecision::signed_magnitude, boost::multiprecision::unchecked, void>> Big;

static std::string str(const primesum::int256_t& v) { std::ostringstream o; o << v; return o.str(); }
static std::string bstr(const Big& b) { return b.str(); }
static Big big(u128 v) { Big r = (u64) (v >> 64); r <<= 64; r += (u64) v; return r; }
static Big bigs(i128 v) { return v < 0 ? -big((u128) -v) : big((u128) v); }

struct Parts { Big s1 = 0, triv = 0, easy = 0, hard = 0, p2 = 0; u64 nt = 0, ne = 0, nh = 0, n1 = 0, n2 = 0; };

// sum of the integers <= v not divisible by any of the first c primes,
// from the residues coprime to the product of these primes
struct PhiSum
{
  u64 P = 1, phi = 0;
  std::vector<uint32_t> cnt;
  std::vector<u64> sum;
  explicit PhiSum(int c)
  {
    static const int p[] = {2, 3, 5, 7, 11, 13, 17, 19, 23};
    for (int i = 0; i < c; i++) P *= p[i];
    cnt.resize(P + 1, 0);
    sum.resize(P + 1, 0);
    for (u64 i = 1; i <= P; i++)
    {
      bool ok = true;
      for (int j = 0; j < c; j++) ok &= i % p[j] != 0;
      cnt[i] = cnt[i - 1] + ok;
      sum[i] = sum[i - 1] + (ok ? i : 0);
    }
    phi = cnt[P];
  }
  Big operator()(u128 v) const
  {
    u128 q = v / P;
    u64 r = (u64) (v % P);
    Big Q = big(q);
    return Q * (Q - 1) / 2 * P * phi + Q * sum[P] + Q * P * cnt[r] + sum[r];
  }
};
static const PhiSum& phi_sum_c(int c)
{
  static std::map<int, PhiSum> m;
  auto it = m.find(c);
  if (it == m.end()) it = m.emplace(c, PhiSum(c)).first;
  return it->second;
}

static orc::Small* S;          // tables up to S->n

static u64 u64root(u128 x) { return orc::isqrt(x); }

// definitions of S1, S2_trivial and (if wanted) S2_easy for any x;
// S2_hard needs z small
static void leaves(u128 x, u64 y, int c, bool easy, bool hard, Parts& R)
{
  static const int P[] = {2, 3, 5, 7, 11, 13, 17, 19, 23};
  // ordinary leaves
  {
    const PhiSum& ps = phi_sum_c(c);
    for (u64 n = 1; n <= y; n++)
    {
      int mu = n == 1 ? 1 : S->mu[n];
      if (!mu || (c > 0 && n > 1 && S->lpf[n] <= (u64) P[c - 1])) continue;
      R.s1 += ps(x / n) * (int64_t) n * mu;
      R.n1++;
    }
  }
  u64 z = (u64) (x / y);
  u64 sqrty = u64root(y);
  auto& pr = S->primes;
  // leaves with p > sqrt(y): n = p * q
  u64 piy = S->pi[y];
  std::vector<u64> ps(piy + 1, 0);
  for (u64 i = 0; i < piy; i++) ps[i + 1] = ps[i] + pr[i];
  for (u64 b = std::max<u64>(c, S->pi[sqrty]); b < piy; b++)
  {
    u64 p = pr[b];
    u128 xp = x / p;
    // trivial: floor(x/(pq)) < p <=> q > floor(x/p^2)
    u128 t = xp / p;
    u64 from = (u64) std::max<u128>(std::min<u128>(t, y), p);
    u64 k = S->pi[from];
    if (k < piy) { R.triv += Big(p) * Big(ps[piy] - ps[k]); R.nt += piy - k; }
    if (!easy) continue;
    // easy: p <= floor(x/(pq)) < y and q > p, q <= y
    // floor(x/(pq)) < y <=> q > floor(x/(p*y))
    u64 lo = (u64) std::max<u128>(p, std::min<u128>(xp / y, y));
    u128 acc = 0;
    for (u64 l = S->pi[lo]; l < k; l++)
    {
      u64 q = pr[l];
      u64 v = (xp >> 64) ? (u64) (xp / q) : (u64) xp / q;
      acc += (u128) q * (1 + S->sum[v] - S->sum[p - 1]);
      R.ne++;
    }
    R.easy += Big(p) * big(acc);
  }
  if (!hard) return;
  // hard: p <= sqrt(y), or floor(x/n) >= y;  phi_sum by sieving [1, z] with a Fenwick tree
  std::vector<u64> fw(z + 1, 0);
  std::vector<char> alive(z + 1, 1);
  for (u64 i = 1; i <= z; i++)
    for (int j = 0; j < c; j++) if (i % P[j] == 0) { alive[i] = 0; break; }
  for (u64 i = 1; i <= z; i++) { if (alive[i]) fw[i] += i; u64 j = i + (i & -i); if (j <= z) fw[j] += fw[i]; }
  auto query = [&](u64 i) { u64 s = 0; for (; i; i &= i - 1) s += fw[i]; return s; };
  auto remove = [&](u64 v) { for (u64 i = v; i <= z; i += i & -i) fw[i] -= v; };
  for (u64 b = c; b < piy; b++)
  {
    u64 p = pr[b];
    u128 xp = x / p;
    i128 acc = 0;
    if (p <= sqrty)
    {
      for (u64 m = y / p + 1; m <= y; m++)
      {
        if (!S->mu[m] || S->lpf[m] <= p || m == 1) continue;
        acc -= (i128) query((u64) (xp / m)) * (i128) m * S->mu[m];
        R.nh++;
      }
    }
    else
    {
      // floor(x/(pq)) >= y <=> q <= floor(x/(p*y))
      u64 hi = (u64) std::min<u128>(xp / y, y);
      if (hi <= p) break;
      for (u64 l = b + 1; l < piy && pr[l] <= hi; l++) { acc += (i128) query((u64) (xp / pr[l])) * pr[l]; R.nh++; }
    }
    R.hard += bigs(acc) * p;
    for (u64 i = p; i <= z; i += p) if (alive[i]) { alive[i] = 0; remove(i); }
  }
}

static Big p2_def(u64 x, u64 y, u64* n)
{
  Big r = 0;
  u64 sq = u64root(x);
  if (sq <= y) return r;
  auto pr = orc::primes_in(y + 1, sq);
  if (pr.empty()) return r;
  if (x / pr[0] <= S->n)
  {
    for (u64 p : pr) r += Big(p) * Big(S->sum[x / p] - S->sum[p - 1]);
  }
  else
  {
    orc::Lucy L(x);
    for (u64 p : pr) r += Big(p) * big(L.at_k(p) - L.lo[p - 1]);
  }
  *n = pr.size();
  return r;
}

// P2 for x beyond 64 bits and y close to sqrt(x): sums of primes from a known value
static Big p2_wide(u128 x, u64 y, orc::Truth& T, u64* n)
{
  Big r = 0;
  u64 sq = u64root(x);
  auto pr = orc::primes_in(y + 1, sq);
  u64 zz = (u64) (x / (y + 1));
  u64 a = T.nearest(sq).first;
  u64 lo = std::min(a, y), hi = std::max(a, zz);
  auto all = orc::primes_in(lo + 1, hi);
  std::vector<u128> pre(all.size() + 1, 0);
  for (size_t i = 0; i < all.size(); i++) pre[i + 1] = pre[i] + all[i];
  auto upto = [&](u64 v) { return pre[std::upper_bound(all.begin(), all.end(), v) - all.begin()]; };
  u128 base = T.nearest(sq).second - upto(a);
  for (u64 p : pr) r += Big(p) * big((base + upto((u64) (x / p))) - (base + upto(p - 1)));
  *n = pr.size();
  return r;
}

static u64 iroot3(u128 x)
{
  u64 r = (u64) std::cbrt((double) x);
  while ((u128) r * r * r > x) r--;
  while ((u128) (r + 1) * (r + 1) * (r + 1) <= x) r++;
  return r;
}

int main(int argc, char** argv)
{
  install();
  Args A(argc, argv);
  u64 seed = A.u("seed", 1);
  std::string mode = A.get("mode", "narrow");
  auto threads = A.list("threads", "1");
  auto divs = A.list("div", "1");
  auto wides = A.list("wide", "0");
  double minx = A.num("minx", 1), maxx = A.num("maxx", 1e9), maxz = A.num("maxz", 3e6);
  int n = (int) A.num("n", 100);
  std::set<std::string> comps;
  for (auto& c : A.list("comps", "P2,S1,S2t,S2e,S2h,total")) comps.insert(c);
  std::string key = A.get("key", "comp");
  XSource X((u64) A.num("small", 5e6), A.get("truth"), seed, 2e10);
  S = &X.small;
  orc::Rng R(seed ^ 0x5eed);
  for (int i = 0; i < n; i++)
  {
    u128 x;
    u64 y;
    double alpha = 1;
    bool easy = true, hard = true;
    if (mode == "narrow")
    {
      int64_t v = R.below(3) == 0 ? X.special(maxx) : X.random(maxx);
      if (R.below(5) == 0) v = (int64_t) R.logu(1, 5000);
      if ((double) v < minx) v += (int64_t) minx;
      if (v < 1) v = 1;
      x = (u128) v;
      double x6 = std::pow((double) v, 1.0 / 6);
      switch (R.below(6))
      {
        case 0: alpha = 1; break;
        case 1: alpha = std::max(1.0, std::floor(x6 * (1 + 1e-12))); break;
        case 2: alpha = 1 + R.real() * 0.2 * (x6 - 1); break;
        case 3: alpha = primesum::get_alpha_deleglise_rivat((__int128) x); break;
        default: alpha = 1 + R.real() * (x6 - 1);
      }
      if (alpha < 1) alpha = 1;
      y = (u64) ((double) iroot3(x) * alpha);
      // the widest y the algorithms may be used with is sqrt(x)
      if (y > u64root(x)) y = u64root(x);
      if (y < 1) y = 1;
      if ((double) (x / y) > maxz || y > S->n) { i--; maxx *= 0.99; continue; }
    }
    else if (mode == "given")
    {
      x = orc::parse(A.get("x").c_str());
      y = A.u("y", 1);
      hard = (double) (x / y) <= maxz;
    }
    else
    {
      // x on both sides of 2^63 and 2^64 and far beyond
      hard = false;
      static const int bits[] = {62, 63, 64, 65, 66, 67, 70, 75, 80, 90, 100};
      int e = bits[R.below(mode == "wideeasy" ? 8 : 11)];
      x = (u128) 1 << e;
      switch (R.below(4))
      {
        case 0: x += R.below(1000); break;
        case 1: x -= R.below(1000) + 1; break;
        default: x += (u128) (R.real() * std::ldexp(1, e));
      }
      u64 r3 = iroot3(x);
      double d = A.num("easyspan", 0.05);
      alpha = mode == "wideeasy" ? 1 + R.real() * d * 6.5e6 / (double) std::max<u64>(r3, 1) : 1 + R.real() * 3;
      y = (u64) ((double) r3 * alpha);
      easy = mode == "wideeasy";
      if (mode == "widep2")
      {
        // sqrt(x) near an anchor
        u64 a;
        do a = R.pick(X.truth.a).first; while ((double) a < A.num("minroot", 1e9) || (double) a > A.num("maxroot", 4e9));
        x = (u128) a * a + R.below(2 * a);
        if (R.below(3) == 0) x = (u128) a * a - 1 - R.below(5);
        y = u64root(x) - R.logu(1, A.num("span", 5e7));
        if (R.below(4) == 0) y = u64root(x) - R.below(100);
      }
      else if (mode == "wides1")
      {
        // ordinary leaves are defined for any y: x up to the limit of the program and beyond
        x = (((u128) R.next() << 64) | R.next()) >> R.range(24, 68);
        if (R.below(4) == 0) x = ((u128) 1 << R.range(60, 104)) + R.below(3) - 1;
        y = R.logu(1, std::min((double) S->n, (double) x));
      }
      else if (y > S->n) { i--; continue; }
    }
    u64 z = (u64) (x / y);
    int c = (int) primesum::PhiTiny::get_c((int64_t) std::min<u64>(y, (u64) 1 << 62));
    int t = 1;
    { std::string ts = R.pick(threads); t = ts == "rand" ? (int) R.range(1, 16) : atoi(ts.c_str()); }
    std::string ds = R.pick(divs);
    int64_t div = ds == "rand" ? (int64_t) R.logu(1, 2e6) : atoll(ds.c_str());
    int wide = atoi(R.pick(wides).c_str());
#ifdef PRIMESUM_VERIF
    primesum::verif::hooks().divisor = div;
    primesum::verif::hooks().wide = wide;
#endif
    std::string cfg = fmt("x=%s y=%llu z=%llu c=%d threads=%d divisor=%lld wide=%d", orc::str(x).c_str(), (unsigned long long) y,
                          (unsigned long long) z, c, t, (long long) div, wide);
    Parts D;
    if (mode != "widep2") leaves(x, y, c, easy && (comps.count("S2e") || comps.count("total")), hard && (comps.count("S2h") || comps.count("total")), D);
    auto cmp = [&](const char* name, const Big& want, std::function<primesum::int256_t()> f, u64 leaves) {
      at("%s %s", name, cfg.c_str());
      std::string got;
      try { got = str(f()); } catch (std::exception& e) { got = std::string("exception: ") + e.what(); }
      eval(1, leaves ? 1 : 0);
      count(std::string(name) + "_compared");
      if (leaves) { count(std::string(name) + "_nonempty"); count(std::string(name) + "_leaves", leaves); }
      if (wide) count("forced_wide_runs");
      if (x >> 63) count("x_beyond_63_bits");
      if (x >> 64) count("x_beyond_64_bits");
      if (t > 1) count("runs_with_threads_gt_1");
      if (got != bstr(want))
        violation(key + ":" + name + ":" + orc::str(x) + ":" + std::to_string(y),
                  fmt("%s: %s gave %s, definition gives %s", cfg.c_str(), name, got.c_str(), bstr(want).c_str()));
    };
    primesum::int128_t xx = (primesum::int128_t) x;
    if (mode != "widep2")
    {
      if (comps.count("S1")) cmp("S1", D.s1, [&] { return primesum::S1(xx, (int64_t) y, c, t); }, D.n1);
      if (comps.count("S2t") && mode != "wides1") cmp("S2_trivial", D.triv, [&] { return primesum::S2_trivial(xx, (int64_t) y, (int64_t) z, c, t); }, D.nt);
      if (easy && comps.count("S2e")) cmp("S2_easy", D.easy, [&] { return primesum::S2_easy(xx, (int64_t) y, (int64_t) z, c, t); }, D.ne);
      if (hard && comps.count("S2h")) cmp("S2_hard", D.hard, [&] { return primesum::S2_hard(xx, (int64_t) y, (int64_t) z, c, t); }, D.nh);
    }
    if (comps.count("P2") && (mode == "narrow" || mode == "widep2" || (mode == "given" && !(x >> 63))))
    {
      D.p2 = mode == "widep2" ? p2_wide(x, y, X.truth, &D.n2) : p2_def((u64) x, y, &D.n2);
      cmp("P2", D.p2, [&] { return primesum::P2(xx, (int64_t) y, t); }, D.n2);
    }
    if (comps.count("total") && mode == "narrow")
    {
      // the identity, on the definitions (checks the oracle too)
      std::string want = X.sum((int64_t) x);
      Big tot = D.s1 + D.triv + D.easy + D.hard + Big(S->sum[y]) - 1 - D.p2;
      if (!want.empty())
      {
        eval(1, 0);
        count("identity_checked");
        if (bstr(tot) != want)
        {
          fprintf(stderr, "ORACLE ERROR %s: %s but %s\n", cfg.c_str(), bstr(tot).c_str(), want.c_str());
          return 3;
        }
      }
    }
    if (i % std::max(1, n / 3) == 0)
      sample(cfg + fmt(" leaves: ordinary %llu trivial %llu easy %llu hard %llu P2 %llu", (unsigned long long) D.n1,
             (unsigned long long) D.nt, (unsigned long long) D.ne, (unsigned long long) D.nh, (unsigned long long) D.n2));
  }
  return finish();
}
