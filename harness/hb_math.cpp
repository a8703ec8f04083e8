// integer roots, powers, divisions and other helpers
#include "hb.hpp"
#include <primesum-internal.hpp>
#include <imath.hpp>
#include <isqrt.hpp>
#include <fast_div.hpp>
#include <min_max.hpp>
#include <popcnt.hpp>
#include <SumBits.hpp>
using namespace hv;
using namespace orc;
typedef primesum::int128_t S128;
typedef primesum::uint128_t U128;

static std::string s(S128 v) { return str((i128) v); }
static std::string s(U128 v) { return str((u128) v); }

// r^n <= x, without overflow
static bool pow_le(u128 r, int n, u128 x)
{
  u128 v = 1;
  for (int i = 0; i < n; i++)
  {
    if (r && v > x / r) return false;
    v *= r;
  }
  return v <= x;
}
// exact integer root by bisection
static u128 root(u128 x, int n)
{
  u128 lo = 0, hi = (n == 2) ? ((u128) 1 << 64) : (n == 3) ? ((u128) 1 << 43) : ((u128) 1 << 34);
  while (hi - lo > 1) { u128 m = (lo + hi) / 2; if (pow_le(m, n, x)) lo = m; else hi = m; }
  return lo;
}
static u128 gen(Rng& r, int bits)
{
  u128 max = bits == 128 ? ~(u128) 0 : (((u128) 1 << bits) - 1);
  u128 v;
  switch (r.below(6))
  {
    case 0: v = r.below(3000); break;
    case 1: v = ((u128) 1 << r.below((u64) bits)) + r.below(5) - 2; break;
    case 2: { int n = (int) r.range(2, 6); u128 b = (u128) r.logu(2, std::pow(2.0, (double) bits / n)); v = 1; for (int i = 0; i < n; i++) v *= b; v += r.below(3); v -= 1; break; }
    case 3: v = max - r.below(1000); break;
    case 4: { u64 q = root(max, 2) - r.below(100000); v = (u128) q * q + r.below(5) - 2; break; }
    default: v = (((u128) r.next() << 64) | r.next()) >> r.below((u64) bits); break;
  }
  return v & max;
}
template <typename T, int BITS> static void roots(Rng& r, int n, const char* name)
{
  for (int i = 0; i < n; i++)
  {
    u128 v = gen(r, BITS);
    at("roots %s %s", name, str(v).c_str());
    T x = (T) v;
#define ONE(what, expr, N) do { u128 g = (u128) (expr); u128 e = root(v, N); \
      HB_CHECK(g == e, fmt("%s:%s", what, name), "%s<%s>(%s) = %s, expected %s", what, name, str(v).c_str(), str(g).c_str(), str(e).c_str()); } while (0)
    ONE("isqrt", primesum::isqrt(x), 2);
    ONE("iroot<2>", primesum::iroot<2>(x), 2);
    ONE("iroot<3>", primesum::iroot<3>(x), 3);
    ONE("iroot<4>", primesum::iroot<4>(x), 4);
    ONE("iroot<6>", primesum::iroot<6>(x), 6);
    eval(5, 5);
    count("roots", 5);
  }
}
template <typename T, int BITS> static void powers(Rng& r, int n, const char* name)
{
  for (int i = 0; i < n; i++)
  {
    u128 v = gen(r, BITS - 1);
    at("powers %s %s", name, str(v).c_str());
    u128 np = 1;
    while (np < v) np *= 2;
    u128 pp = 1;
    while (v && pp <= v / 2) pp *= 2;
    T g = primesum::next_power_of_2((T) v);
    if (np <= ((u128) 1 << (BITS - 2)))
      HB_CHECK((u128) g == np, fmt("next_power_of_2:%s", name), "next_power_of_2(%s) = %s", str(v).c_str(), str((u128) g).c_str());
    if (v)
    {
      T p = primesum::prev_power_of_2((T) v);
      HB_CHECK((u128) p == pp, fmt("prev_power_of_2:%s", name), "prev_power_of_2(%s) = %s", str(v).c_str(), str((u128) p).c_str());
      long double l = logl((long double) v);
      int e = (int) floorl(l);
      if (fabsl(l - roundl(l)) > 1e-9L)
        HB_CHECK(primesum::ilog((T) v) == e, fmt("ilog:%s", name), "ilog(%s) = %d", str(v).c_str(), primesum::ilog((T) v));
    }
    // ceil_div
    u128 b = gen(r, BITS - 2);
    if (!b) b = 1;
    if (v + b - 1 < ((u128) 1 << (BITS - 1)))
    {
      u128 e = v / b + (v % b != 0);
      u128 q = (u128) primesum::ceil_div((T) v, (T) b);
      HB_CHECK(q == e, fmt("ceil_div:%s", name), "ceil_div(%s, %s) = %s", str(v).c_str(), str(b).c_str(), str(q).c_str());
    }
    int ex = (int) r.below(7);
    u128 bm = gen(r, BITS / (ex + 1) - 1), pw = 1;
    if (ex > 0) for (int k = 0; k < ex; k++) pw *= bm;
    if (ex == 0 || pow_le(bm, ex, ((u128) 1 << (BITS - 1)) - 1))
      HB_CHECK((u128) primesum::ipow((T) bm, ex) == pw, fmt("ipow:%s", name), "ipow(%s, %d)", str(bm).c_str(), ex);
    eval(5, 5);
    count("powers", 5);
  }
}
template <typename X, typename Y, int BX, int BY> static void fdiv(Rng& r, int n, const char* name)
{
  for (int i = 0; i < n; i++)
  {
    u128 x = gen(r, BX), y = gen(r, BY);
    if (!y) y = 1 + r.below(100);
    at("fast_div %s %s %s", name, str(x).c_str(), str(y).c_str());
    u128 g = (u128) primesum::fast_div((X) x, (Y) y);
    HB_CHECK(g == x / y, fmt("fast_div:%s", name), "fast_div<%s>(%s, %s) = %s", name, str(x).c_str(), str(y).c_str(), str(g).c_str());
    eval(1, 1);
    count("fast_divs");
  }
}
static void math(Args& a, Rng& r)
{
  int n = (int) a.num("n", 3000);
  roots<int32_t, 31>(r, n, "int32_t");
  roots<uint32_t, 32>(r, n, "uint32_t");
  roots<int64_t, 63>(r, 3 * n, "int64_t");
  roots<uint64_t, 64>(r, n, "uint64_t");
  roots<S128, 127>(r, 3 * n, "int128_t");
  powers<int32_t, 32>(r, n, "int32_t");
  powers<int64_t, 64>(r, n, "int64_t");
  fdiv<int64_t, int32_t, 63, 31>(r, 2 * n, "int64_t,int32_t");
  fdiv<int64_t, int64_t, 63, 63>(r, 2 * n, "int64_t,int64_t");
  fdiv<uint64_t, uint32_t, 64, 32>(r, 2 * n, "uint64_t,uint32_t");
  fdiv<S128, int32_t, 127, 31>(r, 2 * n, "int128_t,int32_t");
  fdiv<S128, int64_t, 127, 63>(r, 2 * n, "int128_t,int64_t");
  fdiv<S128, uint32_t, 127, 32>(r, 2 * n, "int128_t,uint32_t");
  fdiv<S128, S128, 127, 127>(r, 2 * n, "int128_t,int128_t");
  fdiv<U128, uint64_t, 128, 64>(r, 2 * n, "uint128_t,uint64_t");
  // counting and summing bits
  primesum::SumBits* sb = new primesum::SumBits();
  for (int i = 0; i < (1 << 16); i++)
  {
    int e = 0;
    for (int b = 0; b < 16; b++) if (i >> b & 1) e += 2 * b;
    HB_CHECK((int) (*sb)[i] == e, "sumbits", "SumBits[%d] = %d", i, (int) (*sb)[i]);
  }
  delete sb;
  for (int i = 0; i < 4 * n; i++)
  {
    u64 v = i < 64 ? 1ull << i : r.next() >> r.below(64);
    u64 e = 0;
    for (u64 w = v; w; w &= w - 1) e++;
    HB_CHECK(popcnt64(v) == e, "popcnt64", "popcnt64(%llu) = %llu", (unsigned long long) v, (unsigned long long) popcnt64(v));
  }
  // min, max, in_between, binary search
  auto p = small_primes(3000);
  std::vector<int32_t> primes = {0};
  for (auto q : p) primes.push_back((int32_t) q);
  for (int i = 0; i < n; i++)
  {
    i64 x = (i64) r.below(3000), cnt = 0;
    for (auto q : p) if ((i64) q <= x) cnt++;
    HB_CHECK(primesum::pi_bsearch(primes, x) == cnt, "pi_bsearch", "pi_bsearch(%lld)", (long long) x);
    i64 u = (i64) (r.next() >> r.below(64)) * (r.below(2) ? 1 : -1), v = (i64) (r.next() >> r.below(64)) * (r.below(2) ? 1 : -1);
    i64 w = (i64) (r.next() >> r.below(64));
    S128 big = (S128) (u < 0 ? -u : u) * ((S128) 1 << r.below(60));
    HB_CHECK(primesum::min(u, v, w) == std::min(u, std::min(v, w)), "min3", "min(%lld, %lld, %lld)", (long long) u, (long long) v, (long long) w);
    HB_CHECK(primesum::max(u, v, w) == std::max(u, std::max(v, w)), "max3", "max(%lld, %lld, %lld)", (long long) u, (long long) v, (long long) w);
    HB_CHECK((S128) primesum::min(big, v) == (big < v ? big : (S128) v), "min128", "min(%s, %lld)", s(big).c_str(), (long long) v);
    HB_CHECK(primesum::max(big, v) == (big > v ? big : (S128) v), "max128", "max(%s, %lld)", s(big).c_str(), (long long) v);
    i64 lo = std::min(v, w), hi = std::max(v, w);
    i64 e = u < lo ? lo : u > hi ? hi : u;
    HB_CHECK(primesum::in_between(lo, u, hi) == e, "in_between", "in_between(%lld, %lld, %lld)", (long long) lo, (long long) u, (long long) hi);
    eval(6, 1);
  }
  (void) s((U128) 0);
}
static HbReg r1("math", math);
