// BitSieve, Wheel, BinaryIndexedTree
#include "hb.hpp"
#include <primesum-internal.hpp>
#include <BitSieve.hpp>
#include <Wheel.hpp>
#include <BinaryIndexedTree.hpp>
using namespace hv;
using namespace orc;
typedef primesum::int128_t S128;

static const u64 P10[] = {0, 2, 3, 5, 7, 11, 13, 17, 19, 23};

static std::string s128(S128 v) { return str((i128) v); }

// model: bit i stands for the number low + 2 i
static void bitsieve(Args& a, Rng& r)
{
  int n = (int) a.num("n", 300);
  double maxlow = a.num("maxlow", 4.6e18);
  for (int it = 0; it < n; it++)
  {
    u64 size = r.below(3) ? 2 * r.range(1, 300) : 1ull << r.range(1, 16);
    if (r.below(6) == 0) size = 128 * r.range(1, 300);
    u64 low = r.below(3) ? r.logu(1, maxlow) | 1 : 1 + r.below(4000) * 2;
    if (r.below(8) == 0) low = (u64) (((1ull << r.range(3, 61)) + r.below(1000) - 500) | 1);
    if ((double) low > maxlow) low = 1;
    if (low + size > 1ull << 62) low = (1ull << 62) - size - 1;   // the limit of the algorithms
    low |= 1;
    u64 c = r.below(10);
    at("BitSieve size=%llu low=%llu c=%llu", (unsigned long long) size, (unsigned long long) low, (unsigned long long) c);
    primesum::BitSieve sv(size);
    HB_CHECK(sv.size() == size, "bitsieve:size", "size() = %zu, constructed with %llu", sv.size(), (unsigned long long) size);
    if (r.below(2)) for (int j = 0; j < 40; j++) sv.set(2 * r.below(size / 2));   // stale contents
    sv.pre_sieve(c, low);
    std::vector<char> m(size / 2);
    for (u64 i = 0; i < size / 2; i++)
    {
      m[i] = 1;
      for (u64 k = 2; k <= c; k++) if ((low + 2 * i) % P10[k] == 0) m[i] = 0;
      if ((bool) m[i] != sv[2 * i])
      {
        violation("pre_sieve", fmt("BitSieve(%llu).pre_sieve(%llu, %llu): the bit of %llu is %d", (unsigned long long) size,
          (unsigned long long) c, (unsigned long long) low, (unsigned long long) (low + 2 * i), (int) sv[2 * i]));
        return;
      }
    }
    eval(1, 1);
    count("pre_sieves");
    // changes
    int ch = (int) r.below(200);
    for (int j = 0; j < ch; j++)
    {
      u64 i = r.below(size / 2);
      if (r.below(3) == 0) { sv.set(2 * i); m[i] = 1; } else { sv.unset(2 * i); m[i] = 0; }
    }
    for (u64 i = 0; i < size / 2; i++)
      if ((bool) m[i] != sv[2 * i]) { violation("bitsieve:bits", fmt("after set/unset: bit %llu of size %llu", (unsigned long long) (2 * i), (unsigned long long) size)); return; }
    std::vector<u128> pre(size / 2 + 1, 0);
    for (u64 i = 0; i < size / 2; i++) pre[i + 1] = pre[i] + (m[i] ? (u128) (low + 2 * i) : 0);
    auto truth = [&](u64 start, u64 stop) -> u128    // positions
    {
      u64 i = (start + 1) / 2, j = stop / 2;          // first and last bit
      return i > j ? 0 : pre[j + 1] - pre[i];
    };
    for (int j = 0; j < 60; j++)
    {
      u64 s1 = r.below(size - 1), s2 = r.below(size - 1);
      if (j % 3 == 0) s2 = std::min(size - 2, s1 + r.below(140));
      if (j == 1) { s1 = 0; s2 = size - 2; }
      if (j % 4 != 3 && s1 > s2) std::swap(s1, s2);
      if (r.below(2)) { s1 &= ~1ull; s2 &= ~1ull; }   // otherwise positions between two bits too
      S128 g = sv.sum(low, s1, s2);
      u128 t = s1 > s2 ? 0 : truth(s1, s2);
      HB_CHECK(g == (S128) t, "bitsieve:sum", "BitSieve(%llu).sum(low %llu, %llu, %llu) = %s, expected %s", (unsigned long long) size,
        (unsigned long long) low, (unsigned long long) s1, (unsigned long long) s2, s128(g).c_str(), str(t).c_str());
      // the variant that sums from the nearer end, [low, high[ within the sieve
      u64 high = low + size - 2 * r.below(std::min<u64>(size / 2, 20));
      if (s2 + low < high)
      {
        S128 all = sv.sum(low, 0, (high - 1) - low);
        HB_CHECK(all == (S128) truth(0, (high - 1) - low), "bitsieve:sumall", "sum(low %llu, 0, %llu) = %s", (unsigned long long) low,
          (unsigned long long) (high - 1 - low), s128(all).c_str());
        S128 before = s1 ? (S128) truth(0, s1 - 1) : 0;
        S128 g2 = sv.sum(s1, s2, low, high, before, all);
        HB_CHECK(g2 == (S128) t, "bitsieve:sum2", "BitSieve(%llu).sum(%llu, %llu, low %llu, high %llu) = %s, expected %s", (unsigned long long) size,
          (unsigned long long) s1, (unsigned long long) s2, (unsigned long long) low, (unsigned long long) high, s128(g2).c_str(), str(t).c_str());
      }
      eval(2, 2);
      count("sieve_sums", 2);
    }
  }
}
static HbReg r1("bitsieve", bitsieve);

static void wheel(Args& a, Rng& r)
{
  int n = (int) a.num("n", 300);
  auto sp = small_primes(200000);
  std::vector<int32_t> primes = {0};
  for (auto p : sp) primes.push_back((int32_t) p);
  auto cop = [](u64 v) { return v % 2 && v % 3 && v % 5 && v % 7; };
  for (int it = 0; it < n; it++)
  {
    i64 size = (i64) (r.below(3) ? r.range(1, 60) : r.logu(2, (double) primes.size()));
    i64 low = r.below(3) ? (i64) r.logu(1, 4e18) : (i64) r.below(5000);
    if (low < 1) low = 1;
    at("Wheel size=%lld low=%lld", (long long) size, (long long) low);
    primesum::Wheel w(primes, size, low);
    for (i64 b = 1; b < size; b++)
    {
      i64 p = primes[b];
      u64 q = ((u64) low + p - 1) / p;
      while (!cop(q)) q++;
      i64 m = w[b].next_multiple;
      if ((u64) m != q * (u64) p)
      {
        violation("wheel:first", fmt("Wheel(low %lld): first multiple of %lld is %lld, expected %llu", (long long) low, (long long) p, (long long) m, (unsigned long long) (q * p)));
        return;
      }
      if (b < 50 || r.below(50) == 0)
      {
        i64 idx = w[b].wheel_index;
        for (int k = 0; k < 60 && q < (1ull << 61) / p; k++)
        {
          i64 f = primesum::Wheel::next_multiple_factor(&idx);
          u64 q2 = q + 1;
          while (!cop(q2)) q2++;
          m += p * f;
          if ((u64) m != q2 * (u64) p) { violation("wheel:next", fmt("multiple of %lld after %llu: %lld, expected %llu", (long long) p, (unsigned long long) (q * p), (long long) m, (unsigned long long) (q2 * p))); return; }
          q = q2;
          count("wheel_steps");
        }
      }
      w[b].set(m, 7);
      HB_CHECK(w[b].next_multiple == m && w[b].wheel_index == 7, "wheel:set", "WheelItem::set");
    }
    eval(1, size > 1);
    count("wheels");
  }
}
static HbReg r2("wheel", wheel);

static void tree(Args& a, Rng& r)
{
  int n = (int) a.num("n", 200);
  for (int it = 0; it < n; it++)
  {
    u64 size = r.below(2) ? 1ull << r.range(1, 12) : 2 * r.range(1, 1500);
    i64 low = (i64) (r.below(2) ? r.logu(1, 4e18) : r.below(1000)) | 1;
    at("BinaryIndexedTree size=%llu low=%lld", (unsigned long long) size, (long long) low);
    primesum::BitSieve sv(size);
    sv.pre_sieve(1 + r.below(9), (u64) low);
    std::vector<char> m(size / 2);
    for (u64 i = 0; i < size / 2; i++) m[i] = sv[2 * i];
    primesum::BinaryIndexedTree t;
    if (r.below(2)) { primesum::BitSieve o(2 * r.range(1, 700)); o.pre_sieve(2, 1); t.init(o, 1); }   // used before
    t.init(sv, low);
    for (int step = 0; step < 60; step++)
    {
      // cross off some elements which are set
      for (int k = 0; k < 6; k++)
      {
        u64 i = r.below(size / 2);
        if (m[i]) { m[i] = 0; t.update(low + 2 * (i64) i, low); }
      }
      u64 i = step == 0 ? size / 2 - 1 : r.below(size / 2);
      S128 e = 0;
      for (u64 j = 0; j <= i; j++) if (m[j]) e += (S128) low + 2 * j;
      i64 pos = (i64) (2 * i + (2 * i + 1 < size && r.below(2)));
      S128 g = t.sum(pos);
      HB_CHECK(g == e, "tree:sum", "BinaryIndexedTree size %llu low %lld: sum(%lld) = %s, expected %s", (unsigned long long) size, (long long) low,
               (long long) pos, s128(g).c_str(), s128(e).c_str());
      eval(1, 1);
      count("tree_sums");
    }
  }
}
static HbReg r3("tree", tree);
