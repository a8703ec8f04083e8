// Oracle: the primes and prime k-tuplets of a window.
#ifndef VERIF_WINDOW_HPP
#define VERIF_WINDOW_HPP
#include "oracle.hpp"
#include <algorithm>
#include <string>
#include <vector>
namespace orc {
// the two kinds of offsets of each constellation
static const std::vector<std::vector<std::vector<u64>>> SHAPES = {
  {{0}}, {{0, 2}}, {{0, 2, 6}, {0, 4, 6}}, {{0, 2, 6, 8}}, {{0, 2, 6, 8, 12}, {0, 4, 6, 10, 12}}, {{0, 4, 6, 10, 12, 16}}};
static const char* NAMES[] = {"primes", "twins", "triplets", "quadruplets", "quintuplets", "sextuplets"};

struct Window
{
  u64 a, b;
  std::vector<u64> p;
  std::vector<std::pair<u64, u64>> tup[6];   // first and last member, ordered
  Window(u64 a_, u64 b_) : a(a_), b(b_)
  {
    u64 lim = isqrt(b);
    if (lim <= 40000000)
    {
      static std::vector<uint32_t> base;
      static u64 done = 0;
      if (done < lim) { done = std::max<u64>(lim + 1000, 2000000); base = small_primes(done); }
      std::vector<char> c;
      for (u64 lo = std::max<u64>(a, 2); lo <= b; )
      {
        u64 hi = std::min(b, lo + (1 << 20) - 1);
        c.assign(hi - lo + 1, 0);
        for (u64 q : base)
        {
          if (q * q > hi) break;
          u64 i = lo <= q * q ? q * q - lo : (q - lo % q) % q;
          for (; i <= hi - lo; i += q) c[i] = 1;
        }
        for (u64 i = 0; i <= hi - lo; i++) if (!c[i]) p.push_back(lo + i);
        lo = hi + 1;
      }
    }
    else p = primes_in(a, b);
    for (int k = 1; k < 6; k++)
      for (size_t i = 0; i < p.size(); i++)
        for (auto& s : SHAPES[k])
        {
          // consecutive differences in a list of primes are unique for each shape
          size_t j = i;
          bool ok = true;
          for (u64 o : s) { while (j < p.size() && p[j] - p[i] < o) j++; ok = ok && j < p.size() && p[j] - p[i] == o; }
          if (ok) tup[k].push_back({p[i], p[i] + s.back()});
        }
  }
  size_t first(u64 x) const { return (size_t) (std::lower_bound(p.begin(), p.end(), x) - p.begin()); }    // first index with p >= x
  size_t after(u64 x) const { return (size_t) (std::upper_bound(p.begin(), p.end(), x) - p.begin()); }
  u64 count(int k, u64 start, u64 stop) const
  {
    if (start > stop) return 0;
    if (k == 0) return after(stop) - first(start);
    u64 n = 0;
    auto it = std::lower_bound(tup[k].begin(), tup[k].end(), std::make_pair(start, (u64) 0));
    for (; it != tup[k].end() && it->first <= stop; ++it) n += it->second <= stop;
    return n;
  }
  // as printed
  std::string text(int k, u64 start, u64 stop) const
  {
    std::string o;
    if (start > stop) return o;
    if (k == 0) { for (size_t i = first(start); i < p.size() && p[i] <= stop; i++) o += std::to_string(p[i]) + "\n"; return o; }
    for (size_t i = first(start); i < p.size() && p[i] <= stop; i++)
      for (auto& s : SHAPES[k])
      {
        bool ok = s.back() <= stop && p[i] <= stop - s.back();
        for (u64 x : s) ok = ok && std::binary_search(p.begin(), p.end(), p[i] + x);
        if (!ok) continue;
        o += "(";
        for (size_t j = 0; j < s.size(); j++) o += (j ? ", " : "") + std::to_string(p[i] + s[j]);
        o += ")\n";
      }
    return o;
  }
};

} // namespace orc
#endif
