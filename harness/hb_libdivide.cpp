// the divider used by S2_easy
#include "hb.hpp"
#include <libdivide.h>
using namespace hv;
using namespace orc;
static void ldiv(Args& a, Rng& r)
{
  int n = (int) a.num("n", 3000);
  for (int i = 0; i < n; i++)
  {
    u64 d = r.below(3) ? r.logu(2, 4e9) : r.next() >> r.below(63);
    if (r.below(4) == 0) d = (1ull << r.range(1, 63)) + r.below(3) - 1;
    if (r.below(8) == 0) d = 2 + r.below(1000);
    if (d < 2) d = 2;
    at("libdivide %llu", (unsigned long long) d);
    libdivide::branchfree_divider<uint64_t> f(d);
    for (int j = 0; j < 40; j++)
    {
      u64 x = r.next() >> r.below(64);
      if (j % 3 == 0) x = x / d * d - (r.below(2));
      if (j == 1) x = ~0ull;
      if (j == 2) x = d;
      u64 g = x / f;
      HB_CHECK(g == x / d, "libdivide", "%llu / %llu = %llu", (unsigned long long) x, (unsigned long long) d, (unsigned long long) g);
      eval(1, 1);
      count("libdivide_divisions");
    }
  }
}
static HbReg r1("libdivide", ldiv);
