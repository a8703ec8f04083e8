// Prints partial sums of generated (x, y).  It is built twice, with primesum's integer types and with
// types of half the size (scaled/scaled_types.hpp): both must print the same.
#include "hv.hpp"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <S1.hpp>
#include <S2.hpp>
#include <PhiTiny.hpp>
#include <imath.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <primesum_verif.hpp>
#include <iostream>
#include <sstream>
#ifdef SCALED
  typedef w64_t I64;
  typedef w128_t I128;
  typedef w256_t I256;
  using primesum::operator<<;
#else
  typedef int64_t I64;
  typedef primesum::int128_t I128;
  typedef primesum::int256_t I256;
#endif
using namespace hv;

static std::string str(const I256& v) { std::ostringstream o; o << v; return o.str(); }

int main(int argc, char** argv)
{
  install();
  Args A(argc, argv);
  orc::Rng r(A.u("seed", 1));
  double minx = A.num("minx", 1e6), maxx = A.num("maxx", 1e11);
  int n = (int) A.num("n", 20);
  bool alphas = A.u("alphas", 1);
  for (int i = 0; i < n; i++)
  {
    double v = minx * std::pow(maxx / minx, r.real());
    int64_t x = (int64_t) v;
    if (r.below(4) == 0) x = ((int64_t) 1 << (int) std::log2(v)) + (int64_t) r.below(3) - 1;
    double x6 = std::pow((double) x, 1.0 / 6), a;
    uint64_t kind = r.below(6);
    double u = r.real();
    a = kind == 0 ? 1 : kind == 1 ? x6 : kind < 4 ? 1 + u * (x6 - 1) : 1 + u * (std::min(x6, 12.0) - 1);
    if (!alphas) a = 1 + u * 3;
    int64_t y = (int64_t) (std::cbrt((double) x) * a);
    while ((double) y * (double) y > (double) x) y--;
    int64_t z = x / y;
    int t = r.below(3) ? (int) r.range(1, 9) : 1;
    int64_t div = r.below(2) ? 1 : (int64_t) r.logu(1, 1e5);
    int64_t c = r.below(3) ? 6 : (int64_t) r.below(7);
    uint64_t comp = r.below(6);
    int64_t pa = (int64_t) r.below(40);
    c = std::min<int64_t>(c, primesum::PhiTiny::get_c((I64) y));
    if (comp > 1 && comp < 5) c = primesum::PhiTiny::get_c((I64) y);
    primesum::verif::hooks().divisor = (I64) div;
    std::string what;
    at("part %d x %lld y %lld c %lld threads %d divisor %lld", (int) comp, (long long) x, (long long) y, (long long) c, t, (long long) div);
    std::string res;
    try
    {
      switch (comp)
      {
        case 0: what = "P2"; res = str(primesum::P2((I128) x, (I64) y, t)); break;
        case 1: what = "S1"; res = str(primesum::S1((I128) x, (I64) y, (I64) c, t)); break;
        case 2: what = "S2_trivial"; res = str(primesum::S2_trivial((I128) x, (I64) y, (I64) z, (I64) c, t)); break;
        case 3: what = "S2_easy"; res = str(primesum::S2_easy((I128) x, (I64) y, (I64) z, (I64) c, t)); break;
        case 4: what = "S2_hard"; res = str(primesum::S2_hard((I128) x, (I64) y, (I64) z, (I64) c, t)); break;
        default: what = "phi_sum"; res = str(primesum::phi_sum((I128) x, (I64) pa)); break;
      }
    }
    catch (std::exception& e) { res = std::string("exception: ") + e.what(); }
    printf("R %s(x=%lld,y=%lld,c=%lld,a=%lld,threads=%d,divisor=%lld) %s\n", what.c_str(), (long long) x, (long long) y, (long long) c, (long long) pa, t, (long long) div, res.c_str());
  }
  printf("DONE\n");
  return 0;
}
