// primesum's partial sums and tables
#include "oom.hpp"
#include <primesum-internal.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <generate.hpp>
#include <PhiTiny.hpp>
#include <S1.hpp>
#include <S2.hpp>
#ifdef PRIMESUM_VERIF
  #include <primesum_verif.hpp>
#endif
#include <sstream>
using namespace oom;
typedef primesum::int128_t I;
template <class T> static std::string str(const T& v) { using namespace primesum; Off off; std::ostringstream o; o << v; return o.str(); }

static void make(Calls& v, orc::Rng& r)
{
  for (int i = 0; i < 3; i++)
  {
    int64_t x = (int64_t) r.logu(10, 1e8);
    int64_t r3 = (int64_t) std::cbrt((double) x), r2 = (int64_t) std::sqrt((double) x);
    int64_t y = (int64_t) r.range((uint64_t) std::max<int64_t>(r3, 1), (uint64_t) std::max<int64_t>(r3, r2));
    int64_t z = x / y;
    int c = (int) primesum::PhiTiny::get_c(y);
    int t = (int) r.pick(std::vector<int>{1, 1, 2, 3, 4, 8});
    int64_t div = r.below(2) ? 1 : (int64_t) r.logu(1, 1e6);
    int wide = r.below(2) ? 0 : (int) r.below(4);
    std::string cfg = hv::fmt(" x=%lld y=%lld threads=%d divisor=%lld wide=%d", (long long) x, (long long) y, t, (long long) div, wide);
    auto add = [&](const std::string& what, std::function<std::string()> f, double w = 1)
    {
      v.push_back({what + cfg, [=] {
#ifdef PRIMESUM_VERIF
        primesum::verif::hooks().divisor = div;
        primesum::verif::hooks().wide = wide;
#endif
        return f(); }, w});
    };
    add("P2", [=] { return str(primesum::P2((I) x, y, t)); });
    add("S1", [=] { return str(primesum::S1((I) x, y, c, t)); });
    add("S2_trivial", [=] { return str(primesum::S2_trivial((I) x, y, z, c, t)); });
    add("S2_easy", [=] { return str(primesum::S2_easy((I) x, y, z, c, t)); });
    add("S2_hard", [=] { return str(primesum::S2_hard((I) x, y, z, c, t)); }, 2);
    int64_t n = (int64_t) r.logu(1, 1e5);
    auto gen = [&](const char* name, std::function<std::vector<int32_t>()> f)
    { v.push_back({std::string(name) + " " + std::to_string(n), [=] { auto p = f(); Off off; return text(p); }, 1}); };
    gen("generate_primes", [=] { return primesum::generate_primes(n); });
    gen("generate_n_primes", [=] { return primesum::generate_n_primes(n); });
    gen("generate_moebius", [=] { return primesum::generate_moebius(n); });
    gen("generate_lpf", [=] { return primesum::generate_lpf(n); });
    gen("generate_pi", [=] { return primesum::generate_pi(n); });
  }
}
static Maker m(make);
