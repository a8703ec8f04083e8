// primesum's public and internal functions
#include "oom.hpp"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <generate.hpp>
#ifdef PRIMESUM_VERIF
  #include <primesum_verif.hpp>
#endif
#include <sstream>
using namespace oom;
typedef primesum::int128_t I;

template <class T> static std::string str(const T& v) { using namespace primesum; Off off; std::ostringstream o; o << v; return o.str(); }
static void set(int64_t div, int wide)
{
#ifdef PRIMESUM_VERIF
  primesum::verif::hooks().divisor = div;
  primesum::verif::hooks().wide = wide;
#endif
}

static void make(Calls& v, orc::Rng& r)
{
  double top = std::pow(10.0, 3 + r.real() * 4.5);
  auto X = [&](double t) { return (int64_t) r.logu(2, t); };
  auto add = [&](const std::string& what, std::function<std::string()> f, double w = 1)
  {
    int64_t div = r.below(2) ? 1 : (int64_t) r.logu(1, 1e6);
    int wide = r.below(3) ? 0 : (int) r.below(4);
    double alpha = r.below(2) ? -1 : 1 + r.real() * 6;
    v.push_back({what + hv::fmt(" divisor=%lld wide=%d alpha=%.3f", (long long) div, wide, alpha),
                 [=] { set(div, wide); if (alpha > 0) primesum::set_alpha(alpha); else { Off o; primesum::set_alpha(-1); } return f(); }, w});
  };
  for (int i = 0; i < 3; i++)
  {
    int t = (int) r.pick(std::vector<int>{1, 1, 2, 3, 4, 8});
    std::string T = " threads=" + std::to_string(t);
    int64_t x = X(top);
    double alpha_ = 1 + r.real() * 1e5;
    auto n = [&](const char* f) { return std::string(f) + " x=" + std::to_string(x) + T; };
    add(n("pi"), [=] { return str(primesum::pi((I) x, t)); });
    add(n("pi_deleglise_rivat"), [=] { return str(primesum::pi_deleglise_rivat((I) x, t)); }, 3);
    add(n("pi_deleglise_rivat_parallel1"), [=] { return str(primesum::pi_deleglise_rivat_parallel1((I) x, t)); }, 2);
    add(n("pi_lmo"), [=] { return str(primesum::pi_lmo((I) x, t)); });
    add(n("pi_lmo_parallel1"), [=] { return str(primesum::pi_lmo_parallel1((I) x, t)); }, 3);
    add("get_max_x", [=] { return primesum::get_max_x(alpha_); });
    x = (int64_t) r.logu(1e3, 3e10);
    add(n("pi(string)"), [=] { std::string s; { Off o; s = std::to_string(x); } return primesum::pi(s, t); });
    x = X(1e5);
    add(n("pi_lmo1"), [=] { return str(primesum::pi_lmo1((I) x)); });
    x = X(1e6);
    add(n("pi_lmo2"), [=] { return str(primesum::pi_lmo2(x)); });
    add(n("pi_lmo3"), [=] { return str(primesum::pi_lmo3(x)); });
    x = X(1e7);
    add(n("pi_lmo4"), [=] { return str(primesum::pi_lmo4(x)); });
    add(n("pi_lmo5"), [=] { return str(primesum::pi_lmo5(x)); });
    x = X(1e7);
    add(n("pi_legendre"), [=] { return str(primesum::pi_legendre(x, t)); });
    int64_t a = (int64_t) r.logu(1, 2000);
    add(n("phi") + " a=" + std::to_string(a), [=] { return str(primesum::phi(x, a, t)); }, 2);
    int64_t b = (int64_t) r.logu(1, 60), y = X(1e6);
    add("phi_sum x=" + std::to_string(y) + " a=" + std::to_string(b), [=] { return str(primesum::phi_sum((int64_t) y, b)); });
    add("phi_sum(int128) x=" + std::to_string(y) + " a=" + std::to_string(b), [=] { return str(primesum::phi_sum((I) y, b)); });
    add("prime_sum_tiny x=" + std::to_string(y), [=] { return str(primesum::prime_sum_tiny(y)); });
    int64_t k = (int64_t) r.range(1, 9);
    add("nth_prime n=" + std::to_string(k), [=] { return str(primesum::nth_prime(k)); });
    std::string e = "3*(" + std::to_string(x) + "+2)^2%1000+((1<<20)-0x" + std::to_string(y) + ")/7";
    add("to_int128 " + e, [=] { return str(primesum::to_int128(e)); });
    add("pi(string) bad", [=]() -> std::string {
      try { primesum::pi(std::string("12345678901234567890123456789012345678901234567890+)")); }
      catch (std::bad_alloc&) { throw; }
      catch (std::exception&) { return "refused"; }
      return "no error";
    });
  }
}
static Maker m(make);
