#define calculator calculator_of_primesieve
#include <primesieve/calculator.hpp>
#include "hv.hpp"
using namespace orc;
template <typename T> static std::string ev(const std::string& e)
{
  try { T v = calculator::eval<T>(e); return "ok " + str((i128) v); }
  catch (const calculator::error& x) { return x.what()[0] ? "err" : "err-without-message"; }
}
std::string calc_ps(const std::string& k, const std::string& e)
{
  if (k == "s128") return ev<__int128_t>(e);
  if (k == "s64") return ev<int64_t>(e);
  return ev<int32_t>(e);
}
