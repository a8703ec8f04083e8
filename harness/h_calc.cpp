// Evaluates expressions, one per line: <kind> <hex bytes>
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <calculator.hpp>
#include <int128_t.hpp>
#include "hv.hpp"
using namespace orc;
std::string calc_ps(const std::string& kind, const std::string& e);   // primesieve's copy
template <typename T> static std::string ev(const std::string& e)
{
  try { T v = calculator::eval<T>(e); return "ok " + str((i128) v); }
  catch (const calculator::error& x) { return x.what()[0] ? "err" : "err-without-message"; }
}
int main()
{
  hv::install();
  char kind[32];
  static char hex[1 << 20];
  while (scanf("%31s %1048575s", kind, hex) == 2)
  {
    std::string e, k = kind, r;
    if (hex[0] != '-') for (char* p = hex; p[0] && p[1]; p += 2) { char b[3] = {p[0], p[1], 0}; e += (char) strtol(b, 0, 16); }
    hv::at("%s %s", kind, hex);
    try
    {
      if (k == "128") r = ev<primesum::int128_t>(e);
      else if (k == "64") r = ev<int64_t>(e);
      else if (k == "32") r = ev<int32_t>(e);
      else if (k == "to128") { try { r = "ok " + str((i128) primesum::to_int128(e)); } catch (const calculator::error&) { r = "err"; } }
      else r = calc_ps(k, e);
    }
    catch (const std::exception& x) { r = std::string("exc ") + x.what(); }
    puts(r.c_str());
    fflush(stdout);
  }
  puts("DONE");
  return 0;
}
