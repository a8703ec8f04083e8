// Reads x values, prints the true sums of primes.  Does not use any code of the repository.
#include "xsrc.hpp"
int main(int argc, char** argv)
{
  hv::Args A(argc, argv);
  XSource X((uint64_t) A.num("small", 2e6), A.get("truth"), 1, A.num("lucymax", 5e10));
  long long x;
  while (scanf("%lld", &x) == 1) { std::string s = X.sum(x); printf("%lld %s\n", x, s.empty() ? "?" : s.c_str()); }
}
