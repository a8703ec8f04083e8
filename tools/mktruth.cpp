// Creates oracle/truth.txt: sums of primes at special and random points.
// g++ -O3 -march=native -fopenmp -I harness tools/mktruth.cpp -o /tmp/w/mktruth
#include "oracle.hpp"
#include <set>
using namespace orc;
int main(int argc, char** argv)
{
  double maxX = atof(argv[1]);
  Rng rng(20240101);
  std::map<u64, u128> t;
  auto add = [&](u64 X, int n) {
    Lucy l(X, X > 20000000000ull ? 6 : 1);
    std::set<u64> ks;
    for (u64 k = 1; k <= 20 && n > 1; k++) ks.insert(k);
    ks.insert(1);
    for (int j = 0; j < n && (int) ks.size() < n && X > 1000000; j++) ks.insert(rng.logu(1, (double) X / 3e5));
    for (u64 k : ks) if (X / k > 1000 && t.emplace(X / k, l.at_k(k)).second) printf("%llu %s\n", (unsigned long long) (X / k), str(l.at_k(k)).c_str());
    fflush(stdout);
    fprintf(stderr, "%llu %s\n", (unsigned long long) X, str(l.at_k(1)).c_str());
  };
  auto np = [&](u64 n) { while (!is_prime(n)) n++; return n; };
  std::vector<u64> big;
  for (u64 X = 1000000; X <= (u64) 1e15 && X <= maxX; X *= 10) add(X, 60);
  for (int b = 20; b < 50; b++) if (std::ldexp(1, b) <= maxX) add(1ull << b, 30);
  for (int i = 0; i < 60; i++) { u64 p = np(rng.logu(100, 20000)); add(p * p * p, 12); }
  for (int i = 0; i < 60; i++) { u64 p = np(rng.logu(1000, 3e6)); add(p * p, 12); }
  for (int i = 0; i < 20; i++) { u64 p = np(rng.logu(30, 1000)); add(p * p * p * p, 8); }
  for (int i = 0; i < 12; i++) { u64 p = np(rng.logu(10, 130)); u64 q = 1; for (int j = 0; j < 6; j++) q *= p; add(q, 8); }
  for (int i = 0; i < 100; i++) add(rng.logu(1e6, 1e12), 30);
  for (int i = 0; i < 30; i++) add(rng.logu(1e11, 1e13), 100);
  if (maxX > 1e14) for (int i = 0; i < 12; i++) add(rng.logu(1e13, 1e15), 200);
  if (maxX > 1e15) { add(rng.logu(1e15, 3e15), 600); add(rng.logu(3e15, 1e16), 600); add((u64) 1e16, 100); }
}
