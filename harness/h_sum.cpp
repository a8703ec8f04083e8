// Runs the prime summing algorithms on generated (x, threads, alpha, scheduling hooks)
// and compares with the true prime sum.
#include "xsrc.hpp"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <int128_t.hpp>
#include <int256_t.hpp>
#include <imath.hpp>
#ifdef PRIMESUM_VERIF
  #include <primesum_verif.hpp>
#endif
#ifdef VGOMP
  #include "vgomp.hpp"
#endif
#include <atomic>
#include <sstream>
#include <thread>
#include <unordered_set>

#ifdef SCALED
  // integer types of half the size, see scaled/scaled_types.hpp
  typedef w64_t I64;
  typedef w128_t I128;
  typedef w256_t I256;
  using primesum::operator<<;
#else
  typedef int64_t I64;
  typedef primesum::int128_t I128;
  typedef primesum::int256_t I256;
#endif

using namespace hv;
namespace primesum { std::string pi(const std::string& x, int threads); }

static std::string str(const I256& v) { std::ostringstream o; o << v; return o.str(); }

static std::string run_alg(const std::string& alg, int64_t x, int threads)
{
  using namespace primesum;
  if (alg == "dr") return str(pi_deleglise_rivat((I128) x, threads));
  if (alg == "dr1") return str(pi_deleglise_rivat_parallel1((I128) x, threads));
  if (alg == "pi") return str(primesum::pi((I128) x, threads));
  if (alg == "pistr") return primesum::pi(std::to_string(x));
  if (alg == "lmo") return str(pi_lmo((I128) x, threads));
  if (alg == "lmop1") return str(pi_lmo_parallel1((I128) x, threads));
  if (alg == "lmo1") return str((I256) pi_lmo1((I128) x));
  if (alg == "lmo2") return str((I256) pi_lmo2((I64) x));
  if (alg == "lmo3") return str((I256) pi_lmo3((I64) x));
  if (alg == "lmo4") return str((I256) pi_lmo4((I64) x));
  if (alg == "lmo5") return str((I256) pi_lmo5((I64) x));
  if (alg == "tiny") return str((I256) prime_sum_tiny((I64) x));
  fprintf(stderr, "unknown algorithm %s\n", alg.c_str());
  exit(2);
}

// ---- virtual clock: monotone, advances by an amount chosen by the mode at each reading
static std::atomic<uint64_t> clk_n{0};
static std::atomic<int64_t> clk_ns{0};
static int clk_mode;
static uint64_t clk_seed;
static double virtual_clock()
{
  uint64_t n = clk_n.fetch_add(1, std::memory_order_relaxed);
  orc::Rng r(clk_seed * 1000003 + n);
  double step = 0;
  switch (clk_mode)
  {
    case 1: step = 0; break;                                        // time stands still
    case 2: step = std::exp(r.real() * 30 - 18); break;             // 1e-8 .. 1e5 s
    case 3: step = 1e-7; break;                                     // everything is fast
    case 4: step = 100; break;                                      // everything is slow
    case 5: step = r.below(2) ? 1e-6 : 50; break;                   // very uneven threads
    case 6: step = (n % 7 == 0) ? 1000 : 1e-3; break;
  }
  return (double) clk_ns.fetch_add((int64_t) (step * 1e9), std::memory_order_relaxed) / 1e9;
}

// ---- monitor of the partition of the sieve interval
struct Steps
{
  std::mutex m;
  std::map<std::string, int64_t> next;   // expected next low
  uint64_t n = 0, maxthreads = 0, shape = 0;
  std::string bad;
} steps;

static void on_step(const char* name, I64 low, I64 distance, I64 threads)
{
  std::lock_guard<std::mutex> l(steps.m);
  auto it = steps.next.find(name);
  if (it != steps.next.end() && it->second != low)
    steps.bad = fmt("%s: step starts at %lld, the previous one ended at %lld", name, (long long) low, (long long) it->second);
  if (distance < 1 || threads < 1)
    steps.bad = fmt("%s: distance %lld threads %lld", name, (long long) distance, (long long) threads);
  steps.next[name] = (int64_t) low + (int64_t) distance * threads;
  steps.n++;
  steps.shape = steps.shape * 1099511628211ull + (uint64_t) low * 31 + (uint64_t) distance * 7 + (uint64_t) threads;
  steps.maxthreads = std::max(steps.maxthreads, (uint64_t) threads);
}

int main(int argc, char** argv)
{
  install();
  Args A(argc, argv);
  uint64_t seed = A.u("seed", 1);
  auto algs = A.list("algs", "dr");
  auto threads = A.list("threads", "1");
  auto alphas = A.list("alpha", "def");
  auto divs = A.list("div", "1");
  auto wides = A.list("wide", "0");
  auto clocks = A.list("clock", "0");
  double maxx = A.num("maxx", 1e9);
  double minx = A.num("minx", 0);
  int n = (int) A.num("n", 100);
  std::string src = A.get("src", "mix");
  bool check_diff = A.get("diff") == "1";
  double lmo_max = A.num("lmomax", 1e18);
  (void) check_diff;
  XSource X((uint64_t) A.num("small", 3e6), A.get("truth"), seed, A.num("lucymax", 2e10));
  orc::Rng R(seed ^ 0xabcdef);
#ifdef PRIMESUM_VERIF
  primesum::verif::hooks().step = on_step;
#endif
  std::unordered_set<uint64_t> shapes;
  std::unordered_set<uint64_t> seen;
  int64_t lo = (int64_t) A.num("lo", 0), hi = (int64_t) A.num("hi", 0), stride = (int64_t) A.num("stride", 1);
  int64_t xe = lo;
  std::vector<int64_t> xs;
  for (auto& s : A.list("xs", "")) xs.push_back(strtoll(s.c_str(), 0, 10));
  for (int i = 0; src == "exh" ? xe <= hi : src == "list" ? i < (int) xs.size() : i < n; i++)
  {
    int64_t x;
    if (src == "exh") { x = xe; xe += stride; }
    else if (src == "list") x = xs[i];
    else if (src == "special") x = X.special(maxx);
    else if (src == "anchor") x = X.anchor(minx, maxx);
    else if (src == "random") x = X.random(maxx);
    else switch (R.below(4))
    {
      case 0: x = X.random(maxx); break;
      case 1: x = X.special(maxx); break;
      case 2: x = X.random(std::min(maxx, 1e5)); break;
      default: x = X.truth.a.empty() ? X.special(maxx) : X.anchor(minx, maxx);
    }
    if ((double) x < minx) x += (int64_t) minx;
    std::string truth = X.sum(x);
    if (truth.empty()) { count("x_without_truth"); continue; }
    std::string alg = algs[src == "exh" && algs.size() > 1 ? (size_t) i % algs.size() : (size_t) R.below(algs.size())];
    if (alg[0] == 'l' && alg != "lmo" && alg != "lmop1" && (double) x > lmo_max) alg = algs[0];
#ifdef SCALED
    if (alg[0] == 'l' && (x > INT32_MAX || alphas.size() > 1)) alg = algs[0];
#endif
    if (alg == "tiny" && x > 100000000) alg = algs[0];
    std::string ts = R.pick(threads);
    int t = ts == "rand" ? (int) R.range(1, 16) : atoi(ts.c_str());
    // tuning factor
    std::string as = R.pick(alphas);
    double alpha = -1;
    double x6 = std::pow((double) std::max<int64_t>(x, 1), 1.0 / 6);
    if (as == "rand") alpha = 1 + R.real() * (x6 - 1);
    else if (as == "int") alpha = (double) R.range(1, (uint64_t) x6 + 1);
    else if (as == "max") alpha = x6;
    else if (as == "huge") alpha = std::exp(R.real() * 60);
    else if (as == "near1") alpha = 1 + R.real() * 0.01;
    else if (as != "def") alpha = atof(as.c_str());
    primesum::set_alpha(alpha);
    std::string ds = R.pick(divs);
    int64_t div = ds == "rand" ? (int64_t) R.logu(1, 2e6) : atoll(ds.c_str());
    int wide = atoi(R.pick(wides).c_str());
    clk_mode = atoi(R.pick(clocks).c_str());
    clk_seed = seed * 7919 + (uint64_t) i;
    clk_n = 0;
    clk_ns = 0;
#ifdef PRIMESUM_VERIF
    primesum::verif::hooks().divisor = (I64) div;
    primesum::verif::hooks().wide = wide;
    primesum::verif::hooks().clock = clk_mode ? virtual_clock : nullptr;
#endif
    steps.next.clear();
    steps.n = steps.shape = steps.maxthreads = 0;
    steps.bad.clear();
    std::string cfg = fmt(
#ifdef SCALED
                          "with integer types of half the size: "
#endif
                          "alg=%s x=%lld threads=%d alpha=%.17g divisor=%lld wide=%d clock=%d/%llu", alg.c_str(), (long long) x,
                          t, alpha, (long long) div, wide, clk_mode, (unsigned long long) clk_seed);
#ifdef VGOMP
    vgomp.serial = (int) A.u("serial", 1);
    vgomp.seed = seed * 1000003 + (uint64_t) i;
    vgomp.shrink = R.below(2) && A.u("shrink", 1);
    vgomp.shuffle = R.below(2) && A.u("shuffle", 1);
    vgomp.delay_us = (int) A.u("delay", 0);
    vgomp.hash = 1469598103934665603ull;
    vgomp.switches = vgomp.chunks = vgomp.regions = vgomp.multi_regions = vgomp.granted_fewer = 0;
    cfg += fmt(" schedule=%llu shrink=%d shuffle=%d", (unsigned long long) vgomp.seed, vgomp.shrink, vgomp.shuffle);
#endif
    at("%s", cfg.c_str());
    std::string got;
    try
    {
      if (alg == "pistr") { primesum::set_num_threads(t); }
      got = run_alg(alg, x, t);
    }
    catch (std::exception& e) { got = std::string("exception: ") + e.what(); }
    eval();
    count("alg_" + alg);
    count("decade_" + std::to_string(x > 0 ? (int) std::log10((double) x) : 0));
    if (t > 1) count("runs_with_threads_gt_1");
    if (steps.n) count("partition_steps", steps.n);
    if (steps.maxthreads > 1) count("runs_with_really_parallel_steps");
    if (steps.n && shapes.insert(steps.shape).second) count("distinct_partitions");
    if (alpha >= 1) count("runs_with_given_alpha");
    if (wide) count("runs_with_forced_wide_code");
    if (clk_mode) count("runs_with_virtual_clock");
#ifdef VGOMP
    count("parallel_regions", vgomp.multi_regions);
    count("schedule_switches", vgomp.switches);
    count("loop_chunks", vgomp.chunks);
    count("regions_with_fewer_threads_than_requested", vgomp.granted_fewer);
    if (vgomp.multi_regions && shapes.insert(vgomp.hash ^ 0x55).second) count("distinct_schedules");
#endif
    if (got != truth)
      violation(A.get("key", "sum") + ":" + alg + ":" + std::to_string(x), fmt("%s gave %s, the sum of the primes is %s", cfg.c_str(), got.c_str(), truth.c_str()));
    if (!steps.bad.empty())
      violation(A.get("key", "sum") + ":partition:" + alg, cfg + " " + steps.bad);
    if (i % std::max(1, n / 3) == 0) sample(cfg + " -> " + got);
  }
  return finish();
}
