// Linked with the primesum program: a virtual clock, so that the status is printed at any time.
#include <primesum_verif.hpp>
#include <atomic>
#include <cstdint>
#include <cstdlib>
static std::atomic<uint64_t> ticks{1};
static uint64_t seed = 1;
static int mode = 0;
static double virtual_clock()
{
  // 0.001 s to 0.5 s per reading
  uint64_t n = ticks.fetch_add(1, std::memory_order_relaxed);
  uint64_t h = (n + seed * 7919) * 0x9E3779B97F4A7C15ull;
  return 1000 + (double) n * (mode == 1 ? 0.2 : 0.03) + (double) (h >> 54) * 1e-5;
}
static struct Init
{
  Init()
  {
    if (const char* s = std::getenv("VCLOCK"))
    {
      mode = std::atoi(s);
      if (const char* t = std::getenv("VCLOCK_SEED")) seed = (uint64_t) std::atoll(t);
      if (mode) primesum::verif::hooks().clock = virtual_clock;
    }
  }
} init;
