// A small OpenMP run-time library for monitoring: it replaces libgomp.
#ifndef VGOMP_HPP
#define VGOMP_HPP
#include <stdint.h>
extern "C" {
struct vgomp_control
{
  int serial;            // 1: fibers on one thread, the schedule is chosen by the seed
  uint64_t seed;
  int max_threads;       // omp_get_max_threads()
  int shrink;            // 1: grant fewer threads than requested from time to time
  int shuffle;           // 1: hand out the chunks of nonmonotonic loops in any order
  int delay_us;          // concurrent mode: random delays up to this
  // what has been observed
  uint64_t regions, multi_regions, switches, chunks, granted_fewer;
  uint64_t hash;         // of all scheduling decisions and of the regions entered
};
extern struct vgomp_control vgomp;
}
#endif
