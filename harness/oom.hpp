// Allocation failures: every request of the program under observation (operator new, malloc,
// calloc, realloc, aligned variants) passes here and may fail.
#ifndef VERIF_OOM_HPP
#define VERIF_OOM_HPP
#include "hv.hpp"
#include <functional>

namespace oom {
// no requests fail and none are counted while such an object lives in this thread
struct Off { Off(); ~Off(); };
// why a call of the C interface has failed
struct CError {};
struct BadError { std::string what; };

// a call and its result as text; errors are thrown
struct Call
{
  std::string name;
  std::function<std::string()> fn;
  double weight;
};
typedef std::vector<Call> Calls;
// registered by the translation units which could be compiled
inline std::vector<void (*)(Calls&, orc::Rng&)>& makers() { static std::vector<void (*)(Calls&, orc::Rng&)> v; return v; }
struct Maker { explicit Maker(void (*f)(Calls&, orc::Rng&)) { makers().push_back(f); } };
template <class C> uint64_t hash(const C& c)
{
  uint64_t h = 14695981039346656037ull;
  for (auto v : c) h = (h ^ (uint64_t) v) * 1099511628211ull;
  return h;
}
template <class C> std::string text(const C& c) { return "n=" + std::to_string(c.size()) + " hash=" + std::to_string(hash(c)); }
}
#endif
