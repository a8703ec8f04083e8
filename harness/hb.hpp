// Registry of the building-block monitors: each translation unit adds its modes, a unit
// that does not compile against the current tree is left out.
#ifndef HB_HPP
#define HB_HPP
#include "hv.hpp"
typedef void (*hb_fn)(hv::Args&, orc::Rng&);
inline std::map<std::string, hb_fn>& hb_modes() { static std::map<std::string, hb_fn> m; return m; }
struct HbReg { HbReg(const char* n, hb_fn f) { hb_modes()[n] = f; } };
#define HB_CHECK(cond, key, ...) do { if (!(cond)) hv::violation(key, hv::fmt(__VA_ARGS__)); } while (0)
#endif
