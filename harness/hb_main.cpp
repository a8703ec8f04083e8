#include "hb.hpp"
int main(int argc, char** argv)
{
  hv::install();
  hv::Args a(argc, argv);
  orc::Rng r(a.u("seed", 1));
  for (auto& m : a.list("mode", ""))
  {
    auto i = hb_modes().find(m);
    if (i == hb_modes().end()) { hv::count("mode_not_built:" + m); continue; }
    i->second(a, r);
  }
  return hv::finish();
}
