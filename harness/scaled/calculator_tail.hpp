
#include "scaled_types.hpp"
namespace calculator {
/// limits which are written for the unscaled types
template <> inline w128_t eval<w128_t>(const std::string& expression)
{
  __int128_t r = eval<__int128_t>(expression);
  const __int128_t m = (w128_t) (~0ull >> 1);
  return (w128_t) (r > m ? m : r < -m ? -m : r);
}
}
