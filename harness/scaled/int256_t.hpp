// Replaces primesum's header in the copy with scaled integer types.
#ifndef INT256_T_HPP
#define INT256_T_HPP
#include <int128_t.hpp>
namespace primesum {
template <typename T>
struct next_larger_type
{
  typedef typename std::conditional<std::is_same<T, w64_t>::value, w128_t,
          typename std::conditional<std::is_same<T, uw64_t>::value, uw128_t,
          typename std::conditional<std::is_same<T, w128_t>::value, w256_t,
          typename std::conditional<std::is_same<T, uw128_t>::value, w256_t,
          T>::type>::type>::type>::type type;
};
}
#endif
