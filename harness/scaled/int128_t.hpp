// Replaces primesum's header in the copy with scaled integer types.
#ifndef INT128_T_HPP
#define INT128_T_HPP
#include <stdint.h>
#include <limits>
#include <ostream>
#include <string>
#include <type_traits>
#include "scaled_types.hpp"
namespace primesum {
using int128_t = __int128_t;
using uint128_t = __uint128_t;
inline std::ostream& operator<<(std::ostream& stream, uint128_t n)
{
  std::string str;
  while (n > 0) { str += '0' + (int) (n % 10); n /= 10; }
  if (str.empty()) str = "0";
  return stream << std::string(str.rbegin(), str.rend());
}
inline std::ostream& operator<<(std::ostream& stream, int128_t n)
{
  if (n < 0) { stream << "-"; n = -n; }
  return stream << (uint128_t) n;
}
namespace prt {
template <typename T> struct numeric_limits { static constexpr T min() { return std::numeric_limits<T>::min(); } static constexpr T max() { return std::numeric_limits<T>::max(); } };
template <> struct numeric_limits<int128_t> { static constexpr int128_t min() { return ((int128_t) 1) << 127; } static constexpr int128_t max() { return ~min(); } };
template <> struct numeric_limits<uint128_t> { static constexpr uint128_t min() { return 0; } static constexpr uint128_t max() { return ~min(); } };
template <typename T> struct is_integral { enum { value = std::is_integral<T>::value || std::is_same<T, int128_t>::value || std::is_same<T, uint128_t>::value }; };
template <typename T> struct is_signed { enum { value = std::is_signed<T>::value || std::is_same<T, int128_t>::value }; };
template <typename T> struct is_unsigned { enum { value = std::is_unsigned<T>::value || std::is_same<T, uint128_t>::value }; };
}
}
#endif
