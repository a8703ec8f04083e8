// Integer types with half of the bits of the types of primesum.
//
// A copy of primesum's sources in which these types replace the original ones
// behaves for x around 2^32 like primesum for x around 2^64, and its sums pass
// the range of its second largest type (here 64 bits, there 128 bits) for
// x > 2 * 10^10 (there x > 10^20), where a run takes milliseconds and the true
// sum is known.
#ifndef SCALED_TYPES_HPP
#define SCALED_TYPES_HPP
#include <stdint.h>
#include <string>
typedef uint8_t uw16_t;
typedef int16_t w32_t;
typedef uint16_t uw32_t;
typedef int32_t w64_t;
typedef uint32_t uw64_t;
typedef long long w128_t;
typedef unsigned long long uw128_t;
typedef __int128_t w256_t;
namespace primesum {
// the largest x, written for the original types
inline std::string scaled_max_x(double = 1.0) { return "9223372036854775807"; }
}
#endif
