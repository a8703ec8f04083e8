// 256-bit integers against arbitrary precision integers.
#include <int128_t.hpp>
#include <int256_t.hpp>
#include "hv.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <sstream>
#include <unordered_set>

using namespace hv;
using orc::u64; using orc::u128; using orc::i128;
typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<
  1024, 1024, boost::multiprecision::signed_magnitude, boost::multiprecision::unchecked, void>> Big;
typedef primesum::int256_t I;

static Big M256, M255, M128, M64;
static Big ubig(u128 v) { Big r = (u64) (v >> 64); r <<= 64; r += (u64) v; return r; }
// two's complement value in [-2^255, 2^255[
static Big wrap(Big v) { v %= M256; if (v < 0) v += M256; if (v >= M255) v -= M256; return v; }
static Big uns(const Big& v) { return v < 0 ? v + M256 : v; }
static u128 low128(const Big& v) { Big u = uns(v); return (u128) (u64) (u % M64) | ((u128) (u64) ((u / M64) % M64) << 64); }
static u128 high128(const Big& v) { Big u = uns(v) / M128; return (u128) (u64) (u % M64) | ((u128) (u64) (u / M64) << 64); }
static I make(const Big& v)
{
  I r = (u128) high128(v);
  r = r << (std::size_t) 128;
  return r | I((u128) low128(v));
}
static Big value(const I& v)
{
  Big r = ubig((u128) (I(v) >> (std::size_t) 128));
  return wrap(r * M128 + ubig((u128) v));
}
static std::string str(const I& v) { std::ostringstream o; o << v; return o.str(); }
static std::string str(i128 v) { std::ostringstream o; { using primesum::operator<<; o << (primesum::int128_t) v; } return o.str(); }
static std::string str(u128 v) { std::ostringstream o; { using primesum::operator<<; o << (primesum::uint128_t) v; } return o.str(); }

static orc::Rng* R;
static u64 limb()
{
  static const u64 s[] = {0, 1, 2, 3, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1, 1ull << 32, (1ull << 32) - 1, 10, 0x5555555555555555ull};
  if (R->below(2)) return s[R->below(sizeof s / sizeof *s)];
  u64 v = R->next();
  return R->below(2) ? v : v >> R->below(64);
}
static Big operand()
{
  Big v = 0;
  switch (R->below(8))
  {
    case 0: for (int i = 0; i < 4; i++) v = v * M64 + limb(); break;
    case 1: { int n = (int) R->below(4) + 1; for (int i = 0; i < n; i++) v = v * M64 + R->next(); break; }
    case 2: v = Big(1) << (unsigned) R->below(257); v += (int) R->below(5) - 2; break;
    case 3: v = (Big(1) << (unsigned) R->below(257)) - (Big(1) << (unsigned) R->below(257)); v += (int) R->below(3) - 1; break;
    case 4: v = R->next() >> R->below(64); break;
    case 5: { for (int i = 0; i < 4; i++) v = v * M64 + R->next(); v >>= (unsigned) R->below(256); break; }
    case 6: { for (int i = 0; i < 2; i++) v = v * M64 + limb(); break; }
    case 7: { v = 1; int e = (int) R->below(78); for (int i = 0; i < e; i++) v *= 10; v += (int) R->below(3) - 1; break; }
  }
  if (R->below(3) == 0) v = -v;
  return wrap(v);
}
static std::string op_name;
static Big A_, B_;
static void expect(const I& got, const Big& want)
{
  Big g = value(got);
  if (g != wrap(want))
    violation("int256:" + op_name, op_name + " of " + A_.str() + " and " + B_.str() + " gave " + g.str() + ", exact value " + wrap(want).str());
}
static void expect_bool(bool got, bool want)
{
  if (got != want)
    violation("int256:" + op_name, op_name + " of " + A_.str() + " and " + B_.str() + fmt(" gave %d, must be %d", got, want));
}
#define OP(n) (op_name = n, count(std::string("op_") + n))
static std::map<std::string, u64> cnt;
#undef OP
#define OP(n) (op_name = n, ops++)
static u64 ops;

template <typename T> static Big tobig(T v)
{
  if (v < 0) return -ubig((u128) 0 - (u128) (i128) v);
  return ubig((u128) v);
}
template <typename T> static T tiny_value()
{
  switch (R->below(5))
  {
    case 0: return (T) (((u128) R->next() << 64) | R->next());
    case 1: return (T) ((((u128) R->next() << 64) | R->next()) >> R->below(128));
    case 2: return (T) ((u128) 1 << R->below(sizeof(T) * 8));
    case 3: return (T) ((((u128) 1 << R->below(sizeof(T) * 8)) - 1));
    default: return (T) ((int) R->below(21) - 10);
  }
}

template <typename T> static void mixed(const char* tn, const Big& a, const I& x)
{
  T t = tiny_value<T>();
  Big b = tobig<T>(t);
  B_ = b;
  A_ = a;
  at("mixed %s", tn);
  std::string n = tn;
  OP("construct_" + n); expect(I(t), b);
  OP("add_" + n); expect(x + t, a + b);
  OP("sub_" + n); expect(x - t, a - b);
  OP("mul_" + n); expect(x * t, a * b);
  if (b != 0)
  {
    OP("div_" + n); expect(x / t, a / b);
    OP("mod_" + n); expect(x % t, a - (a / b) * b);
  }
  OP("and_" + n); expect(x & t, wrap(uns(a) & uns(wrap(b))));
  OP("or_" + n); expect(x | t, wrap(uns(a) | uns(wrap(b))));
  OP("xor_" + n); expect(x ^ t, wrap(uns(a) ^ uns(wrap(b))));
  OP("eq_" + n); expect_bool(x == t, a == b);
  OP("ne_" + n); expect_bool(x != t, a != b);
  OP("lt_" + n); expect_bool(x < t, a < b);
  OP("le_" + n); expect_bool(x <= t, a <= b);
  OP("gt_" + n); expect_bool(x > t, a > b);
  OP("ge_" + n); expect_bool(x >= t, a >= b);
  OP("to_" + n);
  if ((T) x != (T) low128(a)) violation("int256:" + op_name, op_name + " of " + a.str());
  I c = x; c += t; OP("addassign_" + n); expect(c, a + b);
  c = x; c -= t; OP("subassign_" + n); expect(c, a - b);
  c = x; c *= t; OP("mulassign_" + n); expect(c, a * b);
  c = t; OP("assign_" + n); expect(c, b);
}

int main(int argc, char** argv)
{
  install();
  Args A(argc, argv);
  orc::Rng rng(A.u("seed", 1));
  R = &rng;
  M64 = Big(1) << 64; M128 = Big(1) << 128; M255 = Big(1) << 255; M256 = Big(1) << 256;
  u64 n = A.u("n", 100000);
  std::unordered_set<std::string> seen;
  u64 carry = 0, neg = 0, big = 0;
  for (u64 i = 0; i < n; i++)
  {
    Big a = operand(), b = operand();
    if (R->below(16) == 0) b = a;
    if (R->below(16) == 0) b = wrap(-a);
    if (R->below(16) == 0) b = wrap(a + (int) R->below(5) - 2);
    if (R->below(16) == 0) b = (int) R->below(21) - 10;
    A_ = a; B_ = b;
    at("operands %s %s", a.str().c_str(), b.str().c_str());
    neg += (a < 0) + (b < 0);
    big += (uns(a) >= M128) + (uns(b) >= M128);
    I x = make(a), y = make(b);
    OP("make"); expect(x, a);
    OP("add"); expect(x + y, a + b);
    OP("sub"); expect(x - y, a - b);
    OP("mul"); expect(x * y, a * b);
    if (b != 0)
    {
      // truncates toward zero
      Big q = a / b;
      OP("div"); expect(x / y, q);
      OP("mod"); expect(x % y, a - q * b);
    }
    if (low128(a) + low128(b) < low128(a)) carry++;
    OP("neg"); expect(-x, -a);
    OP("plus"); expect(+x, a);
    OP("not"); expect(~x, -a - 1);
    OP("and"); expect(x & y, wrap(uns(a) & uns(b)));
    OP("or"); expect(x | y, wrap(uns(a) | uns(b)));
    OP("xor"); expect(x ^ y, wrap(uns(a) ^ uns(b)));
    OP("eq"); expect_bool(x == y, a == b);
    OP("ne"); expect_bool(x != y, a != b);
    OP("lt"); expect_bool(x < y, a < b);
    OP("le"); expect_bool(x <= y, a <= b);
    OP("gt"); expect_bool(x > y, a > b);
    OP("ge"); expect_bool(x >= y, a >= b);
    unsigned s = (unsigned) R->below(256);
    if (R->below(4) == 0) { static const unsigned e[] = {0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255}; s = e[R->below(13)]; }
    B_ = s;
    OP("shl"); expect(x << (std::size_t) s, wrap(Big(uns(a)) << s));
    OP("shr"); expect(x >> (std::size_t) s, wrap(Big(uns(a)) >> s));
    OP("shl_int"); expect(x << (int) s, wrap(Big(uns(a)) << s));
    OP("shr_int"); expect(x >> (int) s, wrap(Big(uns(a)) >> s));
    I c = x; c <<= s; OP("shlassign"); expect(c, wrap(Big(uns(a)) << s));
    c = x; c >>= s; OP("shrassign"); expect(c, wrap(Big(uns(a)) >> s));
    B_ = b;
    c = x; OP("preinc"); expect(++c, a + 1); expect(c, a + 1);
    c = x; OP("predec"); expect(--c, a - 1); expect(c, a - 1);
    c = x; OP("postinc"); expect(c++, a); expect(c, a + 1);
    c = x; OP("postdec"); expect(c--, a); expect(c, a - 1);
    c = x; c += y; OP("addassign"); expect(c, a + b);
    c = x; c -= y; OP("subassign"); expect(c, a - b);
    c = x; c *= y; OP("mulassign"); expect(c, a * b);
    c = x; c &= y; OP("andassign"); expect(c, wrap(uns(a) & uns(b)));
    c = x; c |= y; OP("orassign"); expect(c, wrap(uns(a) | uns(b)));
    c = x; c ^= y; OP("xorassign"); expect(c, wrap(uns(a) ^ uns(b)));
    if (b != 0)
    {
      c = x; c /= y; OP("divassign"); expect(c, a / b);
      c = x; c %= y; OP("modassign"); expect(c, a - (a / b) * b);
    }
    switch (i % 10)
    {
      case 0: mixed<int8_t>("int8", a, x); break;
      case 1: mixed<int16_t>("int16", a, x); break;
      case 2: mixed<int32_t>("int32", a, x); break;
      case 3: mixed<int64_t>("int64", a, x); break;
      case 4: mixed<__int128>("int128", a, x); break;
      case 5: mixed<uint8_t>("uint8", a, x); break;
      case 6: mixed<uint16_t>("uint16", a, x); break;
      case 7: mixed<uint32_t>("uint32", a, x); break;
      case 8: mixed<uint64_t>("uint64", a, x); break;
      case 9: mixed<unsigned __int128>("uint128", a, x); break;
    }
    if (i % 23 == 0)
    {
      A_ = a; B_ = 0;
      op_name = "print";
      ops++;
      count("printed");
      if (str(x) != a.str()) violation("int256:print", "printed " + str(x) + " for " + a.str());
      i128 sv = (i128) low128(a);
      u128 uv = low128(a);
      if (str(sv) != tobig<i128>(sv).str()) violation("int128:print", "printed " + str(sv) + " for " + tobig<i128>(sv).str());
      if (str(uv) != ubig(uv).str()) violation("uint128:print", "printed " + str(uv) + " for " + ubig(uv).str());
      // formatting flags of the stream must not change the number
      if (i % 46 == 0) { std::ostringstream o; o << std::hex << x; if (o.str() != a.str()) violation("int256:print", "hex stream: " + o.str()); }
    }
    if (i % (n / 4 + 1) == 0) sample(a.str() + " and " + b.str());
  }
  eval(ops, n);
  count("operations", ops);
  count("pairs", n);
  count("pairs_with_carry_out_of_the_low_half", carry);
  count("negative_operands", neg);
  count("operands_beyond_128_bits", big);
  return finish();
}
