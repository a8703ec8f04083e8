From 5b7f8e3db24ab221ec8dbe44283b10552159e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 01/24] Add test hooks guarded by PRIMESUM_VERIF

---
 include/primesum_verif.hpp                | 74 +++++++++++++++++++++++
 src/P2.cpp                                | 23 +++++++
 src/S1.cpp                                | 12 ++++
 src/deleglise-rivat/S2_easy.cpp           | 20 ++++++
 src/deleglise-rivat/S2_easy_libdivide.cpp | 20 ++++++
 src/deleglise-rivat/S2_hard.cpp           | 26 ++++++++
 src/deleglise-rivat/S2_trivial.cpp        | 13 ++++
 src/lmo/pi_lmo_parallel1.cpp              |  8 +++
 src/primesum.cpp                          | 13 ++++
 9 files changed, 209 insertions(+)
 create mode 100644 include/primesum_verif.hpp

diff --git a/include/primesum_verif.hpp b/include/primesum_verif.hpp
new file mode 100644
index 0000000..49d0232
--- /dev/null
+++ b/include/primesum_verif.hpp
@@ -0,0 +1,74 @@
+///
+/// @file  primesum_verif.hpp
+/// @brief Test hooks, only compiled in if PRIMESUM_VERIF is defined.
+///        They allow a test program to provide the clock which
+///        feeds the load balancers, to lower the thread thresholds
+///        so that parallel code runs for small x, to select the
+///        wide integer (128-bit, 256-bit) code paths for small x
+///        and to observe how the work is partitioned.
+///
+/// This file is distributed under the BSD License. See the COPYING
+/// file in the top level directory.
+///
+
+#ifndef PRIMESUM_VERIF_HPP
+#define PRIMESUM_VERIF_HPP
+
+#ifdef PRIMESUM_VERIF
+
+#include <stdint.h>
+#include <cstdlib>
+
+namespace primesum {
+namespace verif {
+
+struct Hooks
+{
+  /// Thread thresholds and minimum thread distances
+  /// are divided by this number.
+  int64_t divisor = 1;
+  /// Bit 0: use the code for x > 2^63 and x > 2^64.
+  /// Bit 1: use the code for y > 2^32.
+  int64_t wide = 0;
+  /// Replaces the steady clock
+  double (*clock)() = nullptr;
+  /// Called before each parallel step with the lower bound
+  /// of the step, the distance per thread and the threads.
+  void (*step)(const char* name, int64_t low, int64_t distance, int64_t threads) = nullptr;
+
+  Hooks()
+  {
+    if (const char* s = std::getenv("PRIMESUM_VERIF_DIVISOR"))
+      divisor = std::atoll(s);
+    if (const char* s = std::getenv("PRIMESUM_VERIF_WIDE"))
+      wide = std::atoll(s);
+  }
+};
+
+inline Hooks& hooks()
+{
+  static Hooks h;
+  return h;
+}
+
+inline int64_t scale(int64_t n)
+{
+  int64_t d = hooks().divisor;
+  n = (d > 1) ? n / d : n;
+  return (n < 1) ? 1 : n;
+}
+
+inline bool wide_x() { return (hooks().wide & 1) != 0; }
+inline bool wide_y() { return (hooks().wide & 2) != 0; }
+
+inline void step(const char* name, int64_t low, int64_t distance, int64_t threads)
+{
+  if (hooks().step)
+    hooks().step(name, low, distance, threads);
+}
+
+} // namespace
+} // namespace
+
+#endif
+#endif
diff --git a/src/P2.cpp b/src/P2.cpp
index 0dc9615..da5573f 100644
--- a/src/P2.cpp
+++ b/src/P2.cpp
@@ -24,6 +24,10 @@
 #include <iomanip>
 #include <vector>
 
+#ifdef PRIMESUM_VERIF
+  #include <primesum_verif.hpp>
+#endif
+
 using namespace std;
 using namespace primesum;
 
@@ -44,6 +48,10 @@ void balanceLoad(int64_t* thread_distance,
   int64_t min_distance = 1 << 23;
   int64_t max_distance = ceil_div(z - low, threads);
 
+#ifdef PRIMESUM_VERIF
+  min_distance = verif::scale(min_distance);
+#endif
+
   if (seconds < 60)
     *thread_distance *= 2;
   if (seconds > 60)
@@ -139,6 +147,11 @@ P2_OpenMP_master(T x,
   int64_t low = 2;
   int64_t z = (int64_t)(x / max(y, 1));
   int64_t min_distance = 1 << 23;
+
+#ifdef PRIMESUM_VERIF
+  min_distance = verif::scale(min_distance);
+#endif
+
   int64_t thread_distance = min_distance;
 
   using res_t = typename next_larger_type<T>::type;
@@ -155,6 +168,10 @@ P2_OpenMP_master(T x,
     threads = in_between(1, threads, segments);
     double time = get_time();
 
+#ifdef PRIMESUM_VERIF
+    verif::step("P2", low, thread_distance, threads);
+#endif
+
     #pragma omp parallel for num_threads(threads) reduction(+: p2)
     for (int i = 0; i < threads; i++)
       p2 += P2_OpenMP_thread(x, y, z, thread_distance, i, low, prime_sums[i], correct[i]);
@@ -193,6 +210,12 @@ int256_t P2(int128_t x, int64_t y, int threads)
   double time = get_time();
   int256_t p2;
 
+#ifdef PRIMESUM_VERIF
+  if (verif::wide_x())
+    p2 = P2_OpenMP_master(x, y, threads);
+  else
+#endif
+
   // uses less memory
   if (x <= numeric_limits<int64_t>::max())
     p2 = P2_OpenMP_master((int64_t) x, y, threads);
diff --git a/src/S1.cpp b/src/S1.cpp
index 15411a4..ad6ccbd 100644
--- a/src/S1.cpp
+++ b/src/S1.cpp
@@ -17,6 +17,10 @@
 #include <stdint.h>
 #include <vector>
 
+#ifdef PRIMESUM_VERIF
+  #include <primesum_verif.hpp>
+#endif
+
 using namespace std;
 using namespace primesum;
 
@@ -95,6 +99,14 @@ int256_t S1(int128_t x,
   double time = get_time();
   int256_t s1_sum;
 
+#ifdef PRIMESUM_VERIF
+  if (verif::wide_y())
+    s1_sum = S1_OpenMP_master(x, y, c, threads);
+  else if (verif::wide_x())
+    s1_sum = S1_OpenMP_master(x, (uint32_t) y, c, threads);
+  else
+#endif
+
   // uses less memory
   if (y <= numeric_limits<uint32_t>::max())
   {
diff --git a/src/deleglise-rivat/S2_easy.cpp b/src/deleglise-rivat/S2_easy.cpp
index 4308c97..74a8752 100644
--- a/src/deleglise-rivat/S2_easy.cpp
+++ b/src/deleglise-rivat/S2_easy.cpp
@@ -24,6 +24,10 @@
 #include <stdint.h>
 #include <vector>
 
+#ifdef PRIMESUM_VERIF
+  #include <primesum_verif.hpp>
+#endif
+
 using namespace std;
 using namespace primesum;
 
@@ -121,6 +125,22 @@ int256_t S2_easy(int128_t x,
   double time = get_time();
   int256_t s2_easy;
 
+#ifdef PRIMESUM_VERIF
+  if (verif::wide_y())
+  {
+    auto primes = generate_primes<int64_t>(y);
+    auto prime_sums = generate_prime_sums<int128_t>(y);
+    s2_easy = S2_easy_OpenMP<int256_t>(x, y, z, c, primes, prime_sums, threads);
+  }
+  else if (verif::wide_x())
+  {
+    auto primes = generate_primes<uint32_t>(y);
+    auto prime_sums = generate_prime_sums<uint64_t>(y);
+    s2_easy = S2_easy_OpenMP<int256_t>(x, y, z, c, primes, prime_sums, threads);
+  }
+  else
+#endif
+
   // uses less memory
   if (y <= numeric_limits<uint32_t>::max())
   {
diff --git a/src/deleglise-rivat/S2_easy_libdivide.cpp b/src/deleglise-rivat/S2_easy_libdivide.cpp
index 9f39b64..b19695c 100644
--- a/src/deleglise-rivat/S2_easy_libdivide.cpp
+++ b/src/deleglise-rivat/S2_easy_libdivide.cpp
@@ -25,6 +25,10 @@
 #include <stdint.h>
 #include <vector>
 
+#ifdef PRIMESUM_VERIF
+  #include <primesum_verif.hpp>
+#endif
+
 using namespace std;
 using namespace primesum;
 
@@ -169,6 +173,22 @@ int256_t S2_easy(int128_t x,
   double time = get_time();
   int256_t s2_easy;
 
+#ifdef PRIMESUM_VERIF
+  if (verif::wide_y())
+  {
+    auto primes = generate_primes<int64_t>(y);
+    auto prime_sums = generate_prime_sums<int128_t>(y);
+    s2_easy = S2_easy_OpenMP<int256_t>(x, y, z, c, primes, prime_sums, threads);
+  }
+  else if (verif::wide_x())
+  {
+    auto primes = generate_primes<uint32_t>(y);
+    auto prime_sums = generate_prime_sums<uint64_t>(y);
+    s2_easy = S2_easy_OpenMP<int256_t>(x, y, z, c, primes, prime_sums, threads);
+  }
+  else
+#endif
+
   // uses less memory
   if (y <= numeric_limits<uint32_t>::max())
   {
diff --git a/src/deleglise-rivat/S2_hard.cpp b/src/deleglise-rivat/S2_hard.cpp
index 5806864..a6d5bfa 100644
--- a/src/deleglise-rivat/S2_hard.cpp
+++ b/src/deleglise-rivat/S2_hard.cpp
@@ -30,6 +30,10 @@
 #include <stdint.h>
 #include <vector>
 
+#ifdef PRIMESUM_VERIF
+  #include <primesum_verif.hpp>
+#endif
+
 using namespace std;
 using namespace primesum;
 
@@ -350,6 +354,10 @@ S2_hard_OpenMP_master(X x,
     aligned_vector<vector<res_t>> mu_sum(threads);
     aligned_vector<double> timings(threads);
 
+#ifdef PRIMESUM_VERIF
+    verif::step("S2_hard", low, segment_size * segments_per_thread, threads);
+#endif
+
     #pragma omp parallel for num_threads(threads) reduction(+: s2_hard)
     for (int i = 0; i < threads; i++)
     {
@@ -398,6 +406,24 @@ int256_t S2_hard(int128_t x,
   double time = get_time();
   int256_t s2_hard;
 
+#ifdef PRIMESUM_VERIF
+  if (verif::wide_y())
+  {
+    FactorTable<uint32_t> factors(y, threads);
+    int64_t max_prime = z / isqrt(y);
+    auto primes = generate_primes<int64_t>(max_prime);
+    s2_hard = S2_hard_OpenMP_master(x, y, z, c, primes, factors, threads);
+  }
+  else if (verif::wide_x())
+  {
+    FactorTable<uint16_t> factors(y, threads);
+    int64_t max_prime = z / isqrt(y);
+    auto primes = generate_primes<uint32_t>(max_prime);
+    s2_hard = S2_hard_OpenMP_master(x, y, z, c, primes, factors, threads);
+  }
+  else
+#endif
+
   // uses less memory
   if (y <= FactorTable<uint16_t>::max())
   {
diff --git a/src/deleglise-rivat/S2_trivial.cpp b/src/deleglise-rivat/S2_trivial.cpp
index 59eb7cb..74f07ed 100644
--- a/src/deleglise-rivat/S2_trivial.cpp
+++ b/src/deleglise-rivat/S2_trivial.cpp
@@ -21,6 +21,10 @@
 #include <algorithm>
 #include <vector>
 
+#ifdef PRIMESUM_VERIF
+  #include <primesum_verif.hpp>
+#endif
+
 using namespace std;
 using namespace primesum;
 
@@ -83,6 +87,15 @@ int256_t S2_trivial(int128_t x,
   double time = get_time();
   int256_t s2_trivial;
 
+#ifdef PRIMESUM_VERIF
+  if (verif::wide_y())
+  {
+    auto prime_sums = generate_prime_sums<int128_t>(y);
+    s2_trivial = S2_trivial_OpenMP(x, y, z, c, prime_sums, threads);
+  }
+  else
+#endif
+
   // uses less memory
   if (y <= numeric_limits<uint32_t>::max())
   {
diff --git a/src/lmo/pi_lmo_parallel1.cpp b/src/lmo/pi_lmo_parallel1.cpp
index 7f42f93..1358ddf 100644
--- a/src/lmo/pi_lmo_parallel1.cpp
+++ b/src/lmo/pi_lmo_parallel1.cpp
@@ -28,6 +28,10 @@
 #include <stdint.h>
 #include <vector>
 
+#ifdef PRIMESUM_VERIF
+  #include <primesum_verif.hpp>
+#endif
+
 using namespace std;
 using namespace primesum;
 
@@ -209,6 +213,10 @@ int256_t S2(uint128_t x,
     aligned_vector<vector<int256_t>> mu_sum(threads);
     aligned_vector<double> timings(threads);
 
+#ifdef PRIMESUM_VERIF
+    verif::step("S2", low, segment_size * segments_per_thread, threads);
+#endif
+
     #pragma omp parallel for num_threads(threads) reduction(+: S2_total)
     for (int i = 0; i < threads; i++)
     {
diff --git a/src/primesum.cpp b/src/primesum.cpp
index 48e1314..f5adc00 100644
--- a/src/primesum.cpp
+++ b/src/primesum.cpp
@@ -28,6 +28,10 @@
   #include <omp.h>
 #endif
 
+#ifdef PRIMESUM_VERIF
+  #include <primesum_verif.hpp>
+#endif
+
 using namespace std;
 
 namespace {
@@ -145,6 +149,11 @@ string get_max_x(double alpha)
 /// Get the time in seconds
 double get_time()
 {
+#ifdef PRIMESUM_VERIF
+  if (verif::hooks().clock)
+    return verif::hooks().clock();
+#endif
+
   auto now = chrono::steady_clock::now();
   auto time = now.time_since_epoch();
   auto micro = chrono::duration_cast<chrono::microseconds>(time);
@@ -153,6 +162,10 @@ double get_time()
 
 int ideal_num_threads(int threads, int64_t sieve_limit, int64_t thread_threshold)
 {
+#ifdef PRIMESUM_VERIF
+  thread_threshold = verif::scale(thread_threshold);
+#endif
+
   thread_threshold = max((int64_t) 1, thread_threshold);
   threads = (int) min((int64_t) threads, sieve_limit / thread_threshold);
   threads = max(1, threads);
-- 
2.43.0


From 4547bdc32ae88ce79e39167c13f2caf916948e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 02/24] fix: BitSieve::sum() overflowed 64 bits for positions
 >= 2^59

---
 src/BitSieve.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/BitSieve.cpp b/src/BitSieve.cpp
index fa525dd..7754d16 100644
--- a/src/BitSieve.cpp
+++ b/src/BitSieve.cpp
@@ -53,44 +53,44 @@ uint64_t fast_modulo(uint64_t x, uint64_t y)
   return x;
 }
 
-uint64_t sum_bits(uint64_t bits, uint64_t& low)
+uint128_t sum_bits(uint64_t bits, uint64_t& low)
 {
   uint64_t bits0 = bits & 0xffff;
   uint64_t bits1 = (bits >> 16) & 0xffff;
   uint64_t bits2 = (bits >> 32) & 0xffff;
   uint64_t bits3 = (bits >> 48);
-  uint64_t sum = 0;
+  uint128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (uint128_t) low * popcnt64(bits0); low += 32;
+  sum += (uint128_t) low * popcnt64(bits1); low += 32;
+  sum += (uint128_t) low * popcnt64(bits2); low += 32;
+  sum += (uint128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
 
-uint64_t sum_bits(const uint16_t* bits, uint64_t& low)
+uint128_t sum_bits(const uint16_t* bits, uint64_t& low)
 {
   uint64_t bits0 = bits[0];
   uint64_t bits1 = bits[1];
   uint64_t bits2 = bits[2];
   uint64_t bits3 = bits[3];
-  uint64_t sum = 0;
+  uint128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (uint128_t) low * popcnt64(bits0); low += 32;
+  sum += (uint128_t) low * popcnt64(bits1); low += 32;
+  sum += (uint128_t) low * popcnt64(bits2); low += 32;
+  sum += (uint128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
-- 
2.43.0


From 953ca353d735c158088c22f92a3234242958e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 03/24] fix: int256_t multiplication of numbers in [-2^128,
 -2^128 + 2^64[

---
 include/int256_t.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index f3b04da..eb983a8 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -159,11 +159,10 @@ public:
 
         if (low <= max64 &&
             other.low <= max64 &&
-            ((high == 0 || ~high == 0) &&
-             (other.high == 0 || ~other.high == 0)))
+            high == 0 &&
+            other.high == 0)
         {
-          return int256_t(low * other.low,
-                          (high == other.high) ? 0 : -1);
+          return int256_t(low * other.low, 0);
         }
         else
         {
-- 
2.43.0


From 5b4f9d0127335d634be92301d07dea9e95cec6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 04/24] fix: int256_t shift by 0 bits shifted a 128-bit integer
 by 128 bits

---
 include/int256_t.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index eb983a8..2d4e055 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -212,7 +212,9 @@ public:
 
     int256_t operator<<(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 128)
             return int256_t(0, low << (bits - 128));
         else
             return int256_t(low << bits, (high << bits) | (low >> (128 - bits)));
@@ -220,7 +222,9 @@ public:
 
     int256_t operator>>(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 128)
             return int256_t(high >> (bits - 128), 0);
         else
             return int256_t((low >> bits) | (high << (128 - bits)), high >> bits);
-- 
2.43.0


From f9051640848f64d8be8cad5bfc29f06ee4e4caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 05/24] fix: signed overflow when converting int256_t to the
 minimum of a signed type

---
 include/int256_t.hpp | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index 2d4e055..7eff5ff 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -404,42 +404,27 @@ public:
 
     operator std::int8_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int8_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int8_t>(low);
+        return static_cast<std::int8_t>(low);
     }
 
     operator std::int16_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int16_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int16_t>(low);
+        return static_cast<std::int16_t>(low);
     }
 
     operator std::int32_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int32_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int32_t>(low);
+        return static_cast<std::int32_t>(low);
     }
 
     operator std::int64_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int64_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int64_t>(low);
+        return static_cast<std::int64_t>(low);
     }
 
     operator int128_t() const
     {
-        return (*this < 0)
-            ? -static_cast<int128_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<int128_t>(low);
+        return static_cast<int128_t>(low);
     }
 
     operator std::uint8_t() const
-- 
2.43.0


From 0e2e2adb305d83c60ac3bcc774c669037c909b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 06/24] fix: int256_t division involving -2^255 compared signed
 instead of unsigned

---
 include/int256_t.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index 7eff5ff..4c1dbe4 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -522,6 +522,13 @@ private:
         return pos;
     }
 
+    /// Unsigned comparison
+    bool is_uless(const int256_t& other) const
+    {
+        return high < other.high ||
+              (high == other.high && low < other.low);
+    }
+
     /// Unsigned division with remainder
     std::pair<int256_t, int256_t> udiv256(const int256_t& other) const
     {
@@ -542,7 +549,7 @@ private:
         {
             return { one, zero };
         }
-        else if (*this == 0 || (*this != min_value() && *this < other))
+        else if (is_uless(other))
         {
             return { zero, *this };
         }
@@ -561,7 +568,7 @@ private:
                 remainder <<= 1;
                 remainder.set_bit(0, get_bit(i));
 
-                if (remainder >= other)
+                if (!remainder.is_uless(other))
                 {
                     remainder -= other;
                     quotient.set_bit(i, true);
-- 
2.43.0


From 5e1bd1b67715584dad27f9c1b064f10146e843c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 07/24] fix: printing the int256_t -2^255

---
 include/int256_t.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index 4c1dbe4..5331b5d 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -619,9 +619,11 @@ inline std::ostream& operator<<(std::ostream& stream, int256_t n)
         n = -n;
     }
 
-    while (n > 0)
+    // n < 0 if n = -2^255
+    while (n != 0)
     {
-        str += '0' + std::int8_t(n % 10);
+        int digit = std::int8_t(n % 10);
+        str += (char) ('0' + (digit < 0 ? -digit : digit));
         n /= 10;
     }
 
-- 
2.43.0


From 5ff08c616c5feee1a8449695c78f14d467be2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 08/24] fix: signed overflow when printing the int128_t -2^127

---
 include/int128_t.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/int128_t.hpp b/include/int128_t.hpp
index 534f5cf..a1e351b 100644
--- a/include/int128_t.hpp
+++ b/include/int128_t.hpp
@@ -50,12 +50,14 @@ inline std::ostream& operator<<(std::ostream& stream, uint128_t n)
 
 inline std::ostream& operator<<(std::ostream& stream, int128_t n)
 {
+  uint128_t u = n;
+
   if (n < 0)
   {
     stream << "-";
-    n = -n;
+    u = -u;
   }
-  stream << (uint128_t) n;
+  stream << u;
   return stream;
 }
 
-- 
2.43.0


From ddbab2290ae3e8b677662570e8ec0ff3a648f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 09/24] fix: data race in S2Status::print(), the lock was
 released before the shared status was updated

---
 src/S2Status.cpp | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/S2Status.cpp b/src/S2Status.cpp
index 4d1a063..03ff3ed 100644
--- a/src/S2Status.cpp
+++ b/src/S2Status.cpp
@@ -45,23 +45,6 @@ double S2Status::skewed_percent(int128_t x, int128_t y)
   return percent;
 }
 
-#if defined(_OPENMP)
-
-bool S2Status::is_print(double time)
-{
-  TryLock lock(lock_);
-  if (lock.ownsLock())
-  {
-    double old = time_;
-    return old == 0 ||
-          (time - old) >= is_print_;
-  }
-
-  return false;
-}
-
-#else
-
 bool S2Status::is_print(double time)
 {
   double old = time_;
@@ -69,10 +52,15 @@ bool S2Status::is_print(double time)
         (time - old) >= is_print_;
 }
 
-#endif
-
 void S2Status::print(int128_t n, int128_t limit)
 {
+#if defined(_OPENMP)
+  // time_ and percent_ are shared by all threads
+  TryLock lock(lock_);
+  if (!lock.ownsLock())
+    return;
+#endif
+
   double time = get_time();
 
   if (is_print(time))
-- 
2.43.0


From 86da8667d8eeb21fb0a90dd57a8b208e4d03a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 10/24] fix: calculator silently returned wrong numbers on
 integer overflow

---
 include/calculator.hpp                        | 119 +++++++++++++++---
 .../include/primesieve/calculator.hpp         | 119 +++++++++++++++---
 2 files changed, 210 insertions(+), 28 deletions(-)

diff --git a/include/calculator.hpp b/include/calculator.hpp
index 1a1291c..ab6e50d 100644
--- a/include/calculator.hpp
+++ b/include/calculator.hpp
@@ -183,22 +183,113 @@ private:
   /// top of the stack has lower precedence.
   std::stack<OperatorValue> stack_;
 
+  static bool isSigned()
+  {
+    return !(static_cast<T>(-1) > static_cast<T>(0));
+  }
+
+  /// Largest value of the signed integer type T
+  static T maxSigned()
+  {
+    T pow2 = static_cast<T>(1) << (sizeof(T) * 8 - 2);
+    return pow2 - 1 + pow2;
+  }
+
+  /// Smallest value of the signed integer type T
+  static T minSigned()
+  {
+    return -maxSigned() - 1;
+  }
+
+  void overflow() const
+  {
+    throw calculator::error(expr_, "Error: integer overflow");
+  }
+
+  /// The result of an operation on signed integers must fit into T.
+  /// Unsigned integers are computed modulo 2^n, just like in C++.
+  ///
+  T add(T x, T y) const
+  {
+    if (isSigned() &&
+        ((y > 0 && x > maxSigned() - y) ||
+         (y < 0 && x < minSigned() - y)))
+      overflow();
+    return x + y;
+  }
+
+  T sub(T x, T y) const
+  {
+    if (isSigned() &&
+        ((y > 0 && x < minSigned() + y) ||
+         (y < 0 && x > maxSigned() + y)))
+      overflow();
+    return x - y;
+  }
+
+  T mul(T x, T y) const
+  {
+    if (isSigned() &&
+        ((x > 0 && y > 0 && x > maxSigned() / y) ||
+         (x > 0 && y < 0 && y < minSigned() / x) ||
+         (x < 0 && y > 0 && x < minSigned() / y) ||
+         (x < 0 && y < 0 && y < maxSigned() / x)))
+      overflow();
+    return x * y;
+  }
+
+  T div(T x, T y) const
+  {
+    checkZero(y);
+    if (isSigned() && y == static_cast<T>(-1))
+      return sub(0, x);
+    return x / y;
+  }
+
+  T mod(T x, T y) const
+  {
+    checkZero(y);
+    if (isSigned() && y == static_cast<T>(-1))
+      return 0;
+    return x % y;
+  }
+
+  T checkShift(T n) const
+  {
+    if (n < 0 || n >= static_cast<T>(sizeof(T) * 8))
+      throw calculator::error(expr_, "Error: invalid shift count");
+    return n;
+  }
+
+  T shiftLeft(T x, T n) const
+  {
+    checkShift(n);
+    if (!isSigned())
+      return x << n;
+    for (; n > 0 && x != 0; n--)
+      x = add(x, x);
+    return x;
+  }
+
   /// Exponentiation by squaring, x^n.
-  static T pow(T x, T n)
+  T pow(T x, T n) const
   {
+    if (n < 0)
+      throw calculator::error(expr_, "Error: negative exponent");
+
     T res = 1;
 
     while (n > 0)
     {
       if (n % 2 != 0)
       {
-        res *= x;
+        res = mul(res, x);
         n -= 1;
       }
       n /= 2;
 
       if (n > 0)
-        x *= x;
+        x = mul(x, x);
     }
 
     return res;
@@ -228,15 +319,15 @@ private:
       case OPERATOR_BITWISE_OR:     return v1 | v2;
       case OPERATOR_BITWISE_XOR:    return v1 ^ v2;
       case OPERATOR_BITWISE_AND:    return v1 & v2;
-      case OPERATOR_BITWISE_SHL:    return v1 << v2;
-      case OPERATOR_BITWISE_SHR:    return v1 >> v2;
-      case OPERATOR_ADDITION:       return v1 + v2;
-      case OPERATOR_SUBTRACTION:    return v1 - v2;
-      case OPERATOR_MULTIPLICATION: return v1 * v2;
-      case OPERATOR_DIVISION:       return v1 / checkZero(v2);
-      case OPERATOR_MODULO:         return v1 % checkZero(v2);
+      case OPERATOR_BITWISE_SHL:    return shiftLeft(v1, v2);
+      case OPERATOR_BITWISE_SHR:    return v1 >> checkShift(v2);
+      case OPERATOR_ADDITION:       return add(v1, v2);
+      case OPERATOR_SUBTRACTION:    return sub(v1, v2);
+      case OPERATOR_MULTIPLICATION: return mul(v1, v2);
+      case OPERATOR_DIVISION:       return div(v1, v2);
+      case OPERATOR_MODULO:         return mod(v1, v2);
       case OPERATOR_POWER:          return pow(v1, v2);
-      case OPERATOR_EXPONENT:       return v1 * pow(10, v2);
+      case OPERATOR_EXPONENT:       return mul(v1, pow(10, v2));
       default:                      return 0;
     }
   }
@@ -329,7 +420,7 @@ private:
   {
     T value = 0;
     for (T d; (d = getInteger()) <= 9; index_++)
-      value = value * 10 + d;
+      value = add(mul(value, 10), d);
     return value;
   }
 
@@ -338,7 +429,7 @@ private:
     index_ = index_ + 2;
     T value = 0;
     for (T h; (h = getInteger()) <= 0xf; index_++)
-      value = value * 0x10 + h;
+      value = add(mul(value, 0x10), h);
     return value;
   }
 
@@ -384,7 +475,7 @@ private:
                 index_++; break;
       case '~': index_++; val = ~parseValue(); break;
       case '+': index_++; val =  parseValue(); break;
-      case '-': index_++; val =  parseValue() * static_cast<T>(-1);
+      case '-': index_++; val =  mul(parseValue(), static_cast<T>(-1));
                 break;
       default : if (!isEnd())
                   unexpected();
diff --git a/lib/primesieve/include/primesieve/calculator.hpp b/lib/primesieve/include/primesieve/calculator.hpp
index 1a1291c..ab6e50d 100644
--- a/lib/primesieve/include/primesieve/calculator.hpp
+++ b/lib/primesieve/include/primesieve/calculator.hpp
@@ -183,22 +183,113 @@ private:
   /// top of the stack has lower precedence.
   std::stack<OperatorValue> stack_;
 
+  static bool isSigned()
+  {
+    return !(static_cast<T>(-1) > static_cast<T>(0));
+  }
+
+  /// Largest value of the signed integer type T
+  static T maxSigned()
+  {
+    T pow2 = static_cast<T>(1) << (sizeof(T) * 8 - 2);
+    return pow2 - 1 + pow2;
+  }
+
+  /// Smallest value of the signed integer type T
+  static T minSigned()
+  {
+    return -maxSigned() - 1;
+  }
+
+  void overflow() const
+  {
+    throw calculator::error(expr_, "Error: integer overflow");
+  }
+
+  /// The result of an operation on signed integers must fit into T.
+  /// Unsigned integers are computed modulo 2^n, just like in C++.
+  ///
+  T add(T x, T y) const
+  {
+    if (isSigned() &&
+        ((y > 0 && x > maxSigned() - y) ||
+         (y < 0 && x < minSigned() - y)))
+      overflow();
+    return x + y;
+  }
+
+  T sub(T x, T y) const
+  {
+    if (isSigned() &&
+        ((y > 0 && x < minSigned() + y) ||
+         (y < 0 && x > maxSigned() + y)))
+      overflow();
+    return x - y;
+  }
+
+  T mul(T x, T y) const
+  {
+    if (isSigned() &&
+        ((x > 0 && y > 0 && x > maxSigned() / y) ||
+         (x > 0 && y < 0 && y < minSigned() / x) ||
+         (x < 0 && y > 0 && x < minSigned() / y) ||
+         (x < 0 && y < 0 && y < maxSigned() / x)))
+      overflow();
+    return x * y;
+  }
+
+  T div(T x, T y) const
+  {
+    checkZero(y);
+    if (isSigned() && y == static_cast<T>(-1))
+      return sub(0, x);
+    return x / y;
+  }
+
+  T mod(T x, T y) const
+  {
+    checkZero(y);
+    if (isSigned() && y == static_cast<T>(-1))
+      return 0;
+    return x % y;
+  }
+
+  T checkShift(T n) const
+  {
+    if (n < 0 || n >= static_cast<T>(sizeof(T) * 8))
+      throw calculator::error(expr_, "Error: invalid shift count");
+    return n;
+  }
+
+  T shiftLeft(T x, T n) const
+  {
+    checkShift(n);
+    if (!isSigned())
+      return x << n;
+    for (; n > 0 && x != 0; n--)
+      x = add(x, x);
+    return x;
+  }
+
   /// Exponentiation by squaring, x^n.
-  static T pow(T x, T n)
+  T pow(T x, T n) const
   {
+    if (n < 0)
+      throw calculator::error(expr_, "Error: negative exponent");
+
     T res = 1;
 
     while (n > 0)
     {
       if (n % 2 != 0)
       {
-        res *= x;
+        res = mul(res, x);
         n -= 1;
       }
       n /= 2;
 
       if (n > 0)
-        x *= x;
+        x = mul(x, x);
     }
 
     return res;
@@ -228,15 +319,15 @@ private:
       case OPERATOR_BITWISE_OR:     return v1 | v2;
       case OPERATOR_BITWISE_XOR:    return v1 ^ v2;
       case OPERATOR_BITWISE_AND:    return v1 & v2;
-      case OPERATOR_BITWISE_SHL:    return v1 << v2;
-      case OPERATOR_BITWISE_SHR:    return v1 >> v2;
-      case OPERATOR_ADDITION:       return v1 + v2;
-      case OPERATOR_SUBTRACTION:    return v1 - v2;
-      case OPERATOR_MULTIPLICATION: return v1 * v2;
-      case OPERATOR_DIVISION:       return v1 / checkZero(v2);
-      case OPERATOR_MODULO:         return v1 % checkZero(v2);
+      case OPERATOR_BITWISE_SHL:    return shiftLeft(v1, v2);
+      case OPERATOR_BITWISE_SHR:    return v1 >> checkShift(v2);
+      case OPERATOR_ADDITION:       return add(v1, v2);
+      case OPERATOR_SUBTRACTION:    return sub(v1, v2);
+      case OPERATOR_MULTIPLICATION: return mul(v1, v2);
+      case OPERATOR_DIVISION:       return div(v1, v2);
+      case OPERATOR_MODULO:         return mod(v1, v2);
       case OPERATOR_POWER:          return pow(v1, v2);
-      case OPERATOR_EXPONENT:       return v1 * pow(10, v2);
+      case OPERATOR_EXPONENT:       return mul(v1, pow(10, v2));
       default:                      return 0;
     }
   }
@@ -329,7 +420,7 @@ private:
   {
     T value = 0;
     for (T d; (d = getInteger()) <= 9; index_++)
-      value = value * 10 + d;
+      value = add(mul(value, 10), d);
     return value;
   }
 
@@ -338,7 +429,7 @@ private:
     index_ = index_ + 2;
     T value = 0;
     for (T h; (h = getInteger()) <= 0xf; index_++)
-      value = value * 0x10 + h;
+      value = add(mul(value, 0x10), h);
     return value;
   }
 
@@ -384,7 +475,7 @@ private:
                 index_++; break;
       case '~': index_++; val = ~parseValue(); break;
       case '+': index_++; val =  parseValue(); break;
-      case '-': index_++; val =  parseValue() * static_cast<T>(-1);
+      case '-': index_++; val =  mul(parseValue(), static_cast<T>(-1));
                 break;
       default : if (!isEnd())
                   unexpected();
-- 
2.43.0


From c45d22923ec26f24d136d6ff576d62893f1c24ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 11/24] fix: calculator stack overflow for deeply nested
 expressions

---
 include/calculator.hpp                           | 9 +++++++++
 lib/primesieve/include/primesieve/calculator.hpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/calculator.hpp b/include/calculator.hpp
index ab6e50d..29658d1 100644
--- a/include/calculator.hpp
+++ b/include/calculator.hpp
@@ -101,6 +101,7 @@ public:
   {
     T result = 0;
     index_ = 0;
+    depth_ = 0;
     expr_ = expr;
     try
     {
@@ -178,6 +179,8 @@ private:
   std::string expr_;
   /// Current expression index, incremented whilst parsing
   std::size_t index_;
+  /// Recursion depth of parseValue()
+  std::size_t depth_;
   /// The current operator and its left value
   /// are pushed onto the stack if the operator on
   /// top of the stack has lower precedence.
@@ -452,6 +455,11 @@ private:
   {
     T val = 0;
     eatSpaces();
+
+    // prevent stack overflow
+    if (++depth_ > 1000)
+      throw calculator::error(expr_, "Error: expression is nested too deeply");
+
     switch (getCharacter())
     {
       case '0': if (isHex())
@@ -481,6 +489,7 @@ private:
                   unexpected();
                 throw calculator::error(expr_, "Syntax error: value expected at end of expression");
     }
+    depth_--;
     return val;
   }
 
diff --git a/lib/primesieve/include/primesieve/calculator.hpp b/lib/primesieve/include/primesieve/calculator.hpp
index ab6e50d..29658d1 100644
--- a/lib/primesieve/include/primesieve/calculator.hpp
+++ b/lib/primesieve/include/primesieve/calculator.hpp
@@ -101,6 +101,7 @@ public:
   {
     T result = 0;
     index_ = 0;
+    depth_ = 0;
     expr_ = expr;
     try
     {
@@ -178,6 +179,8 @@ private:
   std::string expr_;
   /// Current expression index, incremented whilst parsing
   std::size_t index_;
+  /// Recursion depth of parseValue()
+  std::size_t depth_;
   /// The current operator and its left value
   /// are pushed onto the stack if the operator on
   /// top of the stack has lower precedence.
@@ -452,6 +455,11 @@ private:
   {
     T val = 0;
     eatSpaces();
+
+    // prevent stack overflow
+    if (++depth_ > 1000)
+      throw calculator::error(expr_, "Error: expression is nested too deeply");
+
     switch (getCharacter())
     {
       case '0': if (isHex())
@@ -481,6 +489,7 @@ private:
                   unexpected();
                 throw calculator::error(expr_, "Syntax error: value expected at end of expression");
     }
+    depth_--;
     return val;
   }
 
-- 
2.43.0


From 2901b1f852aff25e7a245d9d3bdbbd4c1fe7efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 12/24] fix: primesieve command line accepted numbers that do
 not fit into 64 bits

---
 lib/primesieve/src/app/cmdoptions.cpp | 16 +++++++++++++++-
 lib/primesieve/src/app/main.cpp       |  8 +++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/lib/primesieve/src/app/cmdoptions.cpp b/lib/primesieve/src/app/cmdoptions.cpp
index f1bd247..2e6a3c5 100644
--- a/lib/primesieve/src/app/cmdoptions.cpp
+++ b/lib/primesieve/src/app/cmdoptions.cpp
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <stdint.h>
 #include <string>
@@ -104,7 +105,17 @@ struct Option
   T getValue() const
   {
     try {
-      return calculator::eval<T>(val);;
+#if defined(__SIZEOF_INT128__)
+      // Use a wider type than T in order to detect
+      // numbers that do not fit into T.
+      auto n = calculator::eval<__int128_t>(val);
+      if (n < numeric_limits<T>::min() ||
+          n > numeric_limits<T>::max())
+        throw primesieve_error("integer overflow");
+      return (T) n;
+#else
+      return calculator::eval<T>(val);
+#endif
     }
     catch (std::exception&) {
       throw primesieve_error("invalid option '" + opt + "=" + val + "'");
@@ -300,6 +311,9 @@ void optionDistance(Option& opt,
   if (!numbers.empty())
     start = numbers[0];
 
+  if (val > numeric_limits<uint64_t>::max() - start)
+    throw primesieve_error("invalid option '" + opt.str + "', STOP must be < 2^64");
+
   numbers.push_back(start + val);
 }
 
diff --git a/lib/primesieve/src/app/main.cpp b/lib/primesieve/src/app/main.cpp
index d3b0105..539d7f8 100644
--- a/lib/primesieve/src/app/main.cpp
+++ b/lib/primesieve/src/app/main.cpp
@@ -9,12 +9,15 @@
 ///
 
 #include <primesieve/ParallelSieve.hpp>
+#include <primesieve/pmath.hpp>
+#include <primesieve/primesieve_error.hpp>
 #include "cmdoptions.hpp"
 
 #include <stdint.h>
 #include <iostream>
 #include <exception>
 #include <iomanip>
+#include <limits>
 #include <string>
 
 using namespace std;
@@ -92,11 +95,14 @@ void nthPrime(CmdOptions& opt)
   if (numbers.size() < 2)
     numbers.push_back(0);
 
+  if (numbers[0] > (uint64_t) numeric_limits<int64_t>::max())
+    throw primesieve_error("n must be < 2^63");
+
   int64_t n = numbers[0];
   uint64_t start = numbers[1];
   uint64_t nthPrime = 0;
   ps.setStart(start);
-  ps.setStop(start + abs(n * 20));
+  ps.setStop(checkedAdd(start, (uint64_t) n * 20));
 
   if (!opt.quiet)
     printSettings(ps);
-- 
2.43.0


From 3993740384ca911acd95717eda5528af023a0102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 13/24] fix: --lmo2 to --lmo5 silently overflowed 64 bits for x
 > 2*10^10

---
 include/primesum-internal.hpp |  8 ++++----
 src/lmo/pi_lmo2.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo3.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo4.cpp           |  8 ++++----
 src/lmo/pi_lmo5.cpp           | 22 +++++++++++-----------
 5 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/include/primesum-internal.hpp b/include/primesum-internal.hpp
index cdcf091..d0071aa 100644
--- a/include/primesum-internal.hpp
+++ b/include/primesum-internal.hpp
@@ -63,13 +63,13 @@ int256_t pi_lmo(int128_t x, int threads);
 
 int256_t pi_lmo1(int128_t x);
 
-int64_t pi_lmo2(int64_t x);
+int256_t pi_lmo2(int64_t x);
 
-int64_t pi_lmo3(int64_t x);
+int256_t pi_lmo3(int64_t x);
 
-int64_t pi_lmo4(int64_t x);
+int256_t pi_lmo4(int64_t x);
 
-int64_t pi_lmo5(int64_t x);
+int256_t pi_lmo5(int64_t x);
 
 int256_t pi_lmo_parallel1(int128_t x, int threads);
 
diff --git a/src/lmo/pi_lmo2.cpp b/src/lmo/pi_lmo2.cpp
index 3b06c1a..9174ccf 100644
--- a/src/lmo/pi_lmo2.cpp
+++ b/src/lmo/pi_lmo2.cpp
@@ -32,16 +32,16 @@ namespace {
 /// segmentation). Space complexity: O(x^(2/3) * (log x)^2).
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int256_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int256_t S2_result = 0;
   int64_t b = 1;
   vector<char> sieve(limit, 1);
 
@@ -58,7 +58,7 @@ int64_t S2(int64_t x,
   {
     int64_t prime = primes[b];
     int64_t i = 1;
-    int64_t phi = 0;
+    int128_t phi = 0;
 
     for (int64_t m = y; m > y / prime; m--)
     {
@@ -92,7 +92,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(2/3) / (log x)^2) space.
 ///
-int64_t pi_lmo2(int64_t x)
+int256_t pi_lmo2(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -112,7 +112,7 @@ int64_t pi_lmo2(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo3.cpp b/src/lmo/pi_lmo3.cpp
index 82ea770..86e3952 100644
--- a/src/lmo/pi_lmo3.cpp
+++ b/src/lmo/pi_lmo3.cpp
@@ -50,21 +50,21 @@ void cross_off(int64_t prime,
 /// Calculate the contribution of the special leaves.
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int256_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t segment_size = next_power_of_2(isqrt(limit));
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int256_t S2_result = 0;
 
   vector<char> sieve(segment_size);
   vector<int64_t> next(primes.begin(), primes.end());
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
   // Segmented sieve of Eratosthenes
   for (int64_t low = 1; low < limit; low += segment_size)
@@ -130,7 +130,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo3(int64_t x)
+int256_t pi_lmo3(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -150,7 +150,7 @@ int64_t pi_lmo3(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo4.cpp b/src/lmo/pi_lmo4.cpp
index 9cb37ad..97a3d7d 100644
--- a/src/lmo/pi_lmo4.cpp
+++ b/src/lmo/pi_lmo4.cpp
@@ -58,7 +58,7 @@ void cross_off(int64_t prime,
 /// Calculate the contribution of the special leaves.
 /// @pre y > 0 && c > 1
 ///
-int128_t S2(int64_t x,
+int256_t S2(int64_t x,
             int64_t y,
             int64_t c,
             vector<int32_t>& primes,
@@ -68,7 +68,7 @@ int128_t S2(int64_t x,
   int64_t limit = x / y + 1;
   int64_t segment_size = next_power_of_2(isqrt(limit));
   int64_t pi_y = pi_bsearch(primes, y);
-  int128_t S2_result = 0;
+  int256_t S2_result = 0;
 
   vector<char> sieve(segment_size);
   vector<int64_t> next(primes.begin(), primes.end());
@@ -140,7 +140,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo4(int64_t x)
+int256_t pi_lmo4(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -160,7 +160,7 @@ int64_t pi_lmo4(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo5.cpp b/src/lmo/pi_lmo5.cpp
index 8f7f444..c8bfa43 100644
--- a/src/lmo/pi_lmo5.cpp
+++ b/src/lmo/pi_lmo5.cpp
@@ -54,12 +54,12 @@ void cross_off(BitSieve& sieve,
 /// @see ../docs/computing-special-leaves.md
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int256_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   print("");
   print("=== S2(x, y) ===");
@@ -72,9 +72,9 @@ int64_t S2(int64_t x,
   BitSieve sieve(segment_size);
   Wheel wheel(primes, (int64_t) primes.size(), /*low = */ 1);
   vector<int32_t> pi = generate_pi(y);
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
-  int64_t S2_result = 0;
+  int256_t S2_result = 0;
   int64_t pi_sqrty = pi[isqrt(y)];
   int64_t pi_y = pi[y];
 
@@ -137,7 +137,7 @@ int64_t S2(int64_t x,
         int64_t stop = xn - low;
         for (; i <= stop; i += 2)
           phi[b] += (low + i) * sieve[i];
-        S2_result += primes[l]* prime * phi[b];
+        S2_result += primes[l] * prime * phi[b];
       }
 
       for (; i < high - low; i += 2)
@@ -160,7 +160,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3) / log x) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo5(int64_t x)
+int256_t pi_lmo5(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -186,7 +186,7 @@ int64_t pi_lmo5(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
-- 
2.43.0


From b1bf2ce151548edfe770917f8f51f7593aa5318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 14/24] fix: nth prime distance was converted to uint64_t out
 of range

---
 lib/primesieve/src/nthPrime.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/primesieve/src/nthPrime.cpp b/lib/primesieve/src/nthPrime.cpp
index b03de60..179d6e1 100644
--- a/lib/primesieve/src/nthPrime.cpp
+++ b/lib/primesieve/src/nthPrime.cpp
@@ -53,6 +53,8 @@ int64_t pix(int64_t n)
 
 uint64_t nthPrimeDist(int64_t n, int64_t count, uint64_t start)
 {
+  // all distances must fit into uint64_t
+  double maxDist = (double) (1ull << 63);
   double x = (double) (n - count);
 
   x = abs(x);
@@ -67,9 +69,7 @@ uint64_t nthPrimeDist(int64_t n, int64_t count, uint64_t start)
   // get more accurate approximation
   if (count >= n)
   {
-    double st = start - pix;
-    st = max(0.0, st);
-    start = (uint64_t) st;
+    start = checkedSub(start, (uint64_t) min(pix, maxDist));
   }
 
   // approximate the nth prime using:
@@ -91,6 +91,8 @@ uint64_t nthPrimeDist(int64_t n, int64_t count, uint64_t start)
   double primeGap = maxPrimeGap(startPix);
   dist = max(dist, primeGap);
 
+  dist = min(dist, maxDist);
+
   return (uint64_t) dist;
 }
 
-- 
2.43.0


From c80ec262c5a03c550f82f980ddcda3135e8351d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 15/24] fix: malloc_vector size overflow wrote outside of the
 array for huge n

---
 lib/primesieve/include/primesieve/malloc_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/primesieve/include/primesieve/malloc_vector.hpp b/lib/primesieve/include/primesieve/malloc_vector.hpp
index e3b4951..f13d2d4 100644
--- a/lib/primesieve/include/primesieve/malloc_vector.hpp
+++ b/lib/primesieve/include/primesieve/malloc_vector.hpp
@@ -13,6 +13,7 @@
 #include <stdlib.h>
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 namespace {
@@ -57,6 +58,10 @@ public:
   void resize(std::size_t n)
   {
     n = std::max(n, (std::size_t) 16);
+
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T))
+      throw std::bad_alloc();
+
     T* new_array = (T*) realloc((void*) array_, n * sizeof(T));
 
     if (!new_array)
-- 
2.43.0


From f803e0ed1ead394f71e72c58e2b8d7f9c5479b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 16/24] fix: generating primes truncated them to narrow types
 and failed for the last prime below 2^64

---
 .../include/primesieve/StorePrimes.hpp        | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/lib/primesieve/include/primesieve/StorePrimes.hpp b/lib/primesieve/include/primesieve/StorePrimes.hpp
index 0154bba..9703d1b 100644
--- a/lib/primesieve/include/primesieve/StorePrimes.hpp
+++ b/lib/primesieve/include/primesieve/StorePrimes.hpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <vector>
 
 namespace primesieve {
@@ -39,6 +40,20 @@ inline std::size_t prime_count_approx(uint64_t start, uint64_t stop)
   return (std::size_t) pix;
 }
 
+/// Largest prime that can be stored in the type V
+/// without loss of precision.
+///
+template <typename V>
+inline uint64_t max_storable_prime()
+{
+  int digits = std::numeric_limits<V>::digits;
+
+  if (digits == 0 || digits >= 64)
+    return std::numeric_limits<uint64_t>::max();
+
+  return (1ull << digits) - 1;
+}
+
 template <typename T>
 inline void store_primes(uint64_t start,
                          uint64_t stop,
@@ -56,9 +71,13 @@ inline void store_primes(uint64_t start,
     primes.reserve(size);
 
     primesieve::iterator it(start, stop);
+    uint64_t max_prime = std::min(stop, max_storable_prime<V>());
     uint64_t prime = it.next_prime();
-    for (; prime <= stop; prime = it.next_prime())
+    for (; prime <= max_prime; prime = it.next_prime())
       primes.push_back((V) prime);
+
+    if (prime <= stop)
+      throw primesieve_error("the element type is too narrow for the primes");
   }
 }
 
@@ -82,13 +101,20 @@ inline void store_n_primes(uint64_t n,
   uint64_t dist = n * (logx + 1);
   uint64_t stop = start + dist;
 
+  uint64_t max_prime = max_storable_prime<V>();
   primesieve::iterator it(start, stop);
-  uint64_t prime = it.next_prime();
-  for (; n > 0; n--, prime = it.next_prime())
-    primes.push_back((V) prime);
 
-  if (~prime == 0)
-    throw primesieve_error("cannot generate primes > 2^64");
+  for (; n > 0; n--)
+  {
+    uint64_t prime = it.next_prime();
+
+    if (~prime == 0)
+      throw primesieve_error("cannot generate primes > 2^64");
+    if (prime > max_prime)
+      throw primesieve_error("the element type is too narrow for the primes");
+
+    primes.push_back((V) prime);
+  }
 }
 
 } // namespace
-- 
2.43.0


From ed136d924e05cd554920cb12f421f8d54450e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 17/24] fix: prime iterators were left in an invalid state
 after a failed memory allocation

---
 lib/primesieve/src/iterator-c.cpp | 76 ++++++++++++++++----------
 lib/primesieve/src/iterator.cpp   | 90 +++++++++++++++++++------------
 2 files changed, 104 insertions(+), 62 deletions(-)

diff --git a/lib/primesieve/src/iterator-c.cpp b/lib/primesieve/src/iterator-c.cpp
index cc8d548..3f913a5 100644
--- a/lib/primesieve/src/iterator-c.cpp
+++ b/lib/primesieve/src/iterator-c.cpp
@@ -35,13 +35,37 @@ void clearPrimeGenerator(primesieve_iterator* it)
   it->primeGenerator = nullptr;
 }
 
+/// The vector is allocated when it is first used, hence
+/// primesieve_init() cannot fail.
 vector<uint64_t>& getPrimes(primesieve_iterator* it)
 {
   using T = vector<uint64_t>;
+  if (!it->vector)
+    it->vector = new T;
   T* primes = (T*) it->vector;
   return *primes;
 }
 
+/// An error has occurred: return PRIMESIEVE_ERROR to the user and
+/// go back to the position before the error. This function
+/// must not allocate memory.
+///
+void setError(primesieve_iterator* it, uint64_t pos)
+{
+  static uint64_t error[1] = { PRIMESIEVE_ERROR };
+
+  primesieve_skipto(it, pos, it->stop_hint);
+  it->primes = error;
+  it->is_error = true;
+  errno = EDOM;
+}
+
+/// The iterator has not yet generated any primes
+bool isEmpty(primesieve_iterator* it)
+{
+  return !it->vector || getPrimes(it).empty();
+}
+
 } // namespace
 
 /// C constructor
@@ -53,7 +77,8 @@ void primesieve_init(primesieve_iterator* it)
   it->i = 0;
   it->last_idx = 0;
   it->dist = 0;
-  it->vector = new vector<uint64_t>;
+  it->primes = nullptr;
+  it->vector = nullptr;
   it->primeGenerator = nullptr;
   it->is_error = false;
 }
@@ -68,9 +93,9 @@ void primesieve_skipto(primesieve_iterator* it,
   it->i = 0;
   it->last_idx = 0;
   it->dist = 0;
-  auto& primes = getPrimes(it);
-  primes.clear();
   clearPrimeGenerator(it);
+  if (it->vector)
+    getPrimes(it).clear();
 }
 
 /// C destructor
@@ -79,30 +104,31 @@ void primesieve_free_iterator(primesieve_iterator* it)
   if (it)
   {
     clearPrimeGenerator(it);
-    auto* primes = &getPrimes(it);
-    delete primes;
+    delete (vector<uint64_t>*) it->vector;
+    it->vector = nullptr;
   }
 }
 
 void primesieve_generate_next_primes(primesieve_iterator* it)
 {
-  auto& primes = getPrimes(it);
-  auto primeGenerator = getPrimeGenerator(it);
+  // Last prime that has been returned
+  uint64_t pos = isEmpty(it) ? it->start : it->primes[it->last_idx];
 
   try
   {
+    auto& primes = getPrimes(it);
+
     while (true)
     {
       if (!it->primeGenerator)
       {
         IteratorHelper::next(&it->start, &it->stop, it->stop_hint, &it->dist);
         it->primeGenerator = new PrimeGenerator(it->start, it->stop);
-        primeGenerator = getPrimeGenerator(it);
         primes.resize(256);
         it->primes = &primes[0];
       }
 
-      primeGenerator->fill(primes, &it->last_idx);
+      getPrimeGenerator(it)->fill(primes, &it->last_idx);
 
       // There are 3 different cases here:
       // 1) The primes array contains a few primes (<= 256).
@@ -119,27 +145,25 @@ void primesieve_generate_next_primes(primesieve_iterator* it)
       else
         break;
     }
+
+    it->i = 0;
+    it->last_idx--;
   }
   catch (exception&)
   {
-    clearPrimeGenerator(it);
-    primes.resize(1);
-    primes[0] = PRIMESIEVE_ERROR;
-    it->last_idx = 1;
-    it->is_error = true;
-    errno = EDOM;
+    setError(it, pos);
   }
-
-  it->i = 0;
-  it->last_idx--;
 }
 
 void primesieve_generate_prev_primes(primesieve_iterator* it)
 {
-  auto& primes = getPrimes(it);
+  // Last prime that has been returned
+  uint64_t pos = isEmpty(it) ? it->start : it->primes[0];
 
   try
   {
+    auto& primes = getPrimes(it);
+
     if (it->primeGenerator)
       it->start = primes.front();
 
@@ -156,17 +180,13 @@ void primesieve_generate_prev_primes(primesieve_iterator* it)
       primeGenerator->fill(primes);
       clearPrimeGenerator(it);
     }
+
+    it->primes = &primes[0];
+    it->last_idx = primes.size() - 1;
+    it->i = it->last_idx;
   }
   catch (exception&)
   {
-    clearPrimeGenerator(it);
-    primes.resize(1);
-    primes[0] = PRIMESIEVE_ERROR;
-    it->is_error = true;
-    errno = EDOM;
+    setError(it, pos);
   }
-
-  it->primes = &primes[0];
-  it->last_idx = primes.size() - 1;
-  it->i = it->last_idx;
 }
diff --git a/lib/primesieve/src/iterator.cpp b/lib/primesieve/src/iterator.cpp
index e7440c2..8b47d30 100644
--- a/lib/primesieve/src/iterator.cpp
+++ b/lib/primesieve/src/iterator.cpp
@@ -54,32 +54,43 @@ void iterator::skipto(uint64_t start,
 
 void iterator::generate_next_primes()
 {
-  while (true)
+  // Last prime that has been returned
+  uint64_t pos = primes_.empty() ? start_ : primes_[last_idx_];
+
+  try
   {
-    if (!primeGenerator_)
+    while (true)
     {
-      IteratorHelper::next(&start_, &stop_, stop_hint_, &dist_);
-      auto p = new PrimeGenerator(start_, stop_);
-      primeGenerator_.reset(p);
-      primes_.resize(256);
+      if (!primeGenerator_)
+      {
+        IteratorHelper::next(&start_, &stop_, stop_hint_, &dist_);
+        auto p = new PrimeGenerator(start_, stop_);
+        primeGenerator_.reset(p);
+        primes_.resize(256);
+      }
+
+      primeGenerator_->fill(primes_, &last_idx_);
+
+      // There are 3 different cases here:
+      // 1) The primes array contains a few primes (<= 256).
+      //    In this case we return the primes to the user.
+      // 2) The primes array is empty because the next
+      //    prime > stop. In this case we reset the
+      //    primeGenerator object, increase the start & stop
+      //    numbers and sieve the next segment.
+      // 3) The next prime > 2^64. In this case the primes
+      //    array contains an error code (UINT64_MAX) which
+      //    is returned to the user.
+      if (last_idx_ == 0)
+        clear(primeGenerator_);
+      else
+        break;
     }
-
-    primeGenerator_->fill(primes_, &last_idx_);
-
-    // There are 3 different cases here:
-    // 1) The primes array contains a few primes (<= 256).
-    //    In this case we return the primes to the user.
-    // 2) The primes array is empty because the next
-    //    prime > stop. In this case we reset the
-    //    primeGenerator object, increase the start & stop
-    //    numbers and sieve the next segment.
-    // 3) The next prime > 2^64. In this case the primes
-    //    array contains an error code (UINT64_MAX) which
-    //    is returned to the user.
-    if (last_idx_ == 0)
-      clear(primeGenerator_);
-    else
-      break;
+  }
+  catch (...)
+  {
+    skipto(pos, stop_hint_);
+    throw;
   }
 
   i_ = 0;
@@ -88,20 +99,31 @@ void iterator::generate_next_primes()
 
 void iterator::generate_prev_primes()
 {
-  if (primeGenerator_)
-    start_ = primes_.front();
+  // Last prime that has been returned
+  uint64_t pos = primes_.empty() ? start_ : primes_.front();
 
-  primes_.clear();
+  try
+  {
+    if (primeGenerator_)
+      start_ = primes_.front();
+
+    primes_.clear();
 
-  while (primes_.empty())
+    while (primes_.empty())
+    {
+      IteratorHelper::prev(&start_, &stop_, stop_hint_, &dist_);
+      if (start_ <= 2)
+        primes_.push_back(0);
+      auto p = new PrimeGenerator(start_, stop_);
+      primeGenerator_.reset(p);
+      primeGenerator_->fill(primes_);
+      clear(primeGenerator_);
+    }
+  }
+  catch (...)
   {
-    IteratorHelper::prev(&start_, &stop_, stop_hint_, &dist_);
-    if (start_ <= 2)
-      primes_.push_back(0);
-    auto p = new PrimeGenerator(start_, stop_);
-    primeGenerator_.reset(p);
-    primeGenerator_->fill(primes_);
-    clear(primeGenerator_);
+    skipto(pos, stop_hint_);
+    throw;
   }
 
   last_idx_ = primes_.size() - 1;
-- 
2.43.0


From 59376007bbbbcd58bf9f1123a6416ea130f925d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 18/24] fix: failed memory allocation inside of a parallel
 region terminated the program

---
 include/FactorTable.hpp            | 72 +++++++++++++++++-------------
 include/ParallelException.hpp      | 53 ++++++++++++++++++++++
 src/P2.cpp                         |  7 ++-
 src/deleglise-rivat/S2_hard.cpp    | 11 ++++-
 src/deleglise-rivat/S2_trivial.cpp | 25 +++++++----
 src/lmo/pi_lmo_parallel1.cpp       | 11 ++++-
 src/phi.cpp                        |  7 ++-
 7 files changed, 139 insertions(+), 47 deletions(-)
 create mode 100644 include/ParallelException.hpp

diff --git a/include/FactorTable.hpp b/include/FactorTable.hpp
index 3f48351..577a30c 100644
--- a/include/FactorTable.hpp
+++ b/include/FactorTable.hpp
@@ -33,6 +33,7 @@
 #include <primesieve.hpp>
 #include <imath.hpp>
 #include <int128_t.hpp>
+#include <ParallelException.hpp>
 
 #include <algorithm>
 #include <cassert>
@@ -98,49 +99,56 @@ public:
     threads = ideal_num_threads(threads, y, thread_threshold);
     int64_t thread_distance = ceil_div(y, threads);
 
+    ParallelException exception;
+
     #pragma omp parallel for num_threads(threads)
     for (int t = 0; t < threads; t++)
     {
       int64_t low = 1;
       low += thread_distance * t;
       int64_t high = std::min(low + thread_distance, y);
-      primesieve::iterator it(get_number(1) - 1);
-
-      while (true)
-      {
-        int64_t i = 1;
-        int64_t prime = it.next_prime();
-        int64_t multiple = next_multiple(prime, low, &i);
-        int64_t min_m = prime * get_number(1);
 
-        if (min_m > high)
-          break;
+      exception.run([&] {
+        primesieve::iterator it(get_number(1) - 1);
 
-        for (; multiple <= high; multiple = prime * get_number(i++))
+        while (true)
         {
-          int64_t mi = get_index(multiple);
-          // prime is smallest factor of multiple
-          if (factor_[mi] == T_MAX)
-            factor_[mi] = (T) prime;
-          // the least significant bit indicates
-          // whether multiple has an even (0) or odd (1)
-          // number of prime factors
-          else if (factor_[mi] != 0)
-            factor_[mi] ^= 1;
+          int64_t i = 1;
+          int64_t prime = it.next_prime();
+          int64_t multiple = next_multiple(prime, low, &i);
+          int64_t min_m = prime * get_number(1);
+
+          if (min_m > high)
+            break;
+
+          for (; multiple <= high; multiple = prime * get_number(i++))
+          {
+            int64_t mi = get_index(multiple);
+            // prime is smallest factor of multiple
+            if (factor_[mi] == T_MAX)
+              factor_[mi] = (T) prime;
+            // the least significant bit indicates
+            // whether multiple has an even (0) or odd (1)
+            // number of prime factors
+            else if (factor_[mi] != 0)
+              factor_[mi] ^= 1;
+          }
+
+          if (prime <= sqrty)
+          {
+            int64_t j = 0;
+            int64_t square = prime * prime;
+            multiple = next_multiple(square, low, &j);
+
+            // moebius(n) = 0
+            for (; multiple <= high; multiple = square * get_number(j++))
+              factor_[get_index(multiple)] = 0;
+          }
         }
-
-        if (prime <= sqrty)
-        {
-          int64_t j = 0;
-          int64_t square = prime * prime;
-          multiple = next_multiple(square, low, &j);
-
-          // moebius(n) = 0
-          for (; multiple <= high; multiple = square * get_number(j++))
-            factor_[get_index(multiple)] = 0;
-        }
-      }
+      });
     }
+
+    exception.rethrow();
   }
 
   /// Get the least prime factor (lpf) of the number
diff --git a/include/ParallelException.hpp b/include/ParallelException.hpp
new file mode 100644
index 0000000..2dd76fa
--- /dev/null
+++ b/include/ParallelException.hpp
@@ -0,0 +1,53 @@
+///
+/// @file  ParallelException.hpp
+/// @brief An exception must not leave an OpenMP parallel region,
+///        otherwise the program is terminated. ParallelException
+///        catches the first exception that is thrown inside of the
+///        parallel region so that it can be rethrown behind it.
+///
+/// This file is distributed under the BSD License. See the COPYING
+/// file in the top level directory.
+///
+
+#ifndef PARALLELEXCEPTION_HPP
+#define PARALLELEXCEPTION_HPP
+
+#include <exception>
+
+namespace primesum {
+
+class ParallelException
+{
+public:
+  /// Run the code of one iteration of the parallel loop
+  template <typename F>
+  void run(F&& f)
+  {
+    try
+    {
+      f();
+    }
+    catch (...)
+    {
+      #pragma omp critical (parallel_exception)
+      {
+        if (!exception_)
+          exception_ = std::current_exception();
+      }
+    }
+  }
+
+  /// Must be called after the parallel region
+  void rethrow()
+  {
+    if (exception_)
+      std::rethrow_exception(exception_);
+  }
+
+private:
+  std::exception_ptr exception_;
+};
+
+} // namespace
+
+#endif
diff --git a/src/P2.cpp b/src/P2.cpp
index da5573f..b2ed6ad 100644
--- a/src/P2.cpp
+++ b/src/P2.cpp
@@ -17,6 +17,7 @@
 #include <int256_t.hpp>
 #include <min_max.hpp>
 #include <imath.hpp>
+#include <ParallelException.hpp>
 
 #include <stdint.h>
 #include <algorithm>
@@ -172,9 +173,13 @@ P2_OpenMP_master(T x,
     verif::step("P2", low, thread_distance, threads);
 #endif
 
+    ParallelException exception;
+
     #pragma omp parallel for num_threads(threads) reduction(+: p2)
     for (int i = 0; i < threads; i++)
-      p2 += P2_OpenMP_thread(x, y, z, thread_distance, i, low, prime_sums[i], correct[i]);
+      exception.run([&] { p2 += P2_OpenMP_thread(x, y, z, thread_distance, i, low, prime_sums[i], correct[i]); });
+
+    exception.rethrow();
 
     for (int i = 0; i < threads; i++)
     {
diff --git a/src/deleglise-rivat/S2_hard.cpp b/src/deleglise-rivat/S2_hard.cpp
index a6d5bfa..5fd45e0 100644
--- a/src/deleglise-rivat/S2_hard.cpp
+++ b/src/deleglise-rivat/S2_hard.cpp
@@ -26,6 +26,7 @@
 #include <S2LoadBalancer.hpp>
 #include <BinaryIndexedTree.hpp>
 #include <Wheel.hpp>
+#include <ParallelException.hpp>
 
 #include <stdint.h>
 #include <vector>
@@ -358,15 +359,21 @@ S2_hard_OpenMP_master(X x,
     verif::step("S2_hard", low, segment_size * segments_per_thread, threads);
 #endif
 
+    ParallelException exception;
+
     #pragma omp parallel for num_threads(threads) reduction(+: s2_hard)
     for (int i = 0; i < threads; i++)
     {
       timings[i] = get_time();
-      s2_hard += S2_hard_OpenMP_thread(x, y, z, c, segment_size, segments_per_thread,
-          i, low, limit, alpha, factors, pi, primes, mu_sum[i], phi[i]);
+      exception.run([&] {
+        s2_hard += S2_hard_OpenMP_thread(x, y, z, c, segment_size, segments_per_thread,
+            i, low, limit, alpha, factors, pi, primes, mu_sum[i], phi[i]);
+      });
       timings[i] = get_time() - timings[i];
     }
 
+    exception.rethrow();
+
     // Once all threads have finished reconstruct and add the
     // missing contribution of all special leaves. This must
     // be done in order as each thread (i) requires the sum of
diff --git a/src/deleglise-rivat/S2_trivial.cpp b/src/deleglise-rivat/S2_trivial.cpp
index 74f07ed..8eba5c8 100644
--- a/src/deleglise-rivat/S2_trivial.cpp
+++ b/src/deleglise-rivat/S2_trivial.cpp
@@ -16,6 +16,7 @@
 #include <generate.hpp>
 #include <int128_t.hpp>
 #include <int256_t.hpp>
+#include <ParallelException.hpp>
 
 #include <stdint.h>
 #include <algorithm>
@@ -45,6 +46,7 @@ int256_t S2_trivial_OpenMP(int128_t x,
   int64_t sqrtz = isqrt(z);
   int64_t prime_c = nth_prime(c);
   int256_t s2_trivial = 0;
+  ParallelException exception;
 
   // Find all trivial leaves: n = primes[b] * primes[l]
   // which satisfy phi(x / n), b - 1) = 1
@@ -55,17 +57,22 @@ int256_t S2_trivial_OpenMP(int128_t x,
     int64_t thread_interval = ceil_div(y - start, threads);
     start += thread_interval * i;
     int64_t stop = min(start + thread_interval, y);
-    primesieve::iterator iter(start - 1, stop);
-    int128_t prime;
-
-    while ((prime = iter.next_prime()) < stop)
-    {
-      int64_t xn = (int64_t) max(x / (prime * prime), prime);
-      int256_t diff = prime_sums[pi[y]] - prime_sums[pi[xn]];
-      s2_trivial += diff * prime;
-    }
+
+    exception.run([&] {
+      primesieve::iterator iter(start - 1, stop);
+      int128_t prime;
+
+      while ((prime = iter.next_prime()) < stop)
+      {
+        int64_t xn = (int64_t) max(x / (prime * prime), prime);
+        int256_t diff = prime_sums[pi[y]] - prime_sums[pi[xn]];
+        s2_trivial += diff * prime;
+      }
+    });
   }
 
+  exception.rethrow();
+
   return s2_trivial;
 }
 
diff --git a/src/lmo/pi_lmo_parallel1.cpp b/src/lmo/pi_lmo_parallel1.cpp
index 1358ddf..c2b5474 100644
--- a/src/lmo/pi_lmo_parallel1.cpp
+++ b/src/lmo/pi_lmo_parallel1.cpp
@@ -24,6 +24,7 @@
 #include <Wheel.hpp>
 #include <int128_t.hpp>
 #include <int256_t.hpp>
+#include <ParallelException.hpp>
 
 #include <stdint.h>
 #include <vector>
@@ -217,15 +218,21 @@ int256_t S2(uint128_t x,
     verif::step("S2", low, segment_size * segments_per_thread, threads);
 #endif
 
+    ParallelException exception;
+
     #pragma omp parallel for num_threads(threads) reduction(+: S2_total)
     for (int i = 0; i < threads; i++)
     {
       timings[i] = get_time();
-      S2_total += S2_thread(x, y, c, segment_size, segments_per_thread,
-          i, low, limit, pi, primes, lpf, mu, mu_sum[i], phi[i]);
+      exception.run([&] {
+        S2_total += S2_thread(x, y, c, segment_size, segments_per_thread,
+            i, low, limit, pi, primes, lpf, mu, mu_sum[i], phi[i]);
+      });
       timings[i] = get_time() - timings[i];
     }
 
+    exception.rethrow();
+
     // Once all threads have finished reconstruct and add the 
     // missing contribution of all special leaves. This must
     // be done in order as each thread (i) requires the sum of
diff --git a/src/phi.cpp b/src/phi.cpp
index d8996be..819baa7 100644
--- a/src/phi.cpp
+++ b/src/phi.cpp
@@ -35,6 +35,7 @@
 #include <PhiTiny.hpp>
 #include <fast_div.hpp>
 #include <min_max.hpp>
+#include <ParallelException.hpp>
 
 #include <stdint.h>
 #include <algorithm>
@@ -178,9 +179,13 @@ int64_t phi(int64_t x, int64_t a, int threads)
 
       sum = phi_tiny(x, c) - a + pi_sqrtx;
 
+      ParallelException exception;
+
       #pragma omp parallel for num_threads(threads) schedule(dynamic, 16) firstprivate(cache) reduction(+: sum)
       for (int64_t i = c; i < pi_sqrtx; i++)
-        sum += cache.phi<-1>(x / primes[i + 1], i);
+        exception.run([&] { sum += cache.phi<-1>(x / primes[i + 1], i); });
+
+      exception.rethrow();
     }
   }
 
-- 
2.43.0


From 99b2e208c3c63bc5da9040b870e75088bc58d1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:25 +0000
Subject: [PATCH 19/24] fix: int256_t division of -2^255 shifted a 128-bit
 integer by 128 bits

---
 include/int256_t.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index 5331b5d..1ae4806 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -477,6 +477,9 @@ private:
 
     bool get_bit(std::size_t bit) const
     {
+        if (bit >= 256)
+            return false;
+
         if (bit >= 128)
             return (high >> (bit - 128)) & 1;
         else
-- 
2.43.0


From 475ca104cd7ad15a4b6a3c4a80f39b5021cf12e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 20/24] fix: primesieve --dist before the START number sieved
 [DIST, START]

---
 lib/primesieve/src/app/cmdoptions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/primesieve/src/app/cmdoptions.cpp b/lib/primesieve/src/app/cmdoptions.cpp
index 2e6a3c5..2bc643d 100644
--- a/lib/primesieve/src/app/cmdoptions.cpp
+++ b/lib/primesieve/src/app/cmdoptions.cpp
@@ -397,6 +397,7 @@ void optionCpuInfo()
 CmdOptions parseOptions(int argc, char* argv[])
 {
   CmdOptions opts;
+  Option distance;
 
   // No command-line options provided
   if (argc <= 1)
@@ -411,7 +412,7 @@ CmdOptions parseOptions(int argc, char* argv[])
     {
       case OPTION_COUNT:     optionCount(opt, opts); break;
       case OPTION_CPU_INFO:  optionCpuInfo(); break;
-      case OPTION_DISTANCE:  optionDistance(opt, opts); break;
+      case OPTION_DISTANCE:  if (distance.opt.empty()) distance = opt; break;
       case OPTION_PRINT:     optionPrint(opt, opts); break;
       case OPTION_SIZE:      opts.sieveSize = opt.getValue<int>(); break;
       case OPTION_THREADS:   opts.threads = opt.getValue<int>(); break;
@@ -426,6 +427,11 @@ CmdOptions parseOptions(int argc, char* argv[])
     }
   }
 
+  // STOP = START + DIST, the START number may
+  // come after the --dist option
+  if (!distance.opt.empty())
+    optionDistance(distance, opts);
+
   if (opts.numbers.empty())
     throw primesieve_error("missing STOP number");
 
-- 
2.43.0


From ff45a8e76b5eef86cd770f403f95e42e717e9dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 21/24] fix: failed memory allocation while parsing options or
 printing the result terminated primesum

---
 src/app/main.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index 1f850d6..670f0e8 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -148,15 +148,15 @@ int256_t S2_hard(int128_t x, int threads)
 
 int main (int argc, char* argv[])
 {
-  PrimeSumOptions pco = parseOptions(argc, argv);
-  double time = get_time();
-
-  int128_t x = pco.x;
-  int256_t res = 0;
-  int threads = get_num_threads();
-
   try
   {
+    PrimeSumOptions pco = parseOptions(argc, argv);
+    double time = get_time();
+
+    int128_t x = pco.x;
+    int256_t res = 0;
+    int threads = get_num_threads();
+
     switch (pco.option)
     {
       case OPTION_DELEGLISE_RIVAT:
@@ -190,6 +190,15 @@ int main (int argc, char* argv[])
       case OPTION_S2_TRIVIAL:
         res = S2_trivial(x, threads); break;
     }
+
+    if (print_result())
+    {
+      if (is_print())
+        cout << endl;
+      cout << res << endl;
+      if (pco.time)
+        print_seconds(get_time() - time);
+    }
   }
   catch (bad_alloc&)
   {
@@ -203,14 +212,5 @@ int main (int argc, char* argv[])
     return 1;
   }
 
-  if (print_result())
-  {
-    if (is_print())
-      cout << endl;
-    cout << res << endl;
-    if (pco.time)
-      print_seconds(get_time() - time);
-  }
-
   return 0;
 }
-- 
2.43.0


From e2bdbd1db5aa0cc416b86c17f231840ed95b7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 22/24] fix: failed memory allocation silently truncated
 numbers and printed primes

---
 lib/primesieve/src/PrintPrimes.cpp | 4 ++++
 src/primesum.cpp                   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/primesieve/src/PrintPrimes.cpp b/lib/primesieve/src/PrintPrimes.cpp
index 7d896e2..0ce7819 100644
--- a/lib/primesieve/src/PrintPrimes.cpp
+++ b/lib/primesieve/src/PrintPrimes.cpp
@@ -154,6 +154,8 @@ void PrintPrimes::printPrimes() const
     uint64_t size = i + (1 << 16);
     size = std::min(size, sieveSize_);
     ostringstream primes;
+    // throw if memory allocation fails
+    primes.exceptions(ios_base::badbit);
 
     for (; i < size; i += 8)
     {
@@ -175,6 +177,8 @@ void PrintPrimes::printkTuplets() const
   unsigned i = 1;
   uint64_t low = low_;
   ostringstream kTuplets;
+  // throw if memory allocation fails
+  kTuplets.exceptions(ios_base::badbit);
 
   while (!ps_.isPrint(i))
     i++;
diff --git a/src/primesum.cpp b/src/primesum.cpp
index f5adc00..d13baba 100644
--- a/src/primesum.cpp
+++ b/src/primesum.cpp
@@ -75,6 +75,8 @@ string pi(const string& x, int threads)
 {
   int256_t pi_x = pi(to_int128(x), threads);
   ostringstream oss;
+  // throw if memory allocation fails
+  oss.exceptions(ios_base::badbit);
   oss << pi_x;
   return oss.str();
 }
@@ -133,6 +135,8 @@ int128_t prime_sum_tiny(int64_t x)
 string get_max_x(double alpha)
 {
   ostringstream oss;
+  // throw if memory allocation fails
+  oss.exceptions(ios_base::badbit);
 
   // primesum is limited by:
   // z < 2^62, with z = x^(2/3) / alpha
-- 
2.43.0


From 987824a24d2a8582c85fd9ffede4d750c2984cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 23/24] fix: hard special leaves failed for x > 2^64 and a
 small alpha tuning factor

The primes needed by S2_hard() are <= min(y, z / sqrt(y)) (the sieve loop
stops at the first prime > y), but they were generated up to z / sqrt(y),
which exceeds 2^32 for e.g. x = 1e20 and alpha = 1: primesum 1e20 -a1 failed
with "the element type is too narrow for the primes".
---
 src/deleglise-rivat/S2_hard.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deleglise-rivat/S2_hard.cpp b/src/deleglise-rivat/S2_hard.cpp
index 5fd45e0..f5641e6 100644
--- a/src/deleglise-rivat/S2_hard.cpp
+++ b/src/deleglise-rivat/S2_hard.cpp
@@ -435,7 +435,7 @@ int256_t S2_hard(int128_t x,
   if (y <= FactorTable<uint16_t>::max())
   {
     FactorTable<uint16_t> factors(y, threads);
-    int64_t max_prime = z / isqrt(y);
+    int64_t max_prime = min(y, z / isqrt(y));
     auto primes = generate_primes<uint32_t>(max_prime);
 
     if (x <= numeric_limits<int64_t>::max())
@@ -446,7 +446,7 @@ int256_t S2_hard(int128_t x,
   else
   {
     FactorTable<uint32_t> factors(y, threads);
-    int64_t max_prime = z / isqrt(y);
+    int64_t max_prime = min(y, z / isqrt(y));
     auto primes = generate_primes<int64_t>(max_prime);
 
     s2_hard = S2_hard_OpenMP_master(x, y, z, c, primes, factors, threads);
-- 
2.43.0


From 8937a612b508f1851ddf02571ba85a45c9bfbff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 24/24] verif hooks: bound the primes of the wide code paths
 like the normal ones

---
 src/deleglise-rivat/S2_hard.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deleglise-rivat/S2_hard.cpp b/src/deleglise-rivat/S2_hard.cpp
index f5641e6..5c42e8e 100644
--- a/src/deleglise-rivat/S2_hard.cpp
+++ b/src/deleglise-rivat/S2_hard.cpp
@@ -417,14 +417,14 @@ int256_t S2_hard(int128_t x,
   if (verif::wide_y())
   {
     FactorTable<uint32_t> factors(y, threads);
-    int64_t max_prime = z / isqrt(y);
+    int64_t max_prime = min(y, z / isqrt(y));
     auto primes = generate_primes<int64_t>(max_prime);
     s2_hard = S2_hard_OpenMP_master(x, y, z, c, primes, factors, threads);
   }
   else if (verif::wide_x())
   {
     FactorTable<uint16_t> factors(y, threads);
-    int64_t max_prime = z / isqrt(y);
+    int64_t max_prime = min(y, z / isqrt(y));
     auto primes = generate_primes<uint32_t>(max_prime);
     s2_hard = S2_hard_OpenMP_master(x, y, z, c, primes, factors, threads);
   }
-- 
2.43.0

