import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=[observe]
    if state:a["state"]=[{"name":state,"meaning":state}]
    a["hook_needed"]="PRIMESUM_VERIF" if hook else None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("P01","The prime sum is exact for every x",
 "For every integer x the program accepts, the default algorithm and the library call return exactly the sum of all primes <= x, printed as a plain decimal integer; x < 2 gives 0.",
 ["inputs"],"every integer x from negative values up to the accepted limit (about 5.5e30 by default)",
 "The self tests call the default algorithm on a few thousand x below about 2e9; every rounding, root, boundary and segment effect above that is unsampled, and no finite list of x settles an identity for all x.",
 ["src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp","src/P2.cpp","src/S1.cpp","src/deleglise-rivat/S2_trivial.cpp","src/deleglise-rivat/S2_easy_libdivide.cpp","src/deleglise-rivat/S2_hard.cpp","src/primesum.cpp"],
 [("combination of the partial sums","pi_deleglise_rivat_parallel1()"),("parameter choice y, z, c","pi_deleglise_rivat_parallel1(), get_alpha_deleglise_rivat()")],"stdout of `primesum x`; return value of primesum::pi(string)")
p("P02","All selectable algorithms compute the same prime sum",
 "Whichever algorithm a user selects (Deleglise-Rivat or any of the Lagarias-Miller-Odlyzko variants, serial or parallel), the printed prime sum for the same x is the same and is the true one; an x that a variant cannot handle is refused with an error and never answered wrongly.",
 ["inputs","configurations"],"every x in the range of each algorithm, for every algorithm option",
 "The self tests compare the variants at random x below 5e5 to 2e9 only and only in default configurations; multi-segment and overflow behaviour of each variant is never reached.",
 ["src/lmo/pi_lmo1.cpp","src/lmo/pi_lmo2.cpp","src/lmo/pi_lmo3.cpp","src/lmo/pi_lmo4.cpp","src/lmo/pi_lmo5.cpp","src/lmo/pi_lmo_parallel1.cpp","src/app/main.cpp"],
 [("per-algorithm dispatch and 63-bit guard","main(), int64_cast()"),("each algorithm","pi_lmo*.cpp")],"stdout of `primesum x --lmoN`")
p("P03","Result independent of thread count, scheduling and timing",
 "For a given x the result is the same for every number of threads and for every way the run-time schedules work, splits intervals between threads, and measures the time those threads took; every part of the sieve interval is accounted for exactly once.",
 ["schedules","inputs","configurations"],"all thread counts >= 1, all thread interleavings, all clock readings that feed the load balancers, all x",
 "The amount of work given to each thread depends on measured run time, so the partition of work differs between runs and machines; tests run with one thread count, small x for which most loops stay single-threaded or in one segment, and whatever timing happens to occur.",
 ["src/S2LoadBalancer.cpp","src/P2.cpp","src/deleglise-rivat/S2_hard.cpp","src/deleglise-rivat/S2_easy_libdivide.cpp","src/lmo/pi_lmo_parallel1.cpp","src/S1.cpp","src/deleglise-rivat/S2_trivial.cpp","src/phi.cpp","src/pi_legendre.cpp","src/FactorTable.cpp"],
 [("interval assignment and ordered reconstruction","S2_hard_OpenMP_master(), S2_OpenMP_master()"),("adaptive balancing","S2LoadBalancer::update(), balanceLoad()"),("per-thread partition","S2_trivial_OpenMP(), S1_OpenMP_master(), P2_OpenMP_master(), FactorTable")],"result of each algorithm and partial sum","segment size, segments per thread, per-thread partial sums",True)
p("P04","Result independent of the tuning factor",
 "For every tuning factor alpha the user may give, including values outside the documented range (which are clamped, replaced by the default, or refused with the usage text if they are not numbers), the prime sum printed for x is unchanged.",
 ["inputs","configurations"],"all x and all alpha, including < 1, > x^(1/6), fractional, tiny and huge values",
 "Tests never set alpha; it moves every internal boundary (y, z, which leaves are trivial/easy/hard, table sizes), so each alpha is a different execution of all partial sums.",
 ["src/primesum.cpp","src/app/cmdoptions.cpp","src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp","src/lmo/pi_lmo_parallel1.cpp","src/deleglise-rivat/S2_hard.cpp"],
 [("alpha default and clamp","get_alpha_lmo(), get_alpha_deleglise_rivat()"),("derived y and z","pi_deleglise_rivat_parallel1(), pi_lmo_parallel1()")],"stdout of `primesum x --alpha=a`")
p("P05","Each partial sum equals its definition and they recombine",
 "Each separately selectable component (second partial sieve function, ordinary leaves, trivial, easy and hard special leaves) returns exactly the sum given by its mathematical definition for the same x, y and z, so that ordinary leaves + special leaves + (sum of primes <= y) - 1 - second partial sieve function is the prime sum.",
 ["inputs","configurations"],"all x, all valid y (tuning factors), all thread counts, both easy-leaf implementations",
 "Tests only look at the total, for small x, where a component is often empty; two compensating errors or an error confined to a range where a component is empty go unseen.",
 ["src/P2.cpp","src/S1.cpp","src/deleglise-rivat/S2_trivial.cpp","src/deleglise-rivat/S2_easy.cpp","src/deleglise-rivat/S2_easy_libdivide.cpp","src/deleglise-rivat/S2_hard.cpp","src/app/main.cpp"],
 [("component functions","P2(), S1(), S2_trivial(), S2_easy(), S2_hard()"),("command line wrappers","main.cpp")],"stdout of --P2 --S1 --S2_trivial --S2_easy --S2_hard")
p("P06","256-bit integer arithmetic is exact modulo 2^256",
 "Addition, subtraction, negation, multiplication, division, remainder, bitwise operators, shifts (on the bit pattern, filling with zeros), comparisons, conversions and decimal printing of the 256-bit signed integer type agree with two's complement integers modulo 2^256 (division and remainder truncate toward zero), for operands of every supported width and sign.",
 ["inputs"],"all pairs of operands, mixed with 8 to 128 bit built-in integers, shift counts 0..255",
 "The two existing tests check division and modulo of a handful of values; carries, borrow, sign extension and fast paths depend on exact bit patterns that random or hand-picked samples miss.",
 ["include/int256_t.hpp","include/int128_t.hpp"],
 [("two-limb arithmetic and fast paths","int256_t operators"),("printing","operator<< for int128/uint128/int256")],"values returned by the operators and text printed")
p("P07","Wide-integer code paths agree with narrow ones at and beyond 64 bits",
 "For x beyond 2^63, and at every width boundary the code switches on (x at 2^63 and 2^64, y at 2^32, intermediate sums beyond 64 and 128 bits), the computed sums are exact: the code specialised for wide integers returns the same value as the narrow code whenever both apply, and the true value where only the wide one applies.",
 ["inputs"],"all x and y on both sides of each switch, up to x about 5e30 and segment positions up to 3.5e18",
 "Tests never exceed x ~ 4.5e9, so no 128-bit x or 256-bit accumulation path of any component is ever executed by them.",
 ["src/P2.cpp","src/S1.cpp","src/deleglise-rivat/S2_easy_libdivide.cpp","src/deleglise-rivat/S2_easy.cpp","src/deleglise-rivat/S2_hard.cpp","src/BitSieve.cpp","include/SumBits.hpp","include/BinaryIndexedTree.hpp","include/FactorTable.hpp","include/fast_div.hpp","src/phi_sum.cpp"],
 [("width selection","P2(), S1(), S2_easy(), S2_hard(), S2_trivial()"),("wide sums of sieve elements","BitSieve::sum(), sum_bits(), BinaryIndexedTree")],"component values; sieve sums at positions up to 2^62",None,True)
p("P08","Number expressions are evaluated exactly or rejected",
 "An arithmetic expression given as a number (decimal, hexadecimal, + - * / % ^ **, exponent notation, shifts, bitwise operators, unary signs, parentheses, spaces) evaluates to its exact integer value with the documented precedence and truncating division; a malformed expression, division by zero, or one whose value does not fit the number type is rejected with an error and never silently replaced by another number.",
 ["inputs"],"all expression strings, for 64-bit and 128-bit number types",
 "Existing tests evaluate a fixed list of expressions that fit; rejection and overflow behaviour over the grammar is unbounded.",
 ["include/calculator.hpp","lib/primesieve/include/primesieve/calculator.hpp","src/primesum.cpp","src/app/cmdoptions.cpp"],
 [("recursive-descent/operator-precedence evaluation","calculator::ExpressionParser"),("use by the API and CLIs","to_int128(), Option::to<T>()")],"value used by `primesum EXPR` / `primesieve EXPR`, exceptions of calculator::eval")
p("P09","primesum command line: result, errors and status are well behaved",
 "For every argument list the primesum program terminates with exit status 0 and exactly the requested result on stdout, or with a help/usage text or an 'Error:' message and status 1; a number beyond the supported limit is refused rather than answered wrongly, and option order, --time and --status (any precision) never change the value printed, while percentages shown for one phase lie in 0..100 and never go backwards.",
 ["inputs","schedules"],"all argument lists and all interleavings of status updates",
 "No test runs the program with any argument other than --test.",
 ["src/app/main.cpp","src/app/cmdoptions.cpp","src/app/help.cpp","src/print.cpp","src/S2Status.cpp","src/primesum.cpp"],
 [("argument parsing","makeOption(), parseOptions()"),("limits","get_max_x(), int64_cast()"),("status display","S2Status::print(), print_status")],"exit status, stdout, stderr")
p("P10","primesum runs free of memory errors and undefined behaviour",
 "No execution of the primesum program or library call, for any accepted input, tuning factor, thread count and option, reads or writes outside an object, uses freed or uninitialised memory, leaks its working memory, or executes undefined arithmetic (signed overflow, bad shift, division by zero, out-of-range conversion).",
 ["inputs","configurations","schedules"],"all accepted x, alpha, thread counts and options, both easy-leaf implementations",
 "The tests run without instrumentation: an out-of-bounds read or overflow that happens not to change the printed number passes.",
 ["src","include"],
 [("tables indexed by computed values","PiTable, FactorTable, BitSieve, BinaryIndexedTree, Wheel, PhiCache"),("fixed-width arithmetic","int256_t, SumBits, fast_div, iroot")],"sanitizer reports")
p("P11","libprimesieve runs free of memory errors and undefined behaviour",
 "No call to the primesieve C or C++ interface or command line with any arguments in range, including intervals touching 2^64-1, extreme sieve sizes and abandoned or moved iterators, reads or writes outside an object, uses freed or uninitialised memory, leaks, or executes undefined arithmetic.",
 ["inputs","histories","configurations"],"all intervals in [0, 2^64), sieve sizes, element types, iterator call histories",
 "The library tests check values without instrumentation and touch only a few intervals, none with hostile sizes.",
 ["lib/primesieve/src","lib/primesieve/include"],
 [("raw-memory buckets and buffers","MemoryPool, EratBig, EratMedium, EratSmall, malloc_vector, PrimeGenerator"),("64-bit boundary arithmetic","pmath.hpp, IteratorHelper, PrimeSieve, Erat")],"sanitizer reports")
p("P12","No data races in parallel computations",
 "No execution with several threads, in any phase of any algorithm, with or without status output, or of the parallel sieve, or of independent library objects used at the same time by different threads, contains two unsynchronised conflicting memory accesses.",
 ["schedules","inputs","configurations"],"all interleavings of all parallel regions, all thread counts",
 "A race need not change the result on the machine running the tests; most parallel regions are entered with a single thread for the x the tests use.",
 ["src/P2.cpp","src/S1.cpp","src/phi.cpp","src/pi_legendre.cpp","src/FactorTable.cpp","src/S2Status.cpp","src/deleglise-rivat/S2_trivial.cpp","src/deleglise-rivat/S2_easy_libdivide.cpp","src/deleglise-rivat/S2_easy.cpp","src/deleglise-rivat/S2_hard.cpp","src/lmo/pi_lmo_parallel1.cpp","lib/primesieve/src/ParallelSieve.cpp","lib/primesieve/src/PrimeSieve.cpp","include/FactorTable.hpp","include/OmpLock.hpp"],
 [("OpenMP regions with private/reduction data","#pragma omp parallel for in each component"),("status lock","S2Status, OmpLock"),("work queue","ParallelSieve::sieve()")],"ThreadSanitizer reports",None,True)
p("P13","Partial sieve, prime counting and small n-th prime functions are exact",
 "For all x and a, the partial sieve function counts, and its sum variant sums, exactly the integers in [1, x] not divisible by any of the first a primes; the prime counting function returns the number of primes <= x, and the n-th prime function returns the n-th prime.",
 ["inputs","configurations"],"all x up to 2^63 (sum variant beyond), all a including a = 0 and a far beyond the number of primes <= x, all thread counts",
 "Tests evaluate a few phi values and compare prime counts at random small x; cache limits, the a > c split and the recursion cut-offs depend on x and a jointly.",
 ["src/phi.cpp","src/phi_sum.cpp","src/pi_legendre.cpp","src/nth_prime.cpp","src/PhiTiny.cpp","include/PhiTiny.hpp"],
 [("cached recursion","PhiCache in phi.cpp"),("small-a tables","PhiTiny"),("recursive sum","phi_sum.cpp")],"return values")
p("P14","Number-theoretic building blocks agree with their definitions",
 "Lookup tables and primitives used by the algorithms (prime counting table, factor table with least prime factor and Moebius function, wheel, bit sieve sums, indexed-tree sums, generated primes / prime sums / least factors / Moebius values, integer roots, integer logarithm-type helpers, fast division) return exactly the mathematically defined value for every argument in their domain.",
 ["inputs","histories"],"all table limits and indices, all segment positions and sizes, all sequences of cross-off operations, all operands of the root and division helpers",
 "Tests exercise them only indirectly via totals; a table wrong at an index not used for the sampled x is invisible.",
 ["src/PiTable.cpp","src/FactorTable.cpp","include/FactorTable.hpp","src/Wheel.cpp","include/Wheel.hpp","src/BitSieve.cpp","include/BitSieve.hpp","include/BinaryIndexedTree.hpp","src/generate.cpp","include/isqrt.hpp","include/imath.hpp","include/fast_div.hpp","include/popcnt.hpp","include/SumBits.hpp"],
 [("tables","PiTable, FactorTable, generate_*"),("sieve state and sums","BitSieve, BinaryIndexedTree, Wheel"),("roots and division","isqrt(), iroot<N>(), fast_div()")],"return values","sieve bits, wheel positions, tree nodes")
p("P15","primesieve counts primes and k-tuplets exactly on any interval",
 "For every interval [start, stop] within 64 bits, thread count and sieve size, the reported numbers of primes, twins, triplets, quadruplets, quintuplets and sextuplets are exactly the numbers of such constellations lying entirely inside the interval; hence counts of primes add up over adjacent intervals and an empty interval gives zero.",
 ["inputs","configurations","schedules"],"all start, stop in [0, 2^64-1], all thread counts and sieve sizes",
 "Tests count a few fixed intervals; interval edges modulo 30, sieve-segment edges, small-prime special cases, thread-split edges and the top of the 64-bit range form an unbounded set.",
 ["lib/primesieve/src/PrimeSieve.cpp","lib/primesieve/src/ParallelSieve.cpp","lib/primesieve/src/PrintPrimes.cpp","lib/primesieve/src/Erat.cpp","lib/primesieve/src/EratSmall.cpp","lib/primesieve/src/EratMedium.cpp","lib/primesieve/src/EratBig.cpp","lib/primesieve/src/PreSieve.cpp","lib/primesieve/src/SievingPrimes.cpp"],
 [("segmented wheel sieve","Erat*, PreSieve, SievingPrimes"),("interval split","ParallelSieve"),("small primes and k-tuplet patterns","PrimeSieve, PrintPrimes")],"return values of count functions; CLI counts")
p("P16","Prime iterators follow a simple cursor model for every call history",
 "After any history of next, previous, skip-to, move, clear/free and re-initialisation calls with any stop hints, each call of a prime iterator (C and C++) returns the prime that a cursor over the ordered list of primes would return; stop hints never change results, and below the first prime it yields 0 while going beyond the largest 64-bit prime yields the documented error.",
 ["histories","inputs"],"all call histories, start values in [0, 2^64-1] and stop hints",
 "Tests walk forward or backward from a few starts; direction changes at buffer boundaries, hints smaller than the start, moves in mid-iteration and the 64-bit ends form unbounded histories.",
 ["lib/primesieve/src/iterator.cpp","lib/primesieve/src/iterator-c.cpp","lib/primesieve/src/IteratorHelper.cpp","lib/primesieve/src/PrimeGenerator.cpp","lib/primesieve/include/primesieve/iterator.hpp","lib/primesieve/include/primesieve/iterator.h"],
 [("buffer refill and direction change","generate_next_primes(), generate_prev_primes(), IteratorHelper")],"values returned by next_prime()/prev_prime()","buffer position, start/stop window")
p("P17","Generated prime arrays are exactly the requested primes",
 "Storing primes of an interval, or the first n primes from a start value, yields exactly those primes in increasing order for every element type that can hold them, through both the C and the C++ interface; requests that do not fit the type or run past the largest 64-bit prime give an error instead of a wrong array.",
 ["inputs"],"all start, stop, n and element types",
 "Tests generate a few small arrays; interval edges, n near the end of the 64-bit range, and element type limits are unsampled.",
 ["lib/primesieve/include/primesieve/StorePrimes.hpp","lib/primesieve/src/api-c.cpp","lib/primesieve/src/api.cpp","lib/primesieve/include/primesieve/malloc_vector.hpp","lib/primesieve/src/PrimeGenerator.cpp"],
 [("store loops and limits","store_primes(), store_n_primes()"),("C type dispatch","get_primes(), get_n_primes()")],"array contents, size, error")
p("P18","The n-th prime search is exact in both directions",
 "For every n and start, the n-th prime search returns the n-th prime greater than start (n > 0), the |n|-th prime smaller than start (n < 0) or the first prime >= start (n = 0), for any thread count, and reports an error when there is no such prime within 64 bits.",
 ["inputs","configurations"],"all n and start, all thread counts",
 "The search distance is an estimate corrected by sieving, so its correctness depends on local prime density; tests use a few n and starts.",
 ["lib/primesieve/src/nthPrime.cpp","lib/primesieve/src/ParallelSieve.cpp","lib/primesieve/include/primesieve/pmath.hpp"],
 [("estimate, count, correct","PrimeSieve::nthPrime()")],"return value or error")
p("P19","Printed primes and k-tuplets are complete, ordered and exact",
 "Printing primes or one kind of k-tuplet for an interval writes each prime or constellation lying inside the interval exactly once, in increasing order, one per line, and nothing else, for every interval and sieve size.",
 ["inputs","configurations"],"all intervals and sieve sizes",
 "No test checks printed primes or k-tuplets.",
 ["lib/primesieve/src/PrintPrimes.cpp","lib/primesieve/src/PrimeSieve.cpp","lib/primesieve/src/api.cpp"],
 [("bit pattern decoding and line output","PrintPrimes::print*(), PrimeSieve::processSmallPrimes()")],"stdout of the print functions and of `primesieve -p[N]`")
p("P20","primesieve command line computes what was asked or refuses",
 "For every argument list the primesieve program prints the right numbers for the given interval and options (count, print, n-th prime, distance, threads, size, quiet) with status 0, or reports an error or usage text with a non-zero status; option order (a number that follows -c or -p directly is their value), threads, size and status output never change the results (printed primes stay in order), only the first of several requested print kinds is printed, and numbers that exceed 64 bits are refused.",
 ["inputs","configurations"],"all argument lists",
 "No test runs the program with arguments that matter; wrap-around of interval ends is only visible for extreme numbers.",
 ["lib/primesieve/src/app/main.cpp","lib/primesieve/src/app/cmdoptions.cpp","lib/primesieve/src/app/help.cpp","lib/primesieve/src/ParallelSieve.cpp"],
 [("argument parsing","parseOptions()"),("mode dispatch","main()")],"exit status, stdout, stderr")
p("P21","Memory exhaustion yields a clean error, never a wrong answer",
 "Whenever any single memory request fails during a library or program run, the call either reports an error through its documented channel (exception, error return with errno, 'Error' message with non-zero status) or completes with the correct result; it never crashes, hangs, or returns wrong numbers, and a later call works normally.",
 ["fault_sequences"],"every allocation point of every entry point, failing once or from then on",
 "Tests never make an allocation fail.",
 ["lib/primesieve/src/api-c.cpp","lib/primesieve/src/iterator-c.cpp","lib/primesieve/include/primesieve/malloc_vector.hpp","lib/primesieve/src/MemoryPool.cpp","src/app/main.cpp","lib/primesieve/src/ParallelSieve.cpp"],
 [("exception to error translation","api-c.cpp, iterator-c.cpp, main()"),("bucket memory","MemoryPool, malloc_vector")],"return value, errno, exception, exit status")
p("P22","Every build configuration computes the same results",
 "Binaries built from the same source with or without libdivide, with or without the POPCNT instruction, with or without OpenMP, optimised or as a checking (assertion-enabled) build, and with either compiler, print identical results for identical arguments, and no internal assertion ever fails.",
 ["configurations","inputs"],"all combinations of the build options on all inputs",
 "The tests run in two configurations only, each against its own small samples, and never with assertions enabled.",
 ["CMakeLists.txt","src/deleglise-rivat/S2_easy.cpp","src/deleglise-rivat/S2_easy_libdivide.cpp","include/popcnt.hpp","include/libdivide.h","src/S2Status.cpp","src/print.cpp"],
 [("alternative implementations selected at build time","S2_easy*.cpp, popcnt.hpp, #ifdef _OPENMP blocks")],"stdout of the differently built programs")
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,q['id']
        f.write(json.dumps(q)+"\n")
