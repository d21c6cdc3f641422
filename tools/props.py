PROPS = []
def P(id, title, statement, over, text, why, files, mech, note, **k):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note)
    d.update(k); PROPS.append(d)
S = "source/"; I = "source/include/firefly/"
P("C01", "Field elements form the prime field with canonical representatives",
  "For every prime p below 2^63 and all canonical field elements a and b, sum, difference, negation, product, quotient (zero when the divisor is zero), increments, decrements, and powers of non-zero elements with positive and negative integer or field exponents are the canonical residues of the mathematical results, and comparisons compare the residues. Construction from machine integers and big integers of any sign yields the canonical residue. Operands are not modified.",
  ["inputs"], "all residues and primes below 2^63 for sums, products, negation and construction; all bases for the stated exponents; all residues of the stated primes for inverses",
  "The tests use one prime and a handful of values; rounding of the approximate quotient in the product, wrap-around near 2^63 and negative multiples of p depend on the operands.",
  [S + "FFInt.cpp", I + "FFInt.hpp"], [("approximate-quotient product", S + "FFInt.cpp mod_mul"), ("extended Euclid", S + "FFInt.cpp mod_inv"), ("square and multiply", S + "FFInt.cpp mod_pow, FFInt::pow")],
  "Product: every prime below 2^63 and all residues (2310 linear real/integer queries over binades of the extended-precision rounding). Sums, negation, machine-integer construction: every modulus below 2^63. Inverse: all residues of eight primes below 128, and elements within 40 of zero for large primes. Powers: exponents up to 40 and all with at most two bits set below 2^62. Big integers: magnitudes below 4*2^64 in samples of the low limb range stated. Default and FLINT builds (FLINT functions modelled exactly). Deprecated string parsing is outside.")
P("C02", "Vectorised field arithmetic acts on every lane like the scalar field",
  "Every arithmetic and power operation on a vector of field elements gives, in each lane, exactly the result of the scalar operation on that lane's operands, in the stated operand order, also when one operand is a scalar. Two vectors are equal exactly when all lanes are equal. No operation modifies its operands, and every lane is reachable while an index past the end is refused.",
  ["inputs"], "all lane values, scalars and exponents of a prime field, every lane count the library instantiates",
  "The tests run bunches of one black box over the real prime only; operand orders, single lanes and the last lane are never compared against the scalar type.",
  [S + "FFIntVec.cpp", I + "FFIntVec.hpp"], [("lane loops", S + "FFIntVec.cpp operators"), ("range check", I + "FFIntVec.hpp at")],
  "All values of all lanes (2 to 128) modulo 31 (powers: modulo 7); divisions by vectors of more than four lanes with at most one vanishing lane; field operations of one lane are summarised (their exactness is C01).")
P("C03", "Rational reconstruction is sound and complete within its bounds",
  "Reconstructing a rational number from a residue either fails or returns, in lowest terms with a positive denominator, a number n/d with n = d*residue modulo the modulus. The standard variant accepts only results with 2n^2 <= p and 2d^2 <= p, and finds every rational number within that bound; the maximal-quotient variant finds every rational number whose numerator times denominator is far below the modulus.",
  ["inputs"], "all residues of the stated small moduli; all rational numbers of the stated size modulo primes and products of primes up to 126 bits",
  "Reached only for the few coefficients of the reconstructed test functions; signs, bounds and the accepting quotient depend on the residue.",
  [S + "utils.cpp"], [("symmetric extended Euclid", S + "utils.cpp get_rational_coef"), ("maximal quotient", S + "utils.cpp get_rational_coef_mqrr")],
  "All residues modulo 31, 77, 101, 1009, 4199, 20011 (thorough: 65537); all rationals with |n|, d <= 40 (or |n| in a window of 80 around the largest the bound allows) modulo 63- and 126-bit moduli; both variants. GMP replaced by an exact 253-bit integer model.")
P("C04", "Chinese remaindering combines residues exactly",
  "Combining residues with respect to two coprime moduli yields the product of the moduli and the unique residue below it that reduces to both given residues.",
  ["inputs"], "all canonical residues of the stated moduli",
  "Only reached when the tests need a second prime, with the residues that happen to occur.",
  [S + "utils.cpp"], [("extended Euclid and recombination", S + "utils.cpp run_chinese_remainder")],
  "All residues for pairs of moduli with product up to 27008; windows of forty residues at the start, middle and end of the ranges for 40-, 63- and 80-bit moduli.")
P("C05", "Rational number arithmetic is exact and stays in lowest terms",
  "Constructing a rational number from any numerator and non-zero denominator and adding, subtracting, multiplying or negating such numbers yields exactly the mathematical value, in lowest terms with a positive denominator, without modifying the other operand. Two numbers compare equal exactly when their values are equal. The gcd of two numbers is the largest one of which both are integer multiples, and the printed form of a number reads back as that number, in parentheses unless it is positive.",
  ["inputs"], "all numerators and denominators up to the stated magnitude",
  "The tests only add a handful of literals; sign and common-factor combinations are not enumerated.",
  [S + "RationalNumber.cpp", I + "RationalNumber.hpp"], [("normalisation by gcd and sign", S + "RationalNumber.cpp RationalNumber::RationalNumber, operator+=, -=, *=")],
  "All numerators and denominators of magnitude <= 6 (thorough: 10), symbolic through gcd and division; queries over at most 28561 assignments are decided by exhaustive evaluation of the formula; GMP replaced by an exact 253-bit integer model.")
P("C06", "Finite-field polynomials obey the ring laws and shift/homogenise correctly",
  "Sums, differences, products, scalar multiples, multiplication by a variable and variable shifts of multivariate polynomials over the prime field evaluate, at every point, to the corresponding operation on the values, with canonical coefficients and no vanishing terms left by a cancellation. Homogenisation yields a polynomial of the requested degree that equals the original at first variable one.",
  ["inputs"], "all coefficients, shifts and evaluation points of the prime field, for fixed small monomial supports",
  "Unit tests compare a few literal polynomials; coincidences of monomials, cancellations and zero shifts are data dependent.",
  [S + "PolynomialFF.cpp", I + "PolynomialFF.hpp"], [("hash-map merge", S + "PolynomialFF.cpp operator+, operator-, operator*, add_shift, homogenize")],
  "All coefficients, shifts and points modulo 7, supports of up to four monomials (products: three by three) in one to three variables, degree <= 5; polynomial identities decided by normalisation over Z_p, remaining branches by z3.")
P("C07", "Univariate polynomial division and gcd are exact",
  "Univariate polynomial sums, differences and products over the prime field have the right coefficients; Euclidean division returns quotient and remainder with a = q*b + r and deg r < deg b; the gcd divides both arguments and vanishes at every common root.",
  ["inputs"], "all coefficients of the prime field for the stated degrees",
  "The tests use a few literal polynomials; zero leading coefficients and degenerate remainder sequences are data dependent.",
  [S + "Poly.cpp", I + "Poly.hpp"], [("long division", S + "Poly.cpp fast_euclidean_division"), ("Euclid", S + "Poly.cpp gcd")],
  "All coefficients modulo 5 for dividend degree <= 4 and divisor degree <= 2; gcd for degrees up to 2,2 (thorough: 3,3).")
P("C08", "Univariate rational interpolation reproduces the sampled function",
  "Feeding samples at distinct points to the univariate rational-function interpolation, it stops exactly when a new sample already lies on the interpolant built so far, provided all inverse differences of the samples exist; the numerator and denominator it then returns reproduce every sample that was fed. Samples of a rational function of bounded degree, without accidental coincidences, lead to termination with that function.",
  ["inputs", "histories"], "all sample values with existing inverse differences, and all coefficients of rational functions of low degree",
  "Tests interpolate a few literal functions at fixed points; accidental zeros and degenerate continued fractions depend on the values.",
  [S + "FFThieleInterpolator.cpp", I + "FFThieleInterpolator.hpp"], [("continued-fraction recursion", S + "FFThieleInterpolator.cpp add_point, compute_ai"), ("canonical form", S + "FFThieleInterpolator.cpp get_result")],
  "Modulo 11: any 1 to 4 samples (thorough: 6) plus the confirming one; all rational functions of degrees up to 2/0, 0/1, 1/1 (thorough: 2/2) at fixed points.")
P("C09", "Dense linear solvers return the unique solution and report singular systems",
  "For every regular matrix over the prime field Gaussian elimination, the LU solver, both matrix inversions and the LU determinant return the exact solution, inverse and determinant. A singular system is reported as an error by the Gaussian solver instead of being answered.",
  ["inputs"], "all matrices and right-hand sides over the prime field up to the stated size",
  "Tests solve a few literal matrices; pivoting order and vanishing pivots depend on the entries.",
  [I + "DenseSolver.hpp"], [("row pivoting", I + "DenseSolver.hpp solve_gauss_system, calc_lu_decomposition"), ("singularity check", I + "DenseSolver.hpp solve_gauss_system")],
  "All 2x2 and 3x3 systems modulo 5 (thorough: 4x4); decided by polynomial ideal membership over Z_p and z3.")
P("C10", "The transposed Vandermonde solver recovers all coefficients",
  "Given the values of a sparse polynomial at consecutive powers of an anchor point with pairwise distinct monomial values, the solver returns exactly the given monomials with exactly the coefficients of that polynomial.",
  ["inputs"], "all coefficients and anchor points over the prime field for fixed monomial supports",
  "Only reached through full reconstructions of fixed functions at random anchors.",
  [S + "utils.cpp"], [("synthetic division of the master polynomial", S + "utils.cpp solve_vandermonde_system")],
  "All coefficients and anchors modulo 11 (systems with colliding monomials excluded), one to three variables, up to five monomials, exponents up to 210003.")
P("C11", "Parsed expressions evaluate to their mathematical value",
  "For an expression in the declared variables built from integers of any length, unary signs, nested and redundant parentheses, + - * / and integer powers (also negative ones in parentheses), given as text or in files with arbitrary white space and functions separated by semicolons, the parser's value at every point without vanishing divisor is the value under the usual precedence rules, a power binding stronger than a sign. One value is returned per function. Unbalanced parentheses, undeclared variables and missing files end the program with an error instead of giving a value.",
  ["inputs"], "all expressions of a set of grammar templates, all parenthesis strings up to length 8, all white space placements of the stated kinds, all points of the field",
  "The tests parse a handful of files; operator, sign, power and parenthesis combinations and the points of evaluation are not enumerated.",
  [S + "ShuntingYardParser.cpp", I + "ShuntingYardParser.hpp"], [("shunting yard with sign and power handling", S + "ShuntingYardParser.cpp parse"), ("validation", S + "ShuntingYardParser.cpp validate"), ("token evaluation", I + "ShuntingYardParser.hpp evaluate_pre")],
  "Templates over operator, sign, atom and exponent menus (up to 7776 expressions each), all values of two variables modulo 31; reference: an independent recursive-descent evaluator run on the same symbolic point.")
P("C12", "All evaluation routes of parsed functions agree in every prime field",
  "Evaluating a parsed collection of functions gives for each function its value on every route (evaluate with kept RPN, evaluate_pre, evaluate_pre_2), for single points and for several points at once, for the original prime field and after switching to another one and precomputing again. Merging equal functions, adding functions on the fly and trimming the collection to a subset leave every remaining function's value unchanged, at the reported position, and leave the prime field unchanged.",
  ["inputs", "histories"], "all expressions of the templates and all values, two fields in sequence, all selections of functions from a menu with coinciding values, all subsets kept",
  "The tests use one route with one field; token tables of constants and merged functions matter only after a change of the prime.",
  [S + "ShuntingYardParser.cpp", I + "ShuntingYardParser.hpp"], [("precomputed tokens per field", S + "ShuntingYardParser.cpp precompute_tokens, trim"), ("routes", I + "ShuntingYardParser.hpp evaluate, evaluate_pre, evaluate_pre_2")],
  "Templates as for C11 (smaller), fields 31 and 29; points in pairs; collections of two or three functions out of seven modulo two 63-bit primes.")
P("C13", "Printed and Horner forms denote the function they came from",
  "The text form, sorted text form and Horner form of a polynomial or rational function with rational or field coefficients, with reordered variables and attached univariate factors, evaluate, when parsed, to the value of the function at every point. Evaluating a field polynomial in all but its first variable through its internal Horner form gives its value at first variable one.",
  ["inputs"], "all choices of up to four monomials from a menu with coefficients including signs, zero, fractions and long numbers; all points",
  "The tests print a few reconstructed functions and never read them back.",
  [S + "HornerGenerator.cpp", S + "Polynomial.cpp", S + "RationalFunction.cpp", S + "PolynomialFF.cpp"], [("Horner nesting", S + "HornerGenerator.cpp generate_horner_coefs"), ("text", S + "Polynomial.cpp to_string; RationalFunction.cpp to_string, generate_horner"), ("long polynomials", S + "PolynomialFF.cpp calc_n_m_1")],
  "Monomial menus of up to seven (one to three variables, exponents up to 11), coefficient menus of up to nine, all points modulo 31; polynomials of 49 to 56 terms in two to four variables.")
P("C18", "The thread pool executes every submitted task exactly once under every schedule",
  "Every task submitted to the pool, from outside or from a running task, is executed exactly once before the pool's destruction ends, in order of submission among ordinary tasks and before them for priority tasks; idle threads pick tasks up at once, so tasks may wait for one another. A future delivers its task's value or exception. Waiting reports an idle pool only when no task is running, removal of all tasks leaves no task queued or running and the pool usable, no schedule deadlocks, and no two threads access the pool's memory without synchronisation.",
  ["schedules", "inputs"], "all interleavings at synchronisation operations with a bounded number of preemptions, all wakeup choices, all choices of priorities and throwing tasks",
  "The tests see one schedule per run; lost wakeups, early notifications and missing locks need a particular interleaving.",
  [I + "ThreadPool.hpp"], [("worker loop and stop condition", I + "ThreadPool.hpp ThreadPool"), ("submission", I + "ThreadPool.hpp run_task, run_priority_task, run_packaged_task"), ("idle tracking", I + "ThreadPool.hpp wait, kill_all")],
  "Pools of zero to two threads, two or three tasks, one to three preemptions besides the switches at blocking operations; threads run as coroutines whose schedule is a symbolic input; a vector-clock race detector on all memory accesses of the pool justifies switching at synchronisation operations only.")
P("C19", "Queued probes are distributed completely and within the limits",
  "The bunch size computed for a queue is a power of two not above the limit and not above the queue length, and, unless the limit forbids it, large enough that one bunch per thread takes the whole queue. The number of probes computed for the free threads is what taking one bunch after the other for each free thread takes from the queue, so that no free thread stays without work while probes are queued.",
  ["inputs"], "all queue lengths, numbers of threads and bunch-size limits within the bounds",
  "Tests use fixed small thread counts and bunch sizes, and a wrong size only loses or duplicates work for particular queue lengths.",
  [S + "utils.cpp"], [("bunch size", S + "utils.cpp compute_bunch_size"), ("probes per round", S + "utils.cpp compute_job_number")],
  "Bunch size: all queue lengths below 2^31 for one to 24, 64, 255 and 256 threads and limits 1 to 128. Job number: queues up to 1000 (3 threads) and 100 (5 threads). Empty queues are outside.")
P("C20", "Exponent vectors are ordered totally and all shifts are enumerated",
  "The comparisons of exponent vectors are the colexicographic order and equality; the order of 0/1 tuples is a strict total order respecting the number of ones. Enumerating the variable shifts visits every 0/1 tuple exactly once, by number of ones and then lexicographically, and ends after the tuple of ones; the list of possible shifts contains every tuple but the full one exactly once.",
  ["inputs"], "all exponent vectors and all 0/1 tuples of the stated lengths",
  "Only a few degrees and variable numbers occur in the tests.",
  [S + "utils.cpp"], [("comparisons", S + "utils.cpp a_grt_b, a_grt_b_s, a_eq_b"), ("enumeration", S + "utils.cpp generate_next_permutation, generate_possible_shifts")],
  "Vectors of up to five 32-bit exponents; 0/1 tuples up to length seven.")
P("C21", "Primes and random points are valid and reproducible",
  "The table of moduli consists of the largest 300 primes below 2^63 in descending order. Random field elements are never zero, always canonical for the current prime, and determined by the seed alone whatever was drawn before.",
  ["inputs", "histories"], "all table entries and the numbers between them; all seeds, prior histories and primes of the stated sets",
  "A wrong entry matters only once a reconstruction needs it; the tests never compare random sequences.",
  [I + "ReconstHelper.hpp", S + "ReconstHelper.cpp", S + "BaseReconst.cpp"], [("prime table", S + "ReconstHelper.cpp primes"), ("seeding and draws", S + "BaseReconst.cpp set_seed, get_rand_64, get_rand_32")],
  "All 300 entries and every odd number between them (exact Miller-Rabin); 16 seeds, twelve histories, seven primes, 36 draws each.")
P("C16", "A completed reconstruction equals the black box, exactly over the rationals",
  "Reconstructing a black box that is a tuple of rational functions with rational coefficients finishes without a stall or an error and returns, for every function and in order, a rational function over Q equal to the black box: for any number of variables, any degrees, vanishing and coinciding coefficients, coefficients that need several primes, polynomials, constants and zero, with and without shift scan and safe mode, for any bunch size and number of workers. When the run is stopped after a number of primes, every early result is exact.",
  ["inputs", "configurations"], "all coefficients in the stated ranges, for the stated supports and options",
  "The tests reconstruct a few fixed functions. Which normalisation, degree, number of primes and shift is used depends on the coefficients: a vanishing leading or constant coefficient, a cancellation between numerator and denominator or a value near the reconstruction bound takes other branches.",
  [I + "Reconstructor.hpp", S + "RatReconst.cpp", S + "PolyReconst.cpp", S + "FFThieleInterpolator.cpp", S + "utils.cpp", S + "BaseReconst.cpp"],
  [("main loop and probe queue", I + "Reconstructor.hpp run_until_done, queue_probes, feed_job, interpolate_job"), ("univariate then multivariate interpolation, normalisation, shift removal", S + "RatReconst.cpp interpolate, feed_poly, combine_primes, rec_rat_coef, check_if_done"), ("dense/sparse interpolation", S + "PolyReconst.cpp"), ("prime change", I + "Reconstructor.hpp reset_new_prime")],
  "1 to 4 variables, up to 6 coefficients symbolic in -1..1 to -3..3 or in a window of 3 around 10^22 (two or three primes), up to three functions; probe points from one seed per run; queries over at most 30000 assignments decided by exhaustive evaluation of the formula; worker threads run round robin (all schedules: C22); GMP replaced by an exact 253-bit integer model. Factor scan (FLINT polynomial factorisation) and MPI builds are outside.")
P("C22", "Concurrent reconstruction is free of races, deadlocks and lost results",
  "For every interleaving of the main thread and the worker threads, a reconstruction ends (no deadlock, no endless waiting, no lost wake-up), returns the functions of the black box, never accesses shared state of the reconstructor or of the per-function reconstruction objects without synchronisation, and leaves no thread behind.",
  ["schedules"], "all schedules of the stated number of workers that deviate at most the stated number of times from round-robin order",
  "A test run takes one schedule out of an astronomical number; a lost notification or an unprotected counter shows only when a switch falls on particular instructions.",
  [I + "Reconstructor.hpp", I + "ThreadPool.hpp", S + "RatReconst.cpp"],
  [("feeding, interpolation and completion counters", I + "Reconstructor.hpp feed_job, interpolate_job, run_until_done"), ("probe queue and condition variables", I + "Reconstructor.hpp get_probe, compute_probe, queue_probes"), ("per-function locks", S + "RatReconst.cpp interpolate, feed, get_needed_feed_vec")],
  "Up to 3 workers, bunches up to 4, one or two functions in one or two variables, one to three primes; threads run as coroutines switched at synchronisation operations, at most one (one worker: two) deviations from round robin, no spurious wake-ups; a happens-before detector (vector clocks over -fsanitize=thread instrumentation of the library and the harness) reports any race on these schedules, whichever instructions it needs.")
