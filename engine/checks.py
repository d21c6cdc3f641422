import os
CHECKS = {}
def H(name, src, repo, **k):
    d = dict(name=name, src="harness/" + src, repo=["source/" + r + ".cpp" if not r.endswith(".cpp") else r for r in repo])
    d.update(k)
    return d
GMP = ["libc", "strinst", "ffint", "gmp"]
CHECKS["C05"] = dict(harnesses=[
    H("op%d" % i, "c05_rational.cpp", ["RationalNumber"], models=GMP, defs=dict(OP=i, NB=6), defs_thorough=dict(NB=10), engine=["--fd", "30000"], engine_thorough=["--fd", "200000"], bound="all numerators and denominators of magnitude <= 6 (thorough: 10)") for i in range(7)
])

FF = ["libc", "strinst", "ffint"]
def A(name, args, bound, **k): return name, [str(x) for x in args], bound, k
def HS(src, repo, runs, **k):
    out = []
    for n, a, b, kk in runs:
        o = dict(k); o.update(kk); out.append(H(n, src, repo, args=a, bound=b, **o))
    return out
CHECKS["C02"] = dict(harnesses=HS("c02_ffintvec.cpp", ["FFInt", "FFIntVec"],
  [A("arith%d" % l, [0, l], "all values of all %d lanes mod 31" % l) for l in (2, 4, 8, 16, 32, 64, 128)] +
  [A("div%d" % l, [1, l], "all values of %d lanes mod 31%s" % (l, "" if l <= 4 else ", at most one (any) divisor lane zero")) for l in (2, 4, 8, 16, 32, 64, 128)] +
  [A("scalar_cmp%d" % l, [2, l], "all values of %d lanes and the scalar mod 31" % l) for l in (2, 4, 8, 16, 32, 64, 128)], models=FF, defs=dict(PRIME=31)) +
  HS("c02_ffintvec.cpp", ["FFInt", "FFIntVec"], [A("pow%d" % l, [3, l], "all bases mod 7; 2 lanes: all exponents -6..6; otherwise any one lane with an arbitrary exponent < 7") for l in (2, 4, 8, 16, 32, 64, 128)], models=FF, defs=dict(PRIME=7)))
G06 = {0: "sums/differences of any subsets of 4 monomials (3 in three variables), all non-zero coefficients", 1: "scalar operations and evaluation, any subset of 4 monomials, all coefficients", 2: "products 3x3 terms, all coefficients", 3: "shift of 4 terms up to degree 5, all shifts and coefficients", 4: "homogenisation to degree max..max+2", 5: "max/min degree of up to 3 terms with any exponents <= 2 (one variable: 4)", 6: "products 2x2 with cancellations"}
CHECKS["C06"] = dict(harnesses=HS("c06_polyff.cpp", ["FFInt", "PolynomialFF", "ShuntingYardParser", "BaseReconst"],
  [A("v%dg%d" % (v, g), [g, v], "%s; %d variable(s), mod 7" % (G06[g], v)) for v in (1, 2, 3) for g in G06], models=FF, defs=dict(PRIME=7)))
CHECKS["C07"] = dict(harnesses=HS("c07_poly.cpp", ["FFInt", "Poly"],
  [A("ring%d%d" % (a, b), [0, a, b], "all polynomials of degrees <= %d, %d mod 5" % (a, b)) for a, b in ((0, 0), (2, 1), (1, 3))] +
  [A("div%d%d" % (a, b), [1, a, b], "all dividends of degree %d and divisors of degree %d mod 5" % (a, b)) for a, b in ((1, 0), (0, 1), (1, 2), (2, 1), (3, 1), (3, 2), (4, 2))] + [A("div51", [1, 5, 1], "all dividends of degree 5 and divisors of degree 1 mod 5", thorough_only=1)] +
  [A("gcd%d%d" % (a, b), [2, a, b], "gcd of all polynomials of degrees %d, %d mod 5" % (a, b)) for a, b in ((1, 1), (2, 1), (1, 2), (2, 2))] +
  [A("gcd%d%d" % (a, b), [2, a, b], "gcd of all polynomials of degrees %d, %d mod 5" % (a, b), thorough_only=1) for a, b in ((3, 2), (3, 3))], models=FF, defs=dict(PRIME=5)))
CHECKS["C08"] = dict(harnesses=HS("c08_thiele.cpp", ["FFInt", "FFThieleInterpolator", "PolynomialFF", "ShuntingYardParser", "BaseReconst"],
  [A("any%d" % n, [0, n], "any %d samples mod 11 with existing inverse differences, plus one sample of the interpolant" % n) for n in (1, 2, 3, 4)] + [A("any%d" % n, [0, n], "any %d samples mod 11" % n, thorough_only=1) for n in (5, 6)] +
  [A("rat%d%d" % (a, b), [1, a, b], "all rational functions of numerator degree %d, denominator degree %d mod 11 at fixed points" % (a, b)) for a, b in ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1))] + [A("rat%d%d" % (a, b), [1, a, b], "all rational functions of numerator degree %d, denominator degree %d mod 11 at fixed points" % (a, b), thorough_only=1) for a, b in ((2, 1), (1, 2), (2, 2))], models=FF, defs=dict(PRIME=11)))
G09 = ("solve_gauss_system", "calc_inverse", "LU solve and determinant", "LU inverse")
CHECKS["C09"] = dict(harnesses=HS("c09_dense.cpp", ["FFInt"], [A("n%dg%d" % (n, g), [g, n], "%s: all %dx%d systems mod 5" % (G09[g], n, n)) for n in (1, 2, 3) for g in range(4)] +
  [A("n4g%d" % g, [g, 4], "%s: all 4x4 systems mod 5" % G09[g], thorough_only=1) for g in range(4)], models=FF, defs=dict(PRIME=5)))
CHECKS["C10"] = dict(harnesses=HS("c10_vandermonde.cpp", ["FFInt", "utils", "PolynomialFF", "ShuntingYardParser", "BaseReconst", "ReconstHelper", "RationalNumber"],
  [A("v%dt%d" % (v, t), [v, t], "%d monomials in %d+1 variables, all coefficients and anchors mod 11" % (t, v)) for v in (1, 2, 3) for t in (1, 2, 3, 4)] + [A("v1t5", [1, 5], "5 monomials in 1+1 variables, all coefficients and anchors mod 11"), A("high1", [1, 4, 301], "4 monomials with exponents up to 903"), A("high2", [2, 3, 70001], "3 monomials with exponents up to 210003")], models=GMP, defs=dict(PRIME=11)))
C01M = [A("modmul", [5], "all primes p < 2^63 and all residues", engine=["--fp"])]
PRIM = ["libc", "strinst", "ffint_prim"]
C01R = [A("additive", [0], "all moduli 2 <= p < 2^63 and all residues"), *[A("construct_" + t, [1, i], "all moduli 2 <= p < 2^63, all values of type " + t) for i, t in enumerate(("u64", "i64", "int", "u32", "short"))]]
C01P = [A("pow_small%d" % i, [3, i, 0], "all non-zero bases mod a 63-bit prime, exponents 0..40 and their negatives, also given as field elements") for i in (0, 2)] + [
  A("pow_high0", [3, 0, 1], "all non-zero bases mod the largest 63-bit prime, all exponents < 2^62 with one or two bits set, and their negatives"),
  A("mul0", [4, 0], "all residues mod the largest 63-bit prime"), A("mul3", [4, 3], "all residues mod 4294967311")]
CHECKS["C01"] = dict(harnesses=HS("c01_ffint.cpp", ["FFInt"], C01R +
  [A("inv%d" % q, [2, q], "all residues mod %d" % q) for q in (2, 3, 5, 7, 13, 31, 61, 127)] +
  [A("invbig%d" % i, [2, 40, i], "inverses of 1..40 and p-40..p-1 mod a large prime") for i in (0, 2, 3)] + C01M, models=["libc", "strinst"]) +
  HS("c01_ffint.cpp", ["FFInt"], C01P, models=PRIM) +
  HS("c01_ffint.cpp", ["FFInt"], [A("mpz31", [6, 31, 3, 40], "2^64*{0..3} + {0..40} and their negatives mod 31"), A("mpz_p", [6, 9223372036854775783, 1, 4], "2^64*{0,1} + {0..4} mod the largest 63-bit prime")], models=["libc", "strinst", "ffint_prim", "gmp"]) +
  HS("c01_ffint.cpp", ["FFInt"], [A("flint_" + n, a, b + " (FLINT build)", **k) for n, a, b, k in C01R + C01P], config="flint", models=["libc", "strinst", "flint"]))
PAR = ["FFInt", "FFIntVec", "ShuntingYardParser", "BaseReconst", "ReconstHelper", "utils", "RationalNumber"]
B11 = "all expressions of the template, all values of the variables mod 31"
CHECKS["C11"] = dict(harnesses=HS("c11_parser.cpp", PAR,
  [A("t%d" % i, [0, t], "%s (%s)" % (B11, t)) for i, t in enumerate(("SAEOAE", "saEoaEoaE", "S(SaOa)Eoa", "saEo(saoa)E", "s((aoa)oa)E", "s(aoa)o(saoa)", "S(S(aoa)EOa)", "s(a)EO((a))E", "s(((aoa)))E", "(s((aoa)))oa", "SAFoaF", "S(saoa)F", "SNONtA", "SAtnFoa", "((aoa)o(aoa))E"))] +
  [A("func%d" % i, [3, t], "%s (%s), parse_function" % (B11, t)) for i, t in enumerate(("SAEOAE", "s(saoa)Eoa"))] +
  [A("paren%d" % i, [4, i], "all parenthesis strings of length %d" % i) for i in (1, 2, 3, 4, 5, 6, 7, 8)] + [A("file%d" % i, [7, i], "files of two functions with white space of 5 kinds in 3 places and 5 endings") for i in range(5)] + [A("nofile", [8], "a missing file"), A("undeclared", [5], "undeclared names in 6 positions with 3 signs")], models=GMP, defs=dict(PRIME=31)))
B12 = "evaluate, evaluate_pre and evaluate_pre_2 before and after a change of the field: all expressions of the template, all values mod 31 and 29"
CHECKS["C12"] = dict(harnesses=HS("c11_parser.cpp", PAR,
  [A("r%d" % i, [1, *t.split()], "%s (%s)" % (B12, t)) for i, t in enumerate(("SAEOAE", "aEoaEoa", "s(saoa)Eoa", "aoatnEtn", "ao(ntn)Eta", "ntntnEoa", "at(ntn)E x^2-y"[:8], "s(noa)tn Sntn"))] +
  [A("vec%d" % i, [2, t], "%s, points in pairs (%s)" % (B12, t)) for i, t in enumerate(("saEoaE", "s(aoa)Etn", "atnEoa"))] +
  [A("coll%d_%d" % (f, n), [6, f, n], "collections of %d functions out of 4-7, all non-zero x and all y over two 63-bit primes; keep/add/trim/merge flags %d" % (n, f)) for f, n in ((0, 2), (1, 2), (8, 2), (9, 3), (3, 2), (11, 3), (5, 3), (13, 3))], models=GMP, defs=dict(PRIME=31)))
RF = PAR + ["HornerGenerator", "Polynomial", "PolynomialFF", "RationalFunction", "Monomial"]
CHECKS["C13"] = dict(harnesses=HS("c13_horner.cpp", RF,
  [A("poly%d_%d_%d" % (v, t, s), [0, v, t, s, c], "up to %d monomials out of %d with %d coefficients, %d variables, all points mod 31" % (t, s, c, v)) for v, t, s, c in ((1, 2, 7, 9), (1, 3, 5, 5), (2, 2, 7, 8), (2, 3, 5, 4), (3, 2, 6, 8), (3, 3, 6, 3), (3, 4, 5, 2))] +
  [A("ff%d" % v, [1, v, 3, 6, 3], "up to 3 monomials out of 6 with 3 coefficients, %d variables, all points mod 31" % v) for v in (1, 2, 3)] +
  [A("long%d_%d_%d" % (v, t, s), [2, v, t, s, 0], "%d monomials in %d variables, all points mod 31" % (t + s, v)) for v, t, s in ((2, 52, 0), (3, 52, 1), (4, 55, 1), (3, 49, 1), (3, 50, 0), (3, 50, 1))] +
  [A("rat%d_%d" % (m, v), [m, v, 2, *sc], "numerators and denominators of up to 2 monomials out of %d with %d coefficients%s%s, %d variables, all points mod 31" % (*sc, ", reordered variables" if m & 1 else "", ", univariate factors" if m & 2 else "", v)) for m, v, sc in ((4, 1, (3, 4)), (4, 2, (3, 3)), (5, 2, (3, 3)), (5, 3, (4, 2)), (6, 1, (2, 2)), (7, 2, (1, 2)))], models=GMP, defs=dict(PRIME=31)))
UT = ["utils", "RationalNumber", "FFInt", "PolynomialFF", "ShuntingYardParser", "BaseReconst", "ReconstHelper"]
P0, P1 = 9223372036854775783, 9223372036854775643
CHECKS["C03"] = dict(harnesses=HS("c03_ratrec.cpp", UT,
  [A("all%d" % p, [0, 0, p], "all residues mod %d" % p) for p in (31, 77, 101, 1009, 4199, 20011)] + [A("mqrr_all", [0, 1, 65537, 6000], "all residues up to 6000 mod 65537, maximal-quotient variant"), A("all_65537", [0, 0, 65537], "all residues mod 65537", thorough_only=1, engine=["--fd", "70000"]), A("mqrr_all_thorough", [0, 1, 65537], "all residues mod 65537, maximal-quotient variant", thorough_only=1)] +
  [A("%s%d" % ("mqrr" if q else "find", i), [1, q, p, b, *([] if n is None else [n])], "all rationals with denominator <= %d and |numerator| in %d..%d mod %d" % (b, n or 0, (n or 0) + b, p)) for i, (q, p, b, n) in enumerate(((0, 1009, 22, None), (0, P0, 6, None), (0, P0, 40, 0), (0, P0, 15, 2147483600), (0, P0 * P1, 40, 0), (0, P0 * P1, 12, P0 // 4), (1, 2097143, 4, None), (1, P0, 6, None), (1, P0, 40, 0), (1, P0, 15, 1000000), (1, P0 * P1, 40, 0), (1, P0 * P1, 12, P0 // 4)))], models=["libc", "strinst", "ffint", "gmp"], engine=["--fd", "30000"], defs=dict(PRIME=31)))
CHECKS["C04"] = dict(harnesses=HS("c04_crt.cpp", UT,
  [A("small%d" % i, [a, b], "all residues modulo %s and %s" % (a, b)) for i, (a, b) in enumerate(((7, 11), (11, 7), (2, 3), (31, 37), ("7*11", 13), (13, "7*11"), ("5*7*11", 3), (101, 103), (211, 128), (1009, 17)))] +
  [A("big%d" % i, [a, b, w], "windows of %d residues at both ends and in the middle of the ranges modulo %s and %s" % (w, a, b)) for i, (a, b, w) in enumerate(((P0, P1, 40), (P1, P0, 40), ("1099511627689*1099511627687", 1099511627776, 40)))], models=["libc", "strinst", "ffint", "gmp"], engine=["--fd", "30000"], defs=dict(PRIME=31)))

def U19(runs): return HS("c19_utils.cpp", UT, runs, models=["libc", "strinst", "ffint", "gmp"])
CHECKS["C19"] = dict(harnesses=U19([A("bunch%d" % a, [0, a, b], "all queue lengths < 2^31, %d..%d threads, limits 1..128" % (a, b)) for a, b in ((1, 8), (9, 16), (17, 24), (64, 64), (255, 256))] +
  [A("jobs%d" % t, [1, t, q], "all queue lengths <= %d, up to %d free of up to %d threads, limits 1..128" % (q, t, t)) for t, q in ((3, 1000), (5, 100))]))
CHECKS["C20"] = dict(harnesses=U19([A("colex%d" % n, [2, n, 0], "all pairs of vectors of %d 32-bit exponents" % n) for n in (0, 1, 2, 3, 5)] + [A("colexbin%d" % n, [2, n, 1], "all pairs of 0/1 tuples of length %d" % n) for n in (1, 2, 3, 5, 7)] +
  [A("next%d" % n, [3, n], "all tuples of length %d" % n) for n in (1, 2, 3, 4, 5, 6)] + [A("shifts%d" % n, [4, n], "all tuples of length %d" % n) for n in (1, 2, 3, 4, 5, 6)]))
CHECKS["C21"] = dict(harnesses=U19([A("primes", [5], "all entries of the table and all numbers between them"), A("random0", [6, 0], "seeds 0..7 after any of 12 histories, 7 primes"), A("random1", [6, 1], "the eight largest seeds after any of 12 histories, 7 primes")]))

B18 = ("submission and destruction", "futures and exceptions", "order with priorities", "wait()", "kill_all()", "tasks submitting tasks", "tasks waiting for each other")
CHECKS["C18"] = dict(harnesses=HS("c18_pool.cpp", [], [A("m%d_n%d_k%d_p%d" % (m, n, k, p), [m, n, k, p], "%s: %d threads, %d tasks, all schedules with at most %d preemptions" % (B18[m], n, k, p)) for m, n, k, p in
  ((0, 0, 2, 0), (0, 1, 3, 3), (0, 2, 2, 2), (1, 1, 2, 2), (1, 2, 2, 1), (2, 1, 3, 3), (2, 2, 3, 1), (3, 1, 2, 3), (3, 2, 2, 2), (4, 1, 2, 3), (4, 2, 3, 1), (5, 1, 3, 2), (5, 2, 2, 2), (6, 2, 2, 1))], models=["libc", "strinst", "sched"], native_models=["sched"], harness_cflags=["-fsanitize=thread"], latepass="tsan,"))

ALL = ["FFInt", "FFIntVec", "ShuntingYardParser", "BaseReconst", "ReconstHelper", "utils", "RationalNumber", "HornerGenerator", "Polynomial", "PolynomialFF", "RationalFunction", "RationalFunctionFF", "Monomial", "PolyReconst", "RatReconst", "FFThieleInterpolator", "Poly", "ParserUtils", "gzstream"]
X16 = "10000000000000000000000"
def R16(name, spec, n, thr=1, bunch=1, flags="-", B=1, pre=0, seed=1, what="", **k):
    nc = spec.count("s") - spec.count("sX"); cs = ["%d coefficients in -%d..%d" % (nc, B, B)] if nc else []
    if "sX" in spec: cs.append("%d in 10^22-%d..10^22+%d" % (spec.count("sX"), B, B))
    fl = [w for c, w in (("s", "shift scan"), ("S", "safe mode"), ("p1", "one prime"), ("p2", "two primes")) if c in flags]
    b = "%s: %s in %d variable%s, %s%s; %d worker%s, bunch %d, %s" % (what or name, spec.replace("sX", "S"), n, "s"[:n > 1], ", ".join(cs) or "fixed coefficients", "".join(", " + f for f in fl), thr, "s"[:thr > 1], bunch, "all schedules with at most %d deviations from round robin" % pre if pre else "round robin")
    return A(name, [spec.replace("sX", "s" + X16), n, thr, bunch, flags, B, pre, seed], b, **k)
CHECKS["C16"] = dict(harnesses=HS("c16_recon.cpp", ALL, [
  R16("uni", "s:2+s:0/1:1+s:0", 1, B=3), R16("uni_den", "s:2+s:0/s:1+s:0", 1, bunch=2, B=2), R16("uni_safe", "s:2+s:1/s:1+s:0", 1, flags="S"), R16("uni_deg", "s:5+s:3+s:0/s:2+1:0", 1),
  R16("uni_big", "sX:2+s:0/1:1+s:0;s:1", 1), R16("uni_bigden", "s:3+s:0/sX:2+s:0", 1), R16("uni_bigsafe", "sX:2+s:0/s:1+1:0", 1, flags="S"), R16("early1", "sX:2+s:0/1:1+s:0;s:1", 1, flags="p1"), R16("early2", "sX:2+3:0/1:1+1:0;s:1;s:2/1:1+s:0", 1, flags="p2"),
  R16("poly1", "s:3+s:1+s:0", 1), R16("const", "s:0;s:0/2:0", 1, B=3), R16("zero", "0:0;s:1;0:1", 1),
  R16("bi", "s:20+s:01/s:10+s:01", 2), R16("bi_poly", "s:21+s:10+s:03+s:00", 2), R16("bi_scan", "s:20+s:01/s:10+s:01", 2, flags="s"), R16("bi_const", "s:20+s:01/1:10+s:00", 2, bunch=4), R16("bi_safe", "s:20+s:01/s:10+s:01", 2, flags="S"), R16("bi_safebig", "sX:20+s:01/1:10+s:01", 2, flags="S"),
  R16("bi_big", "sX:20+s:01/1:11+s:00", 2), R16("bi_bigscan", "s:20+s:11/sX:11+s:10", 2, flags="s"), R16("bi_deg", "s:60+s:42/s:21+s:01", 2), R16("bi_two", "s:20+s:01;s:10/s:00+s:01", 2), R16("bi_twobig", "sX:11;s:10/1:00+s:01", 2, flags="s"),
  R16("tri", "s:200+s:010/s:001+s:100", 3), R16("tri_poly", "s:210+s:011+s:000+s:300", 3), R16("tri_scan", "s:200+s:011/s:001+s:110", 3, flags="s"), R16("tri_big", "s:100+s:011/sX:001+1:110", 3), R16("tri_safe", "s:200+s:010/1:001+s:100", 3, flags="S"), R16("tri_bigscan", "s:200+s:011/sX:001+s:110", 3, flags="s"),
  R16("quad", "s:1000+s:0110/s:0001+s:0100+1:0000", 4), R16("quad_scan", "s:1000+s:0110/s:0001+s:0100+1:0000", 4, flags="s"), R16("workers", "s:20+s:01/1:10+s:00", 2, thr=3, bunch=4, flags="d"),
], models=["libc", "strinst", "ffint", "gmp", "sched"], native_models=["sched"], engine=["--fd", "30000"]))
def R22(name, spec, n, thr, bunch, pre, flags="", **k): return R16(name, spec, n, thr=thr, bunch=bunch, flags=flags + "d", pre=pre, **k)
CHECKS["C22"] = dict(harnesses=HS("c16_recon.cpp", ALL, [
  R22("t1", "2:1+3:0", 1, 1, 1, 2), R22("t2", "1:2+3:0/1:1+2:0", 1, 2, 1, 1), R22("t2sym", "s:1+1:0/1:0", 1, 2, 1, 1), R22("t2zero", "0:0;1:0", 1, 2, 1, 1), R22("t2b", "1:2+3:0/1:1+2:0", 1, 2, 2, 1), R22("t3b", "1:2+3:0/1:1+2:0", 1, 3, 4, 1), R22("t2two", "1:1;1:0/1:1", 1, 2, 1, 1),
  R22("t2bi", "1:10+2:01/1:01+1:00", 2, 2, 1, 1), R22("t2scan", "1:10+2:01/1:01+1:00", 2, 2, 1, 1, flags="s"), R22("t2safe", "1:10+2:01/1:01+1:00", 2, 2, 1, 1, flags="S"), R22("t2big", X16 + ":1;1:0/1:1", 1, 2, 1, 1), R22("t2bibig", X16 + ":10+2:01/1:01+1:00", 2, 2, 2, 1), R22("t2bigscan", X16 + ":10+2:01/1:01+1:00", 2, 2, 1, 1, flags="s"), R22("t2bitwo", X16 + ":10+2:01/1:01+1:00;1:11+3:02", 2, 2, 1, 1), R22("t3bitwo", X16 + ":10+2:01/1:01+1:00;" + X16 + ":11+3:02", 2, 3, 4, 1), R22("t3tri", X16 + ":100+2:011/1:010+1:001", 3, 3, 4, 1), R22("t2early", X16 + ":1;1:0/1:1", 1, 2, 1, 1, flags="p1"),
  R22("t3", "3:1", 1, 3, 1, 1)] + [R22("deep%d" % i, f, n, t, b, 2, flags=fl, thorough_only=1, partial_ok=1) for i, (f, n, t, b, fl) in enumerate((("1:1", 1, 2, 1, ""), ("1:2+3:0/1:1+2:0", 1, 1, 1, ""), ("1:2+3:0/1:1+2:0", 1, 2, 2, ""), ("1:10+2:01/1:01+1:00", 2, 2, 1, ""), ("1:10+2:01/1:01+1:00", 2, 2, 1, "s"), (X16 + ":10+2:01/1:01+1:00", 2, 2, 1, ""), (X16 + ":1;1:0/1:1", 1, 2, 1, "")))],
  models=["libc", "strinst", "ffint", "gmp", "sched"], native_models=["sched"], engine=["--fd", "30000"], harness_cflags=["-fsanitize=thread"], repo_cflags=["-fsanitize=thread"], latepass="tsan,"))
