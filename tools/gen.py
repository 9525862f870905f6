#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place where the
properties are stated)."""
import json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INT, RAT, TR = "src/core/num/int.rs", "src/core/num/rat.rs", "src/core/num/traits.rs"
MAT, ALG, UTIL, CONE = "src/linalg/mat.rs", "src/linalg/algorithm.rs", "src/linalg/util.rs", "src/linalg/cone.rs"
ELTS, MDEG, ORD, COMP, DISP = "src/poly/elts.rs", "src/poly/mdeg.rs", "src/poly/ord.rs", "src/poly/comp.rs", "src/poly/display.rs"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, hook=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, hook=hook, observe=observe))


I, H, C, S, PR = "inputs", "histories", "configurations", "schedules", "programs"
OV = "Trusts the reference arithmetic of the harness; claims are for builds with overflow checks, with or without debug assertions (both are run)."

# ------------------------------------------------------------------ numbers
prop("N01", "Integer operations are exact or refuse",
     "Every arithmetic operation on integers (sum, difference, product, quotient, remainder, negation, absolute value, power) returns the mathematically exact value whenever it fits in 64 bits and panics otherwise, never returning a wrapped value (powers: for exponents from 0 to 2^32-1, as documented; the remainder of the least integer by -1 may panic, because its quotient does not fit). Sign, zero and order predicates agree with the mathematical value.",
     [I], "all pairs of 64-bit integers and all (base, exponent) pairs, including the limits of the type",
     "The tests evaluate a handful of small sums; nothing near the limits of the type or with negative operands is reached.",
     [INT], [("operators forwarded to the machine integers with overflow checks", INT)],
     "runtime monitor: every call compared online with exact 128-bit arithmetic", "Exploration: random and boundary pairs, small pairs exhaustively. " + OV)
prop("N02", "gcd and lcm are the greatest common divisor and least common multiple",
     "For all integers, the gcd is the nonnegative greatest common divisor (0 for two zeros) and the lcm is the nonnegative least common multiple (0 if an operand is 0). Where the result does not fit in 64 bits the call panics; the call always terminates.",
     [I], "all pairs of 64-bit integers", "One gcd test with few positive pairs; lcm, zero, negative and extreme operands are not tested.",
     [INT], [("Euclid's algorithm", INT + ": Integer::gcd"), ("lcm from gcd", INT + ": Integer::lcm")],
     "runtime monitor: compared with a 128-bit Euclid", "Exploration, small pairs exhaustively. " + OV)
prop("N03", "Every rational obtained through the API is in canonical form",
     "Every rational number returned by a constructor or operation, after any history of operations, has a positive denominator coprime to its numerator, with zero represented only as 0/1. Consequently two rationals are equal, and hash equally, exactly when their values are equal.",
     [I, H], "all histories of constructions, sums, differences, products, quotients, negations, powers, reciprocals and compound assignments, whatever order the operands come in",
     "The test checks single operations on a few fractions; canonical form is an invariant over histories.",
     [RAT, INT], [("reduction to lowest terms in the constructor", RAT + ": Rational::new"), ("operations that bypass it", RAT)],
     "runtime monitor: representation invariant checked after every operation of random histories", "Exploration: histories of up to 16 operations over operands of 2 to 63 bits, all pairs |n|,d<=9 exhaustively. " + OV)
prop("N04", "Rational arithmetic is exact or refuses",
     "Sum, difference, product, quotient, negation, power, reciprocal, sign, iterated sum and product of rationals return exactly the mathematical value or panic, and panic only when the result is undefined (division by zero, 0 to a negative power) or when numbers no longer fit in 64 bits. Powers: for exponents below 2^32 in magnitude. A single sum, difference, product or quotient of numbers whose parts are below 2^31 is never refused.",
     [I, H], "all operand values and histories of operations", "The test samples about a dozen operations on small fractions.",
     [RAT, INT], [("field operations", RAT)],
     "runtime monitor: shadow execution of every history in exact 128-bit rationals", "Exploration. " + OV)
prop("N05", "Rational order and equality are those of the numbers",
     "The order on rationals is the numerical one: total, antisymmetric, consistent with equality, with every comparison operator and with sorting.",
     [I], "all pairs and lists of canonical rationals whose cross products fit in 64 bits", "No test compares rationals that are neither equal nor of equal denominator.",
     [RAT, TR], [("comparison through cross multiplication", TR + ": Ord for Rational")],
     "runtime monitor: compared with 128-bit cross multiplication", "Exploration, small pairs exhaustively. " + OV)
prop("N06", "Zero, one, inverse, power and tolerance of numbers are lawful",
     "For every numeric type the zero and one constants are neutral and recognised by the zero and one tests exactly; inverse times value is one, integer powers equal repeated multiplication (inverted for negative exponents), and tolerance equality means a difference below the type's epsilon (plain equality for rationals).",
     [I], "all values of the primitive numeric types, integers and rationals, exponents of either sign", "Not tested at all.",
     [TR], [("numeric traits", TR)],
     "runtime monitor: laws evaluated directly", "Exploration; float powers within an error bound, exact where powers of two. " + OV)
# ------------------------------------------------------------------ multidegrees
prop("M01", "Multidegrees are canonical and add componentwise",
     "A multidegree built from any list of exponents, by a variable, or by adding others has no trailing zero exponents, so that equal monomials have equal representations. Addition adds exponents exactly (or panics when one exceeds its range), and total degree, length, iteration and zero test agree with the exponents.",
     [I, H], "all exponent lists (also all zero, with trailing zeros, of different lengths)", "One test with three multidegrees.",
     [MDEG], [("trimming of trailing zeros", MDEG + ": trim_zeros, from_vec"), ("componentwise addition", MDEG)],
     "runtime monitor: compared with exponent-vector arithmetic", "Exploration; small pairs exhaustively. " + OV)
prop("M02", "Monomial divisibility and exact subtraction agree",
     "One monomial is reported to divide another exactly when each of its exponents is at most the other's; the checked difference then exists, is canonical and adds back to the dividend, and does not exist otherwise.",
     [I], "all pairs of multidegrees of any lengths", "A few equal-length pairs in one test.",
     [MDEG], [("succession test", MDEG + ": is_succ"), ("checked subtraction", MDEG + ": checked_sub")],
     "runtime monitor: compared with exponent-vector arithmetic", "Exploration; small pairs exhaustively. " + OV)
prop("M03", "The four monomial orders are the textbook orders and monomial orders",
     "lex, revlex, grlex and grevlex each decide every pair of monomials as their textbook definition does; each is a total order compatible with multiplication, and the graded ones compare the true total degree, however large. The monomial 1 is least in each.",
     [I], "all pairs and triples of multidegrees, total degrees beyond 255 included", "The order tests compare some dozens of fixed monomials of small degree.",
     [ORD], [("orders", ORD + ": Lex, RevLex, GrLex, GRevLex, grad")],
     "runtime monitor: compared with direct definitions on exponent vectors, laws checked on triples", "Exploration; small triples exhaustively. " + OV)
# ------------------------------------------------------------------ polynomials
prop("P01", "Polynomials stay clean under every operation",
     "A polynomial produced by constructors, arithmetic (every combination of polynomial, term and scalar, owned or borrowed), division, S-polynomials or any history of these contains no zero coefficient and no two terms with the same monomial. Its zero test and equality of terms therefore agree with the polynomial's value.",
     [I, H], "all histories of operations over rationals, finite prime fields and floats with exact sums", "Tests print or compare single results; cancellation inside histories is not sampled.",
     [ELTS, COMP], [("merging of like terms", ELTS + ": Add"), ("dropping of zero terms", ELTS)],
     "runtime monitor: representation invariant after every operation of random histories", "Exploration over nine coefficient fields. " + OV)
prop("P02", "Polynomial arithmetic is exact ring arithmetic",
     "Sums, differences, products, negations and scalar products and quotients of polynomials and terms, in every operand form (owned or borrowed, also both operands the same object), equal the mathematical results with like terms collected. Hence the ring laws hold on all values.",
     [I, H], "all polynomials over exact fields, and over floats where arithmetic is exact", "One test multiplies and adds a few fixed polynomials.",
     [ELTS], [("ring operators", ELTS)],
     "runtime monitor: shadow execution in an independent map-based polynomial ring", "Exploration over nine coefficient fields. " + OV)
prop("P03", "Evaluation is a ring homomorphism",
     "Evaluating a term or polynomial at a point gives the mathematical value; evaluation of a sum or product is the sum or product of the evaluations. A point with more coordinates than needed gives the same value and one with too few panics.",
     [I], "all polynomials and points over exact fields and floats with exact arithmetic", "A few evaluations at fixed points.",
     [ELTS], [("evaluation", ELTS + ": eval")],
     "runtime monitor: compared with evaluation in exact arithmetic, homomorphism checked on pairs", "Exploration. " + OV)
prop("P04", "Term quotients and the monic lcm are exact",
     "Dividing a nonzero term by another gives the exact quotient when the divisor's monomial divides the other's, and nothing otherwise; the divisibility test agrees. The monic lcm of two terms has coefficient one and the componentwise maximum of the exponents.",
     [I], "all pairs of terms with nonzero divisor", "Two or three fixed pairs.",
     [ELTS, COMP, MDEG], [("term division", ELTS + ": try_div, divides"), ("lcm", COMP + ": monic_lcm")],
     "runtime monitor: compared with exponent-vector arithmetic", "Exploration. " + OV)
prop("P05", "Printed values determine the value",
     "Reading back the printed form of an integer, rational, matrix, monomial, term or polynomial (signs, coefficients, variable names, superscript exponents) yields the printed value; in particular no sign, coefficient or exponent is dropped.",
     [I], "all values that can be printed: any sign, exponents up to 255, any number of variables", "Tests print to the console; one compares a fixed matrix.",
     [DISP, INT, RAT, MAT], [("formatting of polynomials", DISP), ("formatting of matrices", MAT)],
     "runtime monitor: independent parser reads the printed form back", "Exploration. " + OV)
# ------------------------------------------------------------------ division, Gröbner
prop("D01", "Division with remainder satisfies its identity",
     "Dividing a polynomial by any list of divisors returns one quotient per divisor and a remainder with dividend = sum of quotient times divisor + remainder, exactly over exact fields and up to accumulated rounding over floats. No term of the remainder is divisible by the leading term of a nonzero divisor.",
     [I, C], "all dividends and divisor lists (also empty, zero, repeated), all four monomial orders, exact fields and floats", "The test divides single-variable-range float polynomials by one small fixed family.",
     [COMP, ELTS], [("division algorithm", COMP + ": divide")],
     "runtime monitor: identity recombined in an independent polynomial ring", "Exploration; all small polynomials over F2/F3 exhaustively. " + OV)
prop("D02", "Division respects degrees and terminates",
     "Every division terminates, and neither a product of quotient and divisor nor the remainder has a leading monomial above the dividend's. Dividing by a single divisor gives the unique quotient and remainder, and an already reduced dividend is its own remainder.",
     [I, C], "all dividends and divisor lists, all four monomial orders, exact fields and floats of any magnitude that stays finite", "Termination and degree bounds cannot be sampled; the tests only see one family of polynomials.",
     [COMP], [("leading terms strictly decrease", COMP + ": divide")],
     "runtime monitor: degree bounds per result; termination as a budget of logical steps (allocations) and CPU time", "Bounded termination: within a budget some 10^4 times that of normal cases. " + OV)
prop("G01", "Leading terms are the greatest terms of the order",
     "The leading term of a nonzero polynomial is its term with the greatest monomial in the chosen order, the leading coefficient is that term's coefficient, and the zero polynomial has neither. Sorting terms yields the same polynomial with monomials strictly ascending.",
     [I, C], "all polynomials, all four orders", "Shown for a few printed examples only.",
     [COMP, ORD], [("leading term, sorting", COMP + ": leading_term, leading_coef, sort_terms")],
     "runtime monitor: compared with the maximum under the textbook order", "Exploration. " + OV)
prop("G02", "S-polynomials follow their definition and cancel leading terms",
     "The S-polynomial of two nonzero polynomials is lcm/lt(f)*f - lcm/lt(g)*g exactly (up to rounding over floats), and does not exist if either is zero. Its monomials are all below the lcm of the leading monomials, also over floats.",
     [I, C], "all pairs of polynomials, four orders, exact fields and floats", "A sweep over a float family in one variable range with a tolerance; no other order or field.",
     [COMP], [("S-polynomial", COMP + ": try_reduce")],
     "runtime monitor: compared with the definition in an independent polynomial ring", "Exploration. " + OV)
prop("G03", "Buchberger's algorithm returns a Gröbner basis of the same ideal",
     "For every list of generators over an exact field (or over floats, as long as nothing is rounded) the result generates the same ideal as the input and is a Gröbner basis in the chosen order: all S-polynomials reduce to zero. The call terminates, and the unit and zero ideals are recognised.",
     [I, C], "all generator lists (zero, repeated, redundant, constant generators included), four orders, rationals, prime fields, and floats on binomial ideals", "The test prints bases of two examples without checking them (a comment says so).",
     [COMP], [("pair processing", COMP + ": buchberger_extend"), ("interreduction", COMP + ": buchberger_minimize, buchberger_reduce")],
     "runtime monitor: independent Buchberger reference, mutual reduction, all S-polynomials", "Exploration on ideals whose basis the reference can compute in its budget; pairs over F3 exhaustively. " + OV)
prop("G04", "The computed basis is the unique reduced Gröbner basis",
     "The result of the algorithm is monic, minimal and inter-reduced, hence depends only on the ideal and the order: any two generating sets of the same ideal, in any arrangement, give the same set of polynomials, and running it on its own output changes nothing.",
     [I, C, H], "all pairs of presentations of the same ideal", "No test compares two presentations or two runs.",
     [COMP], [("minimal and reduced basis", COMP + ": buchberger_minimize, buchberger_reduce")],
     "runtime monitor: metamorphic comparison of presentations and with a reference reduced basis", "Exploration; pairs over F3 exhaustively. " + OV)
prop("G05", "The Gröbner basis test answers correctly",
     "The criterion reports that a list of polynomials is a Gröbner basis of the ideal it generates exactly when it is one, for every list and order.",
     [I, C], "all lists of polynomials (with zeros, redundancies, almost-bases), four orders", "Never called on a list that is not a basis.",
     [COMP], [("S-polynomial criterion", COMP + ": buchberger_criterion")],
     "runtime monitor: compared with the criterion evaluated in an independent polynomial ring", "Exploration; pairs over F3 exhaustively. " + OV)
prop("G06", "Remainders modulo a computed basis decide ideal membership",
     "Dividing by a computed Gröbner basis leaves remainder zero exactly for the members of the ideal, and in general the unique normal form, whatever the order in which the basis elements are listed.",
     [I, C], "all ideals and dividends, four orders, all arrangements of the basis", "Not tested.",
     [COMP], [("division by the basis", COMP + ": divide, buchberger_algorithm")],
     "runtime monitor: planted members and non-members, normal forms against the reference", "Exploration. " + OV)
# ------------------------------------------------------------------ linear algebra
prop("L01", "Matrix sum, product, scaling and transpose are exact",
     "Matrix sums, products, scalar products, transposes and equality follow their entrywise definitions for all shapes and operand forms (owned, borrowed, compound assignment), leave operands unchanged, and panic on incompatible shapes.",
     [I], "all shapes including empty and non-square, exact fields and floats with exact arithmetic", "The tests check about ten fixed small products.",
     [MAT], [("operators", MAT)],
     "runtime monitor: compared with entrywise definitions in exact arithmetic", "Exploration up to 8x8. " + OV)
prop("L02", "Constructors and elementary matrices match the row operations",
     "Identity, zero, unit, scaling, permutation and replacement matrices and matrices from row or column vectors have exactly their defining entries. Multiplying by an elementary matrix equals applying the corresponding in-place row operation, which changes no other row.",
     [I], "all shapes, rows, scalars and permutations", "Fixed 2x2 and 3x3 constructions only.",
     [MAT], [("constructors and row operations", MAT)],
     "runtime monitor: compared with entrywise definitions and with the product", "Exploration. " + OV)
prop("L03", "Matrix reads and writes touch exactly the addressed entries",
     "Every accessor (by position, row, column, iterator, swap) reads the addressed entries in order, and every writer changes those and no other; rows, columns and index enumeration report the shape. Access beyond the last row panics.",
     [I], "all shapes, square or not, and all positions", "Accessors are only used incidentally, mutable column iteration never.",
     [MAT], [("row-major indexing", MAT)],
     "runtime monitor: the whole matrix compared before and after each access", "Exploration; column indices beyond the shape are outside the contract. " + OV)
prop("L04", "LU decomposition factors every matrix exactly",
     "For every matrix over an exact field P is a permutation matrix, L lower triangular and invertible, U in row echelon form with pivots one (hence upper triangular), and P*A = L*U. The same holds over floats whenever the elimination involves no rounding.",
     [I], "all shapes and ranks, zero and repeated rows and columns", "One test enumerates 3x4 float matrices over three values with a tolerance; exact fields, other shapes and larger sizes are not reached.",
     [ALG, MAT], [("elimination with pivoting", ALG + ": lu")],
     "runtime monitor: factorisation recomputed in exact arithmetic", "Exploration up to 9x9 over several fields. " + OV)
prop("L05", "Float elimination is backward stable and solves well-posed systems",
     "Over floats, P*A and L*U agree entrywise within the standard rounding bound, P is exactly a permutation, no multiplier exceeds its pivot, and L and U have exact zeros where required. For well-conditioned matrices rank, nullity, inverse, kernel and range are right up to rounding.",
     [I], "all finite float matrices of moderate size and magnitude (single and double precision)", "The tests use values exactly representable and small.",
     [ALG], [("partial pivoting", ALG + ": lu, row_echelon, get_stable_column_index_under_row")],
     "runtime monitor: componentwise backward error against the standard bound", "Exploration; no claim on the rank of ill-conditioned float matrices (the code uses an absolute threshold). " + OV,
     hook="transformation and reduced matrix of a row echelon form (for the inverse only)")
prop("L06", "Row echelon forms are certified by an invertible transformation",
     "The row echelon and reduced row echelon form of a matrix A consist of an invertible P and a matrix B in (reduced) row echelon form with pivots one, such that P*A = B exactly.",
     [I], "all shapes and ranks over exact fields, and floats with exact elimination", "The tests check the shape of B for small float matrices; P and other fields are not checked.",
     [ALG], [("simultaneous row operations on both matrices", ALG + ": row_echelon, to_rref")],
     "runtime monitor on hooked state: product, invertibility and form recomputed exactly", "Exploration; needs the observation hook. " + OV,
     hook="read access to the transformation and the reduced matrix")
prop("L07", "The reduced row echelon form is canonical",
     "The reduced row echelon form equals the unique mathematical one: it is idempotent, identical for all row-equivalent matrices, and for an invertible matrix the accompanying transformation is its inverse.",
     [I], "all matrices over exact fields and all sequences of row operations on them", "Uniqueness over row-equivalent inputs is never tested.",
     [ALG], [("back substitution", ALG + ": to_rref")],
     "runtime monitor on hooked state: independent Gauss-Jordan, metamorphic row operations", "Exploration; needs the observation hook. " + OV,
     hook="read access to the transformation and the reduced matrix")
prop("L08", "Rank and nullity are right and add up",
     "Rank and nullity reported by the echelon form and the reduced form equal the true rank and columns minus rank, agree with the number of nonzero rows of U, and the rank of the transpose is the same.",
     [I], "all matrices over exact fields, floats with exact elimination", "Not tested beyond a few small matrices.",
     [ALG], [("count of zero rows", ALG + ": rank, nullity, zero_rows")],
     "runtime monitor: independent elimination", "Exploration. " + OV)
prop("L09", "Kernel bases are bases of the kernel",
     "The vectors returned as kernel basis are annihilated by the matrix, linearly independent, and as many as the nullity.",
     [I], "all matrices, also with zero columns, full rank or empty", "One test on a few matrices.",
     [ALG], [("free variables", ALG + ": compute_kernel")],
     "runtime monitor: annihilation and independence in exact arithmetic", "Exploration. " + OV)
prop("L10", "Range bases are bases of the column space",
     "The vectors returned as range basis lie in the column space, are linearly independent, and are as many as the rank.",
     [I], "all matrices", "The function is marked UNTESTED in the source.",
     [ALG], [("pivot columns", ALG + ": compute_range")],
     "runtime monitor: membership and independence in exact arithmetic, as sets", "Exploration. " + OV)
prop("L11", "Pivots are admissible and the preference order is lawful",
     "Pivot selection in a column from a given row down returns the position and value of a nonzero entry that no other candidate beats in the stability order, and none exactly when all candidates are zero. The stability order ranks zero strictly below every nonzero number, is antisymmetric and transitive, and by magnitude for floats.",
     [I], "all columns, start rows and fields; all pairs of numbers", "Only reached through small float matrices.",
     [ALG, TR], [("pivot selection", ALG + ": get_stable_column_index_under_row"), ("stability order", TR)],
     "runtime monitor: admissibility against all candidates; order laws on triples", "Exploration. " + OV)
prop("L12", "Matrix predicates, dot product and norm follow their definitions",
     "Triangularity tests hold exactly when all entries off the triangle are zero (for any shape), the dot product and squared norm are the sums of products of entries, and tolerance equality of equal shapes holds exactly when the squared norm of the difference is tolerance-equal to zero (over exact fields: when the matrices are equal).",
     [I], "all shapes and entries", "Used as helpers in tests, never on near misses or non-square shapes.",
     [MAT], [("predicates and sums", MAT)],
     "runtime monitor: compared with definitions; planted near misses", "Exploration. " + OV)
prop("C01", "Cones report their dimension, complement and exactly their facets",
     "For the cone generated by any rational vectors the reported dimension and orthogonal complement are those of their span, and the half-spaces of the facets are supporting, have generators on them spanning a hyperplane of the span, and are all of the facets: a point of the span is in the cone exactly when it satisfies all of them.",
     [I], "all generator lists over the rationals: pointed or with lines, full or lower dimensional, with zero, repeated and opposite generators", "The cone module has no tests (its comment says it very likely does not work).",
     [CONE, ALG], [("enumeration of supporting hyperplanes", CONE + ": Cone::new")],
     "runtime monitor on hooked state: determinants of all subsets and membership of random points", "Exploration in dimension 1 to 4 with up to 7 generators; floats are not claimed (exact sign tests on rounded values). " + OV,
     hook="read access to the parts of a cone and its facets")
prop("U01", "Enumeration utilities visit everything exactly once",
     "The box iterator yields every index pair of a rectangle once in row-major order, the digit iterator yields the base-b digits of a number, least significant first, and ends after the most significant one (at once for 0), the matrix enumeration yields every matrix over the given distinct values exactly once and then ends (enumerations of more matrices than a machine word can count aside), and the maximum search returns an index of a maximal element.",
     [I], "all sizes, numbers and bases >= 2, and all lists of distinct values, empty ones included", "Only used by other tests to generate inputs.",
     [UTIL], [("iterators", UTIL)],
     "runtime monitor: complete enumeration compared with the definition", "Exploration; small sizes exhaustively. " + OV)
prop("S01", "No undefined behaviour on any input",
     "No call of a public operation, within or outside its documented contract, reads or writes memory out of bounds, uses freed or uninitialised memory or otherwise has undefined behaviour: it returns or panics.",
     [I, PR], "all sequences of calls with any operands, valid or not, also when earlier calls panicked", "Tests use valid operands and run without instrumentation.",
     [MAT, MDEG, ELTS, COMP, ALG], [("bounds-checked accesses only", MAT + ": get_unchecked is checked despite its name")],
     "sanitizers: AddressSanitizer build and the Miri interpreter on hostile workloads", "Exploration; a clean run is not a proof of memory safety.")
prop("S02", "Results depend on the operands alone",
     "Every operation returns the same result for the same operands, whatever was computed before, in any order, process, environment, working directory or thread, concurrently with others; there are no data races. Sets whose order is not documented are compared as sets.",
     [S, H, C], "all interleavings and orders of calls", "Tests evaluate each expression once in one process.",
     [COMP, ALG, RAT, ELTS], [("no global state", "src/")],
     "differential runs across orders, environments and threads; Miri and ThreadSanitizer for data races", "Exploration; interleavings as sampled by the scheduler and by Miri's random scheduler.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"] or ["the public API, at the call boundary"], "hook_needed": p["hook"]}}
            f.write(json.dumps(o, ensure_ascii=False) + "\n")
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()
    old = os.path.join(V, "MANIFEST.json")
    if not hook and os.path.exists(old):
        hook = json.load(open(old)).get("hooks", {}).get("source_commits", [])
    m = {"version": 1, "setup_cmd": "python3 check.py build",
         "hooks": {"guard": "cfg(algeo_verif)", "enable": "RUSTFLAGS=\"--cfg algeo_verif\" when building the harness crate in /verif/harness (path dependency on /repo)", "source_commits": hook},
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
         "not_applicable": [], "notes": "Exit 2 of a check means inconclusive. See DESIGN.md."}
    with open(old, "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
