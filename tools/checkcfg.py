"""Per-property configuration of check.py."""
HOOK_COMMITS = []
CFG = {
 "C14": dict(bounds="22x22 node kinds over 15 operand shapes (numbers of both signs, negated and nested polynomials, powers, quotients, exponentials, functions of one and two arguments), 8 operators over 15x15 operands bare and under every node kind with four right operands, powers of 15x15, 22 numbers of every magnitude in 9 positions, 12 exponents in 8, all 56 built-in functions, 8 symbol names, derivatives and simplifications of all of them, unevaluated derivatives of functions; coefficients from {2,-3,0.5,-1,-0.25} (two of them in the largest families); variables arbitrary reals.", outside="other coefficient values (the text of a number is enumerated, not symbolic); deeper nesting (three node kinds in thorough); anonymous symbols; infinities and NaN; floating-point rounding."),
 "C24": dict(bounds="22x22 node kinds over 15 operand shapes, 8 operators over 15x15 operands bare and under every node kind, powers of 15x15, 20 numbers of every magnitude in 10 positions, 16 exponents (to 1001 and -1500) in 9, all 56 built-in functions, derivatives and simplifications, five greek names, unevaluated derivatives of 7 operands with orders to 12, all in LaTeX and Unicode, read by independent readers of either notation; coefficients from {2,-3,0.5,-1,-0.25} (two or three of them in the largest families); variables arbitrary reals.", outside="other coefficient values (the text of a number is enumerated); deeper nesting (three node kinds in thorough); typography of names of several letters; functions of more than two arguments; infinities and NaN; floating-point rounding."),
 "C05": dict(bounds="60 shapes (numbers, symbols, powers, quotients, functions, polynomials, sums, unevaluated derivatives) with symbolic coefficients: every ordered pair for ==, hashing and hashed collections; every pair joined with 7 near-equal third terms in four orders as sums and products; five terms close in the order (16 x 16 x 16 choices) in four orders; coefficients in [-1000,1000] for rebuilding and numbers, small ranges where they are hashed into sums.", outside="not-a-number literals (never equal to themselves); grouping: the lazy constructors keep numbers and like terms ungrouped until simplification; more than five terms."),
 "C08": dict(flags=["--one-way"], bounds="the expression families of C06 evaluated with 0, 48 or 64 values waiting on the stack (every leaf program meets the inline limits 48/64 and the exactly sized heap buffers); 14 operand-holding forms nested to 26 depths from 1 to 70, alone and in rotation; 14 counts of shared values from 1 to 66 in four liveness patterns; caller-supplied SIMD buffers of five lengths/capacities with 9 program sizes up to 130 and reuse for larger programs; parameter lists with up to 8 names, missing and surplus values, 0-5 rows; user functions expanded at depth; scalar and batch over 4-9 rows; coefficients symbolic integers in [-1000,1000], variables arbitrary reals.", outside="larger programs; branches on values inside one instruction follow the direction of one model point (all directions are followed, with the same bounds checks, in C06 and C07); integer and pointer memory is checked for bounds only, never-written memory is detected for floats."),
 "C07": dict(bounds="the expression families of C06 (all 46+10 functions, special-cased powers, sums, products, exp-1, polynomials, shared subexpressions) evaluated over 5-6 rows, any of the first, middle and last rows (SIMD lane and scalar remainder) arbitrary; six expressions over every row count 0..17 with every row arbitrary; six parameter orders with unused parameters; malformed column sets; coefficients symbolic integers in [-1000,1000].", outside="larger expressions; more than 17 rows; differences of floating-point rounding between the SIMD and scalar exp/ln/pow; undefined rows compare as undefined."),
 "C13": dict(bounds="every ASCII text of 1-3 bytes (each byte symbolic; letters other than x and e only in one position), every pair and triple of nine multi-byte characters with symbolic ASCII bytes between them, and longer texts with 3-4 symbolic bytes in numbers, derivative notation, calls and parentheses; with and without declared names and functions.", outside="longer arbitrary texts; nesting depth that exhausts the stack; numerals of many digits."),
 "C12": dict(bounds="every text of 2-3 bytes over 23 symbols (digits, point, x y e, operators, parentheses, comma, blank) and of 4 bytes over 10-11 symbols per position (thorough: all 23; 5 bytes); templates of three and four operands with every operator, sign, blank or parenthesis in the gaps; numerals of up to four digits with points, underscores and exponents; 24 implicit products, 28 calls, 14 custom functions, 22 split names, all 56 built-in functions, derivative notation with symbolic orders; digits symbolic, variables arbitrary reals.", outside="longer texts; exponents above 64 written as digits; values that overflow; functions given no value by the reader."),
 "C21": dict(bounds="12 operand shapes under 14 node kinds in 3 combinations with every depth and node limit in 0..40 (alone and together) for differentiation and simplification; every subset of three names declared constant in three ways; every combination of three symbol names with two function names in five interfaces; compilation with every subset of {x,y,z,w} in three orders; anonymous and context symbols; coefficients symbolic integers in [-1000,1000]; variables arbitrary reals.", outside="larger expressions; limits above 40; floating-point rounding."),
 "C19": dict(bounds="a three-argument function with all partials registered in four orders over 8x8x4 argument expressions, a two-argument function with either, neither or both partials missing over 8x8, second derivatives through mutually defined functions, 14 expressions with nested, repeated and polynomial calls compiled and simplified with bodies, arities 0..5 called with 0..4 arguments, four contexts related by cloning, overriding and removal; coefficients symbolic integers in [-2,2] ([-1000,1000] in definitions); variables arbitrary reals.", outside="more than three arguments; bodies that call themselves; floating-point rounding."),
 "C11": dict(bounds="12 operand shapes under 14 node kinds in 5 combinations (functions of one and two arguments, powers, quotients, sums stored as polynomials, shared subexpressions), unevaluated derivatives, numbers; coefficients symbolic integers in [-1000,1000]; six sets of excluded variables, visitors that descend everywhere or not into functions.", outside="deeper nesting; the number of nodes a visitor meets inside a polynomial (an existing test fixes that it meets the base once)."),
 "C18": dict(bounds="14 expressions of one to three variables x 8 covariance matrices (default, diagonal and full, numeric and symbolic entries) over 0-3 variables, partial variable lists in other orders, tiny variances, malformed matrices; coefficients symbolic integers in [-2,2] ([-1000,1000] for malformed matrices); variables, standard deviations and symbolic covariances arbitrary reals.", outside="asymmetric symbolic matrices; more than three variables; floating-point rounding."),
 "C17": dict(bounds="18 expression shapes of three to four variables x 8 variable lists (every order, repeated, absent and empty), Jacobians of up to three expressions; coefficients symbolic integers in [-2,2]; variables arbitrary reals.", outside="larger systems; string forms (parsing and display are C12/C14); points where simplification leaves the result undefined; floating-point rounding."),
 "C23": dict(bounds="26 expression shapes (with opaque functions of one and two arguments) differentiated twice and three times along 5 variable lists each, with and without simplification; orders up to 4 for a single opaque function; coefficients symbolic integers in [-1000,1000] ([-2,2] where simplification is on); variables arbitrary reals.", outside="orders above 4; deeper shapes; floating-point rounding."),
 "C16": dict(bounds="every Dual operation and function (19 elementary and 12 special functions, all 19x31 compositions, 16 further unary operations, powi with exponents -8..8, powf/log with constant and variable exponents, 18 binary forms, second derivatives through nested dual numbers); value and derivative parts arbitrary reals.", outside="elliptic_k/elliptic_e (documented as numerical differences); the documented zero derivative of %; floating-point rounding."),
 "C09": dict(flags=["--generic-hash"], bounds="12 operand shapes under 14 node kinds in 4 combinations, full assignment and every proper subset of {x,y,z}, string- and id-keyed maps, with and without evaluators for the opaque functions; all 46+10 built-in functions; the named constants; coefficients symbolic integers in [-1000,1000]; assigned values arbitrary reals.", outside="deeper nesting; unevaluated derivative nodes; floating-point rounding."),
 "C10": dict(bounds="12 operand shapes under 14 node kinds in 4 combinations, 9 replacements (numbers, symbols, sums, quotients, functions, with and without the replaced variable), three mapping functions, folds; coefficients symbolic integers in [-1000,1000]; variables arbitrary reals.", outside="deeper nesting; unevaluated derivative nodes; floating-point rounding."),
 "C04": dict(bounds="every pair of 12 operand shapes under 8 construction forms, triples under + - * / in both groupings, n-ary sums and products of 3-5 operands, seven power-merging forms over 12 bases and 11x11 exponents, folded number powers (bases -9..9, exponents -6..9), 8x8 constants of extreme magnitude in 9 shapes, 29x4 operator overloads and 36x3 builder methods; coefficients symbolic integers in [-1000,1000]; variables arbitrary reals.", outside="larger shapes; floating-point rounding."),
 "C06": dict(bounds="all 46 one-argument and 10 two-argument functions over 10 argument shapes; sums of three and products/quotients/powers of two of 16 operand shapes; 20 special-cased exponents over 5 bases; exp-1, polynomial and shared-subexpression shapes; integer coefficients in [-1000,1000] (exponents [-5,6]); every variable an arbitrary real.", outside="larger shapes; floating-point rounding; paths inside the code's own 1e-14 tolerance windows."),
 "C01": dict(bounds="46 one-argument functions x 4 argument shapes and 6 arithmetic shapes; coefficients symbolic integers in [-1000,1000]; exponents in [-5,6]; variables arbitrary reals.", outside="deeper nesting; floating-point rounding."),
 "C02": dict(bounds="shapes built to reach every rule family (16 generators: all one-argument functions over 10 argument shapes, compositions of 32 elementary functions, multiples of pi, pairs of trigonometric/hyperbolic powers, angle sums, exponential forms, 12x12 exponent pairs over 20 power shapes, exp/log, fractions, factoring, roots and absolute values, all ordered pairs of 16 operands under + - * /); coefficients symbolic integers in [-2,2] (thorough [-6,6]); every variable an arbitrary real.", outside="larger shapes and coefficients; floating-point rounding; points where either side is undefined; principal ranges / positive operands as stated in the property."),
 "C03": dict(bounds="the shapes of C02 under domain_safe(true), every variable an arbitrary real, no principal-range or positivity assumption (a variable exponent is nonzero: 0^0 counts as undefined).", outside="larger shapes and coefficients; floating-point rounding."),
}
NOT_APPLICABLE = {}
