#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in Python so that the long JSON lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

prop("C01", "Differentiation returns the mathematical derivative",
 "For every expression and variable, the expression returned by differentiation denotes the partial derivative of the input with respect to that variable, at every point where the input is differentiable. This covers every node kind, every built-in function in every argument position, nested chain rule, quotients, products of any length and general powers.",
 ["inputs", "programs"], "all expressions built from the node kinds and the built-in functions, all numeric coefficients/exponents, all real points",
 "Tests compare some fixed formulas' printed derivatives or a few numeric points; a wrong sign or factor in a rarely used function, argument position or coefficient case is not sampled.",
 ["src/diff/engine.rs", "src/functions/definitions.rs", "src/core/poly.rs"],
 [("derive_impl (sum/product/quotient/power rules)", "src/diff/engine.rs"), ("per-function derivative closures", "src/functions/definitions.rs"), ("derivative_expr", "src/core/poly.rs")],
 ["Diff::differentiate", "Diff::diff_str", "diff()"])
prop("C02", "Simplification preserves the value of an expression",
 "The simplified expression has the same value as the original at every real point where both are defined, whatever the coefficients, exponents and nesting; outside domain-safe mode, the rules the documentation marks as altering the domain may assume the principal range in asin(sin u), acos(cos u), atan(tan u) and positive operands where even roots or logarithms are combined. Simplification introduces no variable that the input did not contain, never aborts and always terminates.",
 ["inputs", "programs"], "all expressions, all coefficients, all points of the common domain",
 "120+ rewrite rules with numeric side conditions compose; tests sample particular inputs and the repository excludes its random oracle tests because they find discrepancies.",
 ["src/simplification/engine.rs", "src/simplification/rules", "src/simplification/helpers.rs"],
 [("rule engine with priorities, caches and cycle detection", "src/simplification/engine.rs"), ("rewrite rules", "src/simplification/rules")],
 ["Simplify::simplify", "simplify()", "Expr::simplified"])
prop("C03", "Domain-safe simplification keeps the domain",
 "In domain-safe mode, at every real point where the original expression is defined, the simplified expression is defined too and has the same value, including points with negative, zero and boundary arguments of roots, logarithms, absolute values and powers.",
 ["inputs", "configurations"], "all expressions and all real points incl. negative bases, domain_safe = true",
 "Tests check a handful of expressions symbolically; a rule that is only valid for positive arguments needs a particular shape and sign to show.",
 ["src/simplification/engine.rs", "src/simplification/rules"],
 [("alters_domain flag filters rules", "src/simplification/engine.rs")],
 ["Simplify::domain_safe(true).simplify"])
prop("C04", "Smart constructors and operators preserve algebraic value",
 "Building an expression with the operators and constructors (+, -, *, /, pow, sums and products of any arity) yields an expression whose value is the corresponding arithmetic combination of the operands' values, although construction flattens, sorts, merges like terms and turns sums into polynomials.",
 ["inputs", "programs"], "all operand shapes (numbers, symbols, sums, products, polynomials, powers) and all coefficients",
 "Merging and flattening depend on coincidences between operands (equal bases, opposite coefficients, zero/one) that example tests do not enumerate.",
 ["src/core/expr/constructors.rs", "src/core/symbol/operators.rs", "src/core/poly.rs"],
 [("sum/product/div/pow constructors", "src/core/expr/constructors.rs"), ("operator impls", "src/core/symbol/operators.rs")],
 ["Expr operators", "Expr::sum/product/pow_static"])
prop("C05", "Equality, hashing and canonical order are consistent",
 "Equal expressions have equal structural hashes, equality is an equivalence, and the canonical term order is a total order; an expression built from the same terms or factors in any order is equal to, and hashes like, any other.",
 ["inputs", "programs"], "all expression tuples up to the bound, all permutations and groupings, all coefficients",
 "Needs all pairs/triples of shapes and all permutations; tests check a few orders.",
 ["src/core/expr/mod.rs", "src/core/expr/hash.rs", "src/core/expr/ordering.rs", "src/core/expr/constructors.rs"],
 [("PartialEq/Hash for Expr", "src/core/expr/mod.rs"), ("expr_cmp", "src/core/expr/ordering.rs")],
 ["==", "structural_hash", "Ord-like order of printed terms"], "hooks re-export expr_cmp")
prop("C06", "Compiled evaluation equals the mathematical value",
 "A compiled evaluator returns, for every assignment of its parameters, the value the expression denotes, whatever instruction patterns, fusions, constant folding, common-subexpression slots and dead-store elimination the compiler chose; it agrees with the tree-walking evaluation.",
 ["inputs", "programs"], "all expressions covering every compile pattern and function, all parameter values, any parameter order",
 "Optimiser bugs depend on the instruction sequence (which peepholes meet) and are data independent; tests check selected formulas at a few points with a tolerance.",
 ["src/evaluator/compiler.rs", "src/evaluator/mod.rs", "src/evaluator/execution.rs"],
 [("bytecode compiler", "src/evaluator/compiler.rs"), ("peephole/fusion/slot optimisation", "src/evaluator/mod.rs"), ("scalar VM", "src/evaluator/execution.rs")],
 ["CompiledEvaluator::compile/evaluate"])
prop("C07", "Batch (SIMD) evaluation equals scalar evaluation row by row",
 "Batch evaluation over columns gives in every row the same value as scalar evaluation of that row, for every number of rows (full vector chunks and remainders), broadcast columns and every instruction; columns are never mixed up and no row is skipped.",
 ["inputs", "programs"], "all programs covering all instructions, all column lengths up to the bound, all cell values",
 "SIMD and scalar interpreters are two separate 100-opcode implementations plus a remainder path; tests sample opcodes and lengths.",
 ["src/evaluator/simd.rs", "src/evaluator/execution.rs", "src/evaluator/stack.rs"],
 [("exec_simd / remainder path", "src/evaluator/simd.rs")],
 ["CompiledEvaluator::eval_batch"])
prop("C08", "Evaluator memory accesses stay in bounds",
 "For every expression that compiles, scalar and batch execution only touch stack, cache, constant and parameter slots that exist and that were written before, so that no evaluation is undefined behaviour, aborts or reads stale values, including programs near the inline stack and cache limits.",
 ["inputs", "programs"], "all compiled programs up to the bound incl. depth at inline-stack/cache limits",
 "The VM uses unchecked pointer arithmetic justified by a compile-time validation; tests do not go around the limits for all instruction mixes.",
 ["src/evaluator/stack.rs", "src/evaluator/execution.rs", "src/evaluator/simd.rs", "src/evaluator/compiler.rs"],
 [("compile-time stack validation", "src/evaluator/compiler.rs"), ("unchecked stack operations", "src/evaluator/stack.rs")],
 ["CompiledEvaluator::evaluate", "eval_batch"])
prop("C09", "Tree evaluation substitutes values faithfully",
 "Evaluating with a full assignment yields the number that the expression denotes; evaluating with a partial assignment yields an expression over exactly the remaining variables whose value is that of the original under the assignment, with custom function evaluators applied where given.",
 ["inputs", "programs"], "all expressions, all subsets of assigned variables, all values",
 "Partial assignments × node kinds × values are not enumerated by tests.",
 ["src/core/expr/evaluate.rs"], [("evaluate_with_lookup", "src/core/expr/evaluate.rs")],
 ["Expr::evaluate", "evaluate_str"])
prop("C10", "Substitution replaces every free occurrence",
 "Substituting an expression for a variable yields an expression whose value equals the original's value with the variable bound to the replacement's value, in which the variable no longer occurs unless the replacement contains it; generic mapping visits every node.",
 ["inputs", "programs"], "all expressions (incl. polynomial nodes), all replacements",
 "Depends on the internal representation chosen at construction (sum vs polynomial), which tests of simple expressions do not vary.",
 ["src/core/expr/analysis.rs", "src/core/expr/mod.rs"], [("substitute/map", "src/core/expr/analysis.rs")],
 ["Expr::substitute", "Expr::map", "Expr::fold"])
prop("C11", "Structural queries agree with the expression's structure",
 "Variable sets, containment tests, node counts and depths reported for an expression agree with a traversal of its visible structure, and a visitor meets every variable and function exactly where it asks to descend (every node exactly once outside polynomial nodes).",
 ["inputs", "programs"], "all expressions up to the bound",
 "Special node kinds (polynomials, derivatives) have their own code for each query.",
 ["src/core/expr/analysis.rs", "src/core/visitor.rs"], [("contains_var/variables/node_count/max_depth", "src/core/expr/analysis.rs"), ("walk_expr", "src/core/visitor.rs")],
 ["Expr::variables", "contains_var", "node_count", "max_depth", "visitor::walk_expr"])
prop("C12", "Parsed text denotes its standard mathematical reading",
 "Every input string that follows the documented grammar is accepted, and every accepted input string denotes the value given by the documented grammar: precedence (power over unary minus over product/quotient over sum), right-associative power, left-associative minus and division, implicit multiplication, numeric literals and function calls; no part of the input is silently ignored.",
 ["inputs"], "all strings over the token alphabet up to the bound, all variable values",
 "The input space is combinatorial; tests list examples.",
 ["src/parser/lexer.rs", "src/parser/implicit_mul.rs", "src/parser/pratt.rs", "src/parser/mod.rs"],
 [("lexer", "src/parser/lexer.rs"), ("implicit multiplication", "src/parser/implicit_mul.rs"), ("Pratt parser", "src/parser/pratt.rs")],
 ["parse()"])
prop("C13", "The parser is total and its error spans lie in the input",
 "For every input text, parsing returns a result or an error and never panics, overflows or loops; every span attached to an error or used to render it lies on character boundaries within the input.",
 ["inputs"], "all byte strings (valid UTF-8) up to the bound",
 "Random and example tests do not cover all short strings; off-by-one spans need particular positions.",
 ["src/parser", "src/core/error.rs"], [("balance/lex/parse error construction", "src/parser"), ("Span", "src/core/error.rs")],
 ["parse()", "DiffError display"])
prop("C14", "Printed expressions parse back to the same value",
 "Formatting an expression as text and parsing the text yields an expression of the same value at every point, for every nesting of operators, negative and fractional numbers, polynomials and function calls.",
 ["inputs", "programs"], "all expressions up to the bound, all coefficients",
 "Parenthesisation and sign decisions depend on parent/child combinations × signs.",
 ["src/core/display.rs", "src/parser"], [("format_* with precedence decisions", "src/core/display.rs")],
 ["to_string()", "parse()"])
prop("C15", "Polynomial arithmetic is exact ring arithmetic",
 "Adding, subtracting, multiplying, scaling, negating, differentiating and converting polynomials gives the polynomial with the mathematically defined value; division returns quotient and remainder with dividend = quotient*divisor + remainder and smaller degree; a gcd divides both arguments; terms stay sorted, distinct and nonzero.",
 ["inputs"], "all coefficient values and exponents up to the bound",
 "Cancellation patterns (which coefficients vanish) drive the control flow; tests use fixed polynomials.",
 ["src/core/poly.rs"], [("Polynomial operations", "src/core/poly.rs")],
 ["Expr arithmetic", "factoring rules"], "hooks re-export Polynomial")
prop("C16", "Dual numbers carry exact first derivatives",
 "For every supported operation and function, the value part of a dual-number result is the function's value and the derivative part is the exact derivative times the argument's derivative part, at every point of the domain.",
 ["inputs"], "all values and derivative parts, all operations",
 "Each of ~60 functions has a hand-written derivative; tests check points for some.",
 ["src/math/dual.rs"], [("Dual<T> operator and Float impls", "src/math/dual.rs")],
 ["Dual arithmetic and methods"])
prop("C17", "Gradient, Hessian and Jacobian hold the right partials",
 "Entry i of a gradient, (i,j) of a Hessian or Jacobian is the partial derivative with respect to the requested variables in the requested order, with the requested dimensions; Hessians are symmetric in value.",
 ["inputs", "programs"], "all expressions and variable lists (any order, absent variables) up to the bound",
 "Index transpositions only show on asymmetric inputs; tests use a few fixed formulas.",
 ["src/api/helpers.rs"], [("gradient/hessian/jacobian helpers", "src/api/helpers.rs")],
 ["gradient", "hessian", "jacobian", "*_str"])
prop("C18", "Uncertainty propagation follows the covariance formula",
 "The propagated uncertainty squared equals the double sum of partial derivatives times covariances over all variable pairs, for numeric and symbolic covariance matrices including off-diagonal entries; relative uncertainty divides by the absolute value; malformed matrices are rejected.",
 ["inputs"], "all expressions, covariance entries and variable lists up to the bound",
 "Cross terms and zero-skips need particular non-zero patterns.",
 ["src/uncertainty.rs"], [("uncertainty_propagation", "src/uncertainty.rs")],
 ["uncertainty_propagation", "relative_uncertainty", "CovarianceMatrix::new"])
prop("C19", "User-defined functions obey their registered definitions",
 "A user function's partial derivatives enter differentiation through the chain rule in the registered argument positions, its body is what evaluation and compilation compute, arity is enforced, and definitions in one context never affect another.",
 ["inputs", "programs", "configurations"], "all registered bodies/partials, argument expressions and arities up to the bound",
 "Argument-index and nesting combinations are sampled by few tests.",
 ["src/core/unified_context.rs", "src/diff/engine.rs", "src/evaluator/mod.rs", "src/api/builder.rs"],
 [("user function chain rule", "src/diff/engine.rs"), ("body expansion", "src/evaluator/mod.rs")],
 ["Diff::user_fn", "Context::with_function", "CompiledEvaluator::compile"])
prop("C20", "Symbol registry: one name, one symbol, through any history",
 "In any sequence of creating, looking up, removing and clearing symbols, the same live name always yields the same symbol, different names yield different symbols, counts and name lists agree with the history, and contexts stay isolated from each other.",
 ["histories"], "all operation sequences up to the bound",
 "Caches (thread-local) make behaviour history dependent; tests run short fixed sequences.",
 ["src/core/symbol/registry.rs", "src/core/unified_context.rs"],
 [("sharded registry with thread-local caches", "src/core/symbol/registry.rs"), ("Context registry", "src/core/unified_context.rs")],
 ["symb/symb_new/symb_get/remove_symbol/clear_symbols", "Context"])
prop("C21", "Resource limits and name conflicts are enforced",
 "Differentiation and simplification with a depth or node limit fail exactly when the input exceeds the limit; differentiating with respect to a variable declared constant, or with colliding names, is refused; compilation refuses unbound variables and accepts bound ones.",
 ["inputs", "configurations"], "all limits and expressions up to the bound",
 "Off-by-one limits require exact boundary inputs in each API.",
 ["src/api/builder.rs", "src/evaluator/mod.rs", "src/evaluator/compiler.rs"],
 [("limit and conflict checks", "src/api/builder.rs"), ("unbound variable check", "src/evaluator/compiler.rs")],
 ["Diff", "Simplify", "CompiledEvaluator::compile"])
prop("C22", "Numeric functions respect exact domains and identities",
 "Built-in numeric functions return no value (or NaN) outside their domain and a real value inside; orthogonal polynomials of integer order satisfy their defining recurrences exactly; sign/abs/floor/rounding functions follow their definitions at all inputs.",
 ["inputs"], "all real arguments incl. boundary points, orders up to the bound",
 "Boundary and integer-argument cases are individually coded in each function.",
 ["src/functions/definitions.rs", "src/math/polynomials.rs", "src/math/special.rs"],
 [("domain guards", "src/functions/definitions.rs"), ("recurrences", "src/math/polynomials.rs")],
 ["Expr::evaluate", "CompiledEvaluator::evaluate"])
prop("C23", "Repeated derivatives and derivative notation are consistent",
 "Differentiating twice, or in either order of two variables, gives expressions of the same value as the mathematical mixed derivative; symbolic derivatives of unknown functions carry the right variable and order.",
 ["inputs", "programs"], "all expressions up to the bound, both orders of differentiation",
 "Needs pairs of variables and nested application on every node kind.",
 ["src/diff/engine.rs", "src/core/expr/constructors.rs"], [("Derivative node handling", "src/diff/engine.rs")],
 ["Diff::differentiate applied repeatedly"])
prop("C24", "LaTeX and Unicode output denote the same expression",
 "The LaTeX and Unicode renderings of an expression, read with standard mathematical conventions, denote the same value as the expression, with balanced delimiters and correct signs, parentheses, exponents and fractions.",
 ["inputs", "programs"], "all expressions up to the bound, all coefficients",
 "Sign extraction and parenthesisation are duplicated per format and depend on parent/child combinations.",
 ["src/core/display.rs"], [("LaTeX and Unicode formatters", "src/core/display.rs")],
 ["Expr::to_latex", "Expr::to_unicode"])
prop("C25", "Parallel evaluation equals sequential evaluation",
 "Parallel batch evaluation and the parallel multi-expression API return, for every schedule and chunking, exactly the results of sequential evaluation in the same positions.",
 ["schedules", "inputs"], "all thread schedules, all row counts",
 "Tests run one schedule.",
 ["src/bindings/parallel.rs", "src/bindings/eval_f64.rs", "src/evaluator/simd.rs"], [("chunked rayon evaluation", "src/evaluator/simd.rs")],
 ["eval_batch_parallel", "eval_f64", "evaluate_parallel"])
prop("C26", "Transcendental special functions match their definitions",
 "Gamma, zeta, Bessel, elliptic, error, Lambert-W and related functions approximate their mathematical definitions to the documented accuracy on their whole domain.",
 ["inputs"], "all real arguments",
 "Accuracy over a continuum cannot be sampled.",
 ["src/math/special.rs", "src/math/bessel.rs", "src/math/elliptic.rs"], [("series/asymptotic approximations", "src/math")],
 ["Expr::evaluate"])
prop("C27", "Concurrent use of the symbol registry is linearizable",
 "Concurrent symbol creation, lookup and removal from several threads behaves as some sequential order of the operations and cannot deadlock.",
 ["schedules"], "all interleavings",
 "Tests run few schedules.",
 ["src/core/symbol/registry.rs"], [("shard mutexes and id RwLock", "src/core/symbol/registry.rs")],
 ["symb/symb_new/remove_symbol/clear_symbols"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
