#!/usr/bin/env python3
"""Writes properties.jsonl (the one source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

prop("C01", "Wick expansion equals the operator product on Fock space",
 "For every product of normal-ordered operators (fermions relative to the physical or the Fermi vacuum, bosons relative to the physical vacuum), alone or with tensor factors that sum over its indices, the expression produced by Wick's theorem acts on every occupation-number state exactly as the product itself does. "
 "When only full contractions are requested the result is the vacuum expectation value of the product. "
 "Exploiting operator symmetry to skip equivalent contractions never changes the value, and in full contractions required or forbidden connections between operators keep exactly the contractions that satisfy them (external indices that occur twice are named both to WickTheorem and to the canonicalizer).",
 ["inputs", "configurations"],
 "every operator product (number, rank and particle-number change of the operators, order, index spaces, repeated or dummy indices) and every combination of vacuum, statistics and expansion options",
 "the tests compare a few dozen hand-picked products with stored results or term counts (most Wick tests do not even run in this build); the theorem is about every product, every occupation and every option combination",
 ["SeQuant/core/wick.hpp", "SeQuant/core/wick.impl.hpp", "SeQuant/core/op.hpp", "SeQuant/core/hugenholtz.hpp"],
 [("WickTheorem::compute, recursive_nontopological, contract, uncontract", "SeQuant/core/wick.hpp, wick.impl.hpp"),
  ("NormalOperator, qpcreator/qpannihilator spaces, normalize", "SeQuant/core/op.hpp"),
  ("overlap reduction and index replacement of contracted terms", "SeQuant/core/wick.impl.hpp")],
 observe=["expression returned by WickTheorem::compute"])

prop("C02", "Canonicalization keeps the value and is independent of presentation",
 "Canonicalizing an expression never changes its value, including the sign and scalar prefactor it has for every assignment of its external indices. "
 "With the complete canonicalization method, two presentations of a tensor network with a nonzero value that differ only in the names of contracted indices, the order of commuting factors or of summands, or index-slot permutations allowed by the declared tensor symmetries are brought to the same canonical form, "
 "and canonicalizing an already canonical expression changes nothing (networks of tensors with at most one operator; external indices are told apart by their labels).",
 ["inputs", "configurations"],
 "every product and sum of tensors, every declared slot/column/bra-ket symmetry, every renaming of contracted indices, factor order and permitted slot permutation, every canonicalization method",
 "tests check stored canonical forms of a few networks; the guarantee is over all networks and all members of each equivalence class",
 ["SeQuant/core/expressions/expr.cpp", "SeQuant/core/tensor_network/v1.cpp", "SeQuant/core/tensor_network/v2.cpp", "SeQuant/core/tensor_network/v3.cpp", "SeQuant/core/tensor_canonicalizer.cpp", "SeQuant/core/bliss.hpp"],
 [("TensorNetwork V1/V2/V3 canonicalize, canonicalize_graph, canonicalize_slots", "SeQuant/core/tensor_network"),
  ("Product/Sum canonicalize_impl", "SeQuant/core/expressions/expr.cpp"),
  ("DefaultTensorCanonicalizer, TensorBlockCanonicalizer", "SeQuant/core/tensor_canonicalizer.cpp")],
 observe=["expression after canonicalize()"])

prop("C03", "Expanding, flattening, simplifying and conjugating preserve the value",
 "Expanding, flattening, simplifying (with any options) and multiplying, adding or subtracting expressions give an expression with the value that ordinary algebra prescribes, for all values of tensors and variables and keeping the order of factors that do not commute. "
 "Taking the adjoint conjugates scalars and variables, swaps bra and ket and reverses factor order, and doing it twice restores the value (and a flat expression itself). "
 "Canonicalizing an unexpanded expression keeps its value too (the dummy indices of a nested product then need be distinct only within it). An expanded expression contains no product over a sum, and a flattened one no sum directly inside a sum and no product directly inside a product.",
 ["inputs", "programs"],
 "every expression tree of constants, variables, powers, tensors, operators, products and sums, and every sequence of these rewrites",
 "tests rewrite a few small expressions and compare text; they do not evaluate the result and cannot cover nesting, scalars and repeated subexpressions in combination",
 ["SeQuant/core/expressions/expr_algorithms.cpp", "SeQuant/core/expressions/expr.cpp", "SeQuant/core/expressions/product.hpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/expressions/expr_operators.hpp", "SeQuant/core/expressions/power.hpp"],
 [("expand/flatten/rapid_simplify/simplify/non_canon_simplify", "SeQuant/core/expressions/expr_algorithms.cpp"),
  ("Product::append/prepend/scale, Sum::append/prepend", "SeQuant/core/expressions/product.hpp, sum.hpp"),
  ("ExprPtr operators + - * ^", "SeQuant/core/expressions/expr_operators.hpp")],
 observe=["expression returned by each rewrite"])

prop("C04", "Equality, hash and copies stay right through any mutation history",
 "After any sequence of in-place mutations, two expressions compare equal exactly when their current contents are equal, and equal expressions have equal hash values, so no remembered hash is ever stale. "
 "A clone equals its original when made and is unaffected by later changes of the original, and the other way round. "
 "Scalars and factors or summands of a product or sum after each mutation are exactly those prescribed by the mutations applied so far.",
 ["histories"],
 "every interleaving of construction, appending, prepending, scaling, in-place arithmetic, conjugation, cloning, hashing and comparing on a pool of expression objects",
 "tests mutate fresh objects once or twice; a stale hash needs a hash to be taken between two particular mutations",
 ["SeQuant/core/expressions/expr.hpp", "SeQuant/core/expressions/product.hpp", "SeQuant/core/expressions/sum.hpp", "SeQuant/core/expressions/constant.hpp", "SeQuant/core/expressions/variable.hpp", "SeQuant/core/expressions/power.hpp", "SeQuant/core/expressions/tensor.hpp"],
 [("Expr::hash_value memoization and reset_hash_value", "SeQuant/core/expressions/expr.hpp"),
  ("Product/Sum append, prepend, scale", "SeQuant/core/expressions/product.hpp, sum.hpp"),
  ("clone()", "SeQuant/core/expressions")],
 state=[("hash_value_", "memoized hash", "SeQuant/core/expressions/expr.hpp"), ("scalar_, factors_", "contents of a product", "SeQuant/core/expressions/product.hpp")],
 observe=["operator==, hash_value(), scalar(), factors(), summands() after each step"])

prop("C05", "Text serialization round-trips every serializable expression",
 "Reading back the text written for an expression (or result expression) yields an expression equal to the original: same tensors, labels, index spaces, ordinals and proto-indices, slot order, symmetries, operators and vacuum, scalars and nesting. "
 "Equivalent spellings of the same expression read as the same expression, and text that is not a complete expression of the grammar is rejected with an error instead of being partly read.",
 ["inputs"],
 "every expression built from constants, variables, tensors, normal-ordered operators, products and sums, with every symmetry annotation and optional detail, and every corruption of its text",
 "tests round-trip a short list of literal strings; which combination of nesting, signs, fractions, annotations and index kinds occurs is unbounded",
 ["SeQuant/core/io/serialization/v1/serialize.cpp", "SeQuant/core/io/serialization/v1/deserialize.cpp"],
 [("to_string/serialize", "SeQuant/core/io/serialization/v1/serialize.cpp"), ("grammar and AST conversion", "SeQuant/core/io/serialization/v1")],
 observe=["deserialize(serialize(e)) == e"])

prop("C06", "Spin integration preserves the value of the spin-orbital expression",
 "Integrating out spin gives an expression whose value over spatial orbitals equals the spin-orbital expression summed over all spins of the contracted indices, for the external spins requested, whenever the tensors conserve spin (and, for the closed-shell variants, have spin-independent values). "
 "Expanding antisymmetrized tensors, antisymmetrizers, permutation and symmetrization operators into plain terms likewise preserves the value, with the right sign and multiplicity. "
 "Adding and then removing spin labels restores the expression, and swapping all spin labels twice restores it.",
 ["inputs", "configurations"],
 "every product and sum of antisymmetric tensors, with or without a leading antisymmetrizer, every choice of external index groups and spin case",
 "tests compare a handful of coupled-cluster terms with stored text; the equality is for every term, every spin case and every tensor value",
 ["SeQuant/domain/mbpt/spin.cpp", "SeQuant/domain/mbpt/spin.hpp"],
 [("spintrace, closed_shell_spintrace, open_shell_spintrace", "SeQuant/domain/mbpt/spin.cpp"),
  ("expand_antisymm, expand_A_op, expand_P_op, symmetrize_expr, S_maps", "SeQuant/domain/mbpt/spin.cpp")],
 observe=["expression returned by the spin-tracing functions"])

prop("C07", "Optimized contraction sequences keep the value and have minimal cost",
 "Optimizing an expression for a given assignment of index extents returns an expression with the same value for all tensor values. "
 "The contraction order chosen for a product has a total cost - operations, operand storage or peak storage, as asked for - no larger than that of any other order of contracting its factors pairwise (any that forms no outer product, where these are pruned and can be avoided). "
 "Reordering sums, fusing factors and eliminating common subexpressions never change the value and never turn distinct subexpressions into one.",
 ["inputs", "configurations"],
 "every product of tensors (with outer, inner, hyper- and auxiliary indices), every sum of such products, every assignment of extents and every optimizer option",
 "tests check the chosen order for a few networks with one set of extents; optimality is a statement over all orders and all extents",
 ["SeQuant/core/optimize/optimize.cpp", "SeQuant/core/optimize/single_term.hpp", "SeQuant/core/optimize/single_term_detail.hpp", "SeQuant/core/optimize/cost_model.hpp", "SeQuant/core/optimize/sum.cpp", "SeQuant/core/optimize/fusion.cpp", "SeQuant/core/optimize/common_subexpression_elimination.hpp"],
 [("single-term optimization by dynamic programming over subsets", "SeQuant/core/optimize/single_term_detail.hpp"),
  ("cost functions", "SeQuant/core/optimize/cost_model.hpp"), ("reorder, Fusion, CSE", "SeQuant/core/optimize")],
 observe=["expression returned by optimize(), single_term_opt(), fuse, reorder, CSE"])

prop("C08", "Cached evaluation is exact, computes shared results once and frees them",
 "Evaluating expressions through a cache returns, for every order of evaluations, exactly the values obtained without any cache, and never alters a cached or input value. "
 "A repeated intermediate is computed once per lifetime, stays available until its last expected use and is released right then, while persistent intermediates and inputs survive until reset. "
 "The cache's reported counts (remaining uses, size, live entries) agree with the accesses made so far.",
 ["histories", "programs"],
 "every forest of expressions with shared, transposed, conjugated or sign-flipped intermediates, every order of store/access/reset/evaluate calls and every persistence choice",
 "tests exercise one or two forests with one order of accesses; the numeric evaluation back ends are not available to them in this build",
 ["SeQuant/core/eval/cache_manager.hpp", "SeQuant/core/eval/cache_manager.cpp", "SeQuant/core/eval/eval.hpp", "SeQuant/core/eval/eval_expr.cpp", "SeQuant/core/eval/eval_node.hpp"],
 [("CacheManager access/store/reset and entry life counts", "SeQuant/core/eval/cache_manager.hpp"), ("evaluate / evaluate_core", "SeQuant/core/eval/eval.hpp"), ("EvalExpr canonical labels, phase and permutation", "SeQuant/core/eval/eval_expr.cpp")],
 state=[("entry life", "remaining accesses of a cached result", "SeQuant/core/eval/cache_manager.hpp")],
 observe=["values returned by evaluate(), calls made on the leaf evaluator and on results, CacheManager queries"])

prop("C09", "Exported programs compute the expression and manage memory correctly",
 "The program emitted for an expression or a set of expressions computes exactly its value when executed statement by statement, for every generator. "
 "In every emitted program an object is declared, then created or loaded before it is used, never used after being unloaded or destroyed, never created twice without release in between, and at the end every result is stored and everything else has been released.",
 ["programs", "configurations"],
 "every expression tree or forest given to export (repeated leaves, reused intermediates, scalars, sums, results used by later expressions) and every generator configuration",
 "tests compare emitted text for a few expressions; whether a program is well-formed depends on which tensors repeat where",
 ["SeQuant/core/export/export.hpp", "SeQuant/core/export/context.cpp", "SeQuant/core/export/expression_group.hpp", "SeQuant/core/export/text_generator.hpp", "SeQuant/core/export/itf.hpp", "SeQuant/core/export/julia_tensor_operations.hpp", "SeQuant/core/export/python_einsum.hpp"],
 [("export_expression and GenerationVisitor, load/use counts", "SeQuant/core/export/export.hpp"), ("name allocation for intermediates", "SeQuant/core/export/export.hpp")],
 observe=["sequence of calls on a generator", "emitted text"])

prop("C10", "Scoped default settings are restored exactly, per statistics",
 "At any point the default context for a particle statistics is the one set by the latest live scope or plain assignment, falling back to the any-statistics context. "
 "Inside a scope exactly the contexts it was given are in force; leaving it, in order or by exception, restores exactly the contexts that were in force for every statistics when it was entered. "
 "A context that was cloned does not change with its original, and a shared registry shows changes in all contexts that share it.",
 ["histories", "schedules"],
 "every history of setting, scoped setting with nesting, resetting, cloning and modifying contexts for every statistics",
 "tests make one or two nested scopes; the guarantee is over all nestings and mixtures of plain and scoped assignments",
 ["SeQuant/core/context.hpp", "SeQuant/core/context.cpp", "SeQuant/core/utility/context.hpp"],
 [("implicit context map, set/reset/scoped resetter", "SeQuant/core/utility/context.hpp"), ("Context copy/clone/set", "SeQuant/core/context.cpp")],
 state=[("implicit_context_instance", "current default contexts", "SeQuant/core/utility/context.hpp")],
 observe=["get_default_context(s) after each step"])

prop("C11", "The index-space registry is a consistent algebra of named spaces",
 "After any history of additions, removals and reference-space settings, looking a space up by label or by type finds exactly the spaces currently registered, and no two registered spaces share a label or an attribute. "
 "Union, intersection, complement and inclusion of registered spaces agree with set operations on the base spaces they are made of, and the base spaces, vacuum-, reference-occupied, active and particle/hole spaces reported are those of the current contents. "
 "A rejected operation leaves the registry unchanged.",
 ["histories"],
 "every history of registering base spaces, unions, intersections, removals, renames, vacuum/reference/complete/hole/particle settings, copies and clears, including rejected ones",
 "tests build a few fixed registries and query them once; staleness and rejection effects depend on the order of changes and queries",
 ["SeQuant/core/index_space_registry.hpp", "SeQuant/core/index_space_registry.cpp", "SeQuant/core/space.hpp"],
 [("add/add_union/add_intersection/remove/replace", "SeQuant/core/index_space_registry.hpp"), ("memoized base spaces", "SeQuant/core/index_space_registry.hpp"), ("reference/vacuum/complete/hole/particle space setters and queries", "SeQuant/core/index_space_registry.hpp")],
 state=[("spaces_", "registered spaces", "SeQuant/core/index_space_registry.hpp")],
 observe=["retrieve/contains/base_spaces/... after each step"])

prop("C12", "Operator registry and many-body context behave as set by their history",
 "An operator label is registered at most once and never when it collides with a reserved label; it keeps the class it was registered with until removed, and the list of registered operators is exactly the ones added and not removed. "
 "Copies of a registry or of a many-body context made to be independent never see each other's changes, and scoped many-body contexts are restored exactly when the scope ends.",
 ["histories"],
 "every history of adding, removing, purging, copying and cloning operator registries and of setting, nesting and leaving scoped many-body contexts",
 "tests run one short history of each",
 ["SeQuant/domain/mbpt/op_registry.hpp", "SeQuant/domain/mbpt/op_registry.cpp", "SeQuant/domain/mbpt/context.hpp", "SeQuant/domain/mbpt/context.cpp"],
 [("OpRegistry add/remove/purge/clone", "SeQuant/domain/mbpt/op_registry.hpp"), ("mbpt::Context set/reset", "SeQuant/domain/mbpt/context.cpp")],
 observe=["contains/to_class/ops and get_default_mbpt_context after each step"])

prop("C13", "Orders, equality and hashes of all symbolic objects are consistent",
 "For index spaces, indices, operators, tensors, normal-ordered operators, variables, constants, products and sums, the less-than relation is a strict weak order, objects that compare equal have equal hash values and neither precedes the other, and equality is reflexive, symmetric and transitive. "
 "Comparison distinguishes objects that differ in any user-visible part: label, space, ordinal, proto-indices, slots, symmetries or statistics. (Scratch tags are no part of an index; orders are claimed among indices that all carry one or all lack one.)",
 ["inputs"],
 "every pair and triple of objects from a universe that varies every field",
 "tests compare a few pairs; transitivity and agreement with hashing quantify over all triples",
 ["SeQuant/core/index.hpp", "SeQuant/core/space.hpp", "SeQuant/core/expressions/tensor.hpp", "SeQuant/core/op.hpp", "SeQuant/core/expressions/expr.hpp"],
 [("Index operator<, ==, hash_value, FullLabelCompare/TypeCompare", "SeQuant/core/index.hpp"), ("static_less_than / static_equal of each expression type", "SeQuant/core/expressions")],
 observe=["==, <, hash_value of all pairs"])

prop("C14", "Binary expression trees keep structure and are visited in the declared order",
 "Building a full binary tree from leaves, copying, moving or transforming it preserves the sequence of leaves and the parent-child relation, and a copy shares nothing with its original. "
 "Every visit reports each node exactly once, in pre-, in- or post-order as requested, to the visitors for leaves and internal nodes selected, and skips exactly the subtrees a visitor asked to skip.",
 ["inputs", "histories"],
 "every full binary tree, every visiting order, every set of pruned nodes",
 "tests visit two or three small trees",
 ["SeQuant/core/binary_node.hpp"],
 [("FullBinaryNode construction and visit", "SeQuant/core/binary_node.hpp")],
 observe=["sequence of visited nodes"])

prop("C15", "Fresh indices are unique and substitutions act simultaneously",
 "Temporary indices are never equal to one another, from any thread, nor to a reserved or user-provided index, and an index factory never returns an index its validator rejects or returns the same index twice. "
 "Replacing indices in an expression according to a map acts on all occurrences simultaneously, including inside proto-index lists, touches no other index, and reports exactly whether any index was replaced. "
 "The external, contracted and used indices reported for an expression are those its structure defines.",
 ["inputs", "schedules"],
 "every substitution map (including swaps, chains and identities), every expression, every number of threads drawing fresh indices",
 "tests use single replacements and one thread",
 ["SeQuant/core/index.hpp", "SeQuant/core/index.cpp", "SeQuant/core/utility/indices.hpp", "SeQuant/core/expressions/tensor.hpp"],
 [("Index::make_tmp_index, IndexFactory::make", "SeQuant/core/index.hpp"), ("transform_indices, Index::transform", "SeQuant/core/index.hpp, expressions/tensor.hpp"), ("get_unique_indices, get_used_indices, external_indices", "SeQuant/core/utility/indices.hpp")],
 observe=["returned indices and expressions"])

prop("C16", "Scalars and symbolic costs follow exact arithmetic",
 "Rational and complex rational scalars, integer powers and symbolic powers give exactly the results of field arithmetic, for all magnitudes, and equal numbers have equal hash values and one printed and parsed form. "
 "Symbolic asymptotic costs form a commutative semiring with rational coefficients whose comparison is the growth order, and evaluating a cost is the same as evaluating its terms. "
 "Permutation parity, rank and factorial helpers agree with their mathematical definition.",
 ["inputs"],
 "every sequence of arithmetic operations on scalars and costs, every permutation of small size",
 "tests check a few literals",
 ["SeQuant/core/rational.hpp", "SeQuant/core/complex.hpp", "SeQuant/core/expressions/power.hpp", "SeQuant/core/asy_cost.cpp", "SeQuant/core/asy_cost.hpp", "SeQuant/core/math.hpp", "SeQuant/core/utility/permutation.hpp"],
 [("rational, Complex", "SeQuant/core/rational.hpp, complex.hpp"), ("AsyCost", "SeQuant/core/asy_cost.cpp"), ("permutation parity", "SeQuant/core/utility/permutation.hpp")],
 observe=["results of the operations"])

prop("C17", "Operator-level many-body algebra agrees with the tensor-level operators",
 "The particle-number changes predicted for a product of many-body operators contain every change its tensor-level form can cause, so screening by them never discards a product with a nonzero vacuum or projected expectation value. "
 "Vacuum and reference expectation values of abstract operator expressions equal those of the Fock-space operators they stand for, for every set of connectivity options that cannot change the result. "
 "A similarity transformation expanded to a given rank equals its nested-commutator series.",
 ["inputs", "programs"],
 "every product and sum of Hamiltonian, excitation, de-excitation and general operators of every supported rank, every reference and truncation",
 "tests run a few coupled-cluster and perturbation-theory equations and count terms; the soundness of screening is a statement over all operator products",
 ["SeQuant/domain/mbpt/op.hpp", "SeQuant/domain/mbpt/op.cpp", "SeQuant/domain/mbpt/vac_av.cpp", "SeQuant/domain/mbpt/utils.cpp", "SeQuant/domain/mbpt/models/cc.cpp"],
 [("QuantumNumberChange, combine, raises/lowers predicates", "SeQuant/domain/mbpt/op.hpp, op.cpp"), ("expectation values with screening", "SeQuant/domain/mbpt/vac_av.cpp"), ("lst", "SeQuant/domain/mbpt/utils.cpp")],
 observe=["expressions returned by ref_av/vac_av/lst"])

prop("C18", "Parallel execution gives the sequential result",
 "Wick expansion, canonicalization and simplification give the same expression whatever number of worker threads is used and whichever schedule they follow. "
 "Facilities shared by all threads (values computed once for all, fresh-index counters, single objects, default contexts) behave under concurrent use as if their operations ran one after the other.",
 ["schedules", "configurations"],
 "every number of threads and every interleaving of operations on the shared facilities",
 "tests run with the default number of threads and only compare a few results",
 ["SeQuant/core/runtime.cpp", "SeQuant/core/runtime.hpp", "SeQuant/core/algorithm.hpp", "SeQuant/core/utility/singleton.hpp", "SeQuant/core/index.hpp", "SeQuant/core/context.cpp", "SeQuant/core/wick.impl.hpp"],
 [("parallel for_each and thread-count control", "SeQuant/core/runtime.cpp, runtime.hpp"), ("Singleton", "SeQuant/core/utility/singleton.hpp"), ("mutexes around shared maps", "SeQuant/core/context.cpp, index.hpp, wick.impl.hpp")],
 observe=["results computed with different numbers of threads; histories of concurrent calls"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
