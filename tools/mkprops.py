#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Set operations denote exactly the integer points they claim to",
  "For every sequence of set operations (intersection, union, subtraction, complement, Cartesian product, projecting out, inserting, eliminating, fixing, bounding and equating dimensions, dropping constraints, parameter handling), an integer point with given parameter values belongs to the result exactly when the mathematical definition of the operation, applied to membership in the operands, says so. This holds for unbounded, empty, zero-dimensional, strided and existentially quantified operands and for arbitrarily large coefficients.",
  ["inputs", "histories"], "every set expressible with affine constraints, integer divisions and existential variables, and every sequence of operations applied to it",
  "isl_test compares a few dozen fixed inputs with fixed outputs (mostly with the library's own equality test); the operand space and the internal representation an operand has after earlier operations are unbounded.",
  ["isl_map.c", "isl_map_simplify.c", "isl_map_subtract.c", "isl_equalities.c", "isl_set_list.c"],
  [("constraint-level implementation of each operation", "isl_map.c"), ("set difference by enumeration of constraint complements", "isl_map_subtract.c"),
   ("Gaussian elimination and integer-division normalisation", "isl_map_simplify.c"), ("parameter compression / preimages of equalities", "isl_equalities.c")],
  ["constraint matrices of the result evaluated at points", "isl_set_* API"])

p("C02", "Relation operations have the semantics of binary relations",
  "For every pair of relations, the results of composing, applying to a set, inverting, taking domains, ranges, products, differences between images and sources, wrapping and unwrapping nested tuples, currying, flattening, reordering tuples and taking preimages or images under functions contain exactly the pairs the relational definition prescribes, in the space the documentation prescribes. Lexicographic-order relations between elements contain exactly the ordered pairs.",
  ["inputs", "histories"], "every pair of relations between integer tuples, including nested tuples, unbounded and strided ones",
  "unit tests fix a handful of relations; correctness is over all pairs of relations and all representations they may have",
  ["isl_map.c", "isl_space.c", "isl_reordering.c", "isl_map_simplify.c", "isl_local_space.c"],
  [("relational operators", "isl_map.c"), ("tuple manipulation", "isl_space.c")],
  ["isl_map_* API, extracted constraints and tuple structure"])

p("C03", "Yes/no questions about sets and relations are answered correctly",
  "Emptiness, subset, strict subset, equality, disjointness, single-valuedness, injectivity, bijectivity, boundedness, universality, identity/translation and membership of a fixed value are answered true exactly when they hold of the integer points denoted. The syntactic (plain) variants may miss a true answer but never claim something false.",
  ["inputs"], "every (pair of) set(s) or relation(s)",
  "a wrong answer only shows for operands for which a particular algorithmic shortcut (bounds, sampling, gcd, reduced basis, matching local variables) is wrong; the tests try a few fixed operands",
  ["isl_map.c", "isl_map_subtract.c", "isl_sample.c", "isl_tab.c", "isl_affine_hull.c", "isl_convex_hull.c"],
  [("emptiness through integer sampling with generalised basis reduction", "isl_sample.c"), ("subset by subtraction", "isl_map_subtract.c"), ("simplex tableau", "isl_tab.c")],
  ["isl_set_is_*, isl_map_is_*, isl_*_plain_* return values"])

p("C04", "Simplification never changes the meaning of a set or relation",
  "Coalescing, detecting equalities, removing redundancies, computing explicit integer divisions, aligning divisions, and making the pieces disjoint return a description of exactly the same integer points. Simplification with respect to a context agrees with the original on every point of the context, and operations documented to drop or approximate integer divisions or unknown local variables only ever over-approximate (or under-approximate, where so documented).",
  ["inputs", "histories"], "every set or relation and every context, in every representation reachable through earlier operations",
  "coalescing and gist consist of many special cases (adjacent, overlapping, wrapped, strided, cut-off pieces); tests try known past bugs, not the space of piece configurations",
  ["isl_coalesce.c", "isl_map_simplify.c", "isl_affine_hull.c", "isl_tab.c", "isl_map.c", "isl_morph.c"],
  [("pairwise coalescing of basic maps", "isl_coalesce.c"), ("gist, redundancy elimination, div elimination", "isl_map_simplify.c"), ("implicit equality detection", "isl_affine_hull.c")],
  ["membership before/after"])

p("C05", "Hull operations enclose their argument and are as tight as documented",
  "Affine, convex, polyhedral, simple, unshifted, plain and list-restricted hulls contain every point of their argument and are a single convex description where documented. The affine hull is the smallest integer affine subspace containing the argument, the convex hull of a bounded union of integral polyhedra without existential variables is the exact convex hull of its pieces, and the simple hulls only use (translates of) constraints of the argument.",
  ["inputs"], "every set or relation",
  "hulls are computed by elaborate wrapping / Fourier-Motzkin / relaxation algorithms with many degenerate cases (lower-dimensional, unbounded, empty, strided) that fixed examples do not enumerate",
  ["isl_convex_hull.c", "isl_affine_hull.c", "isl_map.c", "isl_farkas.c"],
  [("wrapping and projection based convex hull", "isl_convex_hull.c"), ("affine hull by sampling", "isl_affine_hull.c")],
  ["hull membership, comparison with independently computed hull"])

p("C06", "Lexicographic optimisation returns the exact lexicographic extremum",
  "For every relation and every domain element (and parameter value), the lexicographic minimum/maximum pairs the element with exactly the lexicographically smallest/largest element of its image, and reports exactly the elements without image as the empty part in the partial variants. The set, relation, piecewise-function and (piecewise) multi-affine variants all agree.",
  ["inputs"], "every relation whose images have a lexicographic extremum, and every domain",
  "parametric integer programming branches over sign conditions, cuts and new integer divisions; the PIP tests run 18 fixed systems",
  ["isl_tab_pip.c", "isl_tab.c", "isl_tab_lexopt_templ.c", "isl_map_lexopt_templ.c", "isl_pw_union_opt.c", "isl_map.c"],
  [("parametric integer programming", "isl_tab_pip.c"), ("symmetry detection / constant-objective splitting", "isl_tab_pip.c")],
  ["isl_map_lexmin/lexmax, isl_*_partial_lex*, isl_*_lexmin_pw_multi_aff"])

p("C07", "Optimisation, bounds and sampling are exact and their witnesses valid",
  "The minimum/maximum of an affine objective over a set (integer or rational), the per-dimension minimum and maximum functions, and the status empty/unbounded/optimal are exact: the bound holds for every point and is attained (or approached as documented). A sampled point always lies in the set, and no point is returned only if the set is empty.",
  ["inputs"], "every set and every affine objective",
  "exactness depends on the simplex tableau, rounding and basis reduction for every shape of set; tests have a few dozen fixed ILP problems",
  ["isl_ilp.c", "isl_lp.c", "isl_sample.c", "basis_reduction_tab.c", "basis_reduction_templ.c", "isl_tab.c", "isl_ilp_opt_fn_val_templ.c", "isl_opt_mpa_templ.c"],
  [("branch and bound with reduced basis", "isl_ilp.c"), ("integer sampling", "isl_sample.c")],
  ["isl_set_min_val, isl_set_dim_min_val, isl_basic_set_max_lp_val, isl_set_sample_point, isl_set_dim_min, isl_set_min_multi_pw_aff"])

p("C08", "Enumerating a set visits each integer point exactly once",
  "Scanning a bounded set visits every integer point of the set exactly once and no other point, stops when the callback asks for it, and counting agrees with the number of points. A box of given size around points, and conversions between points, singleton sets and vectors, are exact.",
  ["inputs"], "every bounded set",
  "pieces may overlap, be strided or lower-dimensional; the tests do not scan generated sets",
  ["isl_scan.c", "isl_point.c", "isl_map.c", "isl_tab.c"],
  [("scan by reduced basis", "isl_scan.c"), ("point operations", "isl_point.c")],
  ["isl_set_foreach_point, isl_set_count_val, isl_point_*"])

p("C09", "Piecewise quasi-affine expressions evaluate exactly through every operation",
  "For every piecewise quasi-affine expression and every sequence of operations on it (sum, difference, product/quotient by constants, floor, ceiling, modulo, truncated division and remainder, minimum, maximum, conditional, restriction of domain, simplification, substitution, coalescing), the value at every integer point of its domain equals the rational arithmetic value, and the domain is exactly the set of points where all operands are defined. Comparison sets (>=, =, <, nonzero, ...) contain exactly the points where the comparison holds.",
  ["inputs", "histories"], "every quasi-affine expression over parameters and set dimensions, and every sequence of operations",
  "test cases evaluate a few expressions; simplifications of nested floors/mods depend on coefficients and the domain in ways that fixed cases do not cover",
  ["isl_aff.c", "isl_pw_templ.c", "isl_local_space.c", "isl_pw_union_opt.c", "isl_local.c", "isl_aff_map.c"],
  [("affine expression arithmetic and integer-division normalisation", "isl_aff.c"), ("piecewise combination", "isl_pw_templ.c")],
  ["isl_aff_eval, isl_pw_aff_eval, extracted coefficients, domains"])

p("C10", "Multi-dimensional piecewise functions and relations convert consistently",
  "Tuples of (piecewise) affine functions applied to points behave as functions through addition, composition (pullback), products, range manipulation, domain intersection, union of functions, simplification and binding of identifiers, with exactly the documented domain. Converting between functions and single-valued relations preserves the graph exactly.",
  ["inputs", "histories"], "every piecewise multi-affine function, including zero-dimensional ones with explicit domains",
  "function types are combined through templates with alignment, explicit domains and zero-dimensional special cases; tests fix some textual inputs",
  ["isl_aff.c", "isl_multi_templ.c", "isl_pw_templ.c", "isl_aff_map.c", "isl_multi_explicit_domain.c", "isl_multi_apply_templ.c", "isl_pw_pullback_templ.c", "isl_multi_pw_aff_explicit_domain.c", "isl_map.c"],
  [("conversion between relations and functions", "isl_aff_map.c, isl_map.c"), ("multi-expression templates", "isl_multi_templ.c")],
  ["isl_pw_multi_aff_*, isl_multi_pw_aff_*, isl_multi_aff_*"])

p("C11", "Union objects behave as one object per tuple space",
  "An operation on a union of sets, relations or (multi-dimensional) functions living in different spaces yields, for every tuple space, exactly the result of the corresponding operation restricted to that space: elements of different spaces never interact except where the operation (product, composition, ...) says so, and no space is lost, duplicated or merged. Extraction, iteration and the list of components enumerate each non-empty component exactly once.",
  ["inputs", "histories"], "every union of sets/relations/functions over several named and anonymous spaces",
  "unions are hash tables keyed on spaces; which components meet depends on tuple identifiers and dimensions, of which tests sample a few",
  ["isl_union_map.c", "isl_union_templ.c", "isl_union_pw_templ.c", "isl_union_multi.c", "isl_union_single.c", "isl_hash.c", "isl_union_eval.c", "isl_aff.c"],
  [("hash table of per-space maps", "isl_union_map.c"), ("binary operators over matching pairs", "isl_union_map.c, isl_union_templ.c")],
  ["isl_union_set_*, isl_union_map_*, isl_union_pw_*"])

p("C12", "Piecewise quasi-polynomials evaluate exactly through every operation",
  "For every piecewise quasi-polynomial and every sequence of operations (sum, difference, product, power, scaling, substitution, evaluation, domain restriction, moving/dropping/splitting dimensions, simplification, coalescing), the value at every integer point equals the exact rational value given by the definition. Terms enumerated from an expression sum to the expression.",
  ["inputs", "histories"], "every quasi-polynomial with rational coefficients and nested integer divisions",
  "recursive polynomial representation with shared divs; tests check a few sums/products against fixed results",
  ["isl_polynomial.c", "isl_pw_templ.c", "isl_pw_eval.c", "isl_union_eval.c"],
  [("recursive polynomials over parameters, variables and integer divisions", "isl_polynomial.c")],
  ["isl_pw_qpolynomial_eval and extracted terms"])

p("C13", "Bounds and folds of quasi-polynomials are true bounds",
  "The upper/lower bound computed for a piecewise quasi-polynomial over its domain is at least/at most the value at every integer point, with either bounding method; whenever the bound is reported as tight it is attained, and reductions (max/min) over lists of polynomials evaluate to the extremum of their members. Maxima/minima operations on such reductions evaluate pointwise.",
  ["inputs"], "every piecewise quasi-polynomial over a bounded domain, with parameters",
  "bound_test runs 25 fixed polynomials; correctness depends on triangulation of parametric vertices and range propagation",
  ["isl_bound.c", "isl_bernstein.c", "isl_range.c", "isl_fold.c", "isl_vertices.c", "isl_pw_union_opt.c"],
  [("Bernstein expansion over chambers", "isl_bernstein.c"), ("range propagation", "isl_range.c"), ("fold of polynomials", "isl_fold.c")],
  ["isl_pw_qpolynomial_bound, isl_pw_qpolynomial_fold_eval"])

p("C14", "Text output denotes the object and reads back as the same object",
  "For every object, its textual form denotes, under the documented notation, exactly the object it was printed from, and reading it back yields an equal object in the same space; reading a text written in the documented notation yields exactly the object the notation denotes. This covers sets, relations, their unions, (piecewise, multi, union) affine expressions, quasi-polynomials, values, points, vectors/lists, identifiers, schedules and YAML forms.",
  ["inputs"], "every object of every printable type, every spelling of the notation",
  "check_reparse tests a few dozen strings; names, nesting, div printing, piece ordering and parameter handling combine without bound",
  ["isl_input.c", "isl_output.c", "isl_stream.c", "isl_printer.c", "isl_obj.c", "isl_list_read_templ.c", "isl_multi_read_no_explicit_domain_templ.c"],
  [("recursive-descent reader", "isl_input.c"), ("printer", "isl_output.c")],
  ["printed text, parsed by an independent reader, and re-read object"])

p("C15", "Arbitrary text is either rejected cleanly or read as a valid object",
  "Given any byte string, each reader terminates and either returns a valid object or reports an error; it never crashes, reads or writes out of bounds, leaks memory or leaves the context unusable. A text the reader accepts yields an object that can be printed and re-read as an equal object.",
  ["inputs"], "every byte string, for every readable object type",
  "the tests reject a few hand-written malformed strings; the space of byte strings is unbounded",
  ["isl_input.c", "isl_stream.c", "isl_schedule_read.c", "isl_val.c", "isl_obj.c", "isl_yaml.h", "read_in_string_templ.c"],
  [("tokeniser", "isl_stream.c"), ("reader error paths", "isl_input.c")],
  ["isl_*_read_from_str return values under AddressSanitizer/UBSan and an allocation census"])

p("C16", "Extended rational values follow exact arithmetic",
  "Every operation on values (addition, subtraction, multiplication, division, negation, inverse, absolute value, minimum, maximum, floor, ceiling, truncation, modulo, gcd, extended gcd, powers of two, comparisons, conversions from and to integers, strings, doubles and raw chunks) returns the exact rational result, normalised, with infinities and not-a-number propagated as documented.",
  ["inputs"], "all rationals of arbitrary size, both infinities and NaN",
  "tests check a table of a few dozen operand pairs",
  ["isl_val.c", "isl_val_gmp.c", "isl_int.h", "isl_int_gmp.h", "isl_gmp.c"],
  [("value arithmetic", "isl_val.c")], ["isl_val_* API"])

p("C17", "Integer matrix and vector operations satisfy their defining equations",
  "Hermite forms, unimodular completions and extensions, kernels, inverses, ranks, determinants, row-basis extension, linear-independence tests, products, transposes, concatenations and row/column edits of integer matrices and vectors satisfy their defining algebraic equations exactly for every matrix, including singular, empty and large-entry ones.",
  ["inputs"], "every integer matrix/vector",
  "a handful of matrices is tested",
  ["isl_mat.c", "isl_vec.c", "isl_seq.c"],
  [("matrix algorithms", "isl_mat.c"), ("vector sequences", "isl_seq.c, isl_vec.c")], ["isl_mat_*, isl_vec_*"])

p("C18", "Transitive closures and powers over-approximate, exactly when they say so",
  "The (reflexive) transitive closure, reaching path lengths, positive powers and fixed powers of a relation contain every pair reachable by the corresponding number of steps. Whenever the result is reported exact it contains no other pair; fixed powers are exact.",
  ["inputs"], "every relation on a tuple space, and every union relation",
  "closure works by decomposition and heuristics whose exactness flags are only tested on some published examples",
  ["isl_transitive_closure.c", "isl_power_templ.c", "isl_tarjan.c"],
  [("closure by Floyd-Warshall over components and projected paths", "isl_transitive_closure.c")],
  ["isl_map_transitive_closure, isl_map_power, isl_map_fixed_power_val, isl_map_reaching_path_lengths, isl_union_map_*"])

p("C19", "Parametric vertex enumeration is complete and correct",
  "For every parameter value, the vertices reported active are exactly the rational vertices of the polyhedron at that value, each given by a function evaluating to that vertex; the chambers are full-dimensional-disjoint and together cover exactly the parameter values for which the polyhedron is non-empty. The disjoint-cell and single-cell iterations report each vertex and cell with the right activity domain.",
  ["inputs"], "every parametric polyhedron",
  "tests check the number of vertices of a few polytopes",
  ["isl_vertices.c", "isl_tab.c"],
  [("backtracking enumeration of bases and chamber decomposition", "isl_vertices.c")], ["isl_basic_set_compute_vertices, isl_vertices_foreach_*"])

p("C20", "Dual descriptions describe exactly the valid constraints",
  "The set of coefficients computed for a set contains exactly the coefficient tuples of affine constraints valid over the set's rational points, and solving back from coefficients yields exactly the points satisfying all these constraints (the closure of the rational hull). The same holds for lists and for relations.",
  ["inputs"], "every basic set or relation without integer divisions",
  "few fixed examples",
  ["isl_farkas.c", "isl_map.c", "isl_convex_hull.c"],
  [("Farkas lemma", "isl_farkas.c")], ["isl_basic_set_coefficients, isl_basic_set_solutions, isl_basic_set_list_coefficients"])

p("C21", "Dependence analysis finds exactly the last writers of each read",
  "For any program given by its sinks, must-sources, may-sources, kills and a schedule, the must-dependences relate each read element to exactly the last definite write before it when nothing intervenes, the may-dependences contain every potential last source, and the no-source results are exactly the reads without a definite (possible) earlier source. The union, array-level and schedule-tree interfaces agree.",
  ["inputs", "programs"], "every set of access relations and every schedule (relation or tree)",
  "36 fixed flow inputs, compared against stored outputs",
  ["isl_flow.c", "flow.c", "isl_schedule_node.c"],
  [("value-based dataflow by lexicographic maximisation per level", "isl_flow.c")],
  ["isl_union_access_info_compute_flow, isl_union_flow_get_*, isl_access_info_compute_flow, isl_union_map_compute_flow"])

p("C22", "Computed schedules respect every validity constraint",
  "For every domain, validity, conditional-validity, coincidence and proximity relation and every scheduler option, a computed schedule assigns an execution time to every domain element and orders the source of each validity dependence before its sink; members marked coincident have zero distance along all coincidence dependences not satisfied at outer levels, bands marked permutable admit every permutation, and conditional-validity requirements hold wherever their condition is not local.",
  ["programs", "configurations"], "every set of schedule constraints and all scheduler options",
  "19 fixed schedule inputs plus some regression cases",
  ["isl_scheduler.c", "isl_scheduler_scc.c", "isl_scheduler_clustering.c", "isl_schedule_constraints.c", "isl_tarjan.c", "isl_schedule_band.c"],
  [("Pluto-like/Feautrier ILP scheduling with Farkas coefficients", "isl_scheduler.c"), ("SCC clustering", "isl_scheduler_clustering.c")],
  ["isl_schedule_constraints_compute_schedule, resulting schedule tree and map"])

p("C23", "Schedule-tree transformations keep domain and documented execution order",
  "Every schedule-tree manipulation (inserting, deleting, splitting, tiling, scaling, shifting, sinking, grouping, grafting, reordering, gist, pullback, resetting identifiers) keeps exactly the same domain elements and changes their execution order exactly as documented; the flattened schedule relation, prefix schedules, filters and universe domains reported at each node agree with the tree. Writing a schedule tree as text and reading it back yields an equal tree.",
  ["programs", "histories"], "every schedule tree and every sequence of manipulations at any node",
  "tests apply a few manipulations to fixed trees",
  ["isl_schedule_node.c", "isl_schedule_tree.c", "isl_schedule_band.c", "isl_schedule.c", "isl_schedule_read.c"],
  [("tree manipulation", "isl_schedule_node.c, isl_schedule_tree.c"), ("band tiling, scaling", "isl_schedule_band.c")],
  ["isl_schedule_get_map, isl_schedule_node_get_*"])

p("C24", "Generated code executes each scheduled instance once, in order",
  "For every schedule (relation or tree, including bands, sequences, sets, filters, guards, extensions, marks and contexts), every AST generation option (separate, atomic, unroll, isolate, unroll/separation classes, and the global options) and every parameter value allowed by the context, interpreting the generated AST executes exactly the scheduled domain instances, each exactly once, in an order compatible with the schedule.",
  ["programs", "configurations"], "every schedule, option setting and parameter value allowed by the context",
  "345 fixed inputs are compared as text (and not executed) ; the space of schedules, options and parameter values is unbounded",
  ["isl_ast_codegen.c", "isl_ast_graft.c", "isl_ast_build.c", "isl_ast_build_expr.c", "isl_ast.c", "isl_set_to_ast_graft_list.c"],
  [("loop generation per schedule dimension", "isl_ast_codegen.c"), ("guard hoisting", "isl_ast_graft.c"), ("expression generation", "isl_ast_build_expr.c")],
  ["isl_ast_build_node_from_schedule(_map): interpreted AST"])

p("C25", "Generated expressions and their printed forms compute the right value",
  "An AST expression or condition generated from a (piecewise, multi) affine function or a set evaluates, for every point allowed by the build's context, to the function value or to set membership, without dividing by zero or relying on the sign of a remainder of a possibly negative operand where not allowed. Expressions assembled by hand and the printed C text evaluate to the same value as the expression tree.",
  ["inputs", "configurations"], "every quasi-affine function/set, context and expression option",
  "a few fixed expressions",
  ["isl_ast_build_expr.c", "isl_ast.c", "isl_ast_build.c"],
  [("modulo/division extraction, min/max detection", "isl_ast_build_expr.c"), ("operator printing with precedence", "isl_ast.c")],
  ["isl_ast_build_expr_from_*, isl_ast_expr_to_C_str"])

p("C26", "Operations never change the objects they do not own",
  "An object the caller still holds (a kept argument, or another copy of an argument that was given away) has exactly the same printed form, value and space after any operation as before it, whichever copies are modified and in whatever order they are released. Results do not depend on whether an operation received the only copy of its argument or one of several.",
  ["histories"], "every sequence of operations over shared copies",
  "copy-on-write errors only show when a shared object is modified in place and the other copy is inspected afterwards; tests rarely keep a second copy",
  ["isl_map.c", "isl_aff.c", "isl_ctx.c", "isl_list_templ.c", "isl_polynomial.c", "isl_schedule_tree.c", "isl_space.c", "include/isl/hmap_templ.c", "isl_mat.c", "isl_union_map.c", "isl_pw_templ.c", "isl_multi_templ.c"],
  [("reference counts and cow before modification", "all object types")], ["printed form of held copies, sole-owner vs shared results"])

p("C27", "Interrupted computations fail cleanly and leave everything usable",
  "If a computation is cut off at any point by the operation limit or an abort request, the call reports failure, the context's last error says so, no held object is changed, nothing is leaked or freed twice, and after lifting the limit the same call on the same objects gives the same result as if never interrupted. Invalid arguments are reported as errors in the same clean way.",
  ["fault_sequences", "histories"], "every operation on every input, interrupted at every allocation/operation count",
  "error paths are hardly executed by the tests; there are as many interruption points as allocations",
  ["isl_ctx.c", "isl_tab.c", "isl_map.c", "isl_aff.c", "isl_union_map.c", "isl_schedule_node.c", "isl_tab_pip.c"],
  [("per-allocation operation counter", "isl_ctx.c"), ("error paths releasing taken arguments", "everywhere")], ["NULL results, isl_ctx_last_error, allocation census, re-execution"])

p("C28", "No sequence of valid calls corrupts or leaks memory",
  "Any sequence of valid library calls on any objects runs without out-of-bounds access, use after free, double free, undefined arithmetic, or failing internal assertion, and once every object has been released the context can be freed and no memory remains allocated.",
  ["histories", "inputs"], "every sequence of calls",
  "the tests are not run under sanitizers and only cover fixed sequences",
  ["isl_map.c", "isl_tab.c", "isl_blk.c", "isl_ctx.c", "isl_mat.c", "isl_polynomial.c", "isl_ast_codegen.c"],
  [("reference counting discipline", "everywhere"), ("block cache", "isl_blk.c")], ["AddressSanitizer, UBSan, allocation census at context release"])

p("C29", "Identifiers, lists and dictionaries behave as values",
  "Identifiers with the same name and user pointer are the same identifier and different ones never compare equal, and a user-free callback runs exactly once when the last reference goes. Lists behave as sequences under adding, inserting, removing, swapping, replacing, concatenating, sorting and mapping; ordering elements by strongly connected components visits every element once in a topological order; associative arrays behave as finite maps.",
  ["histories"], "every sequence of container operations",
  "tests run one fixed sequence per container",
  ["isl_id.c", "isl_list_templ.c", "include/isl/hmap_templ.c", "isl_hash.c", "isl_id_to_id.c", "isl_id_to_pw_aff.c", "isl_id_to_ast_expr.c", "isl_map_to_basic_set.c", "isl_sort.c", "isl_tarjan.c"],
  [("hash-consed identifiers", "isl_id.c"), ("hash maps", "include/isl/hmap_templ.c, isl_hash.c"), ("list templates", "isl_list_templ.c")], ["isl_id_*, isl_*_list_*, isl_id_to_*"])

p("C30", "Parameter order and tuple structure are handled consistently",
  "The outcome of any operation on objects with different parameter lists denotes the same as if all objects had been given the same parameters in the same order beforehand; reordering or renaming parameters and identifiers renames the result and nothing else. The space of a result is exactly the one obtained by applying the corresponding space operation, and space comparison is an equivalence compatible with it.",
  ["inputs", "histories"], "every combination of parameter lists and tuple structures",
  "alignment happens on almost every binary operation; tests use a single parameter order almost everywhere",
  ["isl_space.c", "isl_reordering.c", "isl_align_params_bin_templ.c", "isl_align_params_templ.c", "isl_multi_align_templ.c", "isl_map.c", "isl_local_space.c"],
  [("parameter alignment by reordering", "isl_reordering.c, isl_align_params*"), ("space algebra", "isl_space.c")], ["spaces and membership under permuted parameters"])

p("C31", "Language bindings compute the same results as the C library",
  "Every operation exposed in the generated C++ and Python bindings returns, for every input, an object equal to the one returned by the underlying library function, keeps its arguments usable, releases everything it allocated, and turns library errors into exceptions (or null results in the checked C++ interface) without leaking.",
  ["inputs", "histories"], "every exported function and every argument",
  "the binding tests call a few functions each",
  ["interface/generator.cc", "interface/python.cc", "interface/plain_cpp.cc", "interface/cpp.cc", "interface/cpp_conversion.cc", "interface/extract_interface.cc", "interface/template_cpp.cc"],
  [("code generation from annotated headers", "interface/*.cc")], ["generated isl.py / cpp.h / cpp-checked.h vs C API"])

p("C32", "Options select algorithms, not answers",
  "Choosing a different algorithm through the library's options (basis reduction policy, parametric-programming context, symmetry detection, convex hull method, closure method for exact results, coalescing policies, bounding method) never changes the set of points, function values or yes/no answers computed; only documented precision differences are allowed.",
  ["inputs", "configurations"], "every input and option combination",
  "tests run under the default options with few exceptions",
  ["isl_options.c", "isl_sample.c", "isl_tab_pip.c", "isl_convex_hull.c", "isl_coalesce.c", "isl_transitive_closure.c", "isl_ilp.c", "basis_reduction_templ.c"],
  [("option dispatch", "isl_options.c and users")], ["results under generated option sets compared pointwise with the default"])

p("C33", "Distinct contexts can be used from distinct threads",
  "Threads that each use their own context and objects never interfere: every thread computes exactly what it computes when running alone, and no unsynchronised memory is shared between them.",
  ["schedules", "histories"], "every workload and interleaving of threads owning separate contexts",
  "no test uses threads",
  ["isl_ctx.c", "isl_options.c", "isl_arg.c", "isl_blk.c", "isl_hash.c", "isl_printer.c"],
  [("no mutable global state; everything hangs off the context", "isl_ctx.c, isl_options.c")], ["ThreadSanitizer reports; per-thread output digests vs sequential run"])

p("C34", "Command-line options are parsed as declared",
  "For every option declaration table and argument vector, each recognised option (short, long, prefixed, negated, with joined or separate argument, choice, flag set, list, nested table) sets exactly its field to the given value, everything else keeps its default, unrecognised arguments are kept or rejected as requested, positional arguments are assigned in order, and all allocated option storage can be released.",
  ["inputs", "configurations"], "every argument vector over every declared option table",
  "there is no test of option parsing",
  ["isl_arg.c", "include/isl/arg.h", "isl_options.c"],
  [("table-driven parser", "isl_arg.c")], ["isl_args_parse results and fields"])

p("C35", "Box, stride, lattice and bound summaries are valid and as tight as stated",
  "Reported fixed-size boxes contain every image element and have the stated size, reported strides and offsets hold for every element and are maximal where documented, reported lattice tiles and equal/constant-difference facts hold, and constant-value, equality and bound queries on dimensions (plain or not) are true of every element and found whenever documented to be found.",
  ["inputs"], "every set and relation",
  "a few fixed relations are tested",
  ["isl_box.c", "isl_stride.c", "isl_map.c", "isl_map_bound_templ.c", "isl_aff.c", "isl_constraint.c"],
  [("simple fixed box hull", "isl_box.c"), ("stride detection", "isl_stride.c"), ("queries", "isl_map.c")], ["isl_map_get_range_simple_fixed_box_hull, isl_set_get_stride_info, ..."])

p("C36", "The command-line tools report what the library computes",
  "Fed with a problem in their documented input format, the stand-alone tools (parametric integer programming, polyhedron minimisation, sampling, scanning, closure, redundancy/equality detection, bounds, scheduling, dependence analysis, code generation, conversion between textual formats) print a result that denotes the solution of the given problem.",
  ["inputs", "configurations"], "every well-formed problem file and option set",
  "tools are run on fixed inputs and mostly only for exit status or a textual diff",
  ["pip.c", "cat.c", "closure.c", "bound.c", "polyhedron_minimize.c", "polyhedron_sample.c", "polytope_scan.c", "polyhedron_detect_equalities.c", "polyhedron_remove_redundant_equalities.c", "schedule.c", "schedule_cmp.c", "flow.c", "flow_cmp.c", "codegen.c", "isl_input.c", "isl_output.c"],
  [("tool mains and PolyLib input/output", "*.c at top level, isl_input.c, isl_output.c")], ["stdout of the tools"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
