EV = ["slinky/runtime/evaluate.cc", "slinky/runtime/evaluate.h"]
_T = "Tests run a limited set of pipelines"

prop("C05", "Concurrent work started by a statement ends before the statement does",
     """Every task the interpreter starts for a parallel loop or an asynchronous statement has finished before evaluating that
     statement returns, also when something fails. Concurrent iterations do not write shared interpreter state without
     synchronization: each worker uses its own copy of the bindings, and while a task may be running its starter neither
     changes bindings nor reads results the task uses.""",
     ["schedules", "programs", "fault_sequences"], "every pipeline with parallel loops or async statements, every interleaving and every failure point",
     _T + "; a task outliving its frame or a racing context is visible only under unlucky timing and on failure paths.",
     EV + TP, [("parallel_for, enqueue and wait_for calls", "evaluate.cc: eval_loop_parallel, eval(const async*)"),
               ("per-worker copies of loop bodies", "thread_pool_impl.cc: shard::work")],
     observe=["data races", "use after return"])
CHECKS["C05"] = ("interprocedural typestate and effect dataflow over the interpreter's AST: task obligations, captured-variable writes",
                 "Per-node-kind induction; shared writes found via capture analysis; unrecognised task bodies are reported as undecided.")

prop("C08", "Evaluating a node leaves all bindings and buffers as it found them",
     """When the evaluation of any expression or statement returns, successfully or with a failure, every symbol has the value
     it had before, and every buffer that existed before has its previous base, rank, bounds, strides and fold factors
     (an early free, which clears a buffer's allocation, is the only exception). Lists of bindings are undone in reverse order,
     so defining one symbol twice restores the outer value.""",
     ["programs", "fault_sequences"], "every statement and expression tree and every point at which something inside it fails",
     _T + "; leaked bindings matter only if a later sibling uses the shadowed symbol or the same buffer, often only after a failure.",
     EV, [("save/restore around bodies", "evaluate.cc: eval_with_value, eval(const let_stmt*), eval_shadowed(crop_*), eval_loop_*")],
     observe=["values of bindings and buffer metadata after a statement"])
CHECKS["C08"] = ("typestate dataflow: each change of a binding or bound buffer is an obligation closed only by restoring its saved original",
                 "All abstract paths of each node kind; loops over lists handled by symbolic ranges; unrecognised ranges are undecided.")

prop("C09", "Every allocation is freed exactly once",
     """Memory obtained from the configured allocation callback is passed to the configured free callback exactly once by the
     time the allocating statement returns, whether its body succeeds, fails or frees it early. Nothing else is ever passed to the free callback.""",
     ["programs", "fault_sequences"], "every pipeline, allocation outcome and failure point",
     _T + "; leaks and double frees appear on failure paths and in the interplay of early frees with the owner.",
     EV, [("allocate/free callbacks and the handle stored in the buffer", "evaluate.cc: eval(const allocate*), eval_free")],
     observe=["calls of the allocation and free callbacks"])
CHECKS["C09"] = ("typestate dataflow over allocation handles, with early frees modelled at every child evaluation",
                 "All abstract paths of each node kind.")

prop("C10", "A failure anywhere inside a statement is reported and stops it",
     """If any statement, call or check inside a statement fails, evaluating the outer statement returns a non-zero status and
     starts no further statements in sequence after the failure; if nothing fails the status is zero. A check fails exactly when
     its condition is false. The failure handlers are called exactly for failing checks and failing calls.""",
     ["programs", "fault_sequences"], "every statement tree and every combination of failures inside it",
     "Tests fail one call in a few pipelines; a swallowed status needs a failure below one particular kind of node, or in a concurrent part.",
     EV + ["slinky/runtime/pipeline.cc"], [("status returned by each evaluator function", "evaluate.cc: class evaluator")],
     observe=["return value of evaluate", "order of side effects"])
CHECKS["C10"] = ("path-sensitive dataflow of statuses through every statement kind (zero / non-zero facts)", "All abstract paths of each statement kind.")

prop("C20", "The interpreter only touches bindings, dimensions and operands that exist",
     """Evaluating a node writes a symbol's binding only after making room for it, and never through a reference that evaluating
     something else may have invalidated. Dimensions of a buffer are accessed only below its rank, the rank is never raised in
     place, and temporary arrays and operand lists are accessed only within their size, even if the IR names dimensions the buffer does not have.""",
     ["inputs", "programs"], "every IR tree, including ones naming dimensions beyond a buffer's rank, and every symbol numbering",
     _T + " with matching ranks and small symbol ids; out-of-range accesses need mismatched ranks or unusual nesting, and may not crash.",
     EV + ["slinky/runtime/buffer.h"], [("context growth", "evaluate.h: eval_context"), ("dims[] accesses", "evaluate.cc, buffer.cc")],
     observe=["out-of-bounds accesses"])
CHECKS["C20"] = ("dataflow with a difference-bound prover over branch facts for every index in the interpreter",
                 "Upper bounds of indices; negative indices and unrecognised index terms are not decided.")

prop("C21", "Loops run their body for min, min+step, ..., up to max, in any mode",
     """A loop statement runs its body with the loop variable bound to min, min+step, min+2*step and so on, as long as the value is
     at most max. The same set of values is used whether the loop runs serially, in parallel or as a single iteration, and a loop
     with empty bounds runs no iterations.""",
     ["inputs"], "all bounds and positive steps, all execution modes",
     "Tests use mostly step 1 or dividing steps and non-empty bounds.",
     EV + ["slinky/base/arithmetic.h"], [("serial loop, parallel iteration count and index", "evaluate.cc: eval_loop_serial, eval_loop_parallel")],
     observe=["values of the loop variable seen by the body"])
CHECKS["C21"] = ("symbolic extraction of loop bounds, step and index from the interpreter, compared as polynomials", "Algebraic identity over unbounded integers, positive steps.")

IRF = ["slinky/runtime/expr_stmt.cc", "slinky/runtime/expr.h", "slinky/runtime/stmt.h"]
prop("C11", "Expressions evaluate to what they denote",
     """Evaluating an expression gives the value of its operator applied to the values of its operands, for every kind of
     expression: arithmetic (with Euclidean division), comparisons and logic (which yield 1 or 0 and take any non-zero operand as
     true), select (which evaluates only the chosen value), let (symbols defined in order), short-circuit and_then and or_else,
     abs, buffer fields (which describe a broadcast for dimensions past the rank) and buffer_at (null unless every given index is
     in bounds, folds respected). The functions and operators that build expressions build the operator they are named after, with the
     operands in their places.""",
     ["inputs", "programs"], "every expression and every value of its operands",
     "Tests evaluate each operator on a few values; negative or non-boolean operands, indices out of bounds and dimensions past the rank are cases they sample thinly.",
     ["slinky/runtime/evaluate.cc", "slinky/runtime/expr.h", "slinky/runtime/expr_stmt.cc", "slinky/runtime/buffer.h"],
     [("evaluator::eval for expressions", "evaluate.cc: eval_non_inlined, eval_binary, eval(const call*)"), ("make_binary<T>", "expr.h"),
      ("operators and make functions", "expr_stmt.cc")],
     observe=["result of evaluate(expr)", "tree returned by an operator"])
CHECKS["C11"] = ("abstract interpretation of the evaluator per node kind with opaque operands, compared with the operator's definition by linear reasoning; same for builder functions",
                 "Every path; arithmetic over unbounded integers; code shapes outside the interpreter's language are reported as undecided.")

prop("C12", "Dependency and effect queries see everything an expression or statement uses",
     """The default traversal of the IR reaches every defined child expression and statement of every kind of node. The queries
     built on it (depends_on, find_dependencies, find_buffer_dependencies, is_pure, has_side_effects) therefore report every
     symbol that a tree uses free, with every kind of use (value, input, output, copy source or destination, base, bounds,
     dimensions), including uses through crops, slices, clones and transposes of a buffer under another name. A use of a symbol
     in the scope of a declaration of the same name is not attributed to the outer symbol, and the values of a let are looked up
     outside the scope of its own symbol. Reads of buffers' fields are never reported pure, and every call with an effect is reported.""",
     ["programs"], "every IR tree, every nesting of declarations and aliases",
     "The optimisation passes rely on these queries to be complete for every tree; tests query a few shapes, and a missed use miscompiles only the pipelines in which the use is the last reason to keep something.",
     ["slinky/runtime/depends_on.cc"] + IRF, [("class dependencies, side_effect_checker", "depends_on.cc"), ("recursive_node_visitor", "expr_stmt.cc")],
     observe=["results of the dependency queries", "pipelines optimised with them"])
CHECKS["C12"] = ("path-sensitive traversal and scope analysis of every visit function over the declared fields of each node kind",
                 "Induction over the tree: each kind of node is decided on all abstract paths; the visitor's list of declarations is modelled exactly.")

prop("C13", "Structural comparison looks at every field",
     """match and compare find two trees equal only if every field of every node (symbols, children, list lengths and elements,
     flags, modes, dimension numbers, constant buffers) is equal to the same field of the other tree; two different functions are
     never taken for equal. Attributes of calls are not part of a tree's structure. compare is antisymmetric for scalars, null and node types.""",
     ["programs"], "every pair of trees of the same or of different kinds",
     "The simplifier and the common-subexpression logic merge whatever matches; a field that is not compared only matters for two trees that differ in nothing else, which tests never build for each field.",
     ["slinky/builder/substitute.cc"] + IRF, [("class matcher", "substitute.cc"), ("match, compare", "substitute.h")],
     observe=["results of match and compare"])
CHECKS["C13"] = ("path-sensitive comparison analysis: each path without a difference must have compared every declared field of the node kind with its counterpart",
                 "All abstract paths of each comparison function, fields taken from the class declarations.")

prop("C14", "Building and rewriting trees keeps every part in its place",
     """Each constructor function of the IR stores each of its arguments in the field of the same meaning. The default rewriting
     functions (stmt_mutator, node_mutator, substitutor, clone_with) rewrite every child of a node and yield a node of the same
     kind in which every child is the rewritten one and every other field is unchanged; they return the old node only if no child
     changed. Substitution replaces every free use of a symbol (values, buffer names, bounds, worker counts, paddings), except
     within the scope of a declaration that hides the symbol or captures the replacement. A visit function of a rewriting pass
     delivers exactly one result on every path, so that no pass drops a statement by accident; the exceptions are statements that
     abort.""",
     ["programs"], "every IR tree, every combination of changed and unchanged children",
     "Tests rewrite a handful of trees; forgetting a rarely used field (the worker count of a loop, a padding, the storage of an allocation) or the change of one child among several shows only on trees that use it.",
     ["slinky/builder/node_mutator.cc", "slinky/builder/node_mutator.h", "slinky/builder/substitute.cc", "slinky/builder/optimizations.cc", "slinky/builder/simplify.cc"] + IRF,
     [("constructor functions", "expr_stmt.cc: *::make"), ("default rewriting", "node_mutator.cc"), ("substitution", "substitute.cc: class substitutor")],
     observe=["trees that a rewriting pass or substitute produces"])
CHECKS["C14"] = ("path-sensitive construction analysis: provenance of every field of every node built, per path, against the fields the node class declares",
                 "All abstract paths of the constructor and default rewriting functions; special rewriting in the passes is only checked for delivering one result and for not mixing up copied fields.")

prop("C15", "An overflow is never used as a size, a stride, an address or a constant",
     """Computing the strides and the size of a buffer (init_strides, allocate, size_bytes) and checking its range of addresses
     (validate_buffer) never yields a value in which a sum, difference or product overflowed: if one does, the computation reports
     failure (no size, a null pointer, zero, or false), whatever the element size, extents, strides, fold factors and rank, and
     validate_buffer answers true for a buffer with memory only if its lowest and highest addresses are representable. The compiler
     replaces a sum, difference or product of two constants, also one in the replacement or the condition of a rewrite rule, by its
     value only if that is representable; a rewrite in which a constant overflows is not applied.""",
     ["inputs", "programs"], "all shapes of buffers, all 64-bit constants",
     "Tests try one or two shapes that overflow; which of the sums overflows, and whether a later step forgets it, depends on the shape.",
     ["slinky/runtime/buffer.cc", "slinky/runtime/buffer.h", "slinky/builder/simplify_exprs.cc", "slinky/builder/simplify.cc", "slinky/builder/rewrite.h", "slinky/runtime/expr.h"],
     [("sizes and strides", "buffer.cc: init_strides_impl, calculate_flat_bounds, alloc_size, validate_buffer; buffer.h: init_strides"),
      ("folding", "simplify_exprs.cc: simplify(add, sub, mul); simplify.cc: constant_adder::visit(constant)"),
      ("flags in rewrites", "rewrite.h: substitute, substitute_binary, match, find_replacement; expr.h: make_or_eval_binary")],
     observe=["result of init_strides, allocate, size_bytes, validate_buffer", "simplified expressions"])
CHECKS["C15"] = ("taint analysis of results that overflowed over all paths, every overflow-detecting operation taken both ways; unchecked 64-bit arithmetic is reported",
                 "The extent of one dimension is assumed representable; negating or dividing the one most negative constant inside add_constant and nested min/max offsets are not judged.")

SI = ["slinky/builder/simplify.cc", "slinky/builder/simplify.h"]
prop("C16", "Integer helpers are exact and no division traps",
     """The integer helpers (floor and Euclidean division and remainder, ceil, round, align, gcd, lcm and their saturating forms)
     compute the mathematical result they are named after for every pair of 64-bit arguments whose exact result and intermediate
     sums fit: the quotient q and remainder r satisfy a = q*b + r with 0 <= r < |b|, and dividing by zero yields the documented
     value. No division or remainder executed by the library traps, whatever its operands: a divisor is never zero, and the
     minimum integer is never divided by -1. Helpers reporting overflow do so exactly if the exact result does not fit.""",
     ["inputs"], "all pairs of 64-bit arguments",
     "Tests sample small operands; 0, -1 and the extreme integers in combination are exactly the ones that trap.",
     ["slinky/base/arithmetic.h", "slinky/base/arithmetic.cc", "slinky/base/modulus_remainder.h"] + EV + SI,
     [("euclidean_div, euclidean_mod, floor_div, gcd, ...", "base/arithmetic.h"), ("integer / and %", "all library sources")],
     observe=["results of the helpers", "SIGFPE"])
CHECKS["C16"] = ("abstract interpretation of the helpers in a polyhedral domain partitioned by path; guards of every integer division",
                 "All 64-bit arguments at once; ceil/round/align forms assume sums do not overflow.")

prop("C17", "Alignment facts the compiler derives hold",
     """The compiler tracks for an expression a modulus m and remainder r, meaning that every value is m*y + r for some integer y.
     The alignment computed for a sum, difference, product, quotient, remainder or choice of two expressions holds for every value
     the operation yields on values aligned as its operands are. The alignment recorded for a loop variable holds in every iteration,
     for any minimum and step. Moving a bound to the next aligned value never excludes a value that is within the bound and aligned.""",
     ["inputs", "programs"], "all operand alignments and all values with them, all loop minimums and steps",
     "Tests use a few moduli; wrong facts need a particular combination of moduli, remainders and signs, and then the simplifier removes checks, crops or loop iterations.",
     ["slinky/base/modulus_remainder.h"] + SI + ["slinky/builder/slide_and_fold_storage.cc"],
     [("operators of modulus_remainder", "base/modulus_remainder.h"), ("alignment of loop variables", "simplify.cc, slide_and_fold_storage.cc")],
     observe=["alignments", "simplified expressions"])
CHECKS["C17"] = ("relational abstract interpretation of the operators on alignments: divisibility of the result's difference as polynomials",
                 "All operands at once; unrecognised arithmetic is undecided.")

prop("C18", "Bounds the compiler computes contain every value",
     """The interval that bounds_of computes for an operation from intervals of its operands contains the value of the operation for
     all values of the operands within their intervals, including negative, zero and mixed-sign ranges and half-bounded ones. The
     constant bounds (constant_lower_bound, constant_upper_bound, evaluate_constant and its bound variants) are never above or below
     the expression's value, for every expression and every value of its variables. Arithmetic, union, intersection and selection of
     intervals contain what they should. Tests of sign and proofs of conditions succeed only if the condition has that sign or truth
     for every value; being unable to tell is always allowed.""",
     ["inputs", "programs"], "all expressions, all values of variables, all operand intervals",
     "Tests compare a few expressions or random ones with small values; a wrong bound needs a particular operator with a particular combination of signs, and then a check is dropped or an allocation is too small.",
     SI + ["slinky/runtime/expr_stmt.cc"],
     [("bounds_of overloads, constant_evaluator", "simplify.cc"), ("interval_expr operators, is_positive, ...", "expr_stmt.cc"), ("prove_constant_true, ...", "simplify.cc")],
     observe=["bounds", "results of proofs", "simplified expressions"])
CHECKS["C18"] = ("abstract interpretation over symbolic terms of the functions that build bounds; order proofs by monotonicity and sign cases",
                 "All operand values and signs over unbounded integers; each operation given sound operand bounds (induction over the expression).")

prop("C26", "What the simplifier learns from a condition follows from it",
     """Within the branches of a select, after a check, and in similar scopes, the simplifier assumes bounds of variables and buffer
     fields, alignments, and replacements of expressions that it derived from the condition that holds (or does not hold) there. Each
     of them follows from that condition, for every value of the variables: a bound lo <= v, v <= hi, an alignment v mod m = r, or the
     equality of an expression and its replacement.""",
     ["inputs", "programs"], "every condition and every value of its variables",
     "Wrong knowledge only changes programs whose branches use the variable in just the right way; the random tests of the simplifier never build such conditions.",
     SI, [("class knowledge: learn_from_*", "simplify.cc")], observe=["simplified selects and blocks with checks"])
CHECKS["C26"] = ("abstract interpretation over symbolic terms of the learning functions; entailment of each recorded fact from the condition told",
                 "All conditions over unbounded integers; facts about the learning of min/max comparisons are known findings.")

prop("C19", "Buffer statements define exactly the buffer they describe",
     """Evaluating a crop, slice, transpose, clone, make_buffer, constant buffer or allocation runs its body with exactly the buffer the
     statement describes, for every source buffer (any rank, bounds, strides, folds; null base) and any values of the statement's
     expressions: bounds are clamped to the source's, undefined bounds leave it alone, the base moves to the new minimum of an
     unfolded dimension and becomes null when the buffer is empty or sliced out of bounds, other dimensions, strides and folds are
     copied in order, dimensions past the rank are broadcasts, and only trailing broadcasts are dropped. The bounds of a crop are
     evaluated before the buffer they may refer to changes. The members of dim and raw_buffer (crop, slice, translate, contains,
     offsets, folds) do the same to every buffer.""",
     ["inputs", "programs"], "every buffer of any rank and every value of the expressions",
     "Tests use small positive bounds without folds; folded, null, broadcast or empty dimensions, undefined bounds and ranks below the dimension used are rarely combined.",
     EV + ["slinky/runtime/buffer.h"],
     [("evaluator::eval of buffer statements", "evaluate.cc"), ("raw_buffer and dim", "buffer.h")],
     observe=["buffers seen by callbacks", "memory accessed"])
CHECKS["C19"] = ("abstract interpretation with symbolic buffers: arrays of dimensions as writes and segments, loops by their arbitrary iteration",
                 "All buffers over unbounded integers; raw_buffer::slice of a list of dimensions, allocation of memory and strides are not covered.")

prop("C06", "Reference counts are balanced and shared nodes never change",
     """The count of an object equals the number of handles (ref_count) that hold it, after every operation on handles: construction from
     a pointer or another handle, copy, move, assignment of a pointer, a copy or an rvalue (also to the handle itself, to another handle
     of the same object, and to a handle or pointer found inside the object being replaced), conversion, take, assume and destruction.
     No handle, object or handle inside an object is touched after the object was destroyed. The count changes by single atomic
     operations; exactly the release that brings it to zero destroys the object, after everything done by other holders; copying or
     assigning an object does not copy its count. Expression and statement nodes cannot change while handles hold them: handles give
     constant nodes, nothing casts that away and no field of a node is mutable. A node that is not allocated keeps a reference to itself,
     and nothing else counts or deletes nodes.""",
     ["inputs", "interleavings", "histories"], "every configuration of two handles and two objects; every thread interleaving",
     "A missing or extra reference shows only as a leak or as use of freed memory under particular aliasing of handles or interleavings, "
     "and the tests run without sanitizers.",
     ["slinky/base/ref_count.h", "slinky/runtime/expr.h", "slinky/runtime/stmt.h", "slinky/runtime/expr_stmt.cc"],
     [("ref_count, ref_counted", "ref_count.h"), ("base_node::destroy", "expr.h"), ("make_static_constant", "expr_stmt.cc")],
     observe=["crashes, leaks, use of freed memory"])
CHECKS["C06"] = ("abstract interpretation of the handle operations over all configurations of a small heap; effect and cast lints for nodes",
                 "Handles and objects are covered two at a time (a member of ref_count touches no more). Atomic operations other than one "
                 "read-modify-write per change are reported. Containers of handles are trusted to use their constructors and destructors.")

prop("C07", "Nothing is read after it was given away",
     """On no path through the library is a variable or field read after it was moved away and not given a value since, including in
     another argument of the call that moves it. A pointer, reference or iterator into an expression or statement is not used after
     the handle it came from was given something else or went out of scope while no other handle is known to hold the node, and none is
     taken from a temporary that ends with the statement.""",
     ["inputs", "programs"], "every path of every function and lambda",
     "A moved-away expression is null only on the path that moved it; a dropped node is usually still intact right after, or held "
     "by something else in the tested case.",
     ["slinky/base", "slinky/runtime", "slinky/builder"],
     [("every std::move", "all files"), ("as<T>() and iterators into nodes", "builder/*.cc")], observe=["crashes, lost parts of programs"])
CHECKS["C07"] = ("flow-sensitive typestate dataflow over access paths, with branch facts against infeasible paths",
                 "Moves out of elements of containers and through pointers are not followed. A handle that is copied or moved elsewhere is "
                 "taken to keep its node alive.")

prop("C22", "Values are never truncated",
     """Values of expressions, bounds, extents, strides, fold factors, offsets, alignments and sizes in bytes are handled in 64 bits
     everywhere in the library: no such value is converted, implicitly or by a cast, to a type of fewer bits (a variable, parameter, field
     or result), unless it was limited or checked to be in the range of that type. Only numbers of dimensions, positions of dimensions
     and sizes of lists are kept in fewer bits.""",
     ["inputs"], "every value of 64 bits",
     "No test uses buffers or constants beyond 32 bits.",
     ["slinky/base", "slinky/runtime", "slinky/builder"],
     [("every integer conversion", "all files")], observe=["wrong results for large extents, strides and constants"])
CHECKS["C22"] = ("lint over the integer conversions of the type-checked program with a dataflow classification of what is converted",
                 "A conversion is reported only if the value is known to come from a field, parameter, call or expression of 64 bits. Values "
                 "passed to code outside of the library are not covered. Conversions of the sign at 64 bits are not judged.")

prop("C27", "Rewrite rules, constant folding and pattern matching preserve value",
     """Rewriting one operation of an expression leaves its value unchanged, for all integer values of the variables for which nothing
     overflows. Every rule of the simplifier (its pattern, each of its replacements and their predicates, including defaults of
     optional operands and the rules on alignments) replaces an expression only by one that is equal to it wherever the
     replacement's predicate holds and those before it do not. A replacement is used only if its predicate was evaluated without
     overflow and holds, and the next one is considered only if it does not hold. A pattern matches only expressions that have its
     value under the symbols it binds: a symbol that occurs twice stands for one value, operands are swapped only of commutative
     operations, an absent operand is the operation's default, and a staircase is recognised only where ((x + a)/b)*c equals the
     expression. The functions that simplify one operation over its operands, build a replacement or fold constants return an
     expression (or number) with the value of that operation.""",
     ["inputs", "programs"], "every value of every symbol of each rule",
     "Hundreds of rules with predicates over several constants: the tests sample a few random constants per rule and miss boundaries.",
     SI + ["slinky/builder/simplify_exprs.cc", "slinky/builder/simplify_rules.h", "slinky/builder/rewrite.h"],
     [("apply_*_rules", "simplify_rules.h"), ("base_rewriter::find_replacement, match, substitute", "rewrite.h"),
      ("simplify(const T*, expr, ...)", "simplify_exprs.cc"), ("make_binary", "expr.h")],
     observe=["values of simplified expressions"])
CHECKS["C27"] = ("abstract interpretation of rule pairs and of the matching and folding functions in partitioned polyhedra with integer tightening",
                 "Multipliers and divisors of a rule take the values -8..8 (fewer when several occur together; a wider range in the thorough tier); every other symbol is "
                 "unbounded. Rules on infinities are decided over one representative per sign. Overflow is C15's. Intrinsic calls in patterns "
                 "(abs apart) are not judged.")

prop("C31", "Simplifying an expression or statement does not change its meaning",
     """For every expression and statement, and all values of its variables and contents of its buffers, the simplified form evaluates
     to the same value and has the same effects as the original.""",
     ["inputs", "programs"], "every tree, every value",
     "The rewrite rules and their side conditions are many; tests sample values for each rule.",
     SI + ["slinky/builder/simplify_exprs.cc", "slinky/builder/simplify_rules.h", "slinky/builder/simplify_bounds.cc"],
     [("rewrite rules", "simplify_rules.h")], observe=["results of simplified expressions"])
NA["C31"] = ("The traversals that combine the pieces decide what to rewrite from the run's own facts (substitution of lets, reordering and "
             "removal of statements, liveness of buffers); equality of whole programs under them is semantic equivalence, out of reach of a sound "
             "static argument here. Its parts are claimed separately: rewrite rules, folds and matching (C27), bounds (C18), alignments (C17), learned "
             "facts (C26), no lost parts (C14), no overflow in folded constants (C15).")

prop("C32", "A built pipeline computes what its functions define, for every schedule",
     """For every pipeline of funcs and every legal schedule (loops, steps, compute_at, store_at, storage, workers), running the built
     pipeline produces the same outputs as evaluating each function on its whole required region in order.""",
     ["programs", "inputs", "schedules"], "every pipeline and schedule, all extents",
     "The space of schedules is unbounded; tests run a few dozen.",
     ["slinky/builder/pipeline.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/optimizations.cc", "slinky/builder/simplify_bounds.cc"],
     [("build_pipeline", "pipeline.cc")], observe=["outputs of pipelines"])
NA["C32"] = ("End-to-end equivalence quantifies over generated programs and runtime extents: bounds inference, sliding, folding and aliasing decisions "
             "depend on symbolic bounds no sound static argument in reach relates to the values callbacks write.")

prop("C33", "copy, fill, pad and for_each touch exactly the elements they describe",
     """Copying, filling and padding buffers and iterating over them with for_each_element, for_each_contiguous_slice and for_each_tile
     visit every element of the region exactly once and no memory outside the buffers, for all ranks, bounds, strides and folds.""",
     ["inputs"], "all buffers",
     "Tests use small ranks and a few strides.", ["slinky/runtime/buffer.cc", "slinky/runtime/buffer.h"],
     [("for_each implementation", "buffer.cc, buffer.h")], observe=["memory written"])
NA["C33"] = ("The loops are encoded in runtime tables (dimension loops fused, sorted and type-punned into a byte buffer) whose contents depend on "
             "strides and extents; element-exact coverage is an arithmetic invariant over those tables beyond the analyses here.")

prop("C34", "Building a pipeline terminates",
     """Building any pipeline from well-formed funcs and schedules, and simplifying any expression or statement, terminates.""",
     ["programs"], "every tree, every pipeline", "Tests cannot show termination.", SI + ["slinky/builder/simplify_rules.h", "slinky/builder/pipeline.cc"],
     [("rewriting to a fixpoint", "simplify.cc, optimizations.cc")], observe=["hangs"])
NA["C34"] = ("Termination of the rule system needs an order that decreases under every rule; none is defined by the code, and rules rely on "
             "canonical orderings of arbitrary trees. No sound argument in reach.")
