#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so the file stays in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

TUT = "The stable tests only run the tutorial code blocks, which build a handful of expressions and print one of them"

prop("P01", "Solver (SMT-LIB) text of an expression means what the expression means",
 "For every expression kind, the text printed for the SMT solver applies the operator of the same meaning to every operand exactly once, in order, with operands rendered recursively; literals, calls (including the renamed set, map, tuple and list-equality built-ins), conditionals, let bindings, quantified axioms and function declarations keep all their parts in place. A function declaration prints its own name, its parameters with their sorts in order, its return sort and its body, as recursive exactly when declared recursive and as uninterpreted exactly when it has no body.",
 ["programs", "inputs"], "every expression kind, with arbitrary operands",
 TUT + "; a swapped operand or wrong operator in any other kind is never printed and never compared.",
 ["metalift/ir.py"], [("SMT printers of the node classes", "metalift/ir.py toSMT methods"), ("operator name tables", "metalift/ir.py SMTName class attributes")],
 observe_at=["text returned by the solver printer"])

prop("P02", "Rosette text of an expression means what the expression means",
 "For every expression kind, the text printed for Rosette applies the operator of the same meaning to every operand exactly once, in order, with operands rendered recursively; list, matrix, tensor, integer, tuple and set built-ins are printed under the library name of the same operation. A function declaration prints its own name, its parameters in order and its body, and a grammar offers every alternative it was built from and no other.",
 ["programs", "inputs"], "every expression kind, with arbitrary operands",
 TUT + "; no test prints Rosette text at all (Rosette is not installed where the tests run).",
 ["metalift/ir.py"], [("Rosette printers of the node classes", "metalift/ir.py to_rosette methods"), ("built-in name table", "metalift/ir.py get_list_fn / get_integer_fn")])

prop("P03", "Python text of an expression preserves its structure",
 "For every expression kind that can be printed as Python, the generated text parses back to the same operation applied to the same operands in the same order, whatever operators occur inside the operands. Slices, indexing, prepend, append and length are printed as the Python construct of the same meaning.",
 ["programs", "inputs"], "every printable expression kind, with arbitrary nested operands",
 TUT + "; no test prints Python, and nesting-dependent precedence errors need particular operand combinations.",
 ["metalift/ir.py"], [("Python printers of the node classes", "metalift/ir.py to_python methods")])

prop("P04", "Reading back a synthesizer answer inverts printing",
 "Every operator or built-in that can occur in a synthesizer answer is read back as the expression kind and built-in name that prints to it, with all operands in the printed order and recursively read. An unknown construct is rejected rather than silently dropped or replaced. Each function's definition is taken from its own part of the answer, under its own parameters; a function the answer leaves out keeps the first candidate of its grammar.",
 ["inputs", "programs"], "every printable operator and built-in, arbitrary operands",
 "No test runs a synthesizer, so the reader is never executed by the tests.",
 ["metalift/synthesize_rosette.py", "metalift/synthesize_cvc5.py", "metalift/ir.py"],
 [("Rosette answer reader", "metalift/synthesize_rosette.py toExpr/expr_bi/expr_uni"), ("SyGuS answer reader", "metalift/synthesize_cvc5.py toExpr")])

prop("P05", "Expression rewriting keeps kind, operand order and operand count",
 "Every generic traversal that rebuilds an expression (mapping over operands, common-sub-expression replacement, variable substitution, simplification, conditional pruning, function renaming, argument augmentation, inlining) returns, when the transformation leaves the operands alone, an expression of the same kind, name and type with the same operands in the same order. Simplification only removes literally true conjuncts, collapses to false on a literally false conjunct, and never drops another operand.",
 ["programs", "inputs"], "every expression kind reachable by a traversal, arbitrary operands and transformations",
 TUT + "; the traversals run only inside synthesis, which no test reaches.",
 ["metalift/ir.py", "metalift/smt_util.py"],
 [("map over operands", "metalift/ir.py map_args"), ("common-expression replacement", "metalift/ir.py replaceExprs"), ("simplification and substitution", "metalift/ir.py simplify/rewrite"), ("SMT pre-processing", "metalift/smt_util.py")])

prop("P06", "Ill-typed expressions are rejected when built",
 "Building an arithmetic or ordering expression from operands of different types, a boolean connective or a condition from a non-Boolean operand, or a conditional or choice between expressions of different types raises an error instead of producing an expression, and the expression built from fitting operands has the result type of its operation. Storing, adding, removing, joining or looking up an element in a container object likewise rejects (or answers false for) an element or container of another type.",
 ["inputs", "programs"], "every constructor and every combination of operand types",
 TUT + "; they never pass a wrongly typed operand.",
 ["metalift/ir.py"], [("constructor guards", "metalift/ir.py __init__ of the node classes"), ("container guards", "metalift/ir.py List/Matrix/Tensor3D/Set methods")])

prop("P07", "Object operators build the operation they denote, operands in order",
 "Every arithmetic, comparison, boolean and container operator on front-end objects, including the forms with a plain Python value on either side, builds the expression of that operation with the left and right operand where the programmer wrote them. Scalar-with-vector and scalar-with-matrix arithmetic, slicing, indexing, prepend, append, membership and set algebra call the built-in of that name with its operands in the order the built-in declares (scalar first for the scalar operators).",
 ["inputs", "programs"], "every operator, every operand kind on either side",
 TUT + "; non-commutative operators with a reflected or container operand never occur.",
 ["metalift/ir.py"], [("operator overloads", "metalift/ir.py Int/Bool/List/Matrix/Tensor3D/Set/Tuple")])

prop("P08", "Source instructions are modelled by the operation they perform",
 "Every supported LLVM instruction and Python operator is translated to the expression of the operation it performs (arithmetic operator, comparison predicate, boolean operator, negation, load, store, cast), with its operands in source order and its result bound to the variable it defines (unsigned comparisons, which compilers use on sizes, are the ordinary order of the integers). An instruction, predicate or operator the tool does not support is rejected with an error rather than translated to something else; so are variables of types that no object models, calls to unmodelled functions and writes through pointers that are not tracked.",
 ["programs"], "every instruction or operator kind, arbitrary operands",
 "No test imports a front end (they need a newer Python), so no translation is ever executed by the tests.",
 ["metalift/frontend/llvm.py", "metalift/frontend/python.py", "metalift/vc.py"],
 [("LLVM instruction visitor", "metalift/frontend/llvm.py visit_*_instruction"), ("Python expression visitor", "metalift/frontend/python.py visit_*_expr"), ("legacy LLVM evaluator", "metalift/vc.py")])

prop("P09", "Each branch is analysed under its own condition",
 "When control reaches a conditional, the code on the true side is analysed with the condition assumed and the code on the false side with its negation assumed, in addition to what was already assumed. After the sides join, a variable's value is the one of the side whose condition holds, a variable equal on both sides keeps that value, and every obligation raised inside either side is kept. (LLVM programs as the preparation pass leaves them.)",
 ["programs"], "every conditional in every input program, both outcomes",
 "No test imports a front end; and one wrong polarity is only visible in the verdict of a later proof.",
 ["metalift/frontend/llvm.py", "metalift/frontend/python.py", "metalift/vc.py"],
 [("branch and merge", "metalift/frontend/llvm.py visit_br_instruction/merge_states"), ("if statement", "metalift/frontend/python.py visit_if_stmt")])

prop("P10", "Loops are discharged by a complete invariant rule",
 "For every loop, the invariant is asserted on entry with the values before the loop, every variable the loop may modify is then given a fresh unconstrained value, the invariant and the loop condition are assumed for one arbitrary iteration, the invariant is asserted again after that iteration, and code after the loop assumes the invariant and the negated condition. The invariant ranges over the inputs and every variable the loop uses, and its grammar callback is given the variables the loop writes, the inputs and the variables in scope. No proof obligation raised before, inside or after the loop is dropped. (LLVM programs as the preparation pass leaves them.)",
 ["programs"], "every loop in every input program, any number of iterations",
 "No test imports a front end; a missing obligation makes wrong programs verify, which no output of a passing run reveals.",
 ["metalift/frontend/llvm.py", "metalift/frontend/python.py", "metalift/analysis.py", "metalift/vc.py"],
 [("while statement", "metalift/frontend/python.py visit_while_stmt"), ("loop header, latch and exit instrumentation", "metalift/frontend/llvm.py"), ("legacy loop rewriting", "metalift/analysis.py")])

prop("P11", "Every return is checked against the program summary",
 "Each return of the analysed function adds a proof obligation stating that, under everything assumed on that path, the program summary relates the function's inputs to the returned value; the summary and every invariant are applied to their arguments in the order in which they are declared. The summary's grammar callback is given the outputs and the inputs, and a call with the wrong number or types of inputs is rejected. An analysis never finishes with a return left unchecked.",
 ["programs"], "every analysed function, every return on every path",
 "No test imports a front end; a missing or vacuous obligation makes synthesis succeed more easily, never fail.",
 ["metalift/frontend/llvm.py", "metalift/frontend/python.py", "metalift/vc_util.py"],
 [("return handling", "metalift/frontend/llvm.py, metalift/frontend/python.py visit_return_stmt"), ("predicate construction", "metalift/frontend/utils.py, metalift/frontend/*.py Predicate")])

prop("P12", "Analyses do not influence one another",
 "Two analyses, drivers or states share no mutable data unless one was explicitly built from the other: no default argument, class attribute or cached object is modified by an analysis, and modelling a library call never changes an expression built earlier or a variable the source program does not change. Copying a program state yields a state whose later changes leave the original unchanged.",
 ["histories", "programs"], "every sequence of analyses in one process",
 "Tests run each analysis at most once per process, so leaked state has nothing to leak into.",
 ["metalift/frontend/llvm.py", "metalift/frontend/python.py", "metalift/models.py", "metalift/ir.py", "metalift/analysis.py", "metalift/vc.py"],
 [("state classes and copies", "metalift/frontend/*.py State"), ("library models", "metalift/models.py, metalift/frontend/llvm.py")])

prop("P13", "Only verified candidates are returned",
 "A synthesis run with verification on returns a candidate only after the verifier answered exactly that the negated conditions are unsatisfiable for that same candidate; any other answer, a verifier failure or a missing answer leads to another attempt or an error. Each verified summary is attached to its own function. A solution left over from an earlier run is never read as the answer of the current one, and code generation before a successful synthesis is rejected.",
 ["histories", "fault_sequences", "inputs"], "every synthesizer and verifier answer, including failures and time-outs",
 "No synthesizer or verifier is started by any test.",
 ["metalift/synthesize_rosette.py", "metalift/synthesize_cvc5.py", "metalift/synthesis_common.py", "llmlift_scripts/synthesis.py"],
 [("verification gate", "metalift/synthesize_rosette.py, metalift/synthesize_cvc5.py synthesize"), ("verifier call", "metalift/synthesis_common.py verify_synth_result"), ("LLM verification", "llmlift_scripts/synthesis.py")])

prop("P14", "The verifier is asked the right question",
 "The verification query asserts the negation of the verification condition and asks for satisfiability, after the built-in definitions, every target-language function and axiom, every candidate summary and invariant, and a declaration of every variable with its sort; synthesis queries constrain the condition itself, un-negated. Every function is defined before it is used, exactly once; a function that takes a function is specialised to the function it is passed, with its own body otherwise unchanged, and only the names of calls to it change. Writing a query leaves the candidates, functions and conditions it is given as they were.",
 ["programs", "configurations"], "every verification condition, target language and candidate",
 "No test produces a query file; dropping the negation or a definition only changes verdicts.",
 ["metalift/smt_util.py", "metalift/synthesis_common.py", "metalift/synthesize_cvc5.py", "metalift/rosette_translator.py"],
 [("SMT file writer", "metalift/smt_util.py toSMT"), ("Rosette file writer", "metalift/rosette_translator.py toRosette"), ("SyGuS file writer", "metalift/synthesize_cvc5.py")])

prop("P15", "Every built-in the tool emits is defined for the back end, with that arity",
 "Every built-in function name the object API puts into an SMT or Rosette text is defined there (or in the solver's own theory) with the number, order and, for SMT, the sorts of the parameters it is called with. Every list, matrix, tensor, set and integer built-in of the two preludes has, for every in-range argument, the value its name promises (length, get, take, tail, slice, append, prepend, concat, transpose, columns, equality, ...), by a recursion that ends; the shape axioms of the SMT prelude follow from those definitions.",
 ["configurations", "programs"], "every built-in name reachable from the object API, the library models and the target languages",
 "No test loads either prelude; a missing definition surfaces only when a solver rejects a query.",
 ["metalift/ir.py", "metalift/models.py", "metalift/utils/utils.rkt", "metalift/utils/list-axioms.smt", "metalift/utils/integer-fn-axioms.smt", "metalift/utils/tuples.smt", "metalift/utils/map-axioms.smt", "metalift/smt_util.py"],
 [("SMT prelude", "metalift/utils/*.smt"), ("Rosette prelude", "metalift/utils/utils.rkt")])

prop("P16", "Generated names are unique and stable",
 "Each variable, invariant or function name the tool generates in one analysis differs from every other name in use there, and asking again for the same loop's or (distinctly named) function's predicate yields the same predicate with the same name and argument order. A variable is only ever registered with one type. (No input is named like the function's own result variable.)",
 ["programs", "histories"], "every sequence of name requests in an analysis",
 "Tests never request two generated names in one analysis.",
 ["metalift/analysis.py", "metalift/frontend/llvm.py", "metalift/frontend/python.py", "metalift/vc_util.py", "metalift/ir.py"],
 [("variable registry", "metalift/analysis.py / vc_util.py VariableTracker"), ("predicate registry", "metalift/frontend/*.py PredicateTracker")])

prop("P17", "Target-language operators compute what their name says",
 "Each element-wise, scalar-broadcast, reduction, selection, slicing and transposition operator of the tensor target language is defined so that its recursion applies the named arithmetic operation, in the named operand order, to corresponding elements, and recurses on the rest of the same inputs with the operator of the right dimension. The helper that builds a call to an operator uses that operator's name, parameter order and result type, and each operator's axiom states that operator's own recursion over non-empty prefixes (where the recursion has a step to state).",
 ["inputs", "configurations"], "every operator, all tensor inputs",
 "No test imports the tensor target language.",
 ["metalift/utils/tenspiler/tenspiler_common.py", "metalift/utils/tenspiler/axioms.py", "metalift/utils/tenspiler/constants.py"],
 [("operator definitions", "metalift/utils/tenspiler/tenspiler_common.py"), ("axioms", "metalift/utils/tenspiler/axioms.py")])

prop("P18", "Every input of a bounded search is symbolic and covered by the search",
 "In a Rosette query every program variable is declared symbolic in all of its components up to the configured bound, with the type of the variable, and exactly those components are the universally quantified symbols. Every summary, invariant and helper to be found is defined by its own grammar over its own parameters, and every target-language function by its own body over its own parameters. The search for each further solution excludes the candidates of all earlier rounds, and its answer goes to that round's own file.",
 ["configurations", "programs"], "every variable type, list bound and round",
 "No test produces a Rosette query.",
 ["metalift/rosette_translator.py"], [("variable generation", "metalift/rosette_translator.py gen_var/generate_vars"), ("query writer", "metalift/rosette_translator.py toRosette")])

prop("P19", "Types map to the solver sort of their structure",
 "Every type prints as the SMT sort with the same structure: integers and booleans as the solver's own, lists, matrices and tensors as lists nested one, two and three deep, sets and tuples over the sorts of their contained types in order. Types of different structure never print alike, and the Python type text has the same structure; the tests of a type (is it a list, a list of lists, a matrix, a set, a tuple) answer by that structure. A type of the compiled source is read as the type that holds the same values, also when LLVM has numbered the type apart from an earlier one of the same name, and a type without a counterpart is refused, never read as some other type.",
 ["programs"], "every type the object API can build, to any nesting depth",
 TUT + "; only integer sorts appear.",
 ["metalift/ir.py"], [("sort printers", "metalift/ir.py toSMTType/to_python_type_str/cls_str")])

prop("P20", "Internal calls fit the functions they reach",
 "Every name the tool's modules read is bound where it is read and some assignment to it can have run; every module, name and attribute they take from the tool's own modules and classes exists; and every call of one of the tool's functions, constructors or methods, from the tool itself or from the drivers of the benchmarks, passes arguments its callee accepts in every configuration (for a method: one of the classes the value can have). A method that overrides another takes every call the overridden one takes. No supported operation therefore fails with an argument-binding, undefined-name or missing-attribute error.",
 ["inputs", "programs", "configurations"], "every call site, name read and attribute access, whatever path reaches it",
 "The tests execute a small part of the code and most modules are never imported by them.",
 ["metalift", "llmlift_scripts/parser.py", "llmlift_scripts/synthesis.py"], [("module and class structure", "metalift/*.py")])

prop("P21", "Structural equality is exact",
 "Two expressions compare equal exactly when they have the same kind and operands that are pairwise equal in order, inequality is its negation, and equal expressions hash alike; plain operands compare as Python values, and objects compare for tracking purposes by their expressions. Sets of objects therefore contain one representative per distinct expression and merge obligations only when they are the same.",
 ["inputs", "programs"], "all pairs of expressions",
 TUT + "; equality of nested expressions is never asserted.",
 ["metalift/ir.py", "metalift/vc_util.py", "metalift/frontend/utils.py"], [("structural equality", "metalift/ir.py Expr.__eq__"), ("object sets", "metalift/frontend/utils.py ObjectSet")])

prop("P22", "Conjunction and disjunction helpers keep every part",
 "Joining a list of conditions into one conjunction or disjunction yields the single condition when there is one and otherwise contains every given condition exactly once; joining conjunctions and disjunctions is never confused. The verification condition handed to the back ends is the conjunction of all obligations of all analyses of the driver, together with every variable, predicate and target-language function they use.",
 ["inputs", "programs"], "every list of conditions",
 "Tests never join more than two conditions through the helpers.",
 ["metalift/vc_util.py", "metalift/frontend/llvm.py", "metalift/frontend/python.py"], [("joining helpers", "metalift/vc_util.py"), ("verification condition", "metalift/frontend/*.py Driver.synthesize")])

prop("P23", "The control-flow graph handed to the analysis is faithful",
 "Every block's successors are exactly the targets of its terminator and its predecessors are exactly the blocks that name it as a target; the entry is analysed first and a block only after all its forward predecessors. Loop headers, bodies, latches and exits come from the loop description unchanged, matching function names literally.",
 ["programs"], "every function's control-flow graph",
 "No test parses LLVM IR.",
 ["metalift/analysis.py", "metalift/frontend/llvm.py", "metalift/frontend/utils.py"], [("graph construction", "metalift/analysis.py setupBlocks"), ("loop description", "metalift/analysis.py parseLoops / frontend parse_loops")])

prop("P24", "The preparation pass preserves the program",
 "The LLVM preparation pass gives each edge of a two-way branch its own new block that only jumps to the edge's original target, keeps condition and polarity, and redirects every phi of that target from the old predecessor to the new block for that edge only, also when both edges lead to one block or back to the branch. No other block, instruction or operand is added, removed or changed, the function attributes do not matter, functions handled one after another do not influence each other, and the pass reports a change exactly when it made one. It is registered under its documented name.",
 ["programs"], "every function and every two-way branch",
 "The build only compiles the pass; no test runs it.",
 ["llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"], [("edge splitting", "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp runOnFunction")])

prop("P25", "Library calls are modelled by the operation they perform",
 "Each modelled container operation (constructor, length, read, write, append, prepend, tail, concatenation, equality, set algebra, tuple and struct field access) yields the expression of that operation on the receiver and arguments in call order, writes the new value back to the receiver exactly when the operation mutates it, and leaves all other program variables unchanged. The model found for a mangled or Python name is the one of the operation that name denotes.",
 ["programs"], "every modelled call, arbitrary arguments",
 "No test imports a front end or calls a model.",
 ["metalift/models.py", "metalift/frontend/llvm.py", "metalift/frontend/python.py"], [("models", "metalift/models.py, metalift/frontend/llvm.py"), ("model registry", "metalift/models.py fnModels, metalift/frontend/llvm.py")])

prop("P26", "LLM answers are read as the Python they are",
 "A function written by a language model is either rejected with an error or translated into the function of the same meaning: every integer operator (+ - * // / % and unary minus), comparison (chained ones included), and/or, conditional expression, index, slice with one or two bounds, len, list concatenation, empty list and call of a target-language function becomes the corresponding expression with its operands in order (non-negative indices; / is the integer division of the IR). Parameters are sorted by name and recursive calls follow that order; an assignment of the returned variable, comments and doc strings do not matter. A lambda argument becomes one function named after the parameter it is passed for, equal lambdas share it, different ones get different names, also across the answers of one session. Other operators, list displays with elements, comprehensions, methods, unknown functions, keyword or starred arguments, wrong numbers or types of arguments, steps in slices, control flow, further statements, missing annotations and a wrong number of functions are rejected.",
 ["inputs"], "every answer text made of these constructs",
 "No test imports the parser.",
 ["llmlift_scripts/parser.py"], [("answer translator", "llmlift_scripts/parser.py mypy_node_to_ir"), ("entry", "llmlift_scripts/parser.py check_solution")])

prop("P27", "LLMLift reports only what the verifier accepted",
 "The LLMLift loop reports a summary only when verification is switched off or the verifier was asked about that very summary together with readable invariants and replied unsat on its first line; any other reply (sat, unknown, nothing, an error, a killed process) makes it go on to the next answer, and it ends with an error when none is left. The question contains the summary as an equation between the output variable and the answer's body under the name the condition uses, the invariants under the names the condition uses, every function lifted from a lambda, the target-language functions and axioms that are used, every variable, and the condition to be proved, for the SMT and for the Rosette verifier. Answers of all supported models are read as one text, and ite(c, a, b) in them means the conditional.",
 ["inputs", "histories"], "every sequence of model answers and verifier replies",
 "No test runs the loop; it needs a language model, a verifier and their failures.",
 ["llmlift_scripts/synthesis.py", "llmlift_scripts/utils.py"], [("loop", "llmlift_scripts/synthesis.py run_llm_synthesis_algorithm"), ("verifiers", "llmlift_scripts/synthesis.py verify_benchmark_smt, verify_benchmark_rosette"), ("naming", "llmlift_scripts/synthesis.py process_synthesized_fn_decls")])

prop("P28", "Verification-condition simplification preserves validity",
 "The simplification every synthesis run applies to its verification condition (dropping constants from conjunctions and, when equality optimization is on, substituting values a premise requires and removing equalities whose variable occurs nowhere else) ends, and leaves the condition valid for a choice of invariants and summaries exactly when it was valid before. Every variable of the simplified condition is among those handed to the search, under one type. The same holds for both synthesis back ends.",
 ["programs"], "every verification condition of equalities, predicates, conditionals and connectives",
 "No test turns the optimization on; whether a condition keeps its validity depends on which variables occur where and on the polarity of each implication.",
 ["metalift/ir.py", "metalift/synthesize_rosette.py", "metalift/synthesize_cvc5.py"], [("equality optimization", "metalift/ir.py optimize_useless_equality, collectKnowledge, rewrite, simplify"), ("fixpoint", "metalift/synthesize_rosette.py synthesize, metalift/synthesize_cvc5.py synthesize")])

prop("P29", "Tensor search spaces are closed, well typed and complete to their depth",
 "Every ready-made search space of the tensor library (matrix computation, selection and dissolve; general and with holes) offers only candidates that are well typed, mention only the parameters of the predicate they are for, and call only functions the space's target language declares; every function declared without a definition is synthesized exactly once under its declared signature. A grammar of expressions up to a depth contains every arithmetic or elementwise expression up to that depth over its operands, with both operand orders of subtraction and division, with and without the product with an additional matrix, and below depth 3 nothing else. The predicates bound each loop counter from its first value to one past its last and contain the operation applied to the part already processed; the summary contains it applied to the whole operands; the selection synthesized for a blend kernel contains the pixel that kernel computes. The list of library functions is closed under calls, and each axiom is listed for a function it is about.",
 ["inputs"], "every space, depth, relaxation and operand choice",
 "The spaces contain thousands of candidates each; a missing or ill-typed candidate only shows when a synthesis needs it or the solver picks it.",
 ["metalift/utils/tenspiler/tenspiler_common.py", "metalift/utils/tenspiler/constants.py"], [("spaces", "metalift/utils/tenspiler/tenspiler_common.py get_*_search_space"), ("depth-bounded grammars", "metalift/utils/tenspiler/tenspiler_common.py get_*_eq_or_below_depth"), ("library tables", "metalift/utils/tenspiler/constants.py")])

# properties that static analysis does not decide here
prop("N01", "The list and integer axioms given to the solver are true",
 "Every axiom in the SMT prelude and every target-language axiom holds for all lists, matrices and integers under the recursive definitions.",
 ["inputs"], "all lists and integers", "Truth of a universally quantified statement about recursive functions cannot be sampled.",
 ["metalift/utils/list-axioms.smt", "metalift/utils/integer-fn-axioms.smt", "metalift/utils/tenspiler/axioms.py"], [("axioms", "metalift/utils/*.smt")])
prop("N03", "Synthesis finds a candidate whenever the grammar contains one",
 "If the grammar contains a summary and invariants that satisfy the verification condition, synthesis eventually returns one.",
 ["programs", "histories"], "all grammars and conditions", "A liveness claim about an external solver.",
 ["metalift/synthesize_rosette.py", "metalift/synthesize_cvc5.py"], [("search loop", "metalift/synthesize_rosette.py")])
prop("N04", "Bounded integer results agree with machine arithmetic",
 "A program verified over mathematical integers behaves the same when run with machine integers, including division of negative numbers, overflow and shifts.",
 ["inputs"], "all machine integers", "Numerical agreement over the whole integer range.",
 ["metalift/ir.py", "metalift/frontend/llvm.py"], [("integer model", "metalift/ir.py Div/Mod")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
