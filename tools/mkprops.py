"""Regenerates /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


p("C01", "Python front end: verification conditions match the program exactly",
  "For every program in the supported Python subset, the verification conditions produced for it are all true when each "
  "loop invariant is taken to be the set of states the loop head really reaches and the summary is taken to be the set of "
  "(arguments, result) pairs the program really produces, provided the parameters a loop uses are not reassigned. Conversely no summary that omits "
  "a result the program really produces, and no invariant that omits a state its loop head really reaches, satisfies them. "
  "A program using a construct outside the subset is rejected, never given conditions that mean something else.",
  ["programs", "inputs"],
  "Every function over int / list[int] / set[int] built from assignments, if/else, (nested, sequential) while loops, early "
  "returns, comparisons (chained too), boolean connectives, list indexing/append/len, set add/remove and uninterpreted calls; every input of each.",
  "The runnable tests never call the front end (they need LLVM/Rosette and a handful of hand written drivers); whether the "
  "obligations cover every path of every program is a statement over all programs and all executions.",
  ["metalift/frontend/python.py", "metalift/vc_util.py", "metalift/frontend/utils.py", "metalift/mypy_util.py"],
  [("VCVisitor: path conditions, havoc at loops, merge at joins", "metalift/frontend/python.py"),
   ("PredicateTracker: argument lists of invariants and summaries", "metalift/frontend/python.py"),
   ("and_objects / or_objects", "metalift/vc_util.py")],
  ["driver.asserts", "driver.postconditions", "driver.inv_tracker.predicates"],
  state=[("State.precond/vars/asserts", "symbolic state of one control path", "metalift/frontend/python.py")])

p("C02", "LLVM front end: verification conditions match the compiled program exactly",
  "For every C/C++ function in the supported subset, compiled and passed through the repository's LLVM pass, the verification "
  "conditions are all true when each invariant is the set of states its loop head really reaches and the summary is the set of "
  "(arguments, result) pairs really produced. Conversely no summary or invariant that omits something the program really "
  "produces or reaches satisfies them. An unsupported instruction or call is rejected rather than silently ignored.",
  ["programs", "inputs"],
  "Every function over int, bool and list/vector values built from assignments, if/else, nested and sequential loops, "
  "comparisons, arithmetic (division of non-negative numbers) and the list/vector/set/tuple helpers; every input of each within the integer widths.",
  "The LLVM drivers are not among the runnable tests; they cover about a dozen fixed programs and only check that synthesis finished.",
  ["metalift/frontend/llvm.py", "metalift/vc_util.py", "headers/list.h", "headers/sets.h", "headers/tuples.h"],
  [("VCVisitor over basic blocks: path conditions, phi-by-memory merge, havoc, invariant calls", "metalift/frontend/llvm.py"),
   ("LoopInfo / parse_loops", "metalift/frontend/llvm.py"),
   ("fn_models: meaning of helper calls", "metalift/frontend/llvm.py")],
  ["driver.asserts", "driver.pred_tracker.predicates"])

p("C03", "The LLVM pass never changes what a program computes",
  "Running the branch-splitting pass on a module succeeds and leaves every function's observable behaviour (results and memory effects) "
  "unchanged for every input, leaves a module the LLVM verifier accepts, and afterwards the two targets of every conditional branch are "
  "different blocks that nothing else jumps to (branches that share a target, with phis or without, included; switches keep working).",
  ["programs", "inputs"],
  "Every LLVM IR function (conditional branches, equal and shared targets, switches, phis, loops, multiple functions per module); every input.",
  "The pass has no test of its own; compile scripts in tests only use it as a preprocessing step.",
  ["llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"],
  [("insertion of empty blocks on the edges of conditional branches", "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp")],
  ["opt -load libAddEmptyBlocksPass.so -addEmptyBlock", "execution of the module before and after"])

p("C04", "SMT rendering of an expression means what the expression means",
  "For every well-typed expression and every assignment of its variables, the SMT-LIB text produced for it is well-formed and "
  "denotes the value the expression denotes; function definitions, recursive definitions and axioms rendered to SMT-LIB "
  "define the same functions and facts.",
  ["programs", "inputs"],
  "Every expression over integers, booleans, lists, matrices, sets, tuples, lets, conditionals and calls of target-language "
  "functions, every nesting, every value assignment.",
  "The tutorial tests print a few expressions; meaning preservation quantifies over all expressions and all valuations.",
  ["metalift/ir.py", "metalift/smt_util.py", "metalift/utils/list-axioms.smt", "metalift/utils/tuples.smt"],
  [("toSMT renderers of every expression class", "metalift/ir.py"), ("function-name and sort mapping", "metalift/ir.py")],
  ["str(Expr)/toSMT output evaluated by an independent SMT-LIB evaluator"])

p("C05", "Rosette rendering of an expression means what the expression means",
  "For every well-typed expression and every assignment of its variables, the Rosette text produced for it reads back as one "
  "well-formed form that, evaluated with the repository's Rosette library, yields the value the expression denotes; function "
  "definitions (bounded or not) rendered to Rosette define the same functions.",
  ["programs", "inputs"],
  "Every expression over integers, booleans, lists, matrices, 3-d tensors, sets, tuples, lets, conditionals and calls of "
  "target-language functions, every nesting, every value assignment within the recursion bound.",
  "No test evaluates Rosette output; meaning preservation quantifies over all expressions and all valuations.",
  ["metalift/ir.py", "metalift/rosette_translator.py", "metalift/utils/utils.rkt", "metalift/utils/bounded.rkt"],
  [("to_rosette renderers", "metalift/ir.py"), ("get_list_fn / get_integer_fn name mapping", "metalift/ir.py"),
   ("library definitions", "metalift/utils/utils.rkt")],
  ["to_rosette output evaluated by an independent Racket evaluator that loads utils.rkt"])

p("C06", "Python rendering of an expression means what the expression means",
  "For every well-typed expression in the Python-renderable fragment and every assignment of its variables, the Python source "
  "produced for it parses and evaluates to the value the expression denotes, at every nesting of operators; rendered function "
  "definitions compute the same function.",
  ["programs", "inputs"],
  "Every expression over integers, booleans, lists, tuples, conditionals, slices and calls (also of function-valued variables); every valuation.",
  "Only single hand-picked expressions are rendered by the repository's scripts and none is re-evaluated.",
  ["metalift/ir.py"],
  [("to_python renderers: operator precedence, slices, conditionals, tuples", "metalift/ir.py")],
  ["to_python output evaluated by Python itself"])

p("C07", "A synthesizer answer is read back as the expression it prints",
  "For every function body the synthesis back end can print, parsing the printed answer yields definitions whose meaning equals the "
  "printed text's meaning, with the right name, parameters and result type for each function and none lost or duplicated; "
  "an answer that cannot be interpreted is rejected.",
  ["programs", "inputs"],
  "Every well-formed answer text for every set of functions to synthesize: any operator, nesting, lets, lists, slices, tuples, calls, lambdas; any interleaving of other output lines.",
  "Rosette is not available to the test suite; the parser is only exercised by the handful of answers it happened to return.",
  ["metalift/synthesize_rosette.py", "metalift/synthesis_common.py"],
  [("parse_output", "metalift/synthesize_rosette.py"), ("to_expr / toExpr", "metalift/synthesize_rosette.py")],
  ["synthesize() return value", "to_expr"])

p("C08", "Rewriting and simplifying expressions never changes their meaning",
  "Simplification, common-subexpression sharing, elimination of redundant equalities, argument mapping, variable renaming and "
  "substitution, and generic rewriting return an expression equal in value to the specified one for every "
  "assignment of variables, and never modify the expression they were given.",
  ["programs", "inputs"],
  "Every expression and every valuation; every substitution or mapping function.",
  "No test runs these passes; soundness quantifies over all expressions and valuations.",
  ["metalift/ir.py", "metalift/rosette_translator.py", "llmlift_scripts/utils.py", "llmlift_scripts/synthesis.py"],
  [("simplify / rewrite / map_args / replaceExprs / findCommonExprs", "metalift/ir.py"),
   ("collectKnowledge / optimize_useless_equality / count_variable_uses", "metalift/ir.py")],
  ["value of the expression before and after"])

p("C09", "Only candidates the verifier accepted are ever returned",
  "Whatever the synthesizer and the verifier processes do (candidates in any order, refutation, unknown, timeout, crash, empty "
  "or garbled output, solution files left by earlier runs), a returned solution is one for which the verifier answered `unsat` on "
  "a file that defines exactly that solution and asserts the negated verification condition (unless verification was switched off). "
  "Candidates are verified one after the other, in the order in which they were found, each once, up to rounds_to_guess further rounds; "
  "the first accepted one is what the search returns, with the signature of the problem, and what the driver reports for each function; "
  "every later round of the emitted search problem excludes exactly the solutions of all earlier rounds; and when no candidate is "
  "accepted, or the synthesizer refuses or dies, the search ends with an error, never with a result and never waiting forever.",
  ["histories", "fault_sequences"],
  "Every sequence of candidate answers and verifier verdicts/failures.",
  "Needs the external solvers in the loop and their failures; no runnable test drives the loop.",
  ["metalift/synthesize_rosette.py", "metalift/synthesis_common.py", "metalift/synthesize_cvc5.py"],
  [("CEGIS loop with candidate exclusion", "metalift/synthesize_rosette.py"),
   ("verify_synth_result", "metalift/synthesis_common.py")],
  ["argv, stdin and files seen by the synthesizer/verifier processes", "return value / exception"])

p("C10", "A search grammar denotes exactly its choices",
  "The search space emitted for a grammar contains exactly the expressions obtained by picking one alternative at each choice "
  "point: nothing expressible in the grammar is missing, nothing else can be produced, and distinct choice points stay independent.",
  ["programs"],
  "Every grammar built from choices, conditionals, operators, tuples and calls, with any nesting and sharing of choice points.",
  "A test can look at one emitted grammar; the equality of the two sets for every grammar cannot be sampled from the tutorial examples.",
  ["metalift/ir.py", "metalift/rosette_translator.py"],
  [("Choose / Synth renderers", "metalift/ir.py"), ("choose expansion with max bound", "metalift/ir.py")],
  ["emitted define-grammar / synth-fun text, enumerated"])

p("C11", "Bounded search inputs cover every value up to the bound",
  "The symbolic inputs generated for a type and a bound can take every value of that type whose sizes are within the bound "
  "(all lengths from zero to the bound for lists, sets and nested lists; every number of rows with bound columns for matrices and tensors; every component of tuples), every variable of the problem is declared exactly once before use, and "
  "distinct variables are independent.",
  ["configurations", "inputs"],
  "Every supported type, every bound, every multiset of variables.",
  "The set of values representable by generated symbolic code is not observable by a unit test without a Racket runtime.",
  ["metalift/rosette_translator.py", "metalift/synthesize_rosette.py"],
  [("generate_vars / gen_var", "metalift/rosette_translator.py")],
  ["emitted .rkt declarations enumerated by an evaluator"])

p("C12", "The emitted verification problem says exactly what has to be verified",
  "The SMT file written for a candidate declares each symbol exactly once and before its use, contains the definition of every function the verification condition can reach "
  "and of each synthesized function unchanged in meaning, and is satisfiable exactly when the candidate violates the "
  "verification condition; function-valued arguments and axioms are expanded without changing meaning.",
  ["programs", "inputs"],
  "Every target language (with helper, recursive, uninterpreted and higher-order functions), candidate and verification condition.",
  "Drivers write one fixed file each and none is runnable here; correctness of the assembly quantifies over all dependency graphs and candidates.",
  ["metalift/smt_util.py", "metalift/synthesis_common.py", "metalift/ir.py"],
  [("toSMT assembly", "metalift/smt_util.py"), ("topological ordering of definitions", "metalift/smt_util.py"),
   ("higher-order argument inlining", "metalift/smt_util.py")],
  ["the .smt file handed to the solver"])

p("C13", "Every axiom given to the verifier is true of the functions it describes",
  "Each axiom the library adds to a verification problem (list, matrix, integer and tensor-operation axioms) holds for all "
  "values of its variables under the defining equations of the functions it mentions, so that no false program can be verified by means of an axiom.",
  ["inputs"],
  "Every axiom, every instantiation of its quantified variables.",
  "An inconsistent or wrong axiom makes verification succeed more often, which no positive test can notice.",
  ["metalift/utils/list-axioms.smt", "metalift/utils/integer-fn-axioms.smt", "metalift/utils/map-axioms.smt",
   "metalift/utils/tenspiler/axioms.py", "metalift/utils/tenspiler/constants.py"],
  [("SMT axiom files", "metalift/utils/*.smt"), ("Axiom objects", "metalift/utils/tenspiler/axioms.py")],
  ["each axiom evaluated on concrete instances"])

p("C14", "The tensor target language computes the tensor operations it names",
  "Each operation of the tensor target language (element-wise and scalar-broadcast arithmetic, reductions, selections, maps, slices, "
  "transposes and matrix-vector product on vectors, matrices and 3-d tensors) returns, on all well-shaped inputs, the value of the "
  "mathematical operation it is named after; its SMT and Rosette library counterparts agree with it, and its search-space "
  "builders only offer well-typed expressions.",
  ["inputs", "configurations"],
  "Every operation, every shape and value.",
  "No runnable test executes the operations; a slip in one recursive definition is invisible to the printing tests.",
  ["metalift/utils/tenspiler/tenspiler_common.py", "metalift/utils/tenspiler/constants.py", "metalift/utils/utils.rkt", "metalift/utils/list-axioms.smt"],
  [("function declarations", "metalift/utils/tenspiler/tenspiler_common.py")],
  ["evaluation of the declared bodies"])

p("C15", "Transpilations are independent of each other and reproducible",
  "The verification conditions, grammar and generated files obtained for a program depend only on that program, the target language, the "
  "grammars and the driver's own earlier calls: not on other drivers or analyses made before in the same process, nor on hash seeds.",
  ["histories", "configurations"],
  "Every sequence of analyses, calls and renderings in one process; every hash seed.",
  "Each test runs one transpilation in one process order; leaks need sequences.",
  ["metalift/frontend/python.py", "metalift/frontend/llvm.py", "metalift/analysis.py", "metalift/ir.py", "metalift/smt_util.py"],
  [("State / Driver / trackers holding per-run state", "metalift/frontend/python.py")],
  ["driver.asserts", "variables", "emitted text compared across histories and processes"])

p("C16", "Operators build the expression they denote and reject ill-typed operands",
  "Every Python operator, method and helper of the value types (arithmetic with reflected operands, comparisons, indexing, slicing, "
  "concatenation, membership, set and tuple operations, conditionals) yields an expression of the right type whose value equals the corresponding "
  "operation on the values; a combination of operand types that has no meaning is rejected when it is built.",
  ["programs", "inputs"],
  "Every operator and method, every combination of operand types (wrapped or plain Python values), every value.",
  "The tutorial tests use about ten operator/operand combinations and look at their printed form only.",
  ["metalift/ir.py"],
  [("operator overloads of Bool, Int, List, Matrix, Tensor3D, Set, Tuple, Fn", "metalift/ir.py"), ("expression constructors' type checks", "metalift/ir.py")],
  ["constructed expressions evaluated by a reference evaluator"])

p("C17", "Model-written Python solutions are translated faithfully or rejected",
  "For every solution text, either it is rejected, or each function in it becomes a definition that computes on every well-typed input what the "
  "Python function computes (operators, conditionals, slices, calls, lambdas), with the right parameters in the right "
  "order; in particular operator precedence, comparison direction and call argument order are kept. Functions "
  "written in the subset shown to the model (integer arithmetic, comparisons and their chains, and/or, conditional expressions, indexing and "
  "slicing without steps or negative constants, calls with positional arguments, lambdas as arguments) are not rejected.",
  ["programs", "inputs"],
  "Every Python text in and near the accepted subset, every input.",
  "There is no test of the solution parser at all.",
  ["llmlift_scripts/parser.py", "llmlift_scripts/utils.py"],
  [("mypy AST to expression translation", "llmlift_scripts/parser.py")],
  ["check_solution result evaluated against Python itself"])

p("C18", "A model-written solution is accepted only when verification succeeded",
  "The verification step of the language-model pipeline reports success only if the solver's verdict was that the "
  "verification condition is valid for exactly the submitted solution; refuted, unknown, timed-out and failed runs are reported as not verified. "
  "What was tried before changes neither what is given to the solver nor which answer is reported.",
  ["fault_sequences", "inputs"],
  "Every solver verdict and failure mode, every number of benchmarks.",
  "Needs solver outcomes other than success; no test exercises them.",
  ["llmlift_scripts/synthesis.py", "llmlift_scripts/utils.py", "metalift/smt_util.py", "benchmarks/blend/driver"],
  [("verify_benchmark_smt / verify_benchmark_rosette", "llmlift_scripts/synthesis.py")],
  ["return values under stubbed solver processes"])

p("C19", "A SyGuS solver answer is read back as the expression it prints",
  "For every function body in a SyGuS solver's answer, the expression read back denotes the same value as the printed term on every "
  "valuation, with the right type and under the right function name, and what a search through the SyGuS back end returns is a member of "
  "the grammar it was given.",
  ["programs", "inputs"],
  "Every well-typed SyGuS term over the supported operators, every valuation, any number of functions in one answer.",
  "The SyGuS back end is never run by the tests.",
  ["metalift/synthesize_cvc5.py"],
  [("toExpr", "metalift/synthesize_cvc5.py"), ("generateCandidates", "metalift/synthesize_cvc5.py")],
  ["read-back expression vs an independent SMT-LIB evaluator"])

p("C20", "Equal expressions are interchangeable and different ones are kept apart",
  "Structural equality of expressions and values is an equivalence that holds exactly when they have the same constructor, type and "
  "operands, equal ones hash alike, and every set-like container and de-duplication step keyed on it loses no distinct member and "
  "keeps no duplicates.",
  ["programs", "histories"],
  "Every pair and triple of expressions; every sequence of set operations.",
  "A collision needs particular pairs of expressions; the tests compare none.",
  ["metalift/ir.py", "metalift/frontend/utils.py", "metalift/vc_util.py"],
  [("Expr.__eq__/__hash__, Object equality", "metalift/ir.py"), ("ObjectSet", "metalift/frontend/utils.py"), ("and_objects/or_objects", "metalift/vc_util.py")],
  ["==, hash, containers"])

p("C21", "Rewriting steps over whole definitions change only what they say",
  "The steps applied to finished definitions - pruning conditionals whose condition is constant, copying an expression node by node, dropping "
  "constant conjuncts, renaming the calls of one function, adding arguments to the calls of one function, ordering definitions and collecting the "
  "functions they call - keep every function's name, kind, parameters, types and meaning apart from the stated change and leave their input "
  "untouched; the order puts each definition exactly once and after the ones it calls; and variables requested from a name group get fresh names.",
  ["programs", "histories"],
  "Every set of functions (constant conditions and constant functions at any depth, recursion, sharing, functions passed as values); every sequence of variable requests.",
  "The runnable tests have at most two helper functions and none with constant conditions.",
  ["metalift/synthesis_common.py", "metalift/smt_util.py", "metalift/analysis.py", "metalift/ir.py"],
  [("prune_fn_decls, get_used_fn_names", "metalift/synthesis_common.py"), ("topological_sort, replace_fn_name, augment_arguments", "metalift/smt_util.py"),
   ("VariableTracker groups", "metalift/analysis.py"), ("Expr.map_args, Expr.simplify", "metalift/ir.py")],
  ["returned definitions", "variable names"])

p("C22", "A search space made for a program contains a solution",
  "For every program of the shipped drivers and blend benchmarks, the grammars its driver or the search-space builder named for it makes through "
  "the front end - given the written, read and in-scope variables by name and order - contain a summary and invariants that make the verification "
  "condition hold for every input in the program's domain (a driver with a relaxed retry: in one of the tries); a builder of expressions up to a "
  "depth offers every expression of up to that depth over its operations and leaves, in both orders of the operands, and the helpers for loop "
  "bounds and indices offer the bound or index of every form of loop they are for.",
  ["programs", "inputs"],
  "Every input, every size of its lists and matrices (also non-square), every choice in the grammars, every depth.",
  "The tests that would search need the absent synthesizer; a space that has lost its only solution still builds and only makes a search fail or run forever.",
  ["metalift/utils/tenspiler/tenspiler_common.py", "metalift/frontend/llvm.py", "metalift/frontend/python.py", "metalift/ir.py", "metalift/vc_util.py"],
  [("search-space builders, bounded expressions", "metalift/utils/tenspiler/tenspiler_common.py"), ("Predicate.gen_Synth", "metalift/frontend/llvm.py"),
   ("Predicate.gen_Synth", "metalift/frontend/python.py")],
  ["grammars and verification condition handed to the synthesizer"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
