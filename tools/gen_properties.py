import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
REG="src/core/symbol/registry.rs"; CTX="src/core/unified_context.rs"; EV="src/evaluator/"
p("C01","The global symbol table is one linearizable map from names to symbols",
 "Concurrent calls that create, look up, list, count, remove or clear global symbols behave as if each took effect at one instant between its call and its return, on one map from names to symbols. In particular all threads that ask for a name get the same symbol as long as nobody removes it, exactly one of several strict creations of a name succeeds, and a removal or clear that has returned is seen by every thread.",
 ["schedules","histories"],"every interleaving of calls of any number of threads, every history of creations and removals",
 "Unit tests call the table from one thread, or from a few threads that only create; no test interleaves lookup, creation, removal and listing, and none controls the schedule.",
 [REG,"src/core/symbol/mod.rs","src/core/expr/constructors.rs"],
 [("sharded name maps behind mutexes and a slot map behind a read-write lock","%s"%REG),("thread-local lookup caches invalidated by a removal counter","%s:REMOVALS"%REG)],
 [("REGISTRY","names to keys, keys to symbols",REG),("ID_CACHE, NAME_CACHE","per-thread copies",REG)],["symb, symb_new, symb_get, symbol_exists, symbol_count, symbol_names, remove_symbol, clear_symbols, Expr::symbol, parse"])
p("C02","A symbol handle denotes one symbol for ever, and never another one",
 "Symbols created by whatever route (global name, anonymous, any context, parser) on whatever thread are the same symbol only if they were obtained under the same name from the same table or a context that took the name over from the global table; anonymous symbols are always distinct from all others. Expressions made from a symbol keep its identity and printed name in equality, hashing, differentiation, evaluation and compilation for as long as they exist, also after the name has been removed, cleared or created anew, and a handle never takes on another symbol's name, value or place.",
 ["schedules","histories"],"every interleaving and history of creations, removals, clears and uses of handles",
 "Tests compare a handful of symbols made one after the other; slot reuse, removed names and concurrent creation are not sampled.",
 [REG,"src/core/symbol/mod.rs","src/core/symbol/interned.rs",CTX],
 [("generational keys of a slot map as symbol ids",REG),("identity by key in equality and hashing","src/core/symbol/interned.rs"),("isolated symbols for contexts",REG)])
p("C03","Clones of a context are one table; contexts are isolated from everything else",
 "All clones of a context act as one linearizable table of symbols: what one clone registers, removes or clears, all of them see, from any thread. A context takes over a global symbol of the same name that exists when it first meets the name; otherwise its symbols are its own, and neither global creations and removals nor other contexts change its later answers, nor the results of parsing, differentiating, simplifying, evaluating and compiling in it; and the functions a clone gains, redefines or loses are its own.",
 ["schedules","histories"],"every interleaving of operations on any clones of any number of contexts and on the global table",
 "The context tests use one thread and one or two contexts; the sharing of clones across threads and the interference with global removals are not tested.",
 [CTX,REG,"src/api/builder.rs","src/parser/pratt.rs"],
 [("shared symbol map behind a read-write lock",CTX),("lookup of the global name before an isolated symbol is made",CTX),("symbols found by name within the expression","src/core/expr/analysis.rs")],
 [("ContextInner.symbols","the context's names",CTX)])
p("C04","Concurrent first use of the library gives the results of sequential use",
 "Whatever calls are the library's very first in a process, made by whichever threads at the same moment, each returns what it would return if the calls were made one after the other, and none panics or deadlocks.",
 ["schedules","programs"],"every set of first calls, on any number of threads, in every interleaving of the lazy initialisations they trigger",
 "A test process initialises the tables once, in an order fixed by the test runner; a schedule in which two entry points initialise dependent tables at once is practically never met.",
 ["src/core/known_symbols.rs","src/functions/registry.rs","src/simplification/engine.rs","src/parser/lexer.rs","src/core/expr/mod.rs","src/diff/engine.rs",REG],
 [("lazily built tables (LazyLock, OnceLock)","src/core/known_symbols.rs, src/functions/registry.rs, src/simplification/engine.rs, src/parser/lexer.rs, src/core/expr/mod.rs, src/diff/engine.rs")])
p("C05","Parallel numeric batch evaluation equals sequential evaluation, point by point",
 "For every compiled formula, number of points and number of worker threads, parallel batch evaluation of several expressions or of one returns for every input point, in input order, exactly the value that sequential evaluation of the same batch gives, and as many values as there are points. Input columns of different lengths, a wrong number of columns or too short an output are refused with an error whatever the size, and no schedule, stolen task, concurrent caller or earlier use of a scratch buffer changes a result.",
 ["schedules","inputs","configurations"],"all formulas, batch sizes and shapes, pool sizes, task interleavings and concurrent callers",
 "Tests evaluate a few sizes on the machine's own pool, where tasks are rarely stolen or interleaved in unusual ways; chunk boundaries, remainders and malformed shapes are hit only at a few sizes.",
 ["src/bindings/eval_f64.rs","src/evaluator/mod.rs","src/evaluator/execution.rs","src/evaluator/simd.rs"],
 [("chunked rayon tasks with per-task buffers","src/bindings/eval_f64.rs"),("parallel batch with SIMD chunks and scalar remainder","src/evaluator/execution.rs")])
p("C06","Parallel symbolic evaluation equals evaluating each point on its own",
 "For every list of expressions, variables and values, parallel evaluation returns one row per expression and one cell per point, in order, and each cell is what substituting that point's values (a number, an expression, or nothing for a skipped value; a column's last value for points beyond its end) and evaluating gives, as text when the expression was given as text and as an expression otherwise. Neither the number of worker threads nor the schedule nor concurrent callers change any cell.",
 ["schedules","inputs","configurations"],"all inputs, pool sizes, task interleavings and concurrent callers",
 "Tests check a few small inputs on the machine's own pool.",
 ["src/bindings/parallel.rs"],[("rayon tasks per expression and point with a numeric fast path and a symbolic path","src/bindings/parallel.rs")])
p("C07","A shared compiled evaluator gives every thread its own correct results",
 "Any number of threads may use one compiled evaluator at the same time, in any mix of scalar, batch, SIMD and parallel calls and from its first use on, and each call returns what a private evaluator of the same formula returns for the same input. No call sees another call's inputs, buffers or intermediate values.",
 ["schedules","inputs","programs"],"all formulas, inputs, mixes of calls and interleavings",
 "Tests use an evaluator from one thread at a time; its lazily built constants and its buffers are never contended.",
 ["src/evaluator/mod.rs","src/evaluator/execution.rs","src/evaluator/stack.rs","src/evaluator/simd.rs"],
 [("immutable bytecode with a per-call stack and cache","src/evaluator/execution.rs"),("lazily built SIMD constants","src/evaluator/mod.rs:simd_constants")])
p("C08","Results do not depend on hash seeds, addresses, ids, history or thread",
 "The observable result of a call (text, tree shape, order of terms, names and parameters, values, errors) is a function of its arguments alone. It is the same in every process and on every thread, whatever the hash seed, the heap layout, the symbols and expressions created before and in which order, and the calls made earlier.",
 ["configurations","histories","programs"],"all hash seeds, heap layouts, creation orders and histories of earlier calls, for all programs of API calls",
 "A test sees one hash seed, one heap layout and one history per process; output that depends on them passes or fails at random, and assertions on one fixed history cannot see that another one gives another form.",
 ["src/core/expr/ordering.rs","src/core/expr/hash.rs","src/core/expr/constructors.rs","src/simplification/","src/core/display.rs","src/evaluator/compiler.rs","src/core/expr/analysis.rs","src/uncertainty.rs"],
 [("canonical order of terms by structure and name","src/core/expr/ordering.rs"),("structural hashing verified by structural equality","src/core/expr/hash.rs"),("sorted variables and parameters","src/evaluator/mod.rs, src/uncertainty.rs")])
p("C09","Uncertainty propagation does not depend on pool size, schedule or callers",
 "Propagation of uncertainties, absolute or relative, with or without covariances, returns the same expression or the same error for every number of worker threads, every schedule of the parallel differentiation and every set of concurrent callers. Terms belong to the variables they are given for, in the given order.",
 ["schedules","inputs","configurations"],"all formulas, variable lists and covariance matrices, pool sizes, interleavings and concurrent callers",
 "Tests run on the machine's own pool, where the partial derivatives nearly always finish in order.",
 ["src/uncertainty.rs","src/api/helpers.rs"],[("parallel partial derivatives collected in variable order","src/uncertainty.rs"),("parallel gradient, Hessian and Jacobian","src/api/helpers.rs")])
p("C10","User code may fail or call back into the library at any point",
 "User code that the library calls (function bodies, partial derivatives, custom evaluations, mapping, folding, visiting, name conversions) may panic or call any part of the library, including the context it is called for, on any thread. A panic reaches exactly the caller of that call, no lock stays held or poisoned, no call blocks, and all other and all later calls, repeated ones included, give the results they give without it.",
 ["fault_sequences","schedules","programs"],"failures and re-entrant calls at every invocation of every kind of user code, under all interleavings",
 "Tests use well-behaved closures from one thread; none panics, and none calls back into a context that other threads use.",
 [CTX,"src/evaluator/mod.rs","src/diff/engine.rs","src/simplification/","src/core/expr/evaluate.rs","src/core/expr/analysis.rs","src/core/visitor.rs"],
 [("locks are never held while user code runs",CTX+", "+REG),("panics propagate through unwinding","std, rayon")])
p("C11","Values may be dropped by any threads at once, however deep and shared",
 "Expressions, contexts and evaluators of any depth and any sharing can be dropped on any threads at the same time, also on threads with small stacks and by destructors of thread-local values when a thread ends: dropping never overflows the stack, every part is freed exactly once and none is kept for ever, and what is still held elsewhere stays unchanged and usable.",
 ["schedules","inputs","histories"],"all shapes, depths and sharings, all interleavings of drops",
 "The tests drop one deep unshared expression on one thread with a large stack.",
 ["src/core/expr/mod.rs","src/core/poly.rs",CTX],
 [("iterative destruction that takes children out of nodes it owns alone","src/core/expr/mod.rs:Drop for Expr"),("base of a polynomial handed to the same queue","src/core/poly.rs:take_base")])
p("C12","Library calls leave no memory behind",
 "Repeating a program of library calls, on new threads each time, does not take more memory each time: once its results are dropped, its threads have ended and the global symbols it created are removed, memory in use returns to the level of an earlier repetition. This holds whatever the calls return, also when they fail, when user code they call panics and when threads end while they own values or call the library from thread-local destructors, and however threads interleave. Anonymous symbols and symbols that a context creates for itself live as long as the process and do not count.",
 ["schedules","programs","fault_sequences","histories"],"all programs of API calls, all interleavings, all panics of user code and thread ends",
 "No test looks at memory; a leak changes no result.",
 ["src/core/expr/mod.rs",CTX,REG,"src/evaluator/mod.rs","src/bindings/parallel.rs"],
 [("iterative destruction that frees every node","src/core/expr/mod.rs:Drop for Expr"),("removal of a symbol frees its name and its id entry",REG+":remove_symbol"),("no global or thread-local caches that grow with use","src/")])
p("C13","Concurrent removal of names in use never panics, blocks or corrupts",
 "While some threads remove, clear and re-create symbols, any calls of other threads on formulas with those very names return, with a result or an error, after a bounded number of steps: no panic, deadlock, livelock or data race. When the removals have stopped, every call again gives the result it gives alone.",
 ["schedules","histories","programs"],"all programs of API calls, all interleavings with removals, clears and creations of the names in use",
 "No test removes symbols while another thread uses them.",
 [REG,"src/core/symbol/mod.rs",CTX,"src/core/known_symbols.rs"],
 [("lookups that tolerate a symbol removed meanwhile",REG),("locks taken in one order, one at a time",REG)])
p("C14","Library calls work while a thread is ending",
 "Destructors of the user's thread-local values may own any library values and make any library calls when their thread ends, in whatever order thread-local values are destroyed and whatever other threads do. The calls give the results they give on a living thread, and the process never aborts.",
 ["schedules","crash_points","programs"],"all orders of thread-local destruction, all calls made from them, all interleavings with other threads",
 "No test makes a library call from a thread-local destructor.",
 [REG,"src/core/expr/mod.rs"],[("thread-local caches that are only tried",REG),("no other thread-local state","src/")])
p("C15","Built-in functions and constants survive removal and clearing of symbols",
 "Removing built-in names or clearing the symbol table, at any time and from any thread, never changes what formulas made of numbers, built-in constants and built-in functions mean: parsing, printing, differentiation, simplification, evaluation and compilation give the results they give without it. Formulas with variables that are built afterwards likewise behave as in a fresh process.",
 ["schedules","histories","programs"],"all formulas, all interleavings and histories of removals and clears",
 "Tests that clear the table check only that names are gone; none then differentiates or evaluates, and none does so concurrently.",
 [REG,"src/core/known_symbols.rs","src/functions/registry.rs"],[("built-in symbols are kept by removal and clearing",REG),("known symbols and function tables keyed by symbol id","src/core/known_symbols.rs, src/functions/registry.rs")])
p("C16","Threads that work with different names do not affect one another's results",
 "The result of any call is the same whether it runs alone or while other threads make any calls that do not remove or redefine the names it uses. This covers parsing, differentiation, simplification, evaluation, compilation, parallel evaluation, uncertainty propagation, gradients, contexts and user functions.",
 ["schedules","programs"],"all programs of API calls on any number of threads, all interleavings",
 "The test runner runs tests on several threads, but on schedules it does not control and with results that are compared only to a few fixed strings.",
 ["src/"],[("no shared mutable state but the symbol table, contexts' tables and lazily built constants",REG+", "+CTX+", src/evaluator/mod.rs")])
p("C17","Values and builders shared by threads act as private ones and never change",
 "Expressions, symbols, contexts, covariance matrices and configured Diff and Simplify builders may be used by any number of threads at the same time by reference, whole or through shared subexpressions, and every call on them (differentiation, simplification, substitution, combination, comparison, hashing, evaluation, compilation, printing, propagation, cloning) returns what it returns on private copies of the same values. An expression is immutable: whatever is done with it or with values made from it, its text, structure, equality and hash stay the same.",
 ["schedules","programs"],"all expressions and builder settings, all programs of calls on them by any number of threads, all interleavings",
 "Tests use each value and each builder from one thread, mostly once; no test looks at an expression again after other calls used it, and none shares a builder.",
 ["src/api/builder.rs","src/core/expr/mod.rs","src/core/expr/hash.rs","src/core/poly.rs",CTX,"src/uncertainty.rs","src/diff/engine.rs","src/simplification/engine.rs"],
 [("immutable nodes behind atomic reference counts","src/core/expr/mod.rs"),("builders that only read their settings during a call","src/api/builder.rs"),("caches that belong to one call","src/simplification/engine.rs")])
p("C18","Parallel calls nest in any thread pool: same results, and always return",
 "Parallel evaluation of numbers and of expressions, parallel batches and uncertainty propagation may be called from inside tasks of any thread pool, of the global one or of the caller's own pools of any size, nested in one another and several at once. Each call returns what it returns when made alone from an ordinary thread, and every call returns, also when a worker that waits inside one call runs the tasks of another.",
 ["schedules","configurations","programs"],"all calls, pool sizes, nestings of scopes, joins, parallel iterators and pools, and all interleavings and steals",
 "Tests call the parallel functions from ordinary test threads; none calls them from a pool's task, and whether a waiting worker picks up another call's task is up to the machine.",
 ["src/bindings/eval_f64.rs","src/bindings/parallel.rs","src/uncertainty.rs",EV],
 [("rayon parallel iterators without locks held around them","src/bindings/eval_f64.rs, src/bindings/parallel.rs, src/uncertainty.rs"),("buffers that belong to one task","src/bindings/parallel.rs:map_init, src/bindings/eval_f64.rs")])
p("C19","No identity is ever given out twice",
 "Every expression that is built anew, every context that is created, and every symbol, whether anonymous, registered or a context's own, has an id that nothing else of its kind has or ever had in the process: whatever threads create at the same time, pool tasks, short-lived threads and destructors of thread-local values included, however many are created, and whether earlier ones still exist or are long dropped or removed.",
 ["schedules","histories","programs"],"all programs that create expressions, contexts and symbols on any number of threads, all interleavings and thread ends",
 "Tests compare the ids of a few values made one after the other on one thread; none creates on several threads at once, or creates again after dropping or removing.",
 ["src/core/expr/mod.rs","src/core/expr/constructors.rs",CTX,REG,"src/core/symbol/mod.rs"],
 [("one atomic counter each for expressions and contexts","src/core/expr/mod.rs:EXPR_ID_COUNTER, src/core/unified_context.rs:NEXT_CONTEXT_ID"),("slot map keys with versions under a lock","src/core/symbol/registry.rs")])
NA=[
("C20","Symbolic derivatives are mathematically correct","For every expression and variable, the derivative evaluates to the derivative of the expression wherever both are defined.",["inputs"],"all expressions and points",["src/diff/engine.rs","src/functions/definitions.rs"],"differentiation rules","src/functions/definitions.rs",
 "a pure function of its input: no schedule, clock, I/O, fault or second party for a simulator to control; deciding it needs numeric or algebraic oracles over inputs. That the result does not depend on schedule, seed or history is claimed (C08, C16)."),
("C21","Simplification preserves the value of expressions","For every expression and every point where it is defined, the simplified expression has the same value, in domain-safe mode on the whole domain.",["inputs"],"all expressions and points",["src/simplification/"],"rewrite rules","src/simplification/rules/",
 "a pure function of its input with nothing to schedule or to fail; random simulation of schedules adds nothing to an input search. Independence of schedule, seed and history is claimed (C08, C16)."),
("C22","Compiled evaluation equals tree evaluation","For every expression the compiler accepts, compiled evaluation returns the value of direct evaluation within rounding.",["inputs"],"all expressions and inputs",["src/evaluator/compiler.rs","src/evaluator/execution.rs","src/core/expr/evaluate.rs"],"bytecode compiler","src/evaluator/compiler.rs",
 "a relation between two pure functions of the same input; no concurrency, time, I/O or fault is involved. The concurrent use of evaluators is claimed (C05, C07)."),
("C23","Printed expressions parse back to equal expressions","Parsing the plain-text form of an expression gives an expression of the same value.",["inputs"],"all expressions",["src/core/display.rs","src/parser/"],"printer and parser","src/core/display.rs, src/parser/pratt.rs",
 "a pure input-output relation with nothing for a simulator to control (and it does not hold for nested powers as printed today)."),
("C24","SIMD evaluation equals scalar evaluation","Vectorised evaluation gives for every lane the value scalar evaluation gives.",["inputs"],"all formulas and inputs",["src/evaluator/simd.rs"],"vectorised instruction set","src/evaluator/simd.rs",
 "a pure per-input relation; whether scheduling or sharing can break batch results is claimed in C05 and C07."),
("C25","Special functions are accurate and terminate for all arguments","Each special function returns a value within its documented accuracy, or NaN outside its domain, after bounded work, for every argument.",["inputs"],"all arguments",["src/math/"],"numerical algorithms","src/math/",
 "pure numeric functions of their arguments; an input search against a reference library is needed, not schedules or faults."),
("C26","The parser is total and enforces its limits","Every text is either parsed or refused with an error, without panic or stack overflow, and depth and size limits hold.",["inputs"],"all texts",["src/parser/"],"lexer and operator-precedence parser","src/parser/",
 "a pure function of one input text; fuzzing of inputs decides it, there is nothing to schedule and no I/O to fail."),
("C27","Uncertainty formulas are the first-order propagation formulas","The propagated uncertainty is the square root of the sum of squared partials times (co)variances.",["inputs"],"all formulas and covariance matrices",["src/uncertainty.rs"],"formula construction","src/uncertainty.rs",
 "the formula is a pure function of its input; that it does not depend on the schedule of its parallel parts is claimed in C09."),
("C28","Dual-number arithmetic gives exact first derivatives","For every supported operation on dual numbers the derivative part is the derivative of the value part.",["inputs"],"all operations and arguments",["src/math/dual.rs"],"forward-mode arithmetic","src/math/dual.rs",
 "pure arithmetic with nothing a simulator could control."),
("C29","Python bindings convert values and errors faithfully","Every value and error crossing the Python boundary keeps its meaning.",["inputs","programs"],"all calls from Python",["src/bindings/python/"],"PyO3 conversions","src/bindings/python/",
 "the bindings run under Python's global lock, which they never release, so no schedule varies there; conversions are pure, and an instrumented Python interpreter to run them in the simulator is not available offline."),
]
for id,t,s,over,qt,files,mn,mw,_ in NA:
    p(id,t,s,over,qt,"The tests sample a finite set of inputs.",files,[(mn,mw)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
claimed=["C%02d"%i for i in (1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19)]
note="seeded random search over schedules, faults and programs on the real code; bounded by the runs made, so what no explored schedule reaches is not covered; trusts the simulator's scheduler, heap and futex model and sequential consistency (plus a happens-before race check) instead of weak memory"
tech={c:"deterministic simulation of threads with seeded schedules and injected faults; " for c in claimed}
tail={"C01":"linearizability check of recorded histories against a map","C02":"identity invariants checked during and after each run","C03":"linearizability check and reference-run comparison","C04":"fresh process per run, compared with sequential reference runs","C05":"bitwise comparison with sequential evaluation","C06":"comparison with pointwise evaluation","C07":"comparison with private evaluators","C08":"varied hash seeds, heap layout, history and threads, compared with a plain run","C09":"comparison with one-thread reference runs","C10":"injected panics and re-entrant calls in user code, compared with fault-free runs","C11":"simulated heap checks conservation, double free and stack bounds","C12":"memory in use compared between repetitions on a simulated heap","C13":"bounded progress and recovery after churn stops","C14":"thread ends at every point, compared with living threads","C15":"comparison with runs without removals","C16":"comparison with each call made alone","C17":"comparison with calls on private copies, values compared before and after","C18":"nested in real and user-made pools, compared with each call made alone, bounded progress","C19":"all ids given in a run compared with one another"}
M={"version":1,"setup_cmd":"bash sim/build.sh","checks":[{"property":c,"quick_cmd":f"bash check.sh {c} quick","thorough_cmd":f"bash check.sh {c} thorough","evidence_file":f"evidence/{c}.json","technique":tech[c]+tail[c],"level":"exploration","level_note":note} for c in claimed],
"not_applicable":[{"property":x[0],"reason":x[-1]} for x in NA],
"notes":"No hooks in /repo: the seams are the operating-system and allocator interfaces the code already uses (threads, futexes, random source, clock, heap), replaced at link time in the simulator's executable. /repo carries only fix: commits."}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); 
