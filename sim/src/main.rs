mod bank;
mod driver;
mod ops;
mod rng;
mod rt;
mod s_api;
mod s_batch;
mod s_callback;
mod s_churn;
mod s_context;
mod s_drop;
mod s_exit;
mod s_identity;
mod s_ids;
mod s_leak;
mod s_nested;
mod s_registry;
mod s_shared;

use driver::{Args, Plan, Tier};
use std::path::PathBuf;

use s_api::{Api, Mode};
static COLD: Api = Api { name: "first-use", mode: Mode::Cold, depth: 2 };
static COLD_ENTRY: Api = Api { name: "first-use-entry-points", mode: Mode::ColdEntry, depth: 1 };
static INTERFERE: Api = Api { name: "api-noninterference", mode: Mode::Interfere, depth: 3 };
static FOCUS: Api = Api { name: "few-calls-often", mode: Mode::Focus, depth: 1 };
static DETERM: Api = Api { name: "environment-independence", mode: Mode::Determinism, depth: 3 };

static SHARED: s_shared::Shared = s_shared::Shared { name: "shared-values", focused: false };
static SHARED_FEW: s_shared::Shared = s_shared::Shared { name: "few-shared-values", focused: true };
static PROGRESS: s_churn::Churn = s_churn::Churn { name: "churned-names", mode: s_churn::Mode::Progress };
static BUILTINS: s_churn::Churn = s_churn::Churn { name: "churned-builtins", mode: s_churn::Mode::Builtins };

const COMMON: &[&str] = &[
    "threads are real OS threads of which exactly one runs at a time; the scheduler switches at every futex wait and wake, atomic access, thread start and end, yield and sleep, and in some runs at plain memory accesses too; weak-memory reorderings are not simulated, but unsynchronised conflicting accesses to instrumented memory are reported (happens-before race detection)",
    "the heap, futexes, clock, random source and thread scheduler are the simulator's; std, rayon, crossbeam, slotmap and the library are the real code, compiled with thread-sanitizer instrumentation for x86-64-v2 (the shipped default build; no AVX)",
    "the search is random: what no explored schedule reaches is not covered",
];

fn plans() -> Vec<Plan> {
    vec![
        Plan {
            property: "C01",
            scenarios: vec![(&s_registry::Linear, 60_000, 1_500_000)],
            rule: "2-4 threads run random histories of symb, symb_new, symb_get, symbol_exists, symbol_count, symbol_names, remove_symbol, clear_symbols, Symbol::anon, Expr::symbol and parse over at most 6 names, some calls on short-lived threads; the recorded history must have a linearization against a sequential map (Wing-Gong-Lowe search, plus per-name projections of the listing calls). Non-trivial: at least two threads and one context switch; distinct by case and switch sequence.",
            assumptions: COMMON,
        },
        Plan {
            property: "C02",
            scenarios: vec![(&s_identity::Identity, 28_000, 700_000)],
            rule: "1-4 threads create symbols (global, anonymous, in shared contexts, in contexts of their own, by parsing), remove and clear them, and meanwhile use one another's handles: name, printed form, equality, hashing, evaluation by id, compilation for explicit symbols, derivatives, gradients, Hessians and Jacobians by handle; at the end no id may serve two names or two separate tables. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C03",
            scenarios: vec![(&s_context::Linear, 40_000, 1_000_000), (&s_context::Isolation, 5_000, 100_000)],
            rule: "Histories of context operations on clones of 1-3 contexts together with global ones, checked for a linearization against a model of one table per context plus the global one; and programs of API calls inside contexts, compared with the same calls made alone while other threads change the global table (creations, removals of the very names and function names, clears) and other contexts. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C04",
            scenarios: vec![(&COLD_ENTRY, 6_000, 120_000), (&COLD, 3_000, 80_000)],
            rule: "Every run is a fresh process in which 2-4 threads make the library's very first calls at once (28 kinds of call); each result must equal the one of the same call made alone, in order, in another fresh process. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C05",
            scenarios: vec![(&s_batch::Batch, 8_000, 160_000)],
            rule: "Random formulas compiled and evaluated on columns of 0-1400, now and then up to 20 000, points around the chunk and SIMD boundaries, up to 24 expressions per call, by eval_f64 and eval_batch_parallel on 1-4 pool threads, from 1-4 callers at once, malformed shapes included; results must equal the sequential evaluation bit by bit (NaN as NaN), in input order and length, malformed input must be refused. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C06",
            scenarios: vec![(&s_batch::Points, 8_000, 160_000)],
            rule: "Random evaluate_parallel calls (string and parsed formulas, up to 5000 points; numbers, symbolic values, some naming other columns, skipped values, short columns) on 1-4 pool threads and 1-4 callers; every cell is compared with substitution and evaluation of that one point alone. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C07",
            scenarios: vec![(&s_batch::Shared, 12_000, 250_000)],
            rule: "One compiled evaluator shared by 2-4 threads that evaluate scalars, batches, SIMD batches and parallel batches on inputs of their own, in part as its first uses; results must equal those of a private evaluator used alone. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C08",
            scenarios: vec![(&DETERM, 12_000, 250_000)],
            rule: "Random API calls run twice in fresh processes: once plainly, once with another hash seed, another heap layout, symbols created earlier in another order, earlier unrelated calls, another order of the calls and another thread; all observable output must be the same text. Non-trivial: every run, since each one differs from its reference in all of these.",
            assumptions: COMMON,
        },
        Plan {
            property: "C09",
            scenarios: vec![(&s_batch::Unc, 6_000, 120_000)],
            rule: "Random uncertainty and covariance propagations on pools of 1-4 threads from 1-4 callers; results and errors must equal those of a one-thread pool, and the value must be that of the propagation formula with the partial derivatives taken one after the other. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C10",
            scenarios: vec![(&s_callback::Callback, 12_000, 250_000)],
            rule: "Function bodies, partials, custom evaluations, map, fold, visitors and name iterators supplied by the user, on 1-4 threads or pool tasks sharing a context; at chosen invocations user code fails (panics) or calls back into the library (same context, registry, parser, simplifier, compiler, parallel evaluation, threads). A failure must reach exactly its own caller, all other results must equal those without any injection, and afterwards every call must work. Non-trivial: a failure or re-entrant call was really injected.",
            assumptions: COMMON,
        },
        Plan {
            property: "C11",
            scenarios: vec![(&s_drop::Drops, 9_000, 200_000)],
            rule: "Expressions of depth 2-6000 of mixed shapes, with nodes shared at random depths, contexts with user functions and evaluators, dropped, passed on and used by 2-4 threads with stacks of 96-256 KiB; the simulated heap checks double free, use after free and that all memory is returned; kept values must stay as they were. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C12",
            scenarios: vec![(&s_leak::Leak, 3_500, 100_000), (&s_leak::Growth, 2_500, 100_000)],
            rule: "1-4 threads, new ones in each of 7-9 rounds, repeat random API calls of all kinds, calls with user code that panics, creation and removal of symbols, clearing, and threads that end with live values and calls from their thread-local destructors; the simulated heap counts the blocks in use after each round; growth in every round after the second is a violation. Besides, 1-3 cheap calls are repeated 64 times on one thread or on one per stage; bytes in use growing over rounds 8, 16, 32 and 64 are a violation. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C13",
            scenarios: vec![(&PROGRESS, 8_000, 150_000)],
            rule: "2-4 threads make random API calls on formulas whose variables' names other threads remove, clear and re-create meanwhile; no call may panic, crash, race, deadlock or fail to finish within the step bound, and once that stops every call must give what it gives alone. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C14",
            scenarios: vec![(&s_exit::Exit, 8_000, 150_000)],
            rule: "1-4 threads end while user thread-local values own expressions, contexts and evaluators whose destructors call the library, before or after the library's own thread-local state was destroyed, while others still work; results must equal those of the same calls in a living thread. Non-trivial: at least two threads and a call really made from a destructor.",
            assumptions: COMMON,
        },
        Plan {
            property: "C15",
            scenarios: vec![(&BUILTINS, 12_000, 200_000)],
            rule: "2-4 threads evaluate, simplify, differentiate, compile and print formulas of constants and built-in functions while others remove those very names, clear the table and re-create symbols; results must equal those without any removal, and so must calls on formulas with variables made afterwards. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C16",
            scenarios: vec![(&INTERFERE, 5_000, 100_000), (&FOCUS, 6_000, 100_000)],
            rule: "2-4 threads make random API calls of all kinds while others work with names of their own; each result must equal that of the same call made alone in another process. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C17",
            scenarios: vec![(&SHARED, 6_000, 120_000), (&SHARED_FEW, 12_000, 200_000)],
            rule: "2-4 threads use the same expressions (which share subtrees), Diff and Simplify builders, context, covariance matrix and symbols by reference, in part as their first use: differentiate, simplify, compile, substitute, combine, compare, evaluate, print, propagate, clone, drop; results must equal those of the same call with values of its own, and afterwards the values must be what they were. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C18",
            scenarios: vec![(&s_nested::Nested, 6_000, 120_000)],
            rule: "The library's parallel calls (batch evaluation, evaluate_parallel, uncertainty) and others made from inside rayon tasks: scopes, joins and parallel iterators of the global pool (1-3 threads), a pool of the user's own (1-3 threads), one inside the other and back, from 1-3 callers or all in one scope; every result must equal that of the same call made alone, and all must return. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
        Plan {
            property: "C19",
            scenarios: vec![(&s_ids::Ids, 24_000, 500_000)],
            rule: "2-5 threads, short-lived ones, pool tasks and destructors of thread-locals create expressions, contexts, anonymous symbols, symbols of contexts and named symbols that are removed again, from one to a few thousand each, kept or dropped at once; no id may be given twice. Non-trivial: at least two threads and one context switch.",
            assumptions: COMMON,
        },
    ]
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let av: Vec<String> = std::env::args().collect();
    let root = std::env::current_exe().ok().and_then(|p| p.ancestors().nth(4).map(PathBuf::from)).unwrap_or_else(|| PathBuf::from("."));
    let plans = plans();
    let opt = |k: &str| av.iter().position(|a| a == k).and_then(|i| av.get(i + 1)).cloned();
    let code = match av.get(1).map(String::as_str) {
        Some("check") => {
            let id = av.get(2).cloned().unwrap_or_default();
            let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let seed = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            let workers = opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
            let secs = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 200 } else { 720 });
            match plans.iter().find(|p| p.property == id) {
                Some(p) => driver::check(p, &Args { tier, seed, workers, secs, root }),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("det") => {
            // determinism stress: the same run again and again
            let num = |i: usize| av.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            plans.iter().find(|p| Some(p.property) == av.get(2).map(String::as_str)).map_or(2, |p| driver::det_loop(p, opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), num(3), num(4), num(5)))
        }
        Some("ops") => {
            // prints random calls of each kind and their results
            let n = av.get(2).and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
            for k in ops::KINDS {
                for i in 0..n {
                    let mut r = rng::Rng::new(i * 977 + 5);
                    let l = ops::gen_op(&mut r, 3, &ops::VARS[..3], &[k]);
                    let s = ops::exec(&l);
                    println!("{l}\n    => {}", s.chars().take(700).collect::<String>());
                }
            }
            0
        }
        Some("replay") => driver::replay(&PathBuf::from(av.get(2).cloned().unwrap_or_default()), &plans),
        _ => {
            eprintln!("usage: symsim check <property> [--tier quick|thorough] [--seed N] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
