//! The same calls again and again on new threads: memory in use must come back to the same level.
use crate::driver::{Out, Scenario, param_n};
use crate::ops;
use crate::rng::Rng;
use crate::rt::{self, SimCfg};
use crate::s_api::guarded;
use std::cell::RefCell;
use std::collections::HashSet;
use symb_anafis::*;

/// What a thread still owns when it ends.
struct Kept {
    exprs: Vec<Expr>,
    evaluators: Vec<CompiledEvaluator>,
    calls: Vec<String>,
}
impl Drop for Kept {
    fn drop(&mut self) {
        for c in std::mem::take(&mut self.calls) {
            let _ = guarded(&c, || ops::exec(&c));
        }
    }
}
thread_local! {
    static FIRST: RefCell<Kept> = const { RefCell::new(Kept { exprs: Vec::new(), evaluators: Vec::new(), calls: Vec::new() }) };
    static SECOND: RefCell<Kept> = const { RefCell::new(Kept { exprs: Vec::new(), evaluators: Vec::new(), calls: Vec::new() }) };
}

/// Kinds of calls that use neither the thread pool nor new ids.
const POOLED: [&str; 13] = ["epar", "ef64", "ef64p", "pbatch", "big", "unc", "relunc", "unccov", "cov3", "grad", "hess", "jac", "gradsym"];
const CONTEXTUAL: [&str; 4] = ["ctxdiff", "ufn", "ufn2", "ufnum"];
/// Names that contexts take from the global table instead of making symbols of their own.
const WARM: [&str; 32] = ["k_b", "e1", "f1", "epsilon", "a", "b", "c", "d", "u", "v", "w", "h", "r", "k", "t", "cov_xy", "f", "g", "x", "y", "z", "t1", "alpha", "omega_k", "beta_2", "cb_a", "cb_b", "cb_c", "cb_d", "cb_e", "re_drop", "q_sub"];
fn warm(lines: &[String]) {
    let mut names: Vec<String> = WARM.iter().map(|n| (*n).to_string()).collect();
    names.extend(('a'..='z').filter(|c| !"ei".contains(*c)).map(String::from));
    for l in lines.iter().filter(|l| !l.starts_with('#')) {
        for w in l.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
            // names of unknown functions are symbols too; "gn_" names come and go
            if w.starts_with(char::is_alphabetic) && !w.starts_with("gn_") {
                names.push(w.into());
            }
        }
    }
    for n in names {
        let _ = symb(&n);
    }
}
fn kinds(pooled: bool) -> Vec<&'static str> {
    ops::KINDS.iter().copied().chain(["rpn", "rpnsimp", "badparse"]).filter(|k| pooled || !POOLED.contains(k)).collect()
}
fn work(line: &str) {
    let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
    match k {
        "call" => drop(guarded(rest, || ops::exec(rest))),
        "user" => {
            let ctx = crate::s_callback::context();
            drop(crate::s_callback::exec(rest, &ctx, true));
        }
        "keep" | "keep2" => {
            let (a, b) = rest.split_once(" ;; ").unwrap_or((rest, ""));
            let e = parse(a, &HashSet::new(), &HashSet::new(), None).unwrap_or_else(|_| Expr::number(0.0));
            let c = e.compile().ok();
            let f = |s: &RefCell<Kept>| {
                let mut s = s.borrow_mut();
                s.exprs.push(e.derive("x", None));
                s.evaluators.extend(c);
                if !b.is_empty() {
                    s.calls.push(b.to_string());
                }
            };
            if k == "keep" { FIRST.with(f) } else { SECOND.with(f) }
        }
        "gone" => {
            let n = rest;
            let e = symb(n).to_expr().sin() * Expr::symbol(format!("{n}_b"));
            let _ = guarded(n, || format!("{} {}", e, er(simplify(&format!("{n} + {n}_c"), &[], None))));
            let _ = symb_get(n);
            remove_symbol(n);
            remove_symbol(&format!("{n}_b"));
            remove_symbol(&format!("{n}_c"));
        }
        "clear" => clear_symbols(),
        _ => {}
    }
}
fn er(r: Result<String, DiffError>) -> String {
    r.unwrap_or_else(|e| e.to_string())
}
pub struct Leak;
impl Scenario for Leak {
    fn name(&self) -> &'static str {
        "memory-balance"
    }
    fn reference(&self) -> bool {
        false
    }
    fn real(&self) -> &'static str {
        "expressions, contexts, user functions, symbol registry, parser, differentiation, simplification, compiler, scalar and SIMD evaluation, thread-local state and its destruction"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 10));
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(1, 4);
        // without contexts, whose own symbols stay for good: with calls that clear the registry
        let bare = r.chance(1, 5);
        let mut ks = kinds(r.chance(1, 4));
        let pooled = ks.contains(&POOLED[0]);
        if bare {
            ks.retain(|k| !CONTEXTUAL.contains(k));
        }
        if r.chance(2, 3) {
            r.shuffle(&mut ks);
            ks.truncate(r.range(1, 5));
        }
        let vars = ["x", "y", "t1"];
        let mut v = vec![format!("#threads {nt}"), format!("#rayon {}", r.range(1, 3))];
        let user = !pooled || r.chance(1, 2);
        for _ in 0..r.range(1, 7) {
            let t = r.n(nt);
            let l = match r.n(10) {
                0 | 1 if !bare && user => format!("user {}", crate::s_callback::gen_line(r)),
                2 => format!("{} {} ;; {}", r.pick(&["keep", "keep2"]), ops::formula(r, 3, &vars), if r.chance(1, 2) { ops::gen_op(r, 2, &vars, &ks) } else { String::new() }),
                3 => format!("gone gn_{}", r.n(3)),
                4 if bare => "clear".into(),
                _ => format!("call {}", ops::gen_op(r, 2, &vars, &ks)),
            };
            v.push(format!("T{t} {l}"));
        }
        v
    }
    fn run(&self, lines: &[String], _variant: u32, out: &mut Out) {
        let nt = param_n(lines, "threads", 2).clamp(1, 4);
        let mut work_of: Vec<Vec<String>> = vec![Vec::new(); nt];
        for (_, t, l) in crate::s_batch::split(lines) {
            work_of[t % nt].push(l);
        }
        let clears = lines.iter().any(|l| l.ends_with(" clear"));
        // the pool's own deferred frees move its use by a few blocks up and down
        let rounds = if lines.iter().any(|l| POOLED.iter().any(|k| l.contains(&format!(" {k} ")))) { 9 } else { 7 };
        let mut level = vec![(0u64, 0u64); rounds];
        warm(lines);
        for l in &mut level[..] {
            let hs: Vec<_> = work_of
                .iter()
                .map(|w| {
                    let w = w.clone();
                    std::thread::spawn(move || w.iter().for_each(|l| work(l)))
                })
                .collect();
            for h in hs {
                if h.join().is_err() {
                    out.v("panic", "a thread died");
                }
            }
            if clears {
                // what is left of the names depends on the schedule
                clear_symbols();
            }
            *l = (rt::live_blocks(), rt::live_bytes());
        }
        let d: Vec<i64> = level.windows(2).map(|w| w[1].0 as i64 - w[0].0 as i64).collect();
        if d[1..].iter().all(|x| *x > 0) {
            out.v("leak", &format!("the same calls, repeated on new threads, leave more memory behind each time: blocks in use after each round: {:?}", level.iter().map(|l| l.0).collect::<Vec<_>>()));
        }
        out.p("balanced");
    }
}

/// A short program over and over on one thread: lists and maps that only ever grow show in bytes, at every doubling.
pub struct Growth;
const AT: [usize; 4] = [8, 16, 32, 64];
impl Scenario for Growth {
    fn name(&self) -> &'static str {
        "memory-growth"
    }
    fn reference(&self) -> bool {
        false
    }
    fn real(&self) -> &'static str {
        Leak.real()
    }
    fn tune(&self, _r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = 0;
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let bare = r.chance(1, 4);
        let mut ks = kinds(false);
        if bare {
            ks.retain(|k| !CONTEXTUAL.contains(k));
        }
        let vars = ["x", "y", "t1"];
        let mut v = vec![format!("#apart {}", r.n(3))];
        for _ in 0..r.range(1, 3) {
            v.push(match r.n(8) {
                0 if !bare => format!("user {}", crate::s_callback::gen_line(r)),
                1 | 2 => format!("gone gn_{}", r.n(3)),
                3 if bare => "clear".into(),
                _ => format!("call {}", ops::gen_op(r, 1, &vars, &ks)),
            });
        }
        v
    }
    fn run(&self, lines: &[String], _variant: u32, out: &mut Out) {
        warm(lines);
        let prog: Vec<String> = lines.iter().filter(|l| !l.starts_with('#')).cloned().collect();
        let mut level: Vec<(u64, u64)> = Vec::with_capacity(AT.len());
        let mut done = 0;
        // all rounds on one thread, or the rounds between two looks on a thread of their own
        for at in AT {
            let part = {
                let prog = prog.clone();
                move || (done..at).for_each(|_| prog.iter().for_each(|l| work(l)))
            };
            if param_n(lines, "apart", 0) == 0 {
                if std::thread::spawn(part).join().is_err() {
                    out.v("panic", "a thread died");
                }
            } else {
                part();
            }
            done = at;
            level.push((rt::live_blocks(), rt::live_bytes()));
        }
        if level.windows(2).all(|w| w[1].1 > w[0].1) {
            out.v("leak", &format!("the same calls, repeated on one thread, take more and more memory: blocks and bytes in use after {AT:?} rounds: {level:?}"));
        }
        out.p("steady");
    }
}
