//! Programs of public API calls on several threads, compared call by call with the same calls made
//! one after the other on one thread.
use crate::driver::{Out, Scenario, panic_text, param_n};
use crate::ops;
use crate::rng::{Rng, hash_str};
use crate::rt::{self, SimCfg};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use symb_anafis::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// First use of the library, from several threads at once.
    Cold,
    /// Warm library, other threads using the registry for names of their own.
    Interfere,
    /// Like `Interfere`, with few, cheap calls made many times.
    Focus,
    /// One thread at a time; hash seed, heap layout, history and thread vary.
    Determinism,
    /// First use, every thread starting with a different entry point (the cheapest calls).
    ColdEntry,
}
pub struct Api {
    pub name: &'static str,
    pub mode: Mode,
    pub depth: usize,
}

pub fn guarded(line: &str, f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(p) => format!("PANIC in {line}: {}", panic_text(p.as_ref())),
    }
}

/// Work on names of its own, which must not matter to anyone else.
pub fn churn(seed: u64, n: usize) {
    let mut r = Rng::new(seed);
    let mut keep: Vec<Expr> = Vec::new();
    for i in 0..n {
        let name = format!("churn_{}", r.n(4));
        match r.n(12) {
            0 | 1 => {
                let s = symb(&name);
                keep.push(s.to_expr() + Expr::number(i as f64));
            }
            2 => {
                let _ = symb_new(&name);
            }
            3 => {
                remove_symbol(&name);
            }
            4 => {
                let _ = symbol_names();
            }
            5 => keep.push(Symbol::anon().to_expr().pow(2.0)),
            6 => {
                let c = Context::new().with_symbol(&name).with_function("churn_fn", ops::scale(3.0));
                keep.push(c.symb("churn_c").to_expr() * Expr::number(2.0));
                drop(c);
            }
            7 => {
                let e = std::thread::spawn(move || symb(&name).to_expr().sin()).join();
                if let Ok(e) = e {
                    keep.push(e);
                }
            }
            8 => {
                let _ = symb_get(&name);
            }
            9 => keep.clear(),
            10 => {
                let e: Expr = keep.iter().cloned().fold(Expr::number(1.0), |a, b| a + b);
                let _ = e.simplified();
            }
            _ => {
                let _ = symbol_exists(&name) || symbol_count() > 1_000_000;
            }
        }
    }
}
/// A long history: many cheap calls of one kind on ever new formulas, names or numbers.
fn many(kind: usize, n: usize) {
    let none = std::collections::HashSet::new();
    let x = symb("x");
    for i in 0..n {
        let f = match kind % 4 {
            0 => format!("x*{i} + sin(x)"),
            1 => format!("v{i}*x + x^2"),
            2 => format!("exp(x) + {i}.5*x^{}", i % 7),
            _ => format!("x^{i}"),
        };
        match kind / 4 {
            0 => drop(diff(&f, "x", &[], None)),
            1 => drop(simplify(&f, &[], None)),
            2 => drop(parse(&f, &none, &none, None).map(|e| e.diff("x"))),
            3 => drop(parse(&f, &none, &none, None).map(|e| e.compile())),
            4 => drop(evaluate_str(&f, &[("x", 0.5)])),
            5 => drop(Diff::new().fixed_var(&format!("c{i}")).diff_str(&f, "x", &[])),
            6 => drop(Context::new().with_symbol(&format!("c{i}"))),
            7 => drop(Expr::func(format!("u{i}"), x.to_expr()).diff("x")),
            8 => drop((x.to_expr() * Expr::number(i as f64)).simplified()),
            _ => drop(latex(&f)),
        }
    }
}
fn latex(f: &str) -> Option<String> {
    parse(f, &std::collections::HashSet::new(), &std::collections::HashSet::new(), None).ok().map(|e| e.to_latex())
}
fn exec(line: &str) -> String {
    if let Some(x) = line.strip_prefix("churn ") {
        let mut w = x.split(' ').map(|x| x.parse::<u64>().unwrap_or(1));
        churn(w.next().unwrap_or(1), w.next().unwrap_or(5) as usize);
        return "done".into();
    }
    guarded(line, || ops::exec(line))
}
fn split(lines: &[String]) -> Vec<(usize, usize, &str)> {
    lines
        .iter()
        .enumerate()
        .filter_map(|(i, l)| {
            let (t, rest) = l.split_once(' ')?;
            let t = t.strip_prefix('T')?.parse().ok()?;
            Some((i, t, rest))
        })
        .collect()
}
const ENTRY: [&str; 14] = ["parse", "diff", "simp", "eval", "comp", "unc", "ctxdiff", "ufn", "rpn", "subst", "latex", "grad", "jac", "epar"];

impl Scenario for Api {
    fn name(&self) -> &'static str {
        self.name
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "parser, expression constructors, differentiation, simplification, compiler and evaluator, batch and parallel evaluation (rayon), uncertainty, contexts, symbol registry, lazy tables: all of src/ except the Python bindings"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 8));
        if self.mode == Mode::Focus {
            c.stall = *r.pick(&[0, 20, 100, 300, 1000]);
        }
        if self.mode == Mode::Determinism && r.chance(1, 2) {
            c.race = 0;
            c.mem_points = 0;
        }
    }
    fn nontrivial(&self, run: &crate::driver::RunRes) -> bool {
        self.mode == Mode::Determinism || (run.switches > 0 && run.threads > 1)
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = match self.mode {
            Mode::Determinism => 1,
            _ => r.range(2, 4),
        };
        let nv = r.range(1, ops::VARS.len());
        let mut vars = ops::VARS.to_vec();
        r.shuffle(&mut vars);
        let vars = &vars[..nv];
        let mut v = vec![format!("#rayon {}", r.range(1, 3)), format!("#threads {nt}")];
        // calls of different kinds and settings on the same formulas
        let same: Vec<String> = if r.chance(2, 5) { (0..r.range(1, 2)).map(|_| ops::gen_op(r, self.depth, vars, &["setting", "parse"])).filter_map(|l| l.split_once(" | ").map(|x| x.1.to_string())).collect() } else { Vec::new() };
        let mut kinds: Vec<&str> = ops::KINDS.to_vec();
        kinds.extend(["rpn", "rpn", "rpnsimp", "rpnsimp", "badparse"]);
        // swarm: only some kinds of calls per run
        if r.chance(2, 3) {
            r.shuffle(&mut kinds);
            kinds.truncate(r.range(2, 8));
        }
        if !same.is_empty() {
            kinds.extend(["setting", "setting", "setting", "opts", "simpds", "diff"]);
        }
        match self.mode {
            Mode::Focus => {
                let fs: Vec<String> = (0..r.range(1, 3))
                    .map(|_| match r.n(4) {
                        0 => ops::formula(r, 1, vars),
                        1 => ops::bank_formula(r, vars),
                        2 => ops::setting_formula(r, vars),
                        _ => format!("{} + {}*{}", ops::leaf(r, vars), ops::leaf(r, vars), ops::leaf(r, vars)),
                    })
                    .collect();
                kinds.retain(|k| !k.contains("rpn") && *k != "badparse");
                if kinds.is_empty() {
                    kinds.push("simp");
                }
                r.shuffle(&mut kinds);
                kinds.truncate(r.range(1, 3));
                let heads: Vec<String> = (0..r.range(1, 4)).filter_map(|_| ops::gen_op(r, 1, vars, &kinds).split_once(" | ").map(|x| x.0.to_string())).collect();
                for _ in 0..r.range(8, 20) {
                    v.push(format!("T{} {} | {}", r.n(nt), r.pick(&heads), r.pick(&fs)));
                }
                return v;
            }
            Mode::Cold | Mode::ColdEntry => {
                for t in 0..nt {
                    let e: Vec<&str> = if r.chance(1, 2) { ENTRY.to_vec() } else { kinds.clone() };
                    let d = if self.mode == Mode::ColdEntry { 1 } else { self.depth };
                    v.push(format!("T{t} {}", ops::gen_op(r, d, vars, &e)));
                }
                if self.mode == Mode::Cold {
                    for _ in 0..r.range(0, 4) {
                        v.push(format!("T{} {}", r.n(nt), ops::gen_op(r, self.depth, vars, &kinds)));
                    }
                }
            }
            Mode::Interfere => {
                for _ in 0..r.range(3, 9) {
                    v.push(format!("T{} {}", r.n(nt), ops::gen_op(r, self.depth, vars, &kinds)));
                }
                for _ in 0..r.range(0, 3) {
                    v.push(format!("T{} churn {} {}", r.n(nt), r.u64() >> 16, r.range(2, 25)));
                }
            }
            Mode::Determinism => {
                for _ in 0..r.range(0, 5) {
                    v.push(match r.n(8) {
                        0..=2 => {
                            let mut n: Vec<&str> = ops::VARS.iter().copied().chain(["a", "b", "c", "d", "u", "v", "w", "k", "h", "r", "t", "e1", "f1", "epsilon", "k_b", "q_sub", "cov_xy", "arg0"]).collect();
                            r.shuffle(&mut n);
                            n.truncate(r.range(1, 12));
                            format!("P symbs {}", n.join(" "))
                        }
                        3 => format!("P anon {}", r.range(1, 40)),
                        4 => format!("P churn {} {}", r.u64() >> 16, r.range(1, 30)),
                        5 => format!("P exprs {}", r.range(1, 60)),
                        _ => format!("P call {}", ops::gen_op(r, 2, vars, &kinds)),
                    });
                }
                let long = r.chance(1, 12);
                v.push(format!("#place {}", r.n(3)));
                v.push(format!("#order {}", r.n(3)));
                for _ in 0..r.range(2, 6) {
                    let l = ops::gen_op(r, if long { 1 } else { self.depth }, vars, &kinds);
                    if long && r.chance(2, 3) {
                        v.insert(2, format!("P call {l}"));
                    }
                    v.push(format!("T0 {l}"));
                }
                if long {
                    // a long history in between
                    let at = v.iter().position(|l| l.starts_with("#place")).unwrap_or(2);
                    v.insert(at, format!("P many {} {}", r.n(40), 1usize << r.range(5, 10)));
                }
            }
        }
        if !same.is_empty() {
            for l in &mut v {
                if r.chance(2, 3) && !l.contains("rpn") && !l.contains("badparse") {
                    if let Some((h, _)) = l.clone().split_once(" | ") {
                        *l = format!("{h} | {}", r.pick(&same));
                    }
                }
            }
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        let opsl = split(lines);
        let report = |out: &mut Out, i: usize, l: &str, res: &str| {
            if l.starts_with("churn") {
                if res != "done" {
                    out.v("panic", res);
                }
            } else {
                out.d(&format!("line {i} `{l}`"), res);
            }
        };
        if variant == 0 {
            // the calls in another order, so that what one call leaves behind for the next shows
            let mut alone: Vec<_> = opsl.iter().collect();
            if self.mode != Mode::Determinism {
                alone.reverse();
            }
            for (i, _, l) in alone {
                if l.starts_with("churn") {
                    continue;
                }
                let res = exec(l);
                report(out, *i, l, &res);
            }
            return;
        }
        match self.mode {
            Mode::Determinism => {
                for l in lines.iter().filter_map(|l| l.strip_prefix("P ")) {
                    let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
                    match k {
                        "symbs" => rest.split(' ').for_each(|n| {
                            let _ = symb(n);
                        }),
                        "anon" => (0..rest.parse().unwrap_or(1)).for_each(|_| {
                            let _ = Symbol::anon();
                        }),
                        "churn" => {
                            let _ = exec(l);
                        }
                        "many" => {
                            let (k, n) = rest.split_once(' ').unwrap_or(("0", "1"));
                            many(k.parse().unwrap_or(0), n.parse().unwrap_or(1));
                        }
                        "exprs" => (0..rest.parse().unwrap_or(1)).for_each(|i| drop(Expr::number(f64::from(i)))),
                        _ => {
                            let _ = exec(rest);
                        }
                    }
                }
                let mut order: Vec<(usize, String)> = opsl.iter().map(|o| (o.0, o.2.to_string())).collect();
                match param_n(lines, "order", 0) {
                    1 => order.reverse(),
                    2 => {
                        let mut r = Rng::new(hash_str(&lines.join(" ")));
                        r.shuffle(&mut order);
                    }
                    _ => {}
                }
                let work = move || order.into_iter().map(|(i, l)| (i, exec(&l), l)).collect::<Vec<_>>();
                let res = match param_n(lines, "place", 0) {
                    0 => work(),
                    1 => std::thread::spawn(work).join().unwrap_or_default(),
                    _ => std::thread::spawn(move || std::thread::spawn(work).join().unwrap_or_default()).join().unwrap_or_default(),
                };
                for (i, s, l) in res {
                    report(out, i, &l, &s);
                }
            }
            _ => {
                if matches!(self.mode, Mode::Interfere | Mode::Focus) {
                    let _ = exec("simp | sin(x)^2 + cos(x)^2 + 1");
                    let _ = exec("comp | x + 1");
                }
                let nt = param_n(lines, "threads", 2).clamp(1, 8);
                let mut work: Vec<Vec<(usize, String)>> = vec![Vec::new(); nt];
                for (i, t, l) in &opsl {
                    work[t % nt].push((*i, (*l).to_string()));
                }
                let mut hs = Vec::new();
                let first = work.remove(0);
                for w in work {
                    hs.push(std::thread::spawn(move || w.into_iter().map(|(i, l)| (i, exec(&l), l)).collect::<Vec<_>>()));
                }
                let mut res: Vec<(usize, String, String)> = first.into_iter().map(|(i, l)| (i, exec(&l), l)).collect();
                for h in hs {
                    match h.join() {
                        Ok(x) => res.extend(x),
                        Err(_) => out.v("panic", "a calling thread died"),
                    }
                }
                // Afterwards the library still answers as it does on its own.
                rt::quiet(|| ());
                for (i, s, l) in res {
                    report(out, i, &l, &s);
                }
            }
        }
        let _ = Arc::new(0);
    }
}
