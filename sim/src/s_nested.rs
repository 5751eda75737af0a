//! The library's parallel calls made from inside tasks of thread pools: the global one, pools of the
//! user's own, one in another, several calls at once. Tasks are stolen while a call waits, so a
//! worker may be inside several calls at the same time.
use crate::driver::{Out, Scenario, param, param_n};
use crate::ops;
use crate::rng::Rng;
use crate::rt::SimCfg;
use crate::s_api::guarded;
use crate::s_batch::{self, on_threads, split};
use rayon::prelude::*;
use std::sync::{Arc, Mutex};

pub struct Nested;
const HOW: [&str; 8] = ["plain", "task", "join", "par", "pool", "pooljoin", "deep", "back"];

fn call(l: &str) -> String {
    let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
    match k {
        "b" => s_batch::run_call(rest).0,
        "p" => s_batch::points_call(rest).0,
        "u" => s_batch::unc_call(rest).0,
        _ => guarded(rest, || ops::exec(rest)),
    }
}
fn place(how: &str, pool: Option<&rayon::ThreadPool>, f: &(dyn Fn() -> String + Sync)) -> Vec<String> {
    let two = || {
        let (a, b) = rayon::join(f, f);
        vec![a, b]
    };
    match (how, pool) {
        ("task", _) => {
            let o = Mutex::new(Vec::new());
            rayon::scope(|s| {
                for _ in 0..2 {
                    s.spawn(|_| {
                        let x = f();
                        o.lock().expect("not poisoned").push(x);
                    });
                }
            });
            o.into_inner().expect("not poisoned")
        }
        ("join", _) => two(),
        ("par", _) => (0..3).into_par_iter().map(|_| f()).collect(),
        ("pool", Some(p)) => vec![p.install(f)],
        ("pooljoin", Some(p)) => p.install(two),
        ("deep", Some(p)) => {
            let (mut a, b) = rayon::join(|| p.install(two), f);
            a.push(b);
            a
        }
        ("back", Some(p)) => {
            // from the user's pool into a thread and into the global pool again
            p.install(|| {
                let (a, b) = rayon::join(|| std::thread::scope(|s| s.spawn(|| rayon::join(f, f)).join().expect("returns")), f);
                vec![a.0, a.1, b]
            })
        }
        _ => vec![f()],
    }
}
impl Scenario for Nested {
    fn name(&self) -> &'static str {
        "nested-pools"
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "src/bindings (eval_f64, evaluate_parallel), src/uncertainty.rs, parallel batch evaluation, symbol registry, and rayon with several pools"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 10));
        c.stall = *r.pick(&[0, 0, 20, 100, 300]);
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(1, 3);
        let nv = r.range(1, 4);
        let mut vars = ops::VARS.to_vec();
        r.shuffle(&mut vars);
        let vars = &vars[..nv];
        let mut v = vec![format!("#rayon {}", r.range(1, 3)), format!("#threads {nt}"), format!("#pool {}", r.range(0, 3)), format!("#together {}", r.n(2))];
        let kinds: Vec<&str> = match r.n(4) {
            0 => vec!["b"],
            1 => vec!["p"],
            2 => vec!["u"],
            _ => vec!["b", "b", "p", "p", "u", "u", "o"],
        };
        for _ in 0..r.range(1, 4) {
            let c = match *r.pick(&kinds) {
                "b" => {
                    let api = *r.pick(&["ebp", "ebp", "ef64", "ef64", "ebb"]);
                    let n = *r.pick(&[1, 4, 9, 255, 256, 257, 300, 513, 770]);
                    let k = if api == "ebp" { 1 } else { r.range(1, 3) };
                    let fs: Vec<String> = (0..k).map(|_| s_batch::numeric_formula(r, 2, vars)).collect();
                    format!("b {api} {n} {} | {}", r.u64() >> 20, fs.join(" ;; "))
                }
                "p" => {
                    let fs: Vec<String> = (0..r.range(1, 3)).map(|_| format!("{}:{}", if r.chance(1, 2) { "s" } else { "x" }, if r.chance(1, 2) { s_batch::cheap_formula(r, &["x", "y", "z"]) } else { ops::formula(r, 1, &["x", "y", "z"]) })).collect();
                    format!("p ep {} | {}", r.u64() >> 20, fs.join(" ;; "))
                }
                "u" => format!("u {} {} | {}", r.pick(&["unc", "rel"]), r.u64() >> 20, ops::any_formula(r, 2, vars)),
                _ => format!("o {}", ops::gen_op(r, 2, vars, &["pbatch", "ef64", "epar", "unc", "relunc", "ef64p", "diff", "simp", "parse", "cov3"])),
            };
            v.push(format!("T{} {} {c}", r.n(nt), r.pick(&HOW)));
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        if variant == 0 {
            for (i, _, l) in split(lines).into_iter().rev() {
                let (_, c) = l.split_once(' ').unwrap_or(("", &l));
                out.d(&format!("line {i} `{l}`"), &call(c));
            }
            return;
        }
        let n = param_n(lines, "pool", 0);
        let pool = Arc::new((n > 0).then(|| rayon::ThreadPoolBuilder::new().num_threads(n).build().ok()).flatten());
        let go = move |l: &str| {
            let (how, c) = l.split_once(' ').unwrap_or(("plain", l));
            place(how, Option::as_ref(&pool), &|| call(c))
        };
        let res = if param(lines, "together") == Some("1") {
            // all calls at once, as tasks of one scope
            let all = Mutex::new(Vec::new());
            rayon::scope(|s| {
                for (i, _, l) in split(lines) {
                    let (all, go) = (&all, &go);
                    s.spawn(move |_| {
                        let x = go(&l);
                        all.lock().expect("not poisoned").push((i, l, x));
                    });
                }
            });
            all.into_inner().expect("not poisoned")
        } else {
            let nt = param_n(lines, "threads", 1).clamp(1, 8);
            on_threads(lines, nt, out, move |_, l| go(l))
        };
        for (i, l, all) in res {
            if let Some(x) = all.iter().find(|x| **x != all[0]) {
                out.v("differs", &format!("`{l}`, made twice at once: {} and {x}", all[0]));
            }
            if all.len() > 1 {
                out.p("nested-calls");
            }
            out.d(&format!("line {i} `{l}`"), &all[0]);
        }
    }
}
