//! Parallel numeric and symbolic evaluation: the thread pool's schedule, worker count and stalls
//! must not show in the results, which must be those of one-at-a-time evaluation.
use crate::driver::{Out, Scenario, panic_text, param, param_n};
use crate::ops;
use crate::rng::{Rng, hash_str};
use crate::rt::{self, SimCfg};
use crate::s_api::guarded;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::Arc;
use symb_anafis::parallel::{EvalResult, ExprInput, SKIP, Value, VarInput, evaluate_parallel};
use symb_anafis::*;

const SIZES: [usize; 34] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 64, 100, 254, 255, 256, 257, 258, 259, 260, 261, 300, 511, 512, 513, 514, 515, 640, 767, 768, 769, 1000, 1024, 1025, 1283];

/// Columns of n points each; even seeds give well-behaved values only.
fn columns(seed: u64, k: usize, n: usize) -> Vec<Vec<f64>> {
    // some data repeats itself: the same at every p-th point, all alike but for a few points, or both
    let mut shape = Rng::new(seed ^ 0x5eed_c01);
    let (kind, p, q) = (shape.n(8), *shape.pick(&[1usize, 2, 4, 16, 64, 128, 256]), shape.range(2, 100));
    (0..k)
        .map(|j| {
            if seed % 2 == 1 {
                ops::column(seed, j, n)
            } else {
                let mut r = Rng::new(seed.wrapping_mul(77).wrapping_add(j as u64 * 131));
                let mut c: Vec<f64> = (0..n).map(|_| 0.15 + r.f() * 2.5).collect();
                for i in 0..n {
                    match kind {
                        0 if i >= p => c[i] = c[i - p],
                        1 if i > 0 && i % q != 1 => c[i] = c[0],
                        2 if i % 64 == 0 || (i + 1) % 64 == 0 => c[i] = c[0],
                        _ => {}
                    }
                }
                c
            }
        })
        .collect()
}
fn digest(v: &[f64]) -> String {
    let all = ops::bits(v);
    format!("{} values {:016x} first {} last {}", v.len(), hash_str(&all), ops::bits(&v[..v.len().min(3)]), ops::bits(&v[v.len() - v.len().min(3)..]))
}
pub fn close(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-6 * a.abs().max(b.abs()) + 1e-9
}
/// Whether the function is smooth enough around the point for two correct evaluation orders to agree.
fn well_conditioned(f: &dyn Fn(&[f64]) -> f64, x: &[f64]) -> bool {
    let y = f(x);
    if !y.is_finite() || y.abs() > 1e9 {
        return false;
    }
    for s in [1.0 + 1e-9, 1.0 - 1e-9] {
        let mut p: Vec<f64> = x.iter().map(|v| v * s).collect();
        let z = f(&p);
        if !z.is_finite() || (z - y).abs() > 1e-7 * y.abs() + 1e-10 {
            return false;
        }
        for i in 0..p.len() {
            p[i] = x[i] * s;
            for (j, q) in p.iter_mut().enumerate() {
                if j != i {
                    *q = x[j];
                }
            }
            let z = f(&p);
            if !z.is_finite() || (z - y).abs() > 1e-7 * y.abs() + 1e-10 {
                return false;
            }
        }
    }
    true
}
fn exprs(fs: &str) -> Option<Vec<Expr>> {
    fs.split(" ;; ").map(|f| ops::p(f).ok()).collect()
}
fn names_of(e: &Expr, seed: u64, i: usize) -> Vec<String> {
    let mut v = ops::vars_sorted(e);
    // Callers choose the order of the parameters, for each formula.
    Rng::new(seed ^ 0x51 ^ ((i as u64) << 7)).shuffle(&mut v);
    if seed % 5 == 0 {
        v.push("unused_v".into());
    }
    v
}

/// A call `api n seed | F ;; G`; the flat list of result columns, or an error text.
fn call(line: &str) -> Result<Vec<Vec<f64>>, String> {
    let (h, fs) = line.split_once(" | ").unwrap_or((line, "x"));
    let w: Vec<&str> = h.split(' ').collect();
    let n: usize = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
    let seed: u64 = w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    let Some(es) = exprs(fs) else { return Err("parse".into()) };
    match w[0] {
        "ebp" | "eb" | "ebb" => {
            let mut outs = Vec::new();
            // one scratch buffer for all formulas
            let mut b = Vec::new();
            for (i, e) in es.iter().enumerate() {
                let nm = names_of(e, seed, i);
                let c = match CompiledEvaluator::compile(e, &nm, None) {
                    Ok(c) => c,
                    Err(x) => return Err(format!("compile {x}")),
                };
                let cols = columns(seed, nm.len(), n);
                let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                let m = if nm.is_empty() { 1 } else { n };
                if w[0] == "ebp" {
                    outs.push(c.eval_batch_parallel(&refs).map_err(|e| e.to_string())?);
                } else {
                    let mut o = vec![0.25; m];
                    c.eval_batch(&refs, &mut o, if w[0] == "ebb" { Some(&mut b) } else { None }).map_err(|e| e.to_string())?;
                    outs.push(o);
                }
            }
            Ok(outs)
        }
        "ef64" | "bad" => {
            let nm: Vec<Vec<String>> = es.iter().enumerate().map(|(i, e)| names_of(e, seed, i)).collect();
            let ns: Vec<&[String]> = nm.iter().map(Vec::as_slice).collect();
            // the expressions may have data of different lengths
            let mut cols: Vec<Vec<Vec<f64>>> = nm.iter().enumerate().map(|(i, k)| columns(seed, k.len(), if seed % 3 == 0 { n } else { size_of(n, seed, i) })).collect();
            if w[0] == "bad" {
                let last = cols.len() - 1;
                if !spoil(&mut cols[last], seed) {
                    return Err("nothing".into());
                }
            }
            let c1: Vec<Vec<&[f64]>> = cols.iter().map(|c| c.iter().map(Vec::as_slice).collect()).collect();
            let c2: Vec<&[&[f64]]> = c1.iter().map(Vec::as_slice).collect();
            let refs: Vec<&Expr> = es.iter().collect();
            let r = eval_f64(&refs, &ns, &c2);
            match r {
                Ok(_) if w[0] == "bad" => Err("malformed data accepted".into()),
                Ok(o) => Ok(o),
                Err(_) => Err("rejected".into()),
            }
        }
        "badp" | "badb" | "bado" => {
            let nm = names_of(&es[0], seed, 0);
            let c = CompiledEvaluator::compile(&es[0], &nm, None).map_err(|x| format!("compile {x}"))?;
            let mut cols = columns(seed, nm.len(), n);
            if w[0] != "bado" && !spoil(&mut cols, seed) {
                return Err("nothing".into());
            }
            let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
            let r = if w[0] == "badp" {
                c.eval_batch_parallel(&refs).map(|_| ())
            } else {
                let mut o = vec![0.25; if w[0] == "bado" { if nm.is_empty() { 0 } else { n - 1 - (seed as usize / 4) % n } } else { n + 3 }];
                let r = c.eval_batch(&refs, &mut o, None);
                if r.is_err() && o.iter().any(|x| *x != 0.25) {
                    return Err("malformed data accepted".into());
                }
                r
            };
            match r {
                Ok(()) => Err("malformed data accepted".into()),
                Err(_) => Err("rejected".into()),
            }
        }
        _ => Err("unknown".into()),
    }
}
/// Makes columns that do not fit one another or the formula; false if there is nothing to spoil.
fn spoil(c: &mut Vec<Vec<f64>>, seed: u64) -> bool {
    match (seed % 6, c.len()) {
        (0, 2..) => {
            let col = c.last_mut().expect("two");
            col.truncate(col.len() / 2);
        }
        (1, 2..) => c.last_mut().expect("two").push(1.0),
        (2, 1..) => {
            let x = c[0].clone();
            c.push(x);
        }
        (3, 2..) => c[0].clear(),
        (4, 2..) => c[1].clear(),
        (_, 1..) => {
            c.pop();
            return !c.is_empty();
        }
        _ => return false,
    }
    true
}
fn size_of(n: usize, seed: u64, i: usize) -> usize {
    if i == 0 { n } else { SIZES[((seed >> 8) as usize + i * 7) % SIZES.len()].max(1) }
}
pub fn run_call(line: &str) -> (String, Option<Vec<Vec<f64>>>) {
    let mut keep = None;
    let s = guarded(line, || match call(line) {
        Ok(v) => {
            let s = v.iter().map(|x| digest(x)).collect::<Vec<_>>().join(" / ");
            keep = Some(v);
            s
        }
        Err(e) => format!("error {e}"),
    });
    (s, keep)
}
/// One-at-a-time evaluation of the same call, compared with what the parallel call returned.
fn verify(line: &str, got: &[Vec<f64>], out: &mut Out) {
    let (h, fs) = line.split_once(" | ").unwrap_or((line, "x"));
    let w: Vec<&str> = h.split(' ').collect();
    let n: usize = w[1].parse().unwrap_or(1);
    let seed: u64 = w[2].parse().unwrap_or(0);
    let Some(es) = exprs(fs) else { return };
    if got.len() != es.len() {
        out.v("lost-results", &format!("`{line}`: {} result columns for {} expressions", got.len(), es.len()));
        return;
    }
    for (i, (e, g)) in es.iter().zip(got).enumerate() {
        let nm = names_of(e, seed, i);
        let Ok(c) = CompiledEvaluator::compile(e, &nm, None) else { continue };
        let m = if nm.is_empty() {
            1
        } else if w[0] == "ef64" && seed % 3 != 0 {
            size_of(n, seed, i)
        } else {
            n
        };
        if g.len() != m {
            out.v("lost-results", &format!("`{line}` expression {i}: {} results for {m} points", g.len()));
            return;
        }
        let cols = columns(seed, nm.len(), m);
        let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
        let mut seq = vec![0.5; m];
        if m > 0 && c.eval_batch(&refs, &mut seq, None).is_ok() {
            for k in 0..m {
                if !close(g[k], seq[k]) {
                    out.v("differs-from-sequential", &format!("`{line}` expression {i} point {k} of {m}: {:e}, sequential batch {:e}", g[k], seq[k]));
                    return;
                }
            }
        }
        if seed % 2 == 0 {
            let mut pts: Vec<usize> = [0, 1, 2, 3, 254, 255, 256, 257, 511, 512, 513, m.wrapping_sub(1), m.wrapping_sub(2), m.wrapping_sub(3), m.wrapping_sub(4)].into_iter().filter(|k| *k < m).collect();
            pts.extend((0..m).step_by(37));
            for k in pts {
                let x: Vec<f64> = cols.iter().map(|c| c[k]).collect();
                let f = |p: &[f64]| c.evaluate(p);
                let y = f(&x);
                if !close(g[k], y) && well_conditioned(&f, &x) {
                    out.v("differs-from-point", &format!("`{line}` expression {i} point {k} of {m} at {x:?}: {:e}, evaluated alone {y:e}", g[k]));
                    return;
                }
            }
            out.p("compared-with-single-points");
        }
    }
}

pub fn split(lines: &[String]) -> Vec<(usize, usize, String)> {
    lines
        .iter()
        .enumerate()
        .filter_map(|(i, l)| {
            let (t, rest) = l.split_once(' ')?;
            Some((i, t.strip_prefix('T')?.parse().ok()?, rest.to_string()))
        })
        .collect()
}
/// Runs each thread's share with `f`; the first share on the calling thread.
pub fn on_threads<R: Send + 'static>(lines: &[String], nt: usize, out: &mut Out, f: impl Fn(usize, &str) -> R + Send + Sync + 'static) -> Vec<(usize, String, R)> {
    let mut work: Vec<Vec<(usize, String)>> = vec![Vec::new(); nt];
    for (i, t, l) in split(lines) {
        work[t % nt].push((i, l));
    }
    let f = Arc::new(f);
    let first = work.remove(0);
    let hs: Vec<_> = work
        .into_iter()
        .map(|w| {
            let f = Arc::clone(&f);
            std::thread::spawn(move || w.into_iter().map(|(i, l)| (i, l.clone(), f(i, &l))).collect::<Vec<_>>())
        })
        .collect();
    let mut res: Vec<(usize, String, R)> = first.into_iter().map(|(i, l)| (i, l.clone(), f(i, &l))).collect();
    for h in hs {
        match h.join() {
            Ok(x) => res.extend(x),
            Err(p) => out.v("panic", &format!("a calling thread died: {}", panic_text(p.as_ref()))),
        }
    }
    res
}
/// Shapes the compiler has instructions of their own for.
fn idiom(r: &mut Rng, vars: &[&str]) -> String {
    let (a, b) = (*r.pick(vars), *r.pick(vars));
    let c = *r.pick(&["2", "0.5", "3", "1.5", "7"]);
    let n = r.range(2, 9);
    let one = |r: &mut Rng| -> String {
        match r.n(24) {
            0 => format!("exp(-{a})"),
            1 => format!("exp({a}^2)"),
            2 => format!("exp(-{a}^2)"),
            3 => format!("(exp({a}) - 1)"),
            4 => format!("1/(exp({a}) - 1)"),
            5 => format!("ln(1 + {a})"),
            6 => format!("1/({a}*sqrt({a}))"),
            7 => format!("{a}^(-1.5)"),
            8 => format!("1/{a}^2"),
            9 => format!("1/{a}^3"),
            10 => format!("1/{a}"),
            11 => format!("{a}^{n}"),
            12 => format!("({a} - {c})"),
            13 => format!("({c} - {a})"),
            14 => format!("{a}^1.5"),
            15 => format!("1/sqrt({a})"),
            16 => format!("(sin({a})^3 - 2*sin({a})^2 + {c}*sin({a}) + 1)"),
            17 => format!("(exp({a})^4 + {c}*exp({a})^2 - exp({a}))"),
            18 => format!("({a}*{b} + {c})"),
            19 => format!("({a} + {b}*{c})"),
            20 => format!("({a}/{b} - {a}*{b})"),
            21 => format!("sin({a})*cos({a})"),
            22 => format!("({c}*{a}^4 - {a}^2 + {c})"),
            _ => format!("-{a}*{b}"),
        }
    };
    let k = r.range(1, 4);
    let t: Vec<String> = (0..k).map(|_| one(r)).collect();
    match r.n(4) {
        0 => t.join("*"),
        1 => format!("{}({})", r.pick(&["sin", "exp", "sqrt", "abs", "tanh"]), t.join(" + ")),
        2 => t.join(" - "),
        _ => t.join(" + "),
    }
}
pub fn numeric_formula(r: &mut Rng, depth: usize, vars: &[&str]) -> String {
    match r.n(12) {
        8 | 9 if r.chance(1, 2) => ops::big_formula(r.u64() >> 20, vars),
        0 => (*r.pick(&["x", "2", "x*y", "x + y", "pi", "x - y*z", "1/x"])).to_string(),
        1 => ops::any_formula(r, depth, vars),
        2 => idiom(r, vars),
        3 => {
            // shared subexpressions: the compiler's cache slots
            let s = ops::formula(r, 1, vars);
            format!("({s})*sin({s}) + cos({s})/({s} + 2) + {}", ops::formula(r, 1, vars))
        }
        _ => ops::formula(r, depth, vars),
    }
}

const LONG: [usize; 10] = [1536, 2048, 2304, 4096, 4352, 8192, 10_000, 12_800, 16_384, 20_000];
pub fn cheap_formula(r: &mut Rng, vars: &[&str]) -> String {
    let (a, b, c) = (*r.pick(vars), *r.pick(vars), r.range(1, 9));
    match r.n(7) {
        0 => format!("{a} + {c}"),
        1 => format!("{a}*{b} - {c}"),
        2 => format!("({a} + {c})^2/{b}"),
        3 => format!("sin({a})*{b}"),
        4 => format!("{a}*{a} + {b}*{c}"),
        5 => format!("sqrt({a}) - {b}"),
        _ => format!("abs({a} - {b}*{c})"),
    }
}

pub struct Batch;
impl Scenario for Batch {
    fn name(&self) -> &'static str {
        "parallel-batch"
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "src/bindings/eval_f64.rs, src/evaluator (compiler, scalar, SIMD and parallel batch evaluation), rayon and crossbeam thread pool"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 10));
        c.stall = *r.pick(&[0, 0, 20, 100, 300]);
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(1, 3);
        let nv = r.range(1, 4);
        let mut vars = ops::VARS.to_vec();
        r.shuffle(&mut vars);
        let mut v = vec![format!("#rayon {}", r.range(1, 6)), format!("#threads {nt}")];
        for _ in 0..r.range(1, 4) {
            let api = *r.pick(&["ebp", "ebp", "ebp", "ef64", "ef64", "ef64", "eb", "ebb", "ebb", "bad", "bad", "badp", "badb", "bado"]);
            // many points or many expressions, of cheap formulas
            let (long, wide) = (r.chance(1, 14), r.chance(1, 14));
            let n = usize::from(api.starts_with("bad"))
                + if long {
                    *r.pick(&LONG) + r.n(3) - 1
                } else if r.chance(1, 6) {
                    r.range(1, 1400)
                } else {
                    *r.pick(&SIZES)
                };
            let n = if wide { n.min(520) } else { n };
            let k = if matches!(api, "ef64" | "bad" | "ebb") {
                if wide { r.range(5, 24) } else if long { r.range(1, 2) } else { r.range(1, 4) }
            } else {
                1
            };
            let mut fs: Vec<String> = (0..k)
                .map(|_| {
                    if long || wide {
                        return cheap_formula(r, &vars[..nv]);
                    }
                    if r.chance(1, 25) {
                        return ops::many_formula(r, 5, 20);
                    }
                    let d = r.range(1, 3);
                    numeric_formula(r, d, &vars[..nv])
                })
                .collect();
            if k > 1 && r.chance(1, 4) {
                // the same formula again
                fs[k - 1] = fs[0].clone();
            }
            v.push(format!("T{} {api} {n} {} | {}", r.n(nt), r.u64() >> 20, fs.join(" ;; ")));
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        if variant == 0 {
            for (i, _, l) in split(lines).into_iter().rev() {
                out.d(&format!("line {i} `{l}`"), &run_call(&l).0);
            }
            return;
        }
        let nt = param_n(lines, "threads", 1).clamp(1, 8);
        let res = on_threads(lines, nt, out, |_, l| run_call(l));
        rt::end();
        for (i, l, (s, got)) in res {
            out.d(&format!("line {i} `{l}`"), &s);
            if s.starts_with("PANIC") {
                out.v("panic", &s);
            }
            if s == "error malformed data accepted" {
                out.v("malformed-accepted", &format!("`{l}`: columns that do not fit were evaluated"));
            }
            if let Some(g) = got {
                if g.iter().any(|x| x.len() > 256) {
                    out.p("several-chunks");
                }
                verify(&l, &g, out);
            }
        }
    }
}

/// One compiled evaluator used by several threads at once.
pub struct Shared;
impl Shared {
    fn exec(c: &CompiledEvaluator, l: &str) -> String {
        guarded(l, || {
            let w: Vec<&str> = l.split(' ').collect();
            let n: usize = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
            let seed: u64 = w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
            let cols = columns(seed, c.param_count(), n);
            let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
            let m = if cols.is_empty() { 1 } else { n };
            let batch = |c: &CompiledEvaluator, par: bool, times: usize| {
                if par {
                    return c.eval_batch_parallel(&refs).map_or_else(|e| e.to_string(), |o| digest(&o));
                }
                let mut b = Vec::new();
                let mut o = vec![0.125; m];
                let mut s = String::new();
                for _ in 0..times {
                    match c.eval_batch(&refs, &mut o, if times > 1 { Some(&mut b) } else { None }) {
                        Ok(()) => s = digest(&o),
                        Err(e) => return e.to_string(),
                    }
                }
                s
            };
            match w[0] {
                "sc" => digest(&(0..m).map(|i| c.evaluate(&cols.iter().map(|x| x[i]).collect::<Vec<_>>())).collect::<Vec<_>>()),
                "eb" => batch(c, false, 1),
                "ebb" => batch(c, false, 3),
                "ebp" => batch(c, true, 1),
                "clone" => batch(&c.clone(), false, 2),
                // the same few points again and again
                "pts" => digest(
                    &(0..n)
                        .map(|i| {
                            let p = columns(2 * (seed % 3 + i as u64 % 2), c.param_count(), 1);
                            c.evaluate(&p.iter().map(|x| x[0]).collect::<Vec<_>>())
                        })
                        .collect::<Vec<_>>(),
                ),
                "info" => format!("{:?} {} {}", c.param_names(), c.param_count(), c.instruction_count()),
                _ => "unknown".into(),
            }
        })
    }
}
impl Scenario for Shared {
    fn name(&self) -> &'static str {
        "shared-evaluator"
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "src/evaluator: one CompiledEvaluator (bytecode, constant pool, lazily splatted SIMD constants) shared between threads and the thread pool"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 40_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 3));
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(2, 4);
        let nv = r.range(1, 4);
        let mut vars = ops::VARS.to_vec();
        r.shuffle(&mut vars);
        let big = r.chance(1, 4);
        let mut one = |r: &mut Rng, big: bool| {
            let d = r.range(1, 3);
            if big {
                ops::big_formula(r.u64() >> 20, &vars[..nv])
            } else if r.chance(1, 20) {
                ops::many_formula(r, 5, 20)
            } else if r.chance(1, 3) {
                format!("{} + 2.5*x^3 - 0.75*x + 4", numeric_formula(r, d, &vars[..nv]))
            } else {
                numeric_formula(r, d, &vars[..nv])
            }
        };
        let mut v = vec![format!("#rayon {}", r.range(1, 3)), format!("#threads {nt}"), format!("#hold {}", r.n(3)), format!("#formula {}", one(r, big))];
        if r.chance(1, 3) {
            let k = r.chance(1, 2);
            v.push(format!("#formula1 {}", one(r, big && k)));
            let k = r.chance(1, 2);
            v.push(format!("#formula2 {}", one(r, big || k)));
        }
        for _ in 0..r.range(2, 8) {
            let op = if big && r.chance(1, 2) { "pts" } else { *r.pick(&["sc", "sc", "pts", "eb", "eb", "ebb", "ebp", "clone", "info"]) };
            let n = if op == "ebp" { *r.pick(&[8, 255, 256, 300, 520]) } else { *r.pick(&[1, 2, 3, 4, 5, 8, 9, 17, 40]) };
            v.push(format!("T{} {op} {n} {} {}", r.n(nt), r.u64() >> 20, r.n(3)));
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        // one evaluator, or several that are in use at the same time
        let es: Vec<Expr> = ["formula", "formula1", "formula2"].iter().filter_map(|k| param(lines, k)).filter_map(|f| ops::p(f).ok()).filter(|e| e.compile().is_ok()).collect();
        if es.is_empty() {
            return;
        }
        let of = |l: &str| l.split(' ').nth(3).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) % es.len();
        if variant == 0 {
            for (i, _, l) in split(lines).into_iter().rev() {
                let Ok(c) = es[of(&l)].compile() else { return };
                out.d(&format!("line {i} `{l}`"), &Self::exec(&c, &l));
            }
            return;
        }
        let nt = param_n(lines, "threads", 1).clamp(1, 8);
        let hold = param_n(lines, "hold", 0);
        let cs: Arc<Vec<CompiledEvaluator>> = Arc::new(es.iter().filter_map(|e| e.compile().ok()).collect());
        if cs.len() != es.len() {
            return;
        }
        let d = Arc::clone(&cs);
        let res = if hold == 1 {
            // threads recompile the expression they share
            let e = Arc::new(es.clone());
            on_threads(lines, nt, out, move |_, l| guarded(l, || e[l.split(' ').nth(3).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) % e.len()].compile().map_or_else(|e| e.to_string(), |c| Self::exec(&c, l))))
        } else {
            on_threads(lines, nt, out, move |_, l| Self::exec(&d[l.split(' ').nth(3).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) % d.len()], l))
        };
        for (i, l, s) in res {
            // And afterwards the evaluator is still what it was.
            let again = Self::exec(&cs[of(&l)], &l);
            if again != s {
                out.v("evaluator-changed", &format!("`{l}`: {s}, and after all threads had ended {again}"));
            }
            out.d(&format!("line {i} `{l}`"), &s);
        }
    }
}

/// Parallel evaluation with numbers, expressions and skipped variables.
pub struct Points;
struct Case {
    inputs: Vec<(bool, String)>,
    names: Vec<Vec<String>>,
    values: Vec<Vec<Vec<Value>>>,
}
fn case_of(seed: u64, fs: &str) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case { inputs: vec![], names: vec![], values: vec![] };
    for f in fs.split(" ;; ") {
        let (s, f) = f.split_once(':').unwrap_or(("x", f));
        let mut names: Vec<String> = ["x", "y", "z"].iter().filter(|v| f.contains(**v)).map(|s| (*s).to_string()).collect();
        if let Ok(e) = ops::p(f) {
            names = ops::vars_sorted(&e);
        }
        r.shuffle(&mut names);
        if r.chance(1, 8) {
            names.pop(); // an unbound variable
        }
        if r.chance(1, 8) {
            names.push("unused_v".into());
        }
        let mode = r.n(4);
        let wild = mode < 2 && r.chance(1, 4);
        let cheap = f.len() < 25;
        let n = match mode {
            0 | 1 if cheap && r.chance(1, 4) => *r.pick(&[1000, 2048, 3000, 5000]),
            0 | 1 => *r.pick(&[1, 2, 3, 5, 9, 255, 256, 257, 300, 513]),
            // symbolic values here and there among many points
            _ if cheap && r.chance(1, 3) => *r.pick(&[40, 255, 256, 257, 300, 700]),
            _ => r.range(1, 9),
        };
        let rare = n > 20 && r.chance(2, 3);
        // a single one that is not a number
        let single = (n > 20 && r.chance(1, 3)).then(|| (r.n(names.len().max(1)), r.n(n)));
        let own = r.chance(1, 3);
        let vals: Vec<Vec<Value>> = names
            .iter()
            .enumerate()
            .map(|(j, _)| {
                let len = match r.n(6) {
                    _ if single.is_some_and(|s| s.0 == j) => n,
                    0 => 1,
                    1 => r.range(1, n),
                    _ => n,
                };
                (0..len)
                    .map(|i| {
                        let num = match r.n(12) {
                            0 => 0.5,
                            1 => 2.0,
                            2 => -1.5,
                            3 if wild => *r.pick(&[0.0, -0.0, 1e8, -3e7, 1e15, 1e16, -1e20, 123_456_789.0, 1e-9]),
                            3 => 1.0,
                            _ => 0.2 + (r.f() * 3.0 * 64.0).round() / 64.0,
                        };
                        if let Some(s) = single {
                            return if s == (j, i) { if num < 1.0 { SKIP } else { Value::Expr(symb("w").to_expr() + Expr::number(1.0)) } } else { Value::Num(num) };
                        }
                        match (mode, if rare && !r.chance(1, 15) { 4 } else { r.n(5) }) {
                            (2, 0) => SKIP,
                            (2, 1) | (3, 0) => Value::Expr(match r.n(if own { 5 } else { 3 }) {
                                // names of other columns, substituted one after the other
                                3 => symb(*r.pick(&["x", "y", "z"])).to_expr() + Expr::number(0.5),
                                4 => symb("w").to_expr() * symb(*r.pick(&["x", "y", "z"])).to_expr(),
                                0 => symb("w").to_expr() + Expr::number(1.0),
                                1 => symb("w").to_expr(),
                                _ => Expr::number(0.5) * symb("w").to_expr().pow(2.0),
                            }),
                            _ => Value::Num(num),
                        }
                    })
                    .collect()
            })
            .collect();
        c.inputs.push((s == "s", f.to_string()));
        c.names.push(names);
        c.values.push(vals);
    }
    match r.n(25) {
        0 => {
            if let Some(v) = c.values.last_mut() {
                v.pop();
            }
        }
        1 => {
            if let Some(x) = c.values.last_mut().and_then(|v| v.last_mut()) {
                x.clear();
            }
        }
        2 => {
            c.names.pop();
        }
        _ => {}
    }
    c
}
pub fn points_call(l: &str) -> (String, Option<Vec<Vec<EvalResult>>>) {
    let (h, fs) = l.split_once(" | ").unwrap_or((l, "x:x"));
    let seed: u64 = h.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut keep = None;
    let s = guarded(l, || {
        let c = case_of(seed, fs);
        let mut ins = Vec::new();
        for (s, f) in &c.inputs {
            if *s {
                ins.push(ExprInput::from(f.as_str()));
            } else {
                match ops::p(f) {
                    Ok(e) => ins.push(ExprInput::from(e)),
                    Err(_) => return "parse error".into(),
                }
            }
        }
        let names: Vec<Vec<VarInput>> = c.names.iter().map(|n| n.iter().map(|s| if seed % 2 == 0 { VarInput::from(s.as_str()) } else { VarInput::from(&symb(s)) }).collect()).collect();
        match evaluate_parallel(ins, names, c.values) {
            Err(_) => "error".to_string(),
            Ok(o) => {
                let mut t = String::new();
                for x in &o {
                    let _ = write!(t, "[{}] ", x.len());
                    let body: Vec<String> = x.iter().map(|r| format!("{}{r}", if r.is_string() { 's' } else { 'x' })).collect();
                    if body.len() > 12 {
                        let _ = write!(t, "{:016x} {}", hash_str(&body.join(";")), body[..3].join(";"));
                    } else {
                        t.push_str(&body.join(";"));
                    }
                }
                keep = Some(o);
                t
            }
        }
    });
    (s, keep)
}
fn num(e: &Expr) -> Option<f64> {
    e.as_number()
}
/// Value of an expression whose remaining variables get fixed values.
fn closed(e: &Expr) -> f64 {
    let vs: Vec<String> = e.variables().into_iter().collect();
    let m: HashMap<&str, f64> = vs.iter().map(|v| (v.as_str(), 0.37 + 0.1 * f64::from(u32::from(v.as_bytes()[0]) % 17))).collect();
    num(&e.evaluate(&m, &HashMap::new())).unwrap_or(f64::NAN)
}
fn points_verify(l: &str, got: &[Vec<EvalResult>], out: &mut Out) {
    let (h, fs) = l.split_once(" | ").unwrap_or((l, "x:x"));
    let seed: u64 = h.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let c = case_of(seed, fs);
    if got.len() != c.inputs.len() {
        out.v("lost-results", &format!("`{l}`: {} result lists for {} expressions", got.len(), c.inputs.len()));
        return;
    }
    for (i, g) in got.iter().enumerate() {
        let (is_s, f) = &c.inputs[i];
        let e = match ops::p(f) {
            Ok(e) => e,
            Err(_) => return,
        };
        let vals = &c.values[i];
        let n = if vals.is_empty() { 1 } else { vals.iter().map(Vec::len).max().unwrap_or(0) };
        if g.len() != n {
            out.v("lost-results", &format!("`{l}` expression {i}: {} results for {n} points", g.len()));
            return;
        }
        let special = |k: usize| vals.iter().any(|v| !matches!(v[k.min(v.len() - 1)], Value::Num(_)));
        for k in (0..n).filter(|k| n < 40 || k % 17 == 0 || (250..260).contains(k) || k + 5 > n || (n < 6000 && special(*k) && hash_str(&k.to_string()) % 5 != 0)) {
            if g[k].is_string() != *is_s {
                out.v("wrong-type", &format!("`{l}` expression {i} point {k}: a {} for a {} input", if g[k].is_string() { "string" } else { "expression" }, if *is_s { "string" } else { "expression" }));
                return;
            }
            let at = |s: f64, only: usize| {
                let mut x = e.clone();
                let mut m: HashMap<&str, f64> = HashMap::new();
                for (j, name) in c.names[i].iter().enumerate() {
                    match &vals[j][k.min(vals[j].len() - 1)] {
                        Value::Num(v) => {
                            m.insert(name, if only == j || only == usize::MAX { v * s } else { *v });
                        }
                        Value::Expr(r) => x = x.substitute(name, r),
                        Value::Skip => {}
                    }
                }
                x.evaluate(&m, &HashMap::new())
            };
            let want = at(1.0, usize::MAX);
            if g[k].to_string() == want.to_string() {
                continue;
            }
            let Ok(res) = g[k].to_expr() else {
                continue; // not every printed form (NaN, inf) parses
            };
            // Printing is not exact: a printed result is compared with the printed expectation.
            let read = |e: Expr| if *is_s && e.as_number().is_none() { ops::p(&e.to_string()).unwrap_or(e) } else { e };
            let (a, b) = (g[k].to_string().parse().unwrap_or_else(|_| closed(&res)), closed(&read(want.clone())));
            if b.is_finite() && !a.is_finite() && special(k) {
                out.v("differs-from-point", &format!("`{l}` expression {i} point {k} of {n}: {}, evaluated alone {want}", g[k]));
                return;
            }
            if !a.is_finite() || !b.is_finite() || close(a, b) {
                continue;
            }
            let smooth = [1.0 + 1e-9, 1.0 - 1e-9].iter().all(|s| (0..c.names[i].len()).chain([usize::MAX]).all(|o| (closed(&read(at(*s, o))) - b).abs() <= 1e-7 * b.abs() + 1e-10));
            if smooth && b.abs() < 1e60 {
                out.v("differs-from-point", &format!("`{l}` expression {i} point {k} of {n}: {}, evaluated alone {want}", g[k]));
                return;
            }
        }
        out.p("points-verified");
    }
}
impl Scenario for Points {
    fn name(&self) -> &'static str {
        "parallel-points"
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "src/bindings/parallel.rs (numeric, hybrid and symbolic paths), parser, evaluator, substitution, rayon and crossbeam thread pool"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 10));
        c.stall = *r.pick(&[0, 0, 20, 100, 300]);
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(1, 3);
        let mut v = vec![format!("#rayon {}", r.range(1, 5)), format!("#threads {nt}")];
        for _ in 0..r.range(1, 4) {
            let fs: Vec<String> = (0..r.range(1, 4))
                .map(|_| {
                    let d = r.range(1, 2);
                    let f = if r.chance(1, 15) { ops::many_formula(r, 5, 20) } else if r.chance(1, 4) { cheap_formula(r, &["x", "y", "z"]) } else if r.chance(1, 10) { ops::big_formula(r.u64() >> 20, &["x", "y", "z"]) } else { ops::formula(r, d, &["x", "y", "z"]) };
                    format!("{}:{f}", if r.chance(1, 2) { "s" } else { "x" })
                })
                .collect();
            v.push(format!("T{} ep {} | {}", r.n(nt), r.u64() >> 20, fs.join(" ;; ")));
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        if variant == 0 {
            for (i, _, l) in split(lines).into_iter().rev() {
                out.d(&format!("line {i} `{l}`"), &points_call(&l).0);
            }
            return;
        }
        let nt = param_n(lines, "threads", 1).clamp(1, 8);
        let res = on_threads(lines, nt, out, |_, l| points_call(l));
        rt::end();
        for (i, l, (s, got)) in res {
            out.d(&format!("line {i} `{l}`"), &s);
            if s.starts_with("PANIC") {
                out.v("panic", &s);
            }
            if let Some(g) = got {
                points_verify(&l, &g, out);
            }
        }
    }
}

/// Uncertainty propagation, whose partial derivatives are taken on the thread pool.
pub struct Unc;
struct UncCase {
    e: Expr,
    vars: Vec<String>,
    cov: Option<CovarianceMatrix>,
    rel: bool,
}
fn unc_case(l: &str) -> Option<UncCase> {
    let (h, f) = l.split_once(" | ").unwrap_or((l, "x"));
    let w: Vec<&str> = h.split(' ').collect();
    let seed: u64 = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let e = ops::p(f).ok()?;
    let mut r = Rng::new(seed);
    let mut vs = ops::vars_sorted(&e);
    r.shuffle(&mut vs);
    if r.chance(1, 4) {
        vs.push("absent".into());
        r.shuffle(&mut vs);
    }
    let many = r.chance(1, 8);
    if many {
        // most partial derivatives are zero
        vs.extend((0..r.range(1, 20)).map(|i| format!("absent_{i}")));
        r.shuffle(&mut vs);
    }
    vs.truncate(if many { 24 } else if w[0] == "all" { 12 } else { 5 });
    if !vs.is_empty() && r.chance(1, 10) {
        // one of them named twice
        let again = r.pick(&vs).clone();
        vs.push(again);
    }
    // in part a matrix that does not fit, which is an error
    let n = if r.chance(1, 20) { (vs.len() + r.n(3)).saturating_sub(1) } else { vs.len() };
    let cov = match r.n(if n > 6 && !many { 2 } else { 4 }) {
        0 => None,
        // each variance a symbol of its own: which variable got which shows
        1 => Some(CovarianceMatrix::diagonal((0..n).map(|i| CovEntry::Symbolic(Expr::symbol(format!("v{i}")))).collect())),
        k => {
            let mut m: Vec<Vec<CovEntry>> = vec![vec![CovEntry::Num(0.0); n]; n];
            for i in 0..n {
                for j in i..n {
                    let c = match (k, r.n(4)) {
                        (2, _) | (_, 0) => CovEntry::Num(0.5 + i as f64 + 0.125 * j as f64),
                        (_, 1) => CovEntry::Num(0.0),
                        _ => CovEntry::Symbolic(Expr::symbol(format!("c{i}{j}"))),
                    };
                    m[i][j] = c.clone();
                    m[j][i] = c;
                }
            }
            CovarianceMatrix::new(m).ok()
        }
    };
    Some(UncCase { e, vars: vs, cov, rel: w[0] == "rel" })
}
pub fn unc_call(l: &str) -> (String, Option<Expr>) {
    let mut keep = None;
    let s = guarded(l, || {
        let Some(c) = unc_case(l) else { return "parse error".into() };
        let rf: Vec<&str> = c.vars.iter().map(String::as_str).collect();
        let res = if c.rel { relative_uncertainty(&c.e, &rf, c.cov.as_ref()) } else { uncertainty_propagation(&c.e, &rf, c.cov.as_ref()) };
        match res {
            Ok(x) => {
                let s = ops::show_all(&x);
                keep = Some(x);
                s
            }
            Err(e) => format!("error {e}"),
        }
    });
    (s, keep)
}
/// The value of an expression with the k-th set of values for its variables.
fn value_at(e: &Expr, k: u32, factor: f64) -> f64 {
    let vs: Vec<String> = e.variables().into_iter().collect();
    let m: HashMap<&str, f64> = vs
        .iter()
        .map(|v| {
            let h = hash_str(&format!("{v} {k}"));
            (v.as_str(), (0.35 + (h % 1024) as f64 / 1024.0 * 1.6) * factor)
        })
        .collect();
    num(&e.evaluate(&m, &HashMap::new())).unwrap_or(f64::NAN)
}
/// The propagation formula itself, with the partial derivatives taken one after the other: the
/// result must have its value wherever both are well conditioned.
fn unc_verify(l: &str, got: &Expr, out: &mut Out) {
    let Some(c) = unc_case(l) else { return };
    let mut partials = Vec::new();
    for v in &c.vars {
        match Diff::new().differentiate(&c.e, &symb(v)) {
            Ok(d) => partials.push(d),
            Err(_) => return,
        }
    }
    let default = CovarianceMatrix::diagonal_symbolic(&c.vars.iter().map(String::as_str).collect::<Vec<_>>());
    let cov = c.cov.as_ref().unwrap_or(&default);
    let want = |k: u32, factor: f64| {
        let p: Vec<f64> = partials.iter().map(|d| value_at(d, k, factor)).collect();
        let mut s = 0.0;
        for i in 0..p.len() {
            for j in 0..p.len() {
                s += p[i] * p[j] * cov.get(i, j).map_or(0.0, |c| value_at(&c.to_expr(), k, factor));
            }
        }
        s.sqrt() / if c.rel { value_at(&c.e, k, factor).abs() } else { 1.0 }
    };
    let (mut right, mut wrong, mut first) = (0, 0, None);
    for k in 0..12 {
        let (a, b) = (value_at(got, k, 1.0).abs(), want(k, 1.0).abs());
        if !a.is_finite() || !b.is_finite() || b > 1e8 || b < 1e-6 {
            continue;
        }
        if [1.0 + 1e-9, 1.0 - 1e-9].iter().any(|f| (want(k, *f).abs() - b).abs() > 1e-7 * b || (value_at(got, k, *f).abs() - a).abs() > 1e-7 * a) {
            continue;
        }
        if (a - b).abs() <= 1e-5 * a.max(b) {
            right += 1;
        } else {
            wrong += 1;
            first = first.or(Some((a, b)));
        }
    }
    if right > 0 {
        out.p("propagation-formula-compared");
    }
    if wrong >= 3 && right == 0 {
        out.v("wrong-propagation", &format!("`{l}`: {got} at {wrong} points of {wrong}; first {:?} (got, one partial derivative after the other)", first));
    }
}
impl Scenario for Unc {
    fn name(&self) -> &'static str {
        "uncertainty"
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "src/uncertainty.rs, differentiation, simplification, symbol registry, rayon and crossbeam thread pool"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 10));
        c.stall = *r.pick(&[0, 0, 20, 100, 300]);
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(1, 3);
        let nv = r.range(2, 5);
        let mut vars = ops::VARS.to_vec();
        r.shuffle(&mut vars);
        let mut v = vec![format!("#rayon {}", r.range(1, 5)), format!("#threads {nt}"), format!("#warm {}", r.n(2))];
        for _ in 0..r.range(1, 3) {
            let all = r.chance(1, 10);
            let nv = if all { 6 } else { nv };
            let f = match r.n(if all { 3 } else { 4 }) {
                2 if all => ops::many_formula(r, 7, 12),
                3 => ops::any_formula(r, 2, &vars[..nv]),
                0 => vars[..nv].iter().enumerate().map(|(i, v)| format!("{}*{v}^{}", i + 2, r.range(1, 3))).collect::<Vec<_>>().join(" + "),
                1 => vars[..nv].join("*"),
                _ => ops::any_formula(r, 2, &vars[..nv]),
            };
            v.push(format!("T{} {} {} | {f}", r.n(nt), if all { "all" } else { *r.pick(&["unc", "unc", "rel"]) }, r.u64() >> 20));
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        if variant == 0 {
            for (i, _, l) in split(lines).into_iter().rev() {
                out.d(&format!("line {i} `{l}`"), &unc_call(&l).0);
            }
            return;
        }
        if param_n(lines, "warm", 0) == 1 {
            let _ = unc_call("unc 1 | x*y");
        }
        let nt = param_n(lines, "threads", 1).clamp(1, 8);
        let res = on_threads(lines, nt, out, |_, l| unc_call(l));
        rt::end();
        for (i, l, (s, got)) in res {
            out.d(&format!("line {i} `{l}`"), &s);
            if let Some(g) = got {
                unc_verify(&l, &g, out);
            }
        }
    }
}
