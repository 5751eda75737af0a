//! Expressions, configured builders, contexts and covariance matrices used by several threads at
//! once: each call must give what it gives with values of its own, and the values must stay as they were.
use crate::driver::{Out, Scenario, panic_text, param_n};
use crate::ops::{self, VARS};
use crate::rng::Rng;
use crate::rt::{self, SimCfg};
use crate::s_api::guarded;
use crate::s_batch::{on_threads, split};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use symb_anafis::parallel::{ExprInput, Value, VarInput, evaluate_parallel};
use symb_anafis::*;

pub struct Shared {
    pub name: &'static str,
    /// Few and cheap values and kinds of calls, many calls.
    pub focused: bool,
}

struct World {
    es: Vec<Arc<Expr>>,
    diffs: Vec<Diff>,
    simps: Vec<Simplify>,
    ctx: Context,
    cov: Option<CovarianceMatrix>,
    sym: Vec<Symbol>,
}
fn build(lines: &[String]) -> World {
    let ctx = Context::new().with_symbols(ops::known_v()).with_function("w_fn", ops::scale(1.5)).with_function("g_two", ops::two_arg());
    let fns: HashSet<String> = ["w_fn", "g_two", "fu"].iter().map(|s| (*s).to_string()).collect();
    let mut es: Vec<Expr> = lines.iter().filter_map(|l| l.strip_prefix("E ")).filter_map(|f| parse(f, &ops::known(), &fns, None).ok()).collect();
    if es.is_empty() {
        es.push(symb("x").to_expr());
    }
    // expressions that share parts
    let mut r = Rng::new(param_n(lines, "mix", 0) as u64);
    for _ in 0..param_n(lines, "mix", 0) % 4 {
        let (a, b) = (r.pick(&es).clone(), r.pick(&es).clone());
        es.push(match r.n(6) {
            0 => a.clone() * b + a,
            1 => a.sin() / (b.pow(2.0) + Expr::number(1.0)),
            2 => Expr::func("w_fn", a) - b,
            3 => a.pow(b),
            4 => Expr::sum(vec![a.clone(), b.clone(), a * b]),
            _ => Expr::call("g_two", [a, b]),
        });
    }
    let (mut diffs, mut simps) = (Vec::new(), Vec::new());
    for seed in lines.iter().filter_map(|l| l.strip_prefix("B ")).filter_map(|s| s.parse::<u64>().ok()).chain([0]) {
        let mut r = Rng::new(seed);
        let (mut d, mut s) = (Diff::new(), Simplify::new());
        if seed != 0 {
            let safe = r.chance(1, 2);
            d = d.domain_safe(safe);
            s = s.domain_safe(safe);
            match r.n(6) {
                0 | 1 => {
                    d = d.with_context(&ctx);
                    s = s.with_context(&ctx);
                }
                2 => {
                    // same symbols, functions of its own
                    let c = ctx.clone().with_function(*r.pick(&["w_fn", "fu"]), ops::scale(2.0 + r.n(4) as f64));
                    d = d.with_context(&c);
                    s = s.with_context(&c);
                }
                _ => {}
            }
            if r.chance(1, 3) {
                let (n, k) = (*r.pick(&["w_fn", "fu"]), 1.0 + r.n(4) as f64);
                d = d.user_fn(n, ops::scale(k));
                s = s.user_fn(n, ops::scale(k));
            }
            if r.chance(1, 5) {
                d = d.skip_simplification(true);
            }
            if r.chance(1, 6) {
                d = d.max_depth(r.range(2, 9)).max_nodes(400);
                s = s.max_depth(r.range(2, 9));
            }
        }
        diffs.push(d);
        simps.push(s);
    }
    let n = 2;
    let m: Vec<Vec<CovEntry>> = (0..n).map(|i| (0..n).map(|j| if i == j { CovEntry::Num(0.5 + i as f64) } else { CovEntry::Symbolic(Expr::symbol("cov_xy")) }).collect()).collect();
    World { es: es.into_iter().map(Arc::new).collect(), diffs, simps, ctx, cov: CovarianceMatrix::new(m).ok(), sym: VARS.iter().map(|v| symb(v)).collect() }
}
fn er<T>(r: Result<T, DiffError>, f: impl FnOnce(T) -> String) -> String {
    r.map_or_else(|e| format!("error {e}"), f)
}
const KINDS: [&str; 22] = [
    "diff", "diff", "diffraw", "simp", "simp", "grad", "hess", "comp", "subst", "add", "eq", "eval", "print", "unc", "epar", "map", "clone", "sum", "idiff", "ctx", "pass", "str",
];
fn exec(w: &World, l: &str) -> String {
    guarded(l, || {
        let t: Vec<&str> = l.split(' ').collect();
        let n = |k: usize| t.get(k).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
        let e = &*w.es[n(1) % w.es.len()];
        let g = &*w.es[n(2) % w.es.len()];
        let b = n(3) % w.diffs.len();
        let v = VARS[n(4) % VARS.len()];
        let s = &w.sym[n(4) % VARS.len()];
        match t[0] {
            "diff" => er(w.diffs[b].differentiate(e, s), |d| ops::show_all(&d)),
            "idiff" => er(w.diffs[b].differentiate(e, s), |d| er(w.diffs[b].differentiate(&d, s), |d| er(w.simps[b].simplify(&d), |d| d.to_string()))),
            "diffraw" => ops::show_all(&e.derive(v, Some(&w.ctx))),
            "simp" => er(w.simps[b].simplify(e), |d| ops::show_all(&d)),
            "str" => {
                let f = g.to_string();
                format!("{} {}", er(w.diffs[b].diff_str(&f, v, &[]), |x| x), er(w.simps[b].simplify_str(&f, &[]), |x| x))
            }
            "grad" => {
                let r: Vec<&Symbol> = w.sym.iter().take(3).collect();
                er(gradient(e, &r), |g| g.iter().map(ToString::to_string).collect::<Vec<_>>().join(" ; "))
            }
            "hess" => er(hessian(e, &[s, &w.sym[0]]), |m| format!("{:?}", m.iter().flatten().map(ToString::to_string).collect::<Vec<_>>())),
            "comp" => er(CompiledEvaluator::compile_auto(e, Some(&w.ctx)), |c| {
                let cols: Vec<Vec<f64>> = (0..c.param_count()).map(|k| ops::column(n(2) as u64, k, 7)).collect();
                let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                let mut o = vec![0.0; 7];
                let one: Vec<f64> = cols.iter().map(|c| c[0]).collect();
                format!("{:?} {} {} {}", c.param_names(), c.instruction_count(), ops::bits(&[c.evaluate(&one)]), er(c.eval_batch(&refs, &mut o, None), |()| ops::bits(&o)))
            }),
            "subst" => {
                let x = e.substitute(v, g);
                format!("{} {}", x, x.node_count())
            }
            "add" => {
                let a = e.clone() + g.clone();
                let m = e.clone() * g.clone() - e.clone();
                format!("{} # {} # {}", ops::show_all(&a), ops::show_all(&m), er(m.simplified(), |m| m.to_string()))
            }
            "eq" => {
                let mut set = HashSet::new();
                set.insert(e.clone());
                format!("{} {} {} {}", e == g, set.contains(g), set.contains(&e.deep_clone()), e.clone() + g.clone() == g.clone() + e.clone())
            }
            "eval" => {
                let vs = ops::vars_sorted(e);
                let m: HashMap<&str, f64> = vs.iter().enumerate().map(|(i, x)| (x.as_str(), 0.5 + 0.25 * i as f64)).collect();
                let by: HashMap<u64, f64> = w.sym.iter().enumerate().map(|(i, x)| (x.id(), 0.5 + 0.25 * i as f64)).collect();
                format!("{} {}", e.evaluate(&m, &HashMap::new()), e.evaluate(&by, &HashMap::new()))
            }
            "print" => ops::show_all(e),
            "unc" => {
                let vs = ops::vars_sorted(e);
                let rf: Vec<&str> = vs.iter().take(2).map(String::as_str).collect();
                er(uncertainty_propagation(e, &rf, if rf.len() == 2 { w.cov.as_ref() } else { None }), |x| x.to_string())
            }
            "epar" => {
                let vs = ops::vars_sorted(e);
                let vals: Vec<Vec<Value>> = (0..vs.len()).map(|k| (0..5).map(|i| if (k + i) % 4 == 3 { Value::Expr(g.clone()) } else { Value::Num(0.25 * (i + k + 1) as f64) }).collect()).collect();
                er(evaluate_parallel(vec![ExprInput::Parsed(e.clone())], vec![vs.iter().map(|s| VarInput::from(s.as_str())).collect()], vec![vals]), |r| {
                    let mut o = String::new();
                    for x in r.iter().flatten() {
                        let _ = write!(o, "{x} ; ");
                    }
                    o
                })
            }
            "map" => {
                let m = e.map(|x| x.as_number().map_or_else(|| x.clone(), |n| Expr::number(n + 1.0)));
                format!("{m} {}", e.fold(0usize, |a, x| a + x.max_depth()))
            }
            "clone" => {
                let c = e.clone();
                let d = e.deep_clone();
                let s = format!("{} {}", c == d, d);
                drop(c);
                s
            }
            "sum" => {
                let all: Vec<Expr> = w.es.iter().map(|e| (**e).clone()).collect();
                format!("{} # {}", Expr::sum(all.clone()), Expr::product(all))
            }
            "ctx" => {
                let c = w.ctx.clone();
                er(parse(&format!("w_fn({}) + beta_2", v), &HashSet::new(), &HashSet::new(), Some(&c)), |p| er(CompiledEvaluator::compile_auto(&p, Some(&c)), |k| ops::bits(&[k.evaluate(&vec![0.75; k.param_count()])])))
            }
            // on to a thread of its own, which ends with it
            _ => {
                let c = Arc::clone(&w.es[n(1) % w.es.len()]);
                std::thread::spawn(move || format!("{} {}", c, c.derive(v, None))).join().unwrap_or_else(|p| format!("PANIC {}", panic_text(p.as_ref())))
            }
        }
    })
}
fn state(w: &World) -> Vec<String> {
    w.es.iter().map(|e| format!("{} {:?}", ops::show_all(e), ops::vars_sorted(e))).collect()
}
/// With a call of a function that contexts and builders define.
fn with_fn(r: &mut Rng, f: &str) -> String {
    match r.n(4) {
        0 => format!("w_fn({f})"),
        1 => format!("fu({f})*2 + w_fn(x)"),
        2 => format!("g_two(y, w_fn({f}))"),
        _ => format!("w_fn(x)*({f}) + fu(y)"),
    }
}
impl Scenario for Shared {
    fn name(&self) -> &'static str {
        self.name
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "expression trees shared by reference and by shared subtrees, Diff and Simplify builders, contexts, covariance matrices and symbols used by reference from several threads; differentiation, simplification, compiler, printing, uncertainty, parallel evaluation"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 5));
        if self.focused {
            c.stall = *r.pick(&[0, 20, 100, 300, 1000]);
        }
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(2, 4);
        if self.focused {
            let mut v = vec![format!("#rayon {}", r.range(1, 2)), format!("#threads {nt}"), "#mix 0".into(), "#cold 0".into()];
            let ne = r.range(1, 3);
            for _ in 0..ne {
                let f = match r.n(3) {
                    0 => ops::formula(r, 1, &["x", "y"]),
                    1 => ops::bank_formula(r, &["x", "y"]),
                    _ => format!("{} + {}", ops::leaf(r, &["x", "y"]), ops::leaf(r, &["x", "y"])),
                };
                let f = if r.chance(1, 4) { with_fn(r, &f) } else { f };
                v.push(format!("E {f}"));
            }
            for _ in 0..r.range(1, 2) {
                v.push(format!("B {}", if r.chance(1, 2) { 0 } else { r.range(1, 1_000_000) }));
            }
            let k: Vec<&str> = (0..r.range(1, 2)).map(|_| *r.pick(&["diff", "simp", "simp", "diff", "diffraw", "comp", "subst", "add", "eq", "eval", "print", "clone", "map", "ctx", "unc"])).collect();
            for _ in 0..r.range(8, 20) {
                v.push(format!("T{} {} {} {} {} {}", r.n(nt), r.pick(&k), r.n(ne), r.n(ne), r.n(2), r.n(2)));
            }
            return v;
        }
        let nv = r.range(1, 4);
        let mut vars = VARS.to_vec();
        r.shuffle(&mut vars);
        let mut v = vec![format!("#rayon {}", r.range(1, 3)), format!("#threads {nt}"), format!("#mix {}", r.n(10_000)), format!("#cold {}", r.n(3))];
        for _ in 0..r.range(1, 3) {
            let d = r.range(1, 3);
            let l = ops::gen_op(r, d, &vars[..nv], &["setting", "parse", "parse"]);
            let f = l.split_once(" | ").map_or("x", |x| x.1);
            v.push(format!("E {}", if r.chance(1, 4) && !f.contains('∂') { with_fn(r, f) } else { f.to_string() }));
        }
        for _ in 0..r.range(1, 2) {
            v.push(format!("B {}", r.range(1, 1_000_000)));
        }
        let mut kinds = KINDS.to_vec();
        if r.chance(1, 2) {
            r.shuffle(&mut kinds);
            kinds.truncate(r.range(1, 4));
        }
        for _ in 0..r.range(3, 10) {
            let vi = VARS.iter().position(|x| *x == *vars[..nv].first().unwrap_or(&"x")).unwrap_or(0);
            v.push(format!("T{} {} {} {} {} {}", r.n(nt), r.pick(&kinds), r.n(4), r.n(4), r.n(3), if r.chance(3, 4) { vi } else { r.n(VARS.len()) }));
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        if variant == 0 {
            for (i, _, l) in split(lines).into_iter().rev() {
                out.d(&format!("line {i} `{l}`"), &exec(&build(lines), &l));
            }
            return;
        }
        let w = match catch_unwind(AssertUnwindSafe(|| build(lines))) {
            Ok(w) => Arc::new(w),
            Err(p) => {
                out.v("panic", &format!("building the values: {}", panic_text(p.as_ref())));
                return;
            }
        };
        // in part, nothing looked at the values before
        let cold = param_n(lines, "cold", 0) == 1;
        let before = if cold { state(&build(lines)) } else { state(&w) };
        let copies: Vec<Expr> = if cold { Vec::new() } else { w.es.iter().map(|e| e.deep_clone()).collect() };
        let nt = param_n(lines, "threads", 2).clamp(1, 8);
        let c = Arc::clone(&w);
        let res = on_threads(lines, nt, out, move |_, l| exec(&c, l));
        rt::quiet(|| ());
        for (i, l, s) in res {
            out.d(&format!("line {i} `{l}`"), &s);
        }
        let after = state(&w);
        for (i, (a, b)) in before.iter().zip(&after).enumerate() {
            if a != b {
                out.v("value-changed", &format!("expression {i} was {a} and is {b}"));
            }
        }
        for (i, (c, e)) in copies.iter().zip(&w.es).enumerate() {
            if *c != **e {
                out.v("value-changed", &format!("expression {i} ({c}) no longer equals a copy made before"));
            }
        }
    }
}
