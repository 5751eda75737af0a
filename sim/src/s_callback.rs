//! User code called back by the library: it may panic, call the library again, use the very context
//! it was called for, or run parallel evaluations, at any invocation and on any thread.
use crate::driver::{Out, Scenario, panic_text, param_n};
use crate::ops;
use crate::rng::Rng;
use crate::rt::{self, SimCfg};
use crate::s_batch::on_threads;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use symb_anafis::visitor::{ExprVisitor, walk_expr};
use symb_anafis::*;

/// What user code does on this thread during the current call.
#[derive(Clone, Copy, Default)]
struct Inj {
    armed: bool,
    count: u32,
    panic_at: u32,
    every: u32,
    seed: u64,
    fired: bool,
    reentered: u32,
}
thread_local! {
    static INJ: Cell<Inj> = Cell::new(Inj::default());
    static CTX: RefCell<Option<Context>> = const { RefCell::new(None) };
}
const INJECTED: &str = "injected failure of user code";

/// Called by every piece of user code.
fn hook() {
    let mut s = INJ.get();
    if !s.armed {
        return;
    }
    s.count += 1;
    INJ.set(s);
    if s.every != 0 && s.count % s.every == 0 && s.reentered < 6 {
        s.armed = false;
        s.reentered += 1;
        INJ.set(s);
        reenter(s.seed.wrapping_add(u64::from(s.count)));
        s.armed = true;
        INJ.set(s);
    }
    if s.count == s.panic_at {
        s.fired = true;
        INJ.set(s);
        std::panic::panic_any(INJECTED);
    }
}
/// Calls made by user code and what they returned, to be compared with the same calls made later.
static NESTED: Mutex<Vec<(String, String, String)>> = Mutex::new(Vec::new());
fn reenter(seed: u64) {
    let mut r = Rng::new(seed);
    let ctx = CTX.with(|c| c.borrow().clone()).unwrap_or_default();
    for _ in 0..r.range(1, 2) {
        let n = format!("re_{}", r.n(3));
        match r.n(22) {
            16..=21 => {
                let k = *r.pick(&["comp", "diff", "derive", "simp", "simp", "simpfn", "simpfn", "eval", "params", "gone", "plain"]);
                let f = if r.chance(1, 2) { formula(&mut r) } else { format!("{} + {}", ops::setting_formula(&mut r, &["x", "y", "t1"]), ops::formula(&mut r, 1, &["x", "y"])) };
                let t = call(k, &f, &ctx);
                rt::quiet(|| NESTED.lock().unwrap_or_else(std::sync::PoisonError::into_inner).push((k.into(), f, t)));
            }
            0 => drop(symb(&n).to_expr() + Expr::number(2.0)),
            1 => drop(symb_new(&n)),
            2 => drop(remove_symbol(&n)),
            3 => drop(ctx.symb(&n).to_expr().sin()),
            4 => {
                let mut c = ctx.clone();
                let _ = c.remove_symbol(&n);
            }
            5 => drop((ctx.symbol_names(), ctx.contains_symbol("x"), ctx.symbol_count())),
            6 => drop(simplify("x + x*2 + sin(x)^2 + cos(x)^2", &[], None)),
            7 => drop(diff("x^3*sin(x)", "x", &[], None)),
            8 => drop(parse("w_fn(x) + y", &HashSet::new(), &HashSet::new(), Some(&ctx)).map(|e| CompiledEvaluator::compile_auto(&e, Some(&ctx)))),
            9 => drop(Diff::new().with_context(&ctx).diff_str("g_two(x, y)", "x", &[])),
            10 => {
                let e = symb("x").to_expr().pow(2.0) + Expr::number(1.0);
                let c: Vec<f64> = (0..300).map(f64::from).collect();
                let o = eval_f64(&[&e], &[&["x"]], &[&[&c[..]]]);
                assert!(o.is_ok_and(|o| o[0][299] == 299.0 * 299.0 + 1.0), "a parallel evaluation from user code went wrong");
            }
            11 => drop(std::thread::spawn(move || (symb(&n), Simplify::new().simplify_str("x*x", &[]))).join()),
            12 => drop((symbol_names(), symbol_count())),
            13 => drop(ctx.clone().with_symbols([n.as_str(), "re_a", "re_b"])),
            14 => drop(Context::new().with_symbol(&n).with_function(&n, ops::scale(2.0))),
            _ => drop(uncertainty_propagation(&(symb("x").to_expr() * symb("y").to_expr()), &["x", "y"], None)),
        }
    }
}

/// A symbol name supplied by user code.
struct Name(&'static str);
impl AsRef<str> for Name {
    fn as_ref(&self) -> &str {
        hook();
        self.0
    }
}
/// Captured by the user functions; its destructor uses the library.
struct OnDrop;
impl Drop for OnDrop {
    fn drop(&mut self) {
        drop(symb("re_drop").to_expr() + Expr::number(1.0));
    }
}
pub fn context() -> Context {
    let g = Arc::new(OnDrop);
    let g2 = Arc::clone(&g);
    let w = UserFunction::new(1..=1)
        .body(move |a| {
            hook();
            let _ = &g;
            Expr::number(1.5) * (*a[0]).clone().pow(2.0) + (*a[0]).clone()
        })
        .partial(0, move |a| {
            hook();
            let _ = &g2;
            Expr::number(3.0) * (*a[0]).clone() + Expr::number(1.0)
        })
        .expect("valid");
    let two = UserFunction::new(2..=2)
        .body(|a| {
            hook();
            (*a[0]).clone() * Expr::func("w_fn", (*a[1]).clone()) + (*a[0]).clone()
        })
        .partial(0, |a| {
            hook();
            Expr::func("w_fn", (*a[1]).clone()) + Expr::number(1.0)
        })
        .expect("valid")
        .partial(1, |a| {
            hook();
            (*a[0]).clone() * (Expr::number(3.0) * (*a[1]).clone() + Expr::number(1.0))
        })
        .expect("valid");
    Context::new().with_symbols(ops::KNOWN).with_function("w_fn", w).with_function("g_two", two)
}
struct Count(u64);
impl ExprVisitor for Count {
    fn visit_number(&mut self, n: f64) -> bool {
        hook();
        self.0 = self.0.wrapping_mul(31).wrapping_add(n.to_bits());
        true
    }
    fn visit_symbol(&mut self, n: &str) -> bool {
        hook();
        self.0 = self.0.wrapping_mul(31).wrapping_add(n.len() as u64);
        true
    }
    fn visit_function(&mut self, n: &str, a: &[Arc<Expr>]) -> bool {
        hook();
        self.0 = self.0.wrapping_mul(31).wrapping_add((n.len() * 8 + a.len()) as u64);
        true
    }
    fn visit_binary(&mut self, op: &str, _: &Expr, _: &Expr) -> bool {
        hook();
        self.0 = self.0.wrapping_mul(31).wrapping_add(op.len() as u64);
        true
    }
    fn visit_derivative(&mut self, _: &Expr, _: &str, o: u32) -> bool {
        hook();
        self.0 += u64::from(o);
        true
    }
}
fn er<T>(r: Result<T, DiffError>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(e) => format!("error {e}"),
    }
}
fn call(kind: &str, f: &str, ctx: &Context) -> String {
    let p = || parse(f, &HashSet::new(), &HashSet::new(), Some(ctx));
    let sh = |e: Expr| e.to_string();
    match kind {
        "comp" => er(p().and_then(|e| CompiledEvaluator::compile_auto(&e, Some(ctx))), |c| ops::bits(&[c.evaluate(&vec![0.7; c.param_count()])])),
        "diff" => er(Diff::new().with_context(ctx).diff_str(f, "x", &[]), |s| s),
        "derive" => er(p(), |e| sh(e.derive("x", Some(ctx)))),
        "simp" => er(Simplify::new().with_context(ctx).simplify_str(f, &[]), |s| s),
        "simpfn" => er(p(), |e| {
            let s = ["w_fn", "g_two"].iter().fold(Simplify::new(), |s, n| s.user_fn(*n, ctx.get_user_fn(n).cloned().unwrap_or_default()));
            er(s.simplify(&e), sh)
        }),
        "eval" => er(p(), |e| {
            #[allow(clippy::type_complexity)]
            let mut m: HashMap<String, Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>> = HashMap::new();
            m.insert("w_fn".into(), Arc::new(|a: &[f64]| {
                hook();
                Some(a[0] * 2.0)
            }));
            m.insert("g_two".into(), Arc::new(|a: &[f64]| {
                hook();
                if a[0] > 0.5 { Some(a[0] + a[1]) } else { None }
            }));
            let v: HashMap<&str, f64> = [("x", 1.5), ("y", -0.25), ("t1", 2.0)].into_iter().collect();
            sh(e.evaluate(&v, &m))
        }),
        "map" => er(p(), |e| {
            sh(e.map(|n| {
                hook();
                match n.as_number() {
                    Some(k) => Expr::number(k + 1.0),
                    None => n.clone(),
                }
            }))
        }),
        "fold" => er(p(), |e| {
            e.fold(0usize, |a, n| {
                hook();
                a * 3 + n.node_count()
            })
            .to_string()
        }),
        "visit" => er(p(), |e| {
            let mut c = Count(7);
            walk_expr(&e, &mut c);
            format!("{:x}", c.0)
        }),
        "names" => {
            let c = ctx.clone().with_symbols([Name("cb_a"), Name("cb_b"), Name("cb_c")]);
            format!("{} {} {}", c.symb("cb_a") == c.symb("cb_a"), c.contains_symbol("cb_b"), c.contains_symbol("cb_c"))
        }
        "fresh" => {
            let c = Context::new().with_symbols([Name("cb_d"), Name("cb_e")].into_iter().inspect(|_| hook())).with_function_names([Name("cb_f"), Name("cb_g")]);
            format!("{} {}", c.symbol_count(), c.function_names().len())
        }
        "params" => er(p(), |e| er(e.compile_with_params(&[Name("x"), Name("y"), Name("z"), Name("t1"), Name("alpha"), Name("omega_k")]), |c| format!("{:?} {}", c.param_names(), ops::bits(&[c.evaluate(&[0.3, 0.4, 0.5, 0.6, 0.7, 0.8])])))),
        "plain" => er(p(), |e| er(Simplify::new().simplify(&e), sh)),
        "gone" => {
            // the last clone of a context with user functions goes away
            let c = context();
            let d = c.clone().with_function("w_fn", ops::scale(2.0));
            drop(c);
            er(Diff::new().with_context(&d).diff_str(f, "x", &[]), |s| s)
        }
        _ => format!("unknown call {kind}"),
    }
}
const KINDS: [&str; 13] = ["comp", "diff", "derive", "simp", "simpfn", "eval", "map", "fold", "visit", "names", "fresh", "params", "gone"];

pub struct Done {
    text: String,
    bad: Option<String>,
    fired: bool,
    reentered: u32,
}
/// `line`: `<kind> <panic_at> <every> <seed> | <formula>`
pub fn exec(line: &str, ctx: &Context, armed: bool) -> Done {
    let (head, f) = line.split_once(" | ").unwrap_or((line, "x"));
    let w: Vec<&str> = head.split(' ').collect();
    let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let kind = w.first().copied().unwrap_or("");
    let old = INJ.replace(Inj { armed, panic_at: n(1) as u32, every: n(2) as u32, seed: n(3), ..Inj::default() });
    let old_ctx = CTX.with(|c| c.replace(Some(ctx.clone())));
    let res = catch_unwind(AssertUnwindSafe(|| call(kind, f, ctx)));
    let s = INJ.replace(old);
    let d = CTX.with(|c| c.replace(old_ctx));
    drop(d);
    let mut done = Done { text: String::new(), bad: None, fired: s.fired, reentered: s.reentered };
    match res {
        Ok(t) => {
            if s.fired {
                done.bad = Some(format!("`{line}`: the failure of user code never reached the caller, the call returned {t}"));
            }
            done.text = t;
        }
        Err(p) => {
            let m = panic_text(p.as_ref());
            if !s.fired || m != INJECTED {
                done.bad = Some(format!("`{line}`: panic: {m}"));
            }
        }
    }
    done
}
fn formula(r: &mut Rng) -> String {
    let vars = ["x", "y", "t1"];
    let a = ops::formula(r, 1, &vars);
    let b = ops::formula(r, 1, &vars);
    match r.n(6) {
        0 => format!("w_fn({a})"),
        1 => format!("g_two({a}, {b})"),
        2 => format!("w_fn(g_two(x, {a})) + {b}"),
        3 => format!("w_fn({a})*w_fn(x) + g_two(x, w_fn(y))"),
        4 => format!("sin(w_fn(x)^2) + ({a})*w_fn({b})"),
        _ => format!("g_two(w_fn(x), w_fn({a}))/(2 + x)"),
    }
}

/// A random call with injected failures and re-entrance.
pub fn gen_line(r: &mut Rng) -> String {
    let panic_at = if r.chance(1, 2) { r.range(1, 6) } else { 0 };
    format!("{} {panic_at} 0 {} | {}", r.pick(&KINDS), r.u64() >> 20, formula(r))
}

pub struct Callback;
impl Scenario for Callback {
    fn name(&self) -> &'static str {
        "user-code"
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "contexts and user functions (bodies, partials, custom evaluations), differentiation, simplification, compilation, map/fold/visitor, parallel batch evaluation, symbol registry; user code is the simulator's"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 8));
    }
    fn nontrivial(&self, run: &crate::driver::RunRes) -> bool {
        run.text.contains("P\tinjected_panic") || run.text.contains("P\treentered")
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(1, 4);
        let mut v = vec![format!("#rayon {}", r.range(1, 3)), format!("#threads {nt}"), format!("#pool {}", u8::from(r.chance(1, 4)))];
        let mut kinds = KINDS.to_vec();
        if r.chance(1, 2) {
            r.shuffle(&mut kinds);
            kinds.truncate(r.range(1, 4));
        }
        let (pp, pr) = (*r.pick(&[0, 1, 2, 3]), *r.pick(&[0, 1, 3, 4]));
        for _ in 0..r.range(2, 9) {
            let panic_at = if r.chance(pp, 4) { r.range(1, 6) } else { 0 };
            let every = if r.chance(pr, 4) { r.range(1, 4) } else { 0 };
            v.push(format!("T{} {} {panic_at} {every} {} | {}", r.n(nt), r.pick(&kinds), r.u64() >> 20, formula(r)));
        }
        if r.chance(1, 8) {
            // the same failure again and again on one thread, then the call as it should be
            let (t, k, f) = (r.n(nt), *r.pick(&kinds), formula(r));
            let (at, seed) = (r.range(1, 3), r.u64() >> 20);
            for _ in 0..r.range(6, 40) {
                v.push(format!("T{t} {k} {at} 0 {seed} | {f}"));
            }
            v.push(format!("T{t} {k} 0 0 {seed} | {f}"));
            v.push(format!("T{t} {} 0 0 {seed} | {}", r.pick(&kinds), formula(r)));
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        let ctx = context();
        if variant == 0 {
            for (i, _, l) in crate::s_batch::split(lines) {
                let d = exec(&l, &ctx, false);
                if let Some(b) = d.bad {
                    out.v("panic", &b);
                }
                out.d(&format!("line {i} `{l}`"), &d.text);
            }
            return;
        }
        let nt = param_n(lines, "threads", 2).clamp(1, 8);
        let res: Vec<(usize, String, Done)> = if param_n(lines, "pool", 0) == 1 {
            let all = Mutex::new(Vec::new());
            rayon::scope(|s| {
                for (i, _, l) in crate::s_batch::split(lines) {
                    let (all, ctx) = (&all, &ctx);
                    s.spawn(move |_| {
                        let d = exec(&l, ctx, true);
                        all.lock().expect("not poisoned").push((i, l, d));
                    });
                }
            });
            all.into_inner().expect("not poisoned")
        } else {
            let c = ctx.clone();
            on_threads(lines, nt, out, move |_, l| exec(l, &c, true))
        };
        for (i, l, d) in res {
            if let Some(b) = d.bad {
                out.v("user-code", &b);
                continue;
            }
            for _ in 0..d.reentered {
                out.p("reentered");
            }
            let text = if d.fired {
                out.p("injected_panic");
                // the same call, now with user code that succeeds, on a library that has seen failures
                let again = exec(&l, &ctx, false);
                if let Some(b) = again.bad {
                    out.v("after-failure", &b);
                }
                again.text
            } else {
                d.text
            };
            out.d(&format!("line {i} `{l}`"), &text);
        }
        let nested = std::mem::take(&mut *NESTED.lock().unwrap_or_else(std::sync::PoisonError::into_inner));
        for (k, f, t) in nested {
            let again = call(&k, &f, &ctx);
            if again != t {
                out.v("called-back", &format!("`{k} {f}` called by user code returned {t}, and called later {again}"));
            }
            out.p("nested-compared");
        }
        // Everybody's own later use
        let after = catch_unwind(AssertUnwindSafe(|| {
            let mut c = ctx.clone();
            let s = c.symb("after");
            let ok = c.get_symbol("after") == Some(s) && c.remove_symbol("after") && !c.contains_symbol("after");
            let t = symb("after");
            ok && symb_get("after").is_ok_and(|x| x == t) && remove_symbol("after") && std::thread::spawn(|| simplify("x + x", &[], None).is_ok_and(|s| s == "2*x")).join().unwrap_or(false)
        }));
        if !after.is_ok_and(|x| x) {
            out.v("after-failure", "the library does not work any more after failures of user code");
        }
    }
}
