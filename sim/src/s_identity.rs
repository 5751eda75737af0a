//! Symbol identity: whatever is created, removed, cleared and re-created by whichever thread, a
//! handle denotes one symbol, never another one, and stays usable in formulas.
use crate::ops::{self, pooled};
use crate::driver::{Out, Scenario, param_n};
use crate::rng::{Rng, hash_str};
use crate::rt::{self, SimCfg};
use crate::s_batch::on_threads;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use symb_anafis::*;

#[derive(Clone)]
struct Handle {
    sym: Symbol,
    /// "" for an anonymous symbol
    name: &'static str,
    /// 0 the global table, k + 1 context k, 1000.. contexts of its own, u64::MAX anonymous
    table: u64,
    expr: Expr,
    shown: String,
}
struct Shared {
    ctx: Vec<Context>,
    all: Mutex<Vec<Handle>>,
    bad: Mutex<Vec<String>>,
    own: Mutex<u64>,
}
impl Shared {
    fn complain(&self, s: String) {
        rt::quiet(|| self.bad.lock().expect("not poisoned").push(s));
    }
    fn add(&self, sym: Symbol, name: &'static str, table: u64, expr: Option<Expr>) {
        let expr = expr.unwrap_or_else(|| sym.to_expr());
        let shown = expr.to_string();
        let anon = format!("${}", sym.id());
        if !(shown == anon || (shown == name && !name.is_empty())) {
            self.complain(format!("the symbol `{name}` of table {table} appears as `{shown}`"));
        }
        rt::quiet(|| self.all.lock().expect("not poisoned").push(Handle { sym, name, table, expr, shown }));
    }
    fn some(&self, seed: u64, n: usize) -> Vec<Handle> {
        rt::quiet(|| {
            let mut r = Rng::new(seed);
            let mut v = self.all.lock().expect("not poisoned").clone();
            r.shuffle(&mut v);
            let mut seen = HashSet::new();
            v.retain(|h| seen.insert(h.sym.id()));
            v.truncate(n);
            v
        })
    }
}
fn look(s: &Shared, h: &Handle) {
    let n = h.sym.name();
    if let Some(n) = &n {
        if n != h.name || h.name.is_empty() {
            s.complain(format!("a handle of `{}` (table {}) now calls itself `{n}`", h.name, h.table));
        }
    }
    let now = h.expr.to_string();
    if now != h.shown {
        s.complain(format!("an expression made of `{}` printed as `{}` and now prints as `{now}`", h.name, h.shown));
    }
    let again = h.sym.to_expr();
    if again != h.expr || again.clone() + Expr::number(1.0) != h.expr.clone() + Expr::number(1.0) {
        s.complain(format!("the same handle of `{}` (table {}) makes two different symbols", h.name, h.table));
    }
    let t = again.to_string();
    if t != h.name && t != format!("${}", h.sym.id()) {
        s.complain(format!("a handle of `{}` (table {}) makes the expression `{t}`", h.name, h.table));
    }
}
fn evaluate(s: &Shared, hs: &[Handle], seed: u64) {
    let mut r = Rng::new(seed);
    let (mut sum, mut want) = (Expr::number(0.5), 0.5);
    let mut vals: HashMap<u64, f64> = HashMap::new();
    let mut list = Vec::new();
    for h in hs {
        let (c, v) = (r.range(1, 9) as f64, r.range(1, 50) as f64);
        let e = if r.chance(1, 2) { h.expr.clone() } else { h.sym.to_expr() };
        sum = match r.n(3) {
            0 => {
                want += c * v;
                sum + Expr::number(c) * e
            }
            1 => {
                want += v * v;
                sum + e.pow(2.0)
            }
            _ => {
                want += c * v;
                Expr::number(c) * e + sum
            }
        };
        vals.insert(h.sym.id(), v);
        list.push(v);
    }
    let got = sum.evaluate(&vals, &HashMap::new());
    if got.as_number() != Some(want) {
        s.complain(format!("{sum} evaluates to {got} by id, not {want}"));
    }
    let syms: Vec<&Symbol> = hs.iter().map(|h| &h.sym).collect();
    match sum.compile_with_params(&syms) {
        Ok(c) => {
            let x = c.evaluate(&list);
            if x != want {
                s.complain(format!("{sum} compiled for its own symbols gives {x}, not {want}"));
            }
        }
        Err(e) => s.complain(format!("{sum} does not compile for its own symbols: {e}")),
    }
    // different symbols are different
    let mut set = HashSet::new();
    for (i, h) in hs.iter().enumerate() {
        set.insert(h.expr.clone());
        for k in &hs[..i] {
            if k.expr == h.expr {
                s.complain(format!("different symbols `{}` ({}) and `{}` ({}) compare equal", k.shown, k.sym.id(), h.shown, h.sym.id()));
            }
        }
    }
    if set.len() != hs.len() {
        s.complain(format!("a set of {} different symbols has {} members", hs.len(), set.len()));
    }
}
/// Derivatives with respect to handles: of E = sum c_i x_i^2 + sum d_ij x_i x_j.
fn derive(s: &Shared, hs: &[Handle], seed: u64) {
    let mut r = Rng::new(seed);
    let n = hs.len();
    let pick = |r: &mut Rng, h: &Handle| if r.chance(1, 2) { h.expr.clone() } else { h.sym.to_expr() };
    let vals: Vec<f64> = hs.iter().map(|_| r.range(1, 20) as f64).collect();
    let by_id: HashMap<u64, f64> = hs.iter().zip(&vals).map(|(h, v)| (h.sym.id(), *v)).collect();
    let mut second = vec![vec![0.0; n]; n];
    let mut e = Expr::number(3.0);
    for i in 0..n {
        let c = r.range(1, 7) as f64;
        second[i][i] = 2.0 * c;
        let t = Expr::number(c) * pick(&mut r, &hs[i]).pow(2.0);
        e = if r.chance(1, 2) { e + t } else { t + e };
        for j in 0..i {
            if r.chance(1, 2) {
                let d = r.range(1, 7) as f64;
                (second[i][j], second[j][i]) = (d, d);
                let t = pick(&mut r, &hs[j]) * Expr::number(d) * pick(&mut r, &hs[i]);
                e = if r.chance(1, 2) { e + t } else { t + e };
            }
        }
    }
    let first: Vec<f64> = (0..n).map(|i| (0..n).map(|j| second[i][j] * vals[j]).sum()).collect();
    let at = |x: &Expr| x.evaluate(&by_id, &HashMap::new()).as_number();
    let syms: Vec<&Symbol> = hs.iter().map(|h| &h.sym).collect();
    let k = r.n(n);
    match Diff::new().differentiate(&e, syms[k]) {
        Ok(d) if at(&d) == Some(first[k]) => {}
        Ok(d) => s.complain(format!("d/d({}) of {e} by its handle is {d}, {:?} and not {} at the point", hs[k].shown, at(&d), first[k])),
        Err(x) => s.complain(format!("d/d({}) of {e} by its handle fails: {x}", hs[k].shown)),
    }
    match gradient(&e, &syms) {
        Ok(g) => {
            let got: Vec<Option<f64>> = g.iter().map(at).collect();
            if got != first.iter().map(|x| Some(*x)).collect::<Vec<_>>() {
                s.complain(format!("the gradient of {e} evaluates to {got:?}, not {first:?}"));
            }
        }
        Err(x) => s.complain(format!("the gradient of {e} fails: {x}")),
    }
    if r.chance(1, 2) {
        match hessian(&e, &syms) {
            Ok(g) => {
                let got: Vec<Vec<Option<f64>>> = g.iter().map(|w| w.iter().map(at).collect()).collect();
                if got != second.iter().map(|w| w.iter().map(|x| Some(*x)).collect()).collect::<Vec<Vec<_>>>() {
                    s.complain(format!("the Hessian of {e} evaluates to {got:?}, not {second:?}"));
                }
            }
            Err(x) => s.complain(format!("the Hessian of {e} fails: {x}")),
        }
    }
    if r.chance(1, 3) {
        match jacobian(&[e.clone(), e.clone() * Expr::number(2.0)], &syms) {
            Ok(g) => {
                let got: Vec<Vec<Option<f64>>> = g.iter().map(|w| w.iter().map(at).collect()).collect();
                let want = vec![first.iter().map(|x| Some(*x)).collect::<Vec<_>>(), first.iter().map(|x| Some(2.0 * x)).collect()];
                if got != want {
                    s.complain(format!("the Jacobian of {e} evaluates to {got:?}, not {want:?}"));
                }
            }
            Err(x) => s.complain(format!("the Jacobian of {e} fails: {x}")),
        }
    }
}
/// A random formula over a list of symbols; the same seed gives the same formula over any list.
fn random_formula(r: &mut Rng, e: &[Expr], depth: usize) -> Expr {
    if depth == 0 || r.chance(1, 6) {
        return if r.chance(1, 5) { Expr::number(r.range(2, 5) as f64) } else { r.pick(e).clone() };
    }
    let mut sub = |r: &mut Rng| random_formula(r, e, depth - 1);
    match r.n(10) {
        0..=2 => sub(r) + sub(r),
        3..=5 => sub(r) * sub(r),
        6 => sub(r) - sub(r),
        7 => sub(r) / (sub(r) + Expr::number(11.0)),
        8 => sub(r).pow(f64::from(2 + r.n(2) as u32)),
        _ => sub(r).sin().pow(2.0) + sub(r).cos().pow(2.0),
    }
}
/// The simplified form of a formula over these symbols has the formula's value, as it has over
/// symbols that all have names of their own.
fn simplify_all(s: &Shared, hs: &[Handle], seed: u64) {
    let mut r = Rng::new(seed);
    let own: Vec<Expr> = hs.iter().map(|h| if r.chance(1, 2) { h.expr.clone() } else { h.sym.to_expr() }).collect();
    let vals: Vec<f64> = hs.iter().map(|_| r.range(3, 40) as f64 / 16.0).collect();
    let ctx = Context::new();
    let other: Vec<Symbol> = (0..hs.len()).map(|i| ctx.symb(&format!("distinct_{i}"))).collect();
    let values = |ids: &mut dyn Iterator<Item = u64>| ids.zip(vals.iter().copied()).collect::<HashMap<u64, f64>>();
    let (v, w) = (values(&mut hs.iter().map(|h| h.sym.id())), values(&mut other.iter().map(Symbol::id)));
    let mut same = |e: &[Expr], v: &HashMap<u64, f64>| {
        let f = random_formula(&mut Rng::new(seed ^ 3), e, 4);
        let want = f.evaluate(v, &HashMap::new()).as_number();
        let (text, simple) = (f.to_string(), Simplify::new().simplify(&f));
        let got = simple.as_ref().ok().and_then(|g| g.evaluate(v, &HashMap::new()).as_number());
        let ok = match (want, got) {
            (Some(a), Some(b)) => (a - b).abs() <= 1e-7 * (1.0 + a.abs()) || !a.is_finite(),
            (a, b) => a.is_none() && b.is_none(),
        };
        (ok, format!("{text} = {want:?} simplifies to {} = {got:?}", simple.map_or_else(|x| x.to_string(), |g| g.to_string())))
    };
    let (ok, text) = same(&own, &v);
    if !ok && same(&other.iter().map(Symbol::to_expr).collect::<Vec<_>>(), &w).0 {
        s.complain(text);
    }
}
fn exec(s: &Shared, l: &str) {
    let w: Vec<&str> = l.split(' ').collect();
    let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let name = pooled(n(1) as usize);
    let k = n(2) as usize % s.ctx.len();
    match w[0] {
        "symb" => s.add(symb(name), name, 0, None),
        "new" => {
            if let Ok(x) = symb_new(name) {
                s.add(x, name, 0, None);
            }
        }
        "get" => {
            if let Ok(x) = symb_get(name) {
                s.add(x, name, 0, None);
            }
        }
        "anon" => s.add(Symbol::anon(), "", u64::MAX, None),
        "ctx" => s.add(s.ctx[k].symb(name), name, k as u64 + 1, None),
        "own" => {
            let id = rt::quiet(|| {
                let mut o = s.own.lock().expect("not poisoned");
                *o += 1;
                *o
            });
            let c = Context::new().with_symbol(name);
            let x = c.symb(name);
            if c.get_symbol(name) != Some(x) || c.symb(name) != x {
                s.complain(format!("a context of its own gives two symbols for `{name}`"));
            }
            s.add(x, name, 1000 + id, None);
        }
        "cparse" if !ops::pool_parses() => s.add(s.ctx[k].symb(name), name, k as u64 + 1, None),
        "cparse" => {
            let e = parse(name, &HashSet::new(), &HashSet::new(), Some(&s.ctx[k]));
            match e {
                // a name that the context does not hold at that moment may be a product of shorter ones
                Ok(e) if (0..ops::POOLED).all(|i| pooled(i) == name || e.to_string() != pooled(i)) => {}
                Ok(e) => s.complain(format!("`{name}` parsed in a context is `{e}`")),
                Err(e) => s.complain(format!("`{name}` does not parse in a context: {e}")),
            }
        }
        "remove" => drop(remove_symbol(name)),
        "clear" => clear_symbols(),
        "cremove" => drop(s.ctx[k].clone().remove_symbol(name)),
        "cclear" => s.ctx[k].clone().clear_symbols(),
        "look" => {
            for h in s.some(n(1), 3) {
                look(s, &h);
            }
        }
        "derive" => {
            let hs = s.some(n(1), 1 + n(2) as usize % 4);
            if !hs.is_empty() {
                derive(s, &hs, n(1) ^ 9);
            }
        }
        "simplify" => {
            let hs = s.some(n(1), 1 + n(2) as usize % 4);
            if !hs.is_empty() {
                simplify_all(s, &hs, n(1) ^ 11);
            }
        }
        _ => {
            let hs = s.some(n(1), 1 + n(2) as usize % 5);
            if !hs.is_empty() {
                evaluate(s, &hs, n(1) ^ 5);
            }
        }
    }
}

pub struct Identity;
impl Scenario for Identity {
    fn name(&self) -> &'static str {
        "symbol-identity"
    }
    fn real(&self) -> &'static str {
        "symbol registry (slot map, shards, caches, anonymous and isolated symbols), contexts, symbol expressions, evaluation by id, compiler"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.mem_points = u32::from(r.chance(1, 4));
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(1, 4);
        let nn = r.range(1, 4);
        let global = r.chance(3, 4);
        let mut kinds = vec!["symb", "symb", "new", "get", "anon", "ctx", "ctx", "own", "cparse", "remove", "remove", "clear", "cremove", "cclear", "look", "look", "eval", "eval", "derive", "simplify"];
        if !global {
            kinds.retain(|k| !["symb", "new", "get", "remove", "clear", "eval", "derive", "simplify"].contains(k));
        }
        if r.chance(1, 2) {
            r.shuffle(&mut kinds);
            kinds.truncate(r.range(4, 10));
            kinds.push("eval");
            if !global {
                kinds.pop();
            }
            kinds.push("ctx");
        }
        let mut v = vec![format!("#threads {nt}"), format!("#ctx {}", r.range(1, 3)), format!("#global {}", u8::from(global)), ops::gen_pool(r)];
        for _ in 0..r.range(6, 30) {
            let k = *r.pick(&kinds);
            v.push(match k {
                "look" | "eval" | "derive" | "simplify" => format!("T{} {k} {} {}", r.n(nt), r.u64() >> 24, r.n(5)),
                _ => format!("T{} {k} {} {}", r.n(nt), r.n(nn), r.n(3)),
            });
        }
        v
    }
    fn run(&self, lines: &[String], _variant: u32, out: &mut Out) {
        ops::set_pool(lines);
        let s = Arc::new(Shared { ctx: (0..param_n(lines, "ctx", 1).clamp(1, 4)).map(|_| Context::new()).collect(), all: Mutex::default(), bad: Mutex::default(), own: Mutex::default() });
        let s2 = Arc::clone(&s);
        on_threads(lines, param_n(lines, "threads", 2).clamp(1, 8), out, move |_, l| exec(&s2, l));
        let all: Vec<Handle> = s.all.lock().map(|a| a.clone()).unwrap_or_default();
        for h in &all {
            look(&s, h);
        }
        let distinct = s.some(hash_str(&lines.join("\n")), 7);
        if !distinct.is_empty() {
            evaluate(&s, &distinct, 77);
            derive(&s, &distinct[..distinct.len().min(4)], 78);
            for i in 0..2 {
                simplify_all(&s, &distinct[..distinct.len().min(4)], 79 + i);
            }
        }
        let global = param_n(lines, "global", 1) == 1;
        let mut by: BTreeMap<u64, Handle> = BTreeMap::new();
        for h in all {
            if let Some(o) = by.get(&h.sym.id()) {
                if o.name != h.name || o.name.is_empty() {
                    s.complain(format!("one symbol serves as `{}` (table {}) and as `{}` (table {})", o.name, o.table, h.name, h.table));
                }
                if !global && o.table != h.table {
                    s.complain(format!("`{}` is one symbol in the separate tables {} and {}", h.name, o.table, h.table));
                }
            } else {
                by.insert(h.sym.id(), h);
            }
        }
        let bad = s.bad.lock().map(|b| b.clone()).unwrap_or_default();
        for b in bad {
            out.v("identity", &b);
        }
    }
}
