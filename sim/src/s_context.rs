//! Contexts: clones of one context are one symbol table, different contexts and the global table
//! stay apart, and work inside a context does not depend on what happens outside it.
use crate::driver::{Out, Scenario, panic_text, param_n};
use crate::ops::{self, pooled};
use crate::rng::{Rng, hash_str};
use crate::rt::{self, SimCfg};
use crate::s_api::guarded;
use crate::s_batch::on_threads;
use std::collections::{HashMap, HashSet};
use symb_anafis::*;

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Id(u64),
    None,
    Bool(bool),
    Count(usize),
    Names(Vec<bool>),
    Unit,
}
#[derive(Clone, Debug)]
struct Ev {
    tid: u32,
    call: u64,
    ret: u64,
    op: String,
    ctx: usize,
    name: usize,
    res: Res,
    expr: Option<Expr>,
}

fn do_op(op: &str, c: &mut Context, name: &str, names: usize) -> (Res, Option<Expr>) {
    let oid = |s: Option<Symbol>| s.map_or(Res::None, |s| Res::Id(s.id()));
    match op {
        "gsymb" => (Res::Id(symb(name).id()), None),
        "gget" => (oid(symb_get(name).ok()), None),
        "gexists" => (Res::Bool(symbol_exists(name)), None),
        "gremove" => (Res::Bool(remove_symbol(name)), None),
        "gclear" => {
            clear_symbols();
            (Res::Unit, None)
        }
        "csymb" => (Res::Id(c.symb(name).id()), None),
        "cwith" => {
            *c = c.clone().with_symbol(name);
            (Res::Unit, None)
        }
        "cwiths" => {
            *c = c.clone().with_symbols((0..names).map(pooled));
            (Res::Unit, None)
        }
        "cget" => (oid(c.get_symbol(name)), None),
        "ccontains" => (Res::Bool(c.contains_symbol(name)), None),
        "ccount" => (Res::Count(c.symbol_count()), None),
        "cempty" => (Res::Bool(c.is_empty()), None),
        "cnames" => {
            let v: HashSet<String> = c.symbol_names().into_iter().collect();
            let w = c.symbol_names_set();
            let _ = w;
            (Res::Names((0..names).map(|i| v.contains(pooled(i))).collect()), None)
        }
        "cremove" => (Res::Bool(c.remove_symbol(name)), None),
        "cclear" => {
            c.clear_symbols();
            (Res::Unit, None)
        }
        "cclearall" => {
            c.clear_all();
            (Res::Unit, None)
        }
        "cparse" => {
            if !ops::pool_parses() {
                return (Res::Id(c.symb(name).id()), None);
            }
            let e = parse(name, &HashSet::new(), &HashSet::new(), Some(c));
            (Res::Unit, e.ok())
        }
        _ => unreachable!("{op}"),
    }
}
fn run_thread(tid: u32, ops: Vec<(String, usize, usize)>, mut cs: Vec<Context>, names: usize) -> Vec<Ev> {
    let mut v = Vec::new();
    for (op, ci, ni) in ops {
        let call = rt::event();
        let k = ci % cs.len();
        let (res, expr) = do_op(&op, &mut cs[k], pooled(ni), names);
        v.push(Ev { tid, call, ret: rt::event(), op, ctx: k, name: ni, res, expr });
    }
    v
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Model {
    g: Vec<u64>,
    c: Vec<Vec<u64>>,
}
/// `fresh(id)`: no operation linearized so far has produced this id.
fn step(m: &Model, e: &Ev, part: Option<usize>, fresh: &dyn Fn(u64) -> bool) -> Option<Model> {
    let mut n = m.clone();
    let g = m.g[e.name];
    let c = m.c[e.ctx][e.name];
    // a context takes over the global symbol of that name, or makes one of its own
    let enter = |n: &mut Model, name: usize, id: u64| -> bool {
        let cur = n.c[e.ctx][name];
        if cur != 0 {
            return cur == id;
        }
        if n.g[name] != 0 {
            n.c[e.ctx][name] = n.g[name];
            return n.g[name] == id;
        }
        if !fresh(id) {
            return false;
        }
        n.c[e.ctx][name] = id;
        true
    };
    match (e.op.as_str(), &e.res) {
        ("gsymb", Res::Id(id)) => {
            if g == 0 {
                if !fresh(*id) {
                    return None;
                }
                n.g[e.name] = *id;
            } else if g != *id {
                return None;
            }
            Some(n)
        }
        ("gget", Res::Id(id)) => (g == *id).then_some(n),
        ("gget", _) => (g == 0).then_some(n),
        ("gexists", Res::Bool(b)) => (*b == (g != 0)).then_some(n),
        ("gremove", Res::Bool(b)) => {
            if *b != (g != 0) {
                return None;
            }
            n.g[e.name] = 0;
            Some(n)
        }
        ("gclear", _) => {
            n.g.iter_mut().for_each(|x| *x = 0);
            Some(n)
        }
        ("csymb" | "cparse", Res::Id(id)) => enter(&mut n, e.name, *id).then_some(n),
        ("cget", Res::Id(id)) => (c == *id || c == u64::MAX).then_some(n),
        ("cget", _) => (c == 0).then_some(n),
        ("ccontains", Res::Bool(b)) => (*b == (c != 0)).then_some(n),
        ("ccount", Res::Count(k)) => (*k == m.c[e.ctx].iter().filter(|x| **x != 0).count()).then_some(n),
        ("cempty", Res::Bool(b)) => (*b == m.c[e.ctx].iter().all(|x| *x == 0)).then_some(n),
        ("cnames", Res::Names(v)) => {
            let i = part.unwrap_or(0);
            (v[i] == (m.c[e.ctx][i] != 0)).then_some(n)
        }
        ("cremove", Res::Bool(b)) => {
            if *b != (c != 0) {
                return None;
            }
            n.c[e.ctx][e.name] = 0;
            Some(n)
        }
        ("cclear" | "cclearall", _) => {
            n.c[e.ctx].iter_mut().for_each(|x| *x = 0);
            Some(n)
        }
        _ => Some(n),
    }
}
fn linearizable(evs: &[(Ev, Option<usize>)], names: usize, ctxs: usize) -> Option<bool> {
    let n = evs.len();
    let mut seen: HashSet<(u64, Model)> = HashSet::new();
    let mut stack = vec![(0u64, Model { g: vec![0; names], c: vec![vec![0; names]; ctxs] })];
    let full = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
    while let Some((done, m)) = stack.pop() {
        if done == full {
            return Some(true);
        }
        if !seen.insert((done, m.clone())) {
            continue;
        }
        if seen.len() > 150_000 {
            return None;
        }
        let minret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| evs[i].0.ret).min().unwrap_or(u64::MAX);
        for i in (0..n).rev() {
            if done >> i & 1 == 1 || evs[i].0.call > minret {
                continue;
            }
            let fresh = |id: u64| !(0..n).any(|j| done >> j & 1 == 1 && matches!(&evs[j].0.res, Res::Id(x) if *x == id));
            if let Some(nm) = step(&m, &evs[i].0, evs[i].1, &fresh) {
                stack.push((done | 1 << i, nm));
            }
        }
    }
    Some(false)
}
fn show(evs: &[Ev]) -> String {
    let mut v: Vec<&Ev> = evs.iter().collect();
    v.sort_by_key(|e| e.call);
    let mut ids: HashMap<u64, usize> = HashMap::new();
    v.iter()
        .map(|e| {
            let r = match &e.res {
                Res::Id(i) => {
                    let k = ids.len() + 1;
                    format!("#{}", ids.entry(*i).or_insert(k))
                }
                x => format!("{x:?}"),
            };
            format!("[{}-{}] T{} {} ctx{} {} -> {r}", e.call, e.ret, e.tid, e.op, e.ctx, pooled(e.name))
        })
        .collect::<Vec<_>>()
        .join("; ")
}
fn parse_ops(lines: &[String], nt: usize, names: usize) -> Vec<Vec<(String, usize, usize)>> {
    let mut v = vec![Vec::new(); nt];
    for l in lines.iter().filter(|l| l.starts_with('T')) {
        let w: Vec<&str> = l.split(' ').collect();
        let t: usize = w[0][1..].parse().unwrap_or(0);
        let n = |i: usize| w.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
        v[t % nt].push((w[1].to_string(), n(2), n(3) % names));
    }
    v
}

pub struct Linear;
impl Scenario for Linear {
    fn name(&self) -> &'static str {
        "context-linearizability"
    }
    fn real(&self) -> &'static str {
        "src/core/unified_context.rs, src/core/symbol/registry.rs, parser, std RwLock/Mutex"
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(2, 4);
        let names = r.range(1, 3);
        let ctxs = r.range(1, 2);
        let mut v = vec![format!("#threads {nt}"), format!("#names {names}"), format!("#contexts {ctxs}"), ops::gen_pool(r)];
        let globals = r.chance(3, 4);
        let gclear = r.chance(1, 5);
        let removal = r.chance(3, 4);
        for _ in 0..r.range(4, 13) {
            let op = loop {
                let o = *r.pick(&["csymb", "csymb", "csymb", "csymb", "cget", "cget", "ccontains", "ccount", "cempty", "cnames", "cremove", "cremove", "cclear", "cclearall", "cparse", "cwith", "cwiths", "gsymb", "gsymb", "gget", "gexists", "gremove", "gclear"]);
                if (o.starts_with('g') && !globals) || (o == "gclear" && !gclear) || (matches!(o, "cremove" | "cclear" | "cclearall" | "gremove") && !removal) {
                    continue;
                }
                break o;
            };
            v.push(format!("T{} {op} {} {}", r.n(nt), r.n(ctxs), r.n(names)));
        }
        v
    }
    fn run(&self, lines: &[String], _v: u32, out: &mut Out) {
        let nt = param_n(lines, "threads", 2).clamp(1, 8);
        let names = param_n(lines, "names", 1).clamp(1, ops::POOLED);
        let ctxs = param_n(lines, "contexts", 1).clamp(1, 4);
        ops::set_pool(lines);
        let cs: Vec<Context> = (0..ctxs).map(|_| Context::new()).collect();
        let _ = symb("warm");
        let ops = parse_ops(lines, nt, names);
        let hs: Vec<_> = ops
            .into_iter()
            .enumerate()
            .map(|(t, o)| {
                let cs = cs.clone();
                std::thread::spawn(move || run_thread(t as u32, o, cs, names))
            })
            .collect();
        let mut evs = Vec::new();
        for h in hs {
            match h.join() {
                Ok(e) => evs.extend(e),
                Err(p) => {
                    out.v("panic", &format!("context call panicked: {}", panic_text(p.as_ref())));
                    return;
                }
            }
        }
        // Quiescent tail: what the contexts and the global table say in the end.
        let mut tail = Vec::new();
        for n in 0..names {
            for c in 0..ctxs {
                tail.push(("cget".to_string(), c, n));
                tail.push(("csymb".to_string(), c, n));
            }
            tail.push(("gget".to_string(), 0, n));
        }
        tail.push(("ccount".to_string(), 0, 0));
        let c2 = cs.clone();
        match std::thread::spawn(move || run_thread(99, tail, c2, names)).join() {
            Ok(e) => evs.extend(e),
            Err(p) => {
                out.v("panic", &format!("context call panicked after the run: {}", panic_text(p.as_ref())));
                return;
            }
        }
        rt::end();
        // Expressions parsed in a context: which symbol do they contain?
        let mut ids: Vec<u64> = evs.iter().filter_map(|e| if let Res::Id(i) = e.res { Some(i) } else { None }).collect();
        ids.sort_unstable();
        ids.dedup();
        let mut unknown: Vec<(Expr, u64)> = Vec::new();
        for e in &mut evs {
            if e.op != "cparse" {
                continue;
            }
            let Some(x) = &e.expr else {
                // the name was not registered in the context any more, so it is no single symbol
                continue;
            };
            if x.to_string() != pooled(e.name) {
                e.op = "cparse-split".into();
                continue;
            }
            let hit: Vec<u64> = ids.iter().copied().filter(|i| x.contains_var_id(*i)).collect();
            if hit.len() > 1 {
                out.v("identity", "one symbol expression matches two symbol ids");
            }
            let id = hit.first().copied().unwrap_or_else(|| {
                if let Some((_, t)) = unknown.iter().find(|(y, _)| y == x) {
                    *t
                } else {
                    let t = 1 << 60 | (unknown.len() as u64 + 1);
                    unknown.push((x.clone(), t));
                    t
                }
            });
            e.res = Res::Id(id);
        }
        // An id belongs to one name, and to one table unless it is the global one.
        let mut by: HashMap<u64, HashSet<usize>> = HashMap::new();
        for e in &evs {
            if let Res::Id(i) = e.res {
                by.entry(i).or_default().insert(e.name);
            }
        }
        if let Some((_, s)) = by.iter().find(|(_, s)| s.len() > 1) {
            out.v("identity", &format!("one id serves {} different names: {}", s.len(), show(&evs)));
        }
        // Operations whose result does not show the id they registered leave it open.
        if evs.iter().any(|e| matches!(e.op.as_str(), "cwith" | "cwiths" | "cparse-split")) {
            coarse(&evs, names, ctxs, out);
            return;
        }
        let mut list: Vec<(Ev, Option<usize>)> = Vec::new();
        for e in &evs {
            if e.op == "cnames" {
                list.extend((0..names).map(|i| (e.clone(), Some(i))));
            } else {
                list.push((e.clone(), None));
            }
        }
        if list.len() > 62 {
            return;
        }
        if list.iter().any(|a| list.iter().any(|b| a.0.tid != b.0.tid && a.0.call < b.0.call && b.0.call < a.0.ret)) {
            out.p("overlapping-operations");
        }
        match linearizable(&list, names, ctxs) {
            Some(true) => out.p("linearized"),
            Some(false) => out.v("not-linearizable", &show(&evs)),
            None => out.p("linearizability-search-gave-up"),
        }
    }
}
/// Histories with registrations that return nothing: without removals, once registered a name
/// stays, and one context answers with one id.
fn coarse(evs: &[Ev], names: usize, ctxs: usize, out: &mut Out) {
    if evs.iter().any(|e| matches!(e.op.as_str(), "cremove" | "cclear" | "cclearall")) {
        return;
    }
    for c in 0..ctxs {
        for n in 0..names {
            let ids: HashSet<u64> = evs.iter().filter(|e| e.ctx == c && e.name == n && e.op.starts_with('c')).filter_map(|e| if let Res::Id(i) = e.res { Some(i) } else { None }).collect();
            if ids.len() > 1 {
                out.v("context-aliasing", &format!("one context gave the same name {} different ids: {}", ids.len(), show(evs)));
                return;
            }
            let first = evs.iter().filter(|e| e.ctx == c && ((e.name == n && matches!(e.op.as_str(), "csymb" | "cwith")) || e.op == "cwiths")).map(|e| e.ret).min();
            if let Some(t) = first {
                let lost = evs.iter().any(|e| {
                    e.call > t
                        && e.ctx == c
                        && match (&e.op[..], &e.res) {
                            ("cget", Res::None) | ("ccontains", Res::Bool(false)) => e.name == n,
                            ("cempty", Res::Bool(true)) => true,
                            ("cnames", Res::Names(v)) => !v[n],
                            _ => false,
                        }
                });
                if lost {
                    out.v("lost-registration", &show(evs));
                    return;
                }
            }
        }
    }
    out.p("registration-histories");
}

/// A program inside one context, with and without strangers using the same names elsewhere.
pub struct Isolation;
fn ctx_funcs(c: Context) -> Context {
    c.with_function("w_fn", ops::scale(1.5)).with_function("g_two", ops::two_arg()).with_function_name("f_un").with_function_name("fu")
}
/// `removal`: 1 strangers also remove global symbols, 2 they clear the table and remove the names
/// of the context's functions as well.
fn noise(l: &str, removal: usize, of: &Context) -> String {
    let w: Vec<&str> = l.split(' ').collect();
    let seed: u64 = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let n: usize = w.get(2).and_then(|x| x.parse().ok()).unwrap_or(4);
    guarded(l, || {
        let mut r = Rng::new(seed);
        let mut mine: Option<Context> = None;
        for _ in 0..n {
            let name = *r.pick(&ops::VARS);
            match r.n(17) {
                // a clone shares the symbols, but has functions of its own
                13 | 14 => {
                    let fns = [UserFunction::any_arity().body(|_| Expr::number(7.0)), UserFunction::any_arity().body(|a| a.iter().fold(Expr::number(2.5), |s, e| s * (**e).clone())), UserFunction::any_arity()];
                    let f = *r.pick(&["w_fn", "g_two", "f_un", "fu", "h_other"]);
                    let mut c = of.clone();
                    for _ in 0..r.range(1, 3) {
                        c = match r.n(5) {
                            0 => {
                                c.remove_function(f);
                                c
                            }
                            1 => {
                                c.clear_functions();
                                c.with_function_name(f)
                            }
                            _ => c.with_function(f, r.pick(&fns).clone()),
                        };
                    }
                    let _ = Diff::new().with_context(&c).diff_str(&format!("w_fn(x)*y + {f}(y, x)"), "x", &[]);
                    let _ = Simplify::new().with_context(&c).simplify_str(&format!("{f}(x) + {f}(x)"), &[]);
                    if let Ok(e) = parse(&format!("{f}(x) + y"), &HashSet::new(), &HashSet::new(), Some(&c)) {
                        let _ = CompiledEvaluator::compile_auto(&e, Some(&c));
                    }
                }
                0 | 1 => {
                    let _ = symb(name);
                }
                2 | 3 if removal > 0 => {
                    remove_symbol(name);
                }
                10 if removal > 1 => {
                    remove_symbol(["w_fn", "g_two", "h_other"][r.n(3)]);
                }
                11 if removal > 1 => clear_symbols(),
                12 => {
                    let _ = symb(["w_fn", "g_two", "f_un", "h_other"][r.n(4)]);
                }
                4 => {
                    let _ = symb_new(name);
                }
                5 => {
                    let c = Context::new().with_symbols(ops::VARS.iter()).with_function("w_fn", ops::scale(9.0)).with_function("h_other", ops::scale(2.0));
                    let _ = c.symb(name);
                    mine = Some(c);
                }
                6 => {
                    if let Some(c) = &mut mine {
                        c.remove_symbol(name);
                        c.remove_function("w_fn");
                    }
                }
                7 => {
                    let _ = diff(&format!("sin({name})*{name}"), name, &ops::known_v().into_iter().filter(|k| *k != name).collect::<Vec<_>>(), None);
                }
                8 => {
                    if let Some(c) = &mut mine {
                        let _ = Diff::new().with_context(c).diff_str("w_fn(x)*y", "x", &[]);
                        c.clear_all();
                    }
                }
                _ => {
                    if let Some(c) = &mine {
                        let _ = Simplify::new().with_context(c).simplify_str(&format!("{name} + {name}"), &[]);
                    }
                }
            }
        }
        "done".into()
    })
}
fn ctx_call(c: &Context, l: &str) -> String {
    guarded(l, || {
        let (h, f) = l.split_once(" | ").unwrap_or((l, "x"));
        let w: Vec<&str> = h.split(' ').collect();
        let v = w.get(1).copied().unwrap_or("x");
        let er = |r: Result<String, DiffError>| r.unwrap_or_else(|e| format!("error {e}"));
        let parse_c = || parse(f, &HashSet::new(), &HashSet::new(), Some(c));
        match w[0] {
            "cdiff" => er(Diff::new().with_context(c).diff_str(f, v, &[])),
            "csimp" => er(Simplify::new().with_context(c).simplify_str(f, &[])),
            "cderive" => er(parse_c().map(|e| ops::show_all(&e.derive(v, Some(c))))),
            "cdifferentiate" => er(parse_c().and_then(|e| Diff::new().with_context(c).differentiate(&e, &c.symb(v))).map(|e| ops::show_all(&e))),
            "cdiffraw" => er(Diff::new().skip_simplification(true).with_context(c).diff_str(f, v, &[])),
            // higher derivatives, by name and by handle
            "cnth" => er((|| {
                let mut e = parse_c()?;
                let d = Diff::new().with_context(c);
                for k in 0..3 {
                    e = if (f.len() + k) % 2 == 0 { d.differentiate(&e, &c.symb(v))? } else { e.derive(v, Some(c)) };
                }
                Ok(ops::show_all(&e))
            })()),
            "chess" => er(parse_c().and_then(|e| {
                let (a, b) = (c.symb("x"), c.symb(v));
                hessian(&e, &[&a, &b]).map(|g| g.iter().flatten().map(|e| e.to_string()).collect::<Vec<_>>().join(" ; "))
            })),
            "cmap" => er(parse_c().map(|e| ops::show_all(&e.derive(v, Some(c)).map(|n| n.clone())))),
            "cbyname" => er(parse_c().and_then(|e| e.diff(v)).map(|e| e.to_string())),
            "csimplify" => er(parse_c().and_then(|e| Simplify::new().with_context(c).simplify(&e)).map(|e| ops::show_all(&e))),
            "csubst" => er(parse_c().map(|e| ops::show_all(&e.substitute(v, &(c.symb("y").to_expr() + Expr::number(2.0)))))),
            "ccontains" => er(parse_c().map(|e| format!("{} {} {:?}", e.contains_var(v), e.contains_var_id(c.symb(v).id()), ops::vars_sorted(&e)))),
            "ceval" => er(parse_c().map(|e| {
                let m: HashMap<&str, f64> = [("x", 0.5), ("y", 1.25), ("z", -0.75)].into_iter().collect();
                e.evaluate(&m, &HashMap::new()).to_string()
            })),
            "cevalid" => er(parse_c().map(|e| {
                let m: HashMap<u64, f64> = ops::VARS.iter().enumerate().map(|(i, n)| (c.symb(n).id(), 0.3 + 0.2 * i as f64)).collect();
                e.evaluate(&m, &HashMap::new()).to_string()
            })),
            "ccompile" => er(parse_c().and_then(|e| CompiledEvaluator::compile_auto(&e, Some(c))).map(|k| {
                let a: Vec<f64> = (0..k.param_count()).map(|i| 0.4 + 0.3 * i as f64).collect();
                format!("{:?} {}", k.param_names(), ops::bits(&[k.evaluate(&a)]))
            })),
            "ccompilesym" => er(parse_c().and_then(|e| {
                let sy: Vec<Symbol> = ops::VARS.iter().map(|n| c.symb(n)).collect();
                let rf: Vec<&Symbol> = sy.iter().collect();
                CompiledEvaluator::compile(&e, &rf, Some(c)).map(|k| ops::bits(&[k.evaluate(&[0.4, 0.7, 1.1, 1.3, 0.2, 0.9])]))
            })),
            "csame" => er(parse_c().and_then(|e| parse_c().map(|f| format!("{} {}", e == f, (e - f))))),
            "cfns" => {
                let mut n: Vec<String> = c.function_names().into_iter().collect();
                n.sort();
                format!("{n:?} {} {} {}", c.has_function("w_fn"), c.has_function("h_other"), c.get_partial("g_two", 1).is_some())
            }
            "cnames" => format!("{:?}", crate::s_registry::context_names(c).into_iter().filter(|n| ops::VARS.contains(&n.as_str())).collect::<Vec<_>>()),
            "cgrad" => er(parse_c().and_then(|e| {
                let (a, b) = (c.symb("x"), c.symb("y"));
                gradient(&e, &[&a, &b]).map(|g| g.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" ; "))
            })),
            "cop" => {
                let (a, b) = (c.symb(v), c.symb("y"));
                let e = a.pow(2.0) * b + a.sin() - b * a;
                format!("{e} # {} # {}", er(e.simplified().map(|e| e.to_string())), er(e.diff(v).map(|e| e.to_string())))
            }
            _ => "unknown".into(),
        }
    })
}
const CALLS: [&str; 21] = ["cdiffraw", "cnth", "chess", "cmap", "cdiff", "csimp", "cderive", "cdifferentiate", "cbyname", "csimplify", "csubst", "ccontains", "ceval", "cevalid", "ccompile", "ccompilesym", "csame", "cfns", "cgrad", "cop", "cnames"];
impl Scenario for Isolation {
    fn name(&self) -> &'static str {
        "context-isolation"
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "src/core/unified_context.rs, src/core/symbol, parser, Diff and Simplify builders, evaluator"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 10));
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(1, 4);
        let nv = r.range(1, 6);
        let pre = r.n(3);
        let removal = r.n(3);
        let mut v = vec![format!("#threads {nt}"), format!("#pre {pre}"), format!("#removal {removal}"), format!("#seed {}", r.u64() >> 30)];
        // A handle of a name taken over from the global table loses its name with the removal there.
        let calls: Vec<&str> = CALLS.iter().copied().filter(|c| pre == 0 || removal == 0 || !matches!(*c, "csubst" | "cop")).collect();
        let mut vars = ops::VARS.to_vec();
        r.shuffle(&mut vars);
        let vars = &vars[..nv];
        for _ in 0..r.range(2, 7) {
            let mut f = ops::formula(r, 2, vars);
            if r.chance(1, 2) {
                f = format!("w_fn({f}) + g_two({}, {})", r.pick(vars), r.pick(vars));
            }
            if removal < 2 && r.chance(1, 3) {
                f = format!("f_un({}{})*({f})", r.pick(vars), if r.chance(1, 3) { format!(", {}^2", r.pick(vars)) } else { String::new() });
            }
            // Only names the context knows: functions of no context belong to the global table.
            if removal < 2 && r.chance(1, 8) {
                f = format!("∂_fu({0})/∂_{0} + {f}", r.pick(vars));
            }
            v.push(format!("T{} {} {} | {f}", r.n(nt), r.pick(&calls), r.pick(vars)));
        }
        for _ in 0..r.range(0, 4) {
            v.push(format!("T{} noise {} {}", r.n(nt), r.u64() >> 20, r.range(1, 14)));
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        let seed: u64 = crate::driver::param(lines, "seed").and_then(|x| x.parse().ok()).unwrap_or(0);
        if variant == 0 {
            let c = ctx_funcs(Context::new().with_symbols(ops::VARS.iter()));
            for (i, l) in lines.iter().enumerate() {
                if let Some((_, l)) = l.split_once(' ').filter(|(t, l)| t.starts_with('T') && !l.starts_with("noise")) {
                    out.d(&format!("line {i} `{l}`"), &ctx_call(&c, l));
                }
            }
            return;
        }
        // Some of the names may exist globally before the context is made.
        let mut r = Rng::new(seed);
        for n in ops::VARS {
            if param_n(lines, "pre", 0) > 0 && r.chance(1, 2) {
                let _ = symb(n);
                if param_n(lines, "pre", 0) > 1 && r.chance(1, 2) {
                    remove_symbol(n);
                }
            }
        }
        let c = ctx_funcs(Context::new().with_symbols(ops::VARS.iter()));
        let nt = param_n(lines, "threads", 1).clamp(1, 8);
        let share = hash_str(&lines.join("")) % 2 == 0;
        let base = c.clone();
        let removal = param_n(lines, "removal", 0);
        let res = on_threads(lines, nt, out, move |_, l| {
            if l.starts_with("noise") {
                noise(l, removal, &base)
            } else if share {
                ctx_call(&base, l)
            } else {
                ctx_call(&base.clone(), l)
            }
        });
        for (i, l, s) in res {
            if l.starts_with("noise") {
                if s != "done" {
                    out.v("panic", &s);
                }
            } else {
                out.d(&format!("line {i} `{l}`"), &s);
            }
        }
        let n = crate::s_registry::context_names(&c);
        if ops::VARS.iter().any(|v| !n.iter().any(|x| x == v)) {
            out.v("lost-registration", &format!("the context now has only {n:?}"));
        }
    }
}
