//! The global symbol table: concurrent histories checked for linearizability against a map, and
//! symbol identity (an id never serves two symbols; a handle's name never changes).
use crate::ops::{self, pooled};
use crate::driver::{Out, Scenario, panic_text, param_n};
use crate::rng::Rng;
use crate::rt;
use std::collections::{HashMap, HashSet};
use symb_anafis::{Context, Expr, Symbol, clear_symbols, parse, remove_symbol, symb, symb_get, symb_new, symbol_count, symbol_exists, symbol_names};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Id(u64),
    Err,
    Bool(bool),
    Count(usize),
    Names(Vec<bool>),
    Unit,
    NameOf(Option<String>),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub tid: u32,
    pub call: u64,
    pub ret: u64,
    pub op: String,
    pub name: usize,
    pub res: Res,
    /// for expression-producing operations: resolved to an id after the run
    pub expr: Option<Expr>,
    /// the handle an operation was applied to
    pub handle: Option<Symbol>,
}

fn do_op(op: &str, name: &str, ni: usize, names: usize, mine: &mut Vec<(Symbol, usize)>) -> (Res, Option<Expr>, Option<Symbol>) {
    match op {
        "symb" => {
            let s = symb(name);
            mine.push((s, ni));
            (Res::Id(s.id()), None, Some(s))
        }
        "new" => match symb_new(name) {
            Ok(s) => {
                mine.push((s, ni));
                (Res::Id(s.id()), None, Some(s))
            }
            Err(_) => (Res::Err, None, None),
        },
        "get" => match symb_get(name) {
            Ok(s) => {
                mine.push((s, ni));
                (Res::Id(s.id()), None, Some(s))
            }
            Err(_) => (Res::Err, None, None),
        },
        "exists" => (Res::Bool(symbol_exists(name)), None, None),
        "remove" => (Res::Bool(remove_symbol(name)), None, None),
        "clear" => {
            clear_symbols();
            (Res::Unit, None, None)
        }
        "count" => (Res::Count(symbol_count()), None, None),
        "anon" => {
            let s = Symbol::anon();
            (Res::Id(s.id()), None, Some(s))
        }
        "names" => {
            let v: HashSet<String> = symbol_names().into_iter().collect();
            (Res::Names((0..names).map(|i| v.contains(pooled(i))).collect()), None, None)
        }
        "expr" => {
            let e = Expr::symbol(name);
            (Res::Unit, Some(e), None)
        }
        "parse" => {
            if !ops::pool_parses() {
                return do_op("symb", name, ni, names, mine);
            }
            let hs: HashSet<String> = (0..ops::POOLED).map(|i| pooled(i).to_string()).collect();
            let e = parse(name, &hs, &HashSet::new(), None).expect("a bare symbol parses");
            (Res::Unit, Some(e), None)
        }
        "nameof" => {
            if mine.is_empty() {
                return (Res::Unit, None, None);
            }
            let (s, _) = mine[ni % mine.len()];
            (Res::NameOf(s.name()), None, Some(s))
        }
        _ => unreachable!("{op}"),
    }
}

/// `T2 symb 1` or `T2 fresh symb 1` (in a new thread, joined at once).
pub fn run_thread(tid: u32, ops: Vec<(String, bool, usize)>, names: usize) -> Vec<Ev> {
    let mut ev = Vec::new();
    let mut mine: Vec<(Symbol, usize)> = Vec::new();
    for (op, fresh, ni) in ops {
        let name = pooled(ni % names);
        if fresh {
            let call = rt::event();
            let o = op.clone();
            let m = mine.clone();
            let h = std::thread::spawn(move || {
                let mut m = m;
                let call = rt::event();
                let r = do_op(&o, name, ni, names, &mut m);
                (call, r, rt::event())
            });
            match h.join() {
                Ok((c, (res, expr, handle), r)) => ev.push(Ev { tid, call: c, ret: r, op, name: ni % names, res, expr, handle }),
                Err(p) => std::panic::resume_unwind(p),
            }
            let _ = call;
        } else {
            let call = rt::event();
            let (res, expr, handle) = do_op(&op, name, ni, names, &mut mine);
            ev.push(Ev { tid, call, ret: rt::event(), op, name: ni % names, res, expr, handle });
        }
    }
    ev
}

pub fn parse_ops(lines: &[String], nthreads: usize) -> Vec<Vec<(String, bool, usize)>> {
    let mut v = vec![Vec::new(); nthreads];
    for l in lines.iter().filter(|l| l.starts_with('T')) {
        let mut w: Vec<&str> = l.split(' ').collect();
        let t: usize = w[0][1..].parse().unwrap_or(0);
        w.remove(0);
        let fresh = w[0] == "fresh";
        if fresh {
            w.remove(0);
        }
        v[t % nthreads].push((w[0].to_string(), fresh, w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0)));
    }
    v
}

/// Sequential specification, as a transition function. ids are tokens.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Model {
    map: Vec<u64>, // 0 = absent
    anon: usize,
}

fn step(m: &Model, e: &Ev, used: &dyn Fn(u64) -> bool, base: usize) -> Option<Model> {
    let mut n = m.clone();
    let cur = m.map[e.name];
    match (e.op.as_str(), &e.res) {
        ("symb" | "expr" | "parse", Res::Id(id)) => {
            if cur == 0 {
                if used(*id) {
                    return None;
                }
                n.map[e.name] = *id;
                Some(n)
            } else {
                (cur == *id).then_some(n)
            }
        }
        ("new", Res::Id(id)) => {
            if cur != 0 || used(*id) {
                return None;
            }
            n.map[e.name] = *id;
            Some(n)
        }
        ("new", Res::Err) => (cur != 0).then_some(n),
        ("get", Res::Id(id)) => (cur == *id).then_some(n),
        ("get", Res::Err) => (cur == 0).then_some(n),
        ("exists", Res::Bool(b)) => ((cur != 0) == *b).then_some(n),
        ("remove", Res::Bool(b)) => {
            if (cur != 0) != *b {
                return None;
            }
            n.map[e.name] = 0;
            Some(n)
        }
        ("clear", _) => {
            n.map.iter_mut().for_each(|x| *x = 0);
            n.anon = 0;
            Some(n)
        }
        ("count", Res::Count(c)) => (*c == base + m.anon + m.map.iter().filter(|x| **x != 0).count()).then_some(n),
        ("anon", Res::Id(id)) => {
            if used(*id) {
                return None;
            }
            n.anon += 1;
            Some(n)
        }
        ("names", Res::Names(v)) => {
            // the listing as a whole, not name by name
            m.map.iter().zip(v).all(|(id, there)| (*id != 0) == *there).then_some(n)
        }
        _ => Some(n),
    }
}

/// WGL search with memoisation. Returns whether a linearization exists; None when it gave up.
fn linearizable(evs: &[Ev], names: usize, base: usize) -> Option<bool> {
    let n = evs.len();
    assert!(n <= 64);
    let mut seen: HashSet<(u64, Model)> = HashSet::new();
    let mut stack = vec![(0u64, Model { map: vec![0; names], anon: 0 })];
    let full = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| evs[*i].ret);
    while let Some((done, m)) = stack.pop() {
        if done == full {
            return Some(true);
        }
        if !seen.insert((done, m.clone())) {
            continue;
        }
        if seen.len() > 200_000 {
            return None;
        }
        let minret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| evs[i].ret).min().unwrap_or(u64::MAX);
        for &i in order.iter().rev() {
            if done >> i & 1 == 1 || evs[i].call > minret {
                continue;
            }
            let used = |id: u64| (0..n).any(|j| done >> j & 1 == 1 && matches!(&evs[j].res, Res::Id(x) if *x == id));
            if let Some(nm) = step(&m, &evs[i], &used, base) {
                stack.push((done | 1 << i, nm));
            }
        }
    }
    Some(false)
}

fn show(evs: &[Ev]) -> String {
    let mut v: Vec<&Ev> = evs.iter().collect();
    v.sort_by_key(|e| e.call);
    // ids as small numbers
    let mut ids: HashMap<u64, usize> = HashMap::new();
    v.iter()
        .map(|e| {
            let r = match &e.res {
                Res::Id(i) => {
                    let k = ids.len() + 1;
                    format!("#{}", ids.entry(*i).or_insert(k))
                }
                x => format!("{x:?}"),
            };
            format!("[{}-{}] T{} {} {} -> {r}", e.call, e.ret, e.tid, e.op, pooled(e.name))
        })
        .collect::<Vec<_>>()
        .join("; ")
}

/// Runs the threads of a history and returns all events; records panics as violations.
pub fn execute(lines: &[String], names: usize, nt: usize, out: &mut Out) -> Option<Vec<Ev>> {
    let mut ops = parse_ops(lines, nt);
    let mut hs = Vec::new();
    for t in (1..nt).rev() {
        let o = std::mem::take(&mut ops[t]);
        hs.push(std::thread::spawn(move || run_thread(t as u32, o, names)));
    }
    let mut evs = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_thread(0, std::mem::take(&mut ops[0]), names))) {
        Ok(e) => e,
        Err(p) => {
            out.v("panic", &format!("registry call panicked: {}", panic_text(p.as_ref())));
            return None;
        }
    };
    for h in hs {
        match h.join() {
            Ok(e) => evs.extend(e),
            Err(p) => {
                out.v("panic", &format!("registry call panicked: {}", panic_text(p.as_ref())));
                return None;
            }
        }
    }
    Some(evs)
}

/// Ids of expression results, by asking each expression which known id it contains.
fn resolve(evs: &mut [Ev], out: &mut Out) {
    let mut ids: Vec<u64> = evs.iter().filter_map(|e| if let Res::Id(i) = e.res { Some(i) } else { None }).collect();
    ids.sort_unstable();
    ids.dedup();
    let mut unknown: Vec<(Expr, u64)> = Vec::new();
    for e in evs.iter_mut() {
        if let Some(x) = &e.expr {
            let hit: Vec<u64> = ids.iter().copied().filter(|i| x.contains_var_id(*i)).collect();
            if hit.len() > 1 {
                out.v("identity", "one symbol expression matches two symbol ids");
            }
            let id = hit.first().copied().unwrap_or_else(|| {
                // An id nobody else saw: equal expressions share a token.
                if let Some((_, t)) = unknown.iter().find(|(y, _)| y == x) {
                    *t
                } else {
                    let t = 1 << 60 | (unknown.len() as u64 + 1);
                    unknown.push((x.clone(), t));
                    t
                }
            });
            e.res = Res::Id(id);
            let shown = x.to_string();
            if shown != pooled(e.name) {
                out.v("identity", &format!("expression made from the name {} displays as {shown}", pooled(e.name)));
            }
        }
    }
}

pub struct Linear;
impl Scenario for Linear {
    fn name(&self) -> &'static str {
        "registry-linearizability"
    }
    fn real(&self) -> &'static str {
        "src/core/symbol/registry.rs (shards, id table, thread-local caches), slotmap, std Mutex/RwLock/LazyLock/thread_local"
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        if r.chance(1, 4) {
            // every thread knows the name; one withdraws it while the others go on using it
            let nt = r.range(3, 4);
            let mut v = vec![format!("#threads {nt}"), format!("#names {}", r.range(1, 2)), ops::gen_pool(r)];
            (0..nt).filter(|_| r.clone().chance(9, 10)).for_each(|t| v.push(format!("T{t} symb 0")));
            for _ in 0..r.range(1, 2) {
                v.push(format!("T{} {} 0", r.n(nt), r.pick(&["remove", "clear"])));
                for _ in 0..r.range(2, 6) {
                    v.push(format!("T{} {} {}", r.n(nt), r.pick(&["symb", "symb", "symb", "get", "new", "parse", "exists", "expr"]), usize::from(r.chance(1, 12) && v[1] != "#names 1")));
                }
            }
            return v;
        }
        let nt = r.range(2, 4);
        let names = if r.chance(1, 5) { r.range(4, 6) } else { r.range(1, 3) };
        let n = if r.chance(1, 5) { r.range(12, 22) } else { r.range(4, 13) };
        let listing = r.chance(1, 6); // a run that looks at whole listings
        let removal = r.chance(4, 5);
        let clear = removal && r.chance(1, 3);
        let mut v = vec![format!("#threads {nt}"), format!("#names {names}"), ops::gen_pool(r)];
        for _ in 0..n {
            let op = loop {
                let o = *r.pick(&["symb", "symb", "symb", "new", "new", "get", "get", "exists", "remove", "remove", "clear", "count", "anon", "names", "expr", "parse", "nameof"]);
                if (o == "remove" && !removal) || (o == "clear" && !clear) {
                    continue;
                }
                break if listing && r.chance(1, 4) { "names" } else { o };
            };
            let fresh = if r.chance(1, 10) { "fresh " } else { "" };
            v.push(format!("T{} {fresh}{op} {}", r.n(nt), r.n(names * 2) % names));
        }
        v
    }
    fn run(&self, lines: &[String], _v: u32, out: &mut Out) {
        let nt = param_n(lines, "threads", 2);
        let names = param_n(lines, "names", 1).clamp(1, ops::POOLED);
        clear_symbols(); // also completes the lazy set-up of built-in names
        ops::set_pool(lines);
        let base = symbol_count();
        let Some(mut evs) = execute(lines, names, nt, out) else { return };
        // Quiescent tail: this thread and a thread with cold caches must agree with the history.
        let tail: Vec<(String, bool, usize)> = (0..names)
            .flat_map(|i| [("get".to_string(), true, i), ("symb".to_string(), false, i), ("symb".to_string(), true, i), ("get".to_string(), false, i)])
            .chain([("count".to_string(), false, 0)])
            .collect();
        match std::panic::catch_unwind(|| run_thread(0, tail, names)) {
            Ok(t) => evs.extend(t),
            Err(p) => {
                out.v("panic", &format!("registry call panicked after the run: {}", panic_text(p.as_ref())));
                return;
            }
        }
        rt::end(); // what follows is the judge, not the simulation
        {
            resolve(&mut evs, out);
            // Handles: name never wrong.
            for e in &evs {
                if let (Res::NameOf(Some(n)), Some(h)) = (&e.res, e.handle) {
                    let owner: HashSet<usize> = evs.iter().filter(|x| matches!(x.res, Res::Id(i) if i == h.id()) && x.op != "anon").map(|x| x.name).collect();
                    if !owner.iter().any(|o| pooled(*o) == n) {
                        out.v("identity", &format!("a handle obtained under {owner:?} reports the name {n}"));
                    }
                }
            }
            let mut by: HashMap<u64, HashSet<usize>> = HashMap::new();
            for e in &evs {
                if let Res::Id(i) = e.res {
                    by.entry(i).or_default().insert(if e.op == "anon" { 1000 + e.call as usize } else { e.name });
                }
            }
            if let Some((_, s)) = by.iter().find(|(_, s)| s.len() > 1) {
                out.v("identity", &format!("one id serves {} different symbols", s.len()));
            }
            let mut list: Vec<Ev> = Vec::new();
            for e in &evs {
                if e.op != "nameof" {
                    list.push(e.clone());
                }
            }
            if list.len() > 62 {
                return;
            }
            let conc = list.iter().any(|a| list.iter().any(|b| a.tid != b.tid && a.call < b.call && b.call < a.ret));
            if conc {
                out.p("overlapping-operations");
            }
            match linearizable(&list, names, base) {
                Some(true) => out.p("linearized"),
                Some(false) => out.v("not-linearizable", &show(&evs)),
                None => out.p("linearizability-search-gave-up"),
            }
        }
    }
}

/// Contexts: clones of one context act as one symbol table; contexts do not see each other's names.
pub fn context_names(c: &Context) -> Vec<String> {
    let mut v = c.symbol_names();
    v.sort();
    v
}
