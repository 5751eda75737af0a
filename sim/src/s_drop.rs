//! Deep and shared expressions, contexts and evaluators let go of by several threads at once, on
//! small stacks: everything is freed exactly once, nothing recurses, survivors are untouched.
use crate::driver::{Out, Scenario, panic_text, param, param_n};
use crate::ops;
use crate::rng::Rng;
use crate::rt::{self, SimCfg};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use symb_anafis::*;

/// One layer around an expression.
fn wrap(k: char, e: Expr, i: usize) -> Expr {
    let x = || symb(["x", "y", "z"][i % 3]).to_expr();
    match k {
        's' => Expr::func("sin", e),
        'u' => Expr::func("w_user", e),
        'm' => Expr::func_multi("w_many", vec![x(), e, Expr::number(i as f64 + 0.5)]),
        '+' => e + x(),
        '*' => e * x(),
        '/' => x() / (e + Expr::number(2.0)),
        '^' => e.pow(x()),
        '2' => Expr::pow_static(x(), e),
        'd' => Expr::derivative(e, "x", 1 + i as u32 % 3),
        'p' => {
            // a polynomial in the inner expression
            let b = Expr::func("cos", e);
            Expr::sum(vec![b.clone().pow(3.0), Expr::number(2.0) * b.clone().pow(2.0), Expr::number(4.0) * b, Expr::number(1.0)])
        }
        _ => Expr::func("exp", e) - Expr::number(1.0),
    }
}
struct Token(Arc<AtomicU64>);
impl Drop for Token {
    fn drop(&mut self) {
        self.0.fetch_add(1, SeqCst);
    }
}
thread_local! {
    /// What a thread still owns when it ends.
    static HELD: std::cell::RefCell<Vec<Option<Item>>> = const { std::cell::RefCell::new(Vec::new()) };
}
enum Item {
    E(Box<Expr>),
    A(Arc<Expr>),
    C(Box<Context>),
    V(Arc<CompiledEvaluator>),
    /// pointers to many levels of the expression, let go of one after the other
    L(Vec<Arc<Expr>>),
}
impl Item {
    fn share(&self) -> Self {
        match self {
            Self::E(e) => Self::E(e.clone()),
            Self::A(a) => Self::A(Arc::clone(a)),
            Self::C(c) => Self::C(c.clone()),
            Self::V(v) => Self::V(Arc::clone(v)),
            Self::L(l) => Self::L(l.clone()),
        }
    }
}
fn at(e: &Expr) -> String {
    format!("{e}")
}
fn prewarm() {
    for n in ["x", "y", "z", "w_user", "w_many", "cdrop_a", "cdrop_b", "w_held"] {
        let _ = symb(n);
    }
    let _ = simplify("x + sin(x)", &[], None);
    let e = symb("x").to_expr().sin();
    let _ = e.compile();
    for k in "sum+*/^2dpe".chars() {
        drop(wrap(k, e.clone(), 1));
    }
    let _ = std::thread::spawn(|| drop(symb("x").to_expr() / symb("y").to_expr())).join();
}

/// Puts the pointers to all levels into the order in which they are to go.
fn arrange(l: &mut Vec<Arc<Expr>>, order: Option<&str>) {
    match order {
        Some("0") | None => l.reverse(),
        Some("1") => {}
        _ => {
            let half = l.split_off(l.len() / 2);
            l.extend(half);
        }
    }
}
/// One thread lets go of a deep expression, the other of pointers to all its levels.
fn duels(lines: &[String], n: usize, out: &mut Out) {
    let depth = param_n(lines, "depth", 4).clamp(1, 20_000);
    let shape: Vec<char> = param(lines, "shape").unwrap_or("s").chars().collect();
    let stack = param_n(lines, "stack", 128) * 1024;
    for _ in 0..n.min(18) {
        let mut e = symb("x").to_expr();
        let mut ladder = Vec::new();
        for i in 0..depth {
            e = wrap(shape[i % shape.len()], e, i);
            let shared = Arc::new(e);
            ladder.push(Arc::clone(&shared));
            e = (*shared).clone();
        }
        arrange(&mut ladder, param(lines, "order"));
        let go = |f: Box<dyn FnOnce() + Send>| std::thread::Builder::new().stack_size(stack).spawn(f);
        let a = go(Box::new(move || drop(ladder)));
        let b = go(Box::new(move || drop(e)));
        for h in [a, b] {
            match h.map(std::thread::JoinHandle::join) {
                Ok(Ok(())) => {}
                Ok(Err(p)) => out.v("drop", &format!("a thread died: {}", panic_text(p.as_ref()))),
                Err(_) => {}
            }
        }
    }
}

pub struct Drops;
impl Scenario for Drops {
    fn name(&self) -> &'static str {
        "concurrent-drop"
    }
    fn real(&self) -> &'static str {
        "expression trees (constructors, sharing, destruction), contexts, user functions, compiled evaluators; real Arc reference counts on a simulated heap"
    }
    fn tune(&self, r: &mut Rng, lines: &[String], c: &mut SimCfg) {
        c.max_steps = 80_000_000;
        c.fair_after = 20_000_000;
        if param_n(lines, "depth", 10) > 300 {
            c.mem_points = 0;
            if (param(lines, "duels").is_some() || lines.iter().any(|l| l.starts_with("I l"))) && r.chance(3, 4) {
                // with no other noise: one thread one step behind the other all the way down, or each
                // waiting for the other at some places
                if r.chance(1, 3) {
                    c.mode = 4;
                    c.gap = 8;
                } else {
                    c.mode = 5;
                    c.gap = 16;
                    c.depth = r.range(0, 3) as u32 | 8 | (r.n(2) as u32) << 4 | (r.range(6, 11) as u32) << 8;
                }
                c.stall = 0;
                c.spurious = 0;
            }
        } else {
            c.mem_points = u32::from(r.chance(1, 3));
        }
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        if r.chance(1, 3) {
            // a duel: one thread lets go of the whole, the other of its levels one by one
            return vec![
                "#threads 2".to_string(),
                format!("#duels {}", r.range(8, 18)),
                format!("#depth {}", r.range(280, 420)),
                format!("#shape {}", r.pick(&["s", "u", "d", "su", "+s", "*s", "/", "^", "2", "m"])),
                format!("#stack {}", r.pick(&[28, 32])),
                format!("#order {}", if r.chance(3, 4) { 0 } else { r.range(1, 2) }),
            ];
        }
        let nt = r.range(2, 4);
        let depth = if r.chance(1, 3) { r.range(1500, 6000) } else { r.range(2, 120) };
        let mut kinds: Vec<char> = "sum+*/^2dpe".chars().collect();
        r.shuffle(&mut kinds);
        kinds.truncate(r.range(1, 5));
        let shape: String = (0..r.range(1, 12)).map(|_| *r.pick(&kinds)).collect();
        let mut v = vec![format!("#threads {nt}"), format!("#depth {depth}"), format!("#shape {shape}"), format!("#keep {}", r.range(1, 6)), format!("#stack {}", r.pick(&[96, 128, 256])), format!("#atend {}", r.n(2))];
        // items: e = value clone at a depth, a = shared pointer at a depth, c = context, v = evaluator
        let items = r.range(2, 10);
        for _ in 0..items {
            let d = if r.chance(1, 3) { depth - 1 } else { r.n(depth) };
            v.push(match r.n(8) {
                0 => "I c".to_string(),
                1 => "I v".to_string(),
                2..=4 => format!("I e {d}"),
                _ => format!("I a {d}"),
            });
        }
        for _ in 0..r.range(4, 24) {
            let k = *r.pick(&["drop", "drop", "drop", "dup", "pass", "all", "use"]);
            v.push(format!("T{} {k} {}", r.n(nt), r.n(items)));
        }
        if r.chance(1, 3) {
            v.push(format!("I l {} {}", r.range(1, 3), r.n(3)));
            if r.chance(1, 2) {
                // nothing else keeps the levels alive, and nothing but dropping is done
                v.retain(|l| !l.starts_with("I e") && !l.starts_with("I a") && !l.starts_with('T'));
            }
        }
        v
    }
    fn run(&self, lines: &[String], _variant: u32, out: &mut Out) {
        prewarm();
        let blocks0 = rt::live_blocks();
        if let Some(n) = param(lines, "duels").and_then(|n| n.parse().ok()) {
            duels(lines, n, out);
            let blocks1 = rt::live_blocks();
            out.p("duel");
            if blocks1 != blocks0 {
                out.v("leak", &format!("{blocks1} blocks of memory in use after everything was dropped, {blocks0} before"));
            }
            return;
        }
        let dropped = Arc::new(AtomicU64::new(0));
        let mut made = 0;
        let bad;
        {
            let depth = param_n(lines, "depth", 4).clamp(1, 20_000);
            let shape: Vec<char> = param(lines, "shape").unwrap_or("s").chars().collect();
            let keep_n = param_n(lines, "keep", 1);
            let nt = param_n(lines, "threads", 2).clamp(1, 8);
            let stack = param_n(lines, "stack", 128) * 1024;
            let at_end = param_n(lines, "atend", 0) == 1;
            // levels[i] is the expression of depth i, kept only where an item wants it
            let wants: Vec<Vec<&str>> = lines.iter().filter_map(|l| l.strip_prefix("I ")).map(|l| l.split(' ').collect()).collect();
            let mut items: Vec<Option<Item>> = wants.iter().map(|_| None).collect();
            let mut survivors: Vec<(Expr, String)> = Vec::new();
            let mut e = symb("x").to_expr();
            for i in 0..depth {
                e = wrap(shape[i % shape.len()], e, i);
                let shared = Arc::new(e);
                for (k, w) in wants.iter().enumerate() {
                    if w[0] == "l" {
                        if i % w.get(1).and_then(|s| s.parse::<usize>().ok()).unwrap_or(1).max(1) == 0 {
                            let Item::L(l) = items[k].get_or_insert_with(|| Item::L(Vec::new())) else { continue };
                            l.push(Arc::clone(&shared));
                        }
                        continue;
                    }
                    if w.get(1).and_then(|d| d.parse::<usize>().ok()) == Some(i) {
                        items[k] = Some(if w[0] == "e" { Item::E(Box::new((*shared).clone())) } else { Item::A(Arc::clone(&shared)) });
                    }
                }
                if i < keep_n {
                    let s = at(&shared);
                    survivors.push(((*shared).clone(), s));
                }
                // the next layer holds this node by pointer
                e = Arc::try_unwrap(shared).unwrap_or_else(|a| (*a).clone());
            }
            for (k, w) in wants.iter().enumerate() {
                match w[0] {
                    "c" => {
                        made += 1;
                        let t = Token(Arc::clone(&dropped));
                        let small = survivors[0].0.clone();
                        let c = Context::new().with_symbols(["cdrop_a", "x"]).with_function(
                            "w_held",
                            UserFunction::new(1..=1).body(move |a| {
                                let _ = &t;
                                (*a[0]).clone() + small.clone()
                            }),
                        );
                        items[k] = Some(Item::C(Box::new(c)));
                    }
                    "v" => {
                        let f = symb("x").to_expr().sin() * symb("y").to_expr() + Expr::number(2.0);
                        items[k] = f.compile().ok().map(|v| Item::V(Arc::new(v)));
                    }
                    _ => {}
                }
            }
            // ladders belong to the first thread alone
            let mut ladders = Vec::new();
            for (k, w) in wants.iter().enumerate() {
                if w[0] == "l" && let Some(Item::L(mut l)) = items[k].take() {
                    arrange(&mut l, w.get(2).copied());
                    ladders.push(Some(Item::L(l)));
                }
            }
            // every thread gets its own share of every item
            let mut work: Vec<Vec<(String, usize)>> = vec![Vec::new(); nt];
            for l in lines.iter().filter(|l| l.starts_with('T')) {
                let w: Vec<&str> = l[1..].split(' ').collect();
                if w.len() == 3 {
                    work[w[0].parse::<usize>().unwrap_or(0) % nt].push((w[1].to_string(), w[2].parse().unwrap_or(0)));
                }
            }
            let keep_small = survivors[0].0.clone();
            let mut own: Vec<Vec<Option<Item>>> = (0..nt).map(|_| items.iter().map(|i| i.as_ref().map(Item::share)).collect()).collect();
            // the builder's own references go with the last thread
            own[0].extend(ladders);
            let last = own.len() - 1;
            let mut rest: Vec<Option<Item>> = items;
            rest.push(Some(Item::E(Box::new(e))));
            own[last].extend(rest);
            let hs: Vec<_> = work
                .into_iter()
                .zip(own)
                .map(|(w, mut mine)| {
                    let small = keep_small.clone();
                    std::thread::Builder::new()
                        .stack_size(stack)
                        .spawn(move || {
                            let mut bad = None;
                            if at_end {
                                // registered before anything of the library: destroyed after it
                                HELD.with(|h| h.borrow_mut().clear());
                            }
                            for (op, i) in w {
                                let n = mine.len();
                                let k = i % n;
                                match op.as_str() {
                                    "drop" => mine[k] = None,
                                    "dup" => {
                                        let c = mine[k].as_ref().map(Item::share);
                                        mine.push(c);
                                    }
                                    "pass" => {
                                        let m = mine[k].take();
                                        let _ = std::thread::Builder::new().stack_size(stack).spawn(move || if at_end { HELD.with(|h| h.borrow_mut().push(m)) } else { drop(m) }).map(|h| h.join().map_err(|_| bad = Some("a thread that only dropped a value died".to_string())));
                                    }
                                    "all" => {
                                        let keep = mine[k].take();
                                        mine.iter_mut().for_each(|m| *m = None);
                                        mine[k] = keep;
                                    }
                                    _ => {
                                        // values still held are untouched by what the others let go of
                                        match &mine[k] {
                                            Some(Item::V(v)) => {
                                                let n = v.param_count();
                                                if ops::bits(&[v.evaluate(&[0.5, 0.25][..n.min(2)])]) != ops::bits(&[0.5f64.sin() * 0.25 + 2.0]) {
                                                    bad = Some("a compiled evaluator changed".into());
                                                }
                                            }
                                            Some(Item::C(c)) => {
                                                let r = c.get_body("w_held").map(|b| b(&[Arc::new(small.clone())]));
                                                if !c.contains_symbol("cdrop_a") || r.is_none() {
                                                    bad = Some("a context lost its content".into());
                                                }
                                            }
                                            Some(Item::E(e)) if depth <= 200 && !e.contains_var("x") && !e.contains_var("y") && e.as_number().is_none() => bad = Some("an expression lost its variables".into()),
                                            _ => {}
                                        }
                                    }
                                }
                            }
                            if at_end {
                                HELD.with(|h| *h.borrow_mut() = mine);
                            } else {
                                drop(mine);
                            }
                            bad
                        })
                })
                .collect();
            let mut b = Vec::new();
            for h in hs {
                match h.map(std::thread::JoinHandle::join) {
                    Ok(Ok(None)) => {}
                    Ok(Ok(Some(m))) => b.push(m),
                    Ok(Err(p)) => b.push(format!("a thread died: {}", panic_text(p.as_ref()))),
                    Err(_) => b.push("no thread".into()),
                }
            }
            for (e, s) in &survivors {
                if at(e) != *s {
                    b.push(format!("a kept expression changed from {s} to {e}"));
                }
            }
            bad = b;
        }
        for b in bad {
            out.v("drop", &b);
        }
        if dropped.load(SeqCst) != made {
            out.v("drop", &format!("{} of {made} user functions were dropped", dropped.load(SeqCst)));
        }
        let blocks1 = rt::live_blocks();
        if blocks1 != blocks0 + 1 {
            // the counter itself is still held
            out.v("leak", &format!("{} blocks of memory in use after everything was dropped, {} before", blocks1, blocks0 + 1));
        }
        if param_n(lines, "depth", 4) > 300 {
            out.p("deep");
        }
    }
}
