//! Ids of expressions, contexts and symbols: none may be given twice, whoever asks and when.
use crate::driver::{Out, Scenario};
use crate::ops;
use crate::rng::Rng;
use crate::rt::SimCfg;
use crate::s_api::guarded;
use crate::s_batch::on_threads;
use rayon::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use symb_anafis::*;

type Log = Arc<Mutex<Vec<(char, u64)>>>;
/// Makes `n` things and gives their ids.
fn make(kind: &str, n: usize, tag: &str) -> Vec<(char, u64)> {
    let mut v = Vec::new();
    let mut kept = Vec::new();
    for i in 0..n {
        let mut e = |x: Expr| v.push(('e', x.id()));
        match kind {
            "number" => e(Expr::number(i as f64)),
            "symbol" => e(Expr::symbol("x")),
            "ops" => {
                let (x, y) = (Expr::symbol("x"), Expr::symbol("y"));
                let s = x.clone() + y.clone();
                let p = x.clone() * y.clone();
                let f = (x.clone() / (y.clone() + Expr::number(2.0))).sin();
                [x, y, s, p, f].into_iter().for_each(e);
            }
            "parse" => {
                if let Ok(x) = ops::p("sin(x) + 3*y^2") {
                    e(x);
                }
            }
            "anon" => v.push(('s', Symbol::anon().id())),
            "named" => {
                // a name of its own, and gone again: what it leaves behind is used anew
                let name = format!("id_{tag}_{i}");
                v.push(('s', symb(&name).id()));
                remove_symbol(&name);
            }
            "ctxsym" => {
                let c = Context::new();
                v.push(('c', c.id()));
                v.push(('s', c.symb(&format!("own_{tag}_{i}")).id()));
                kept.push(c);
            }
            "ctx" | "ctxdrop" => {
                let c = if i % 2 == 0 { Context::new() } else { Context::default() };
                v.push(('c', c.id()));
                if kind == "ctx" {
                    kept.push(c);
                }
            }
            _ => {}
        }
    }
    drop(kept);
    v
}
struct AtEnd(Vec<(String, usize, String)>, Option<Log>);
impl Drop for AtEnd {
    fn drop(&mut self) {
        for (k, n, tag) in std::mem::take(&mut self.0) {
            let v = make(&k, n, &tag);
            if let Some(l) = &self.1 {
                l.lock().expect("not poisoned").extend(v);
            }
        }
    }
}
thread_local! {
    static END: RefCell<AtEnd> = const { RefCell::new(AtEnd(Vec::new(), None)) };
}
const KINDS: [&str; 9] = ["number", "symbol", "ops", "parse", "anon", "named", "ctxsym", "ctx", "ctxdrop"];
pub struct Ids;
impl Scenario for Ids {
    fn name(&self) -> &'static str {
        "unique-ids"
    }
    fn reference(&self) -> bool {
        false
    }
    fn real(&self) -> &'static str {
        "src/core/expr, src/core/unified_context.rs, src/core/symbol, parser, and rayon for tasks that create"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 20_000_000;
        c.fair_after = 2_000_000;
        c.mem_points = u32::from(r.chance(1, 8));
        c.stall = *r.pick(&[0, 20, 100, 300]);
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(2, 5);
        let mut v = vec![format!("#threads {nt}"), format!("#rayon {}", r.range(1, 4))];
        let some: Vec<&str> = if r.chance(1, 2) { vec![*r.pick(&KINDS)] } else { KINDS.to_vec() };
        // mostly few, now and then more than any block of ids has
        let long = r.chance(1, 12);
        for i in 0..r.range(2, 7) {
            let k = *r.pick(&some);
            let n = match k {
                "number" | "ctx" | "ctxdrop" | "anon" if long => r.range(500, 2500),
                "parse" | "named" => r.range(1, 6),
                _ if r.chance(1, 4) => r.range(20, 120),
                _ => r.range(1, 12),
            };
            let how = *r.pick(&["here", "here", "here", "thread", "end", "pool"]);
            v.push(format!("T{} {how} {k} {n} {i}", r.n(nt)));
        }
        v
    }
    fn run(&self, lines: &[String], _variant: u32, out: &mut Out) {
        let nt = crate::driver::param_n(lines, "threads", 2).clamp(1, 8);
        let log: Log = Arc::default();
        // the main thread's part in a thread of its own, so that it ends as well
        let (work, lg) = (lines.to_vec(), Arc::clone(&log));
        let all = std::thread::spawn(move || {
            let mut o = Out { text: String::new() };
            let res = on_threads(&work, nt, &mut o, move |_, l| {
                guarded(l, || {
                    let w: Vec<&str> = l.split(' ').collect();
                    let (Some(how), Some(kind), Some(n)) = (w.first(), w.get(1).map(|k| (*k).to_string()), w.get(2).and_then(|n| n.parse::<usize>().ok())) else { return "bad".into() };
                    let tag = w.get(3).copied().unwrap_or("0").to_string();
                    let add = |v: Vec<(char, u64)>| lg.lock().expect("not poisoned").extend(v);
                    match *how {
                        "thread" => {
                            let h = std::thread::spawn(move || make(&kind, n, &tag));
                            if let Ok(v) = h.join() {
                                add(v);
                            }
                        }
                        "end" => END.with(|e| {
                            let mut e = e.borrow_mut();
                            e.0.push((kind, n, tag));
                            e.1 = Some(Arc::clone(&lg));
                        }),
                        "pool" => {
                            let parts: Vec<_> = (0..4usize).into_par_iter().map(|p| make(&kind, n.div_ceil(4), &format!("{tag}_{p}"))).collect();
                            parts.into_iter().for_each(add);
                        }
                        _ => add(make(&kind, n, &tag)),
                    }
                    "done".to_string()
                })
            });
            (o, res)
        })
        .join();
        let Ok((o, res)) = all else {
            out.v("panic", "a thread died");
            return;
        };
        out.text.push_str(&o.text);
        for (_, l, r) in res {
            if r != "done" {
                out.v("panic", &format!("{l}: {r}"));
            }
        }
        let mut count: BTreeMap<(char, u64), usize> = BTreeMap::new();
        for x in log.lock().expect("not poisoned").iter() {
            *count.entry(*x).or_default() += 1;
        }
        if let Some(((c, id), n)) = count.iter().find(|(_, n)| **n > 1) {
            let what = match c {
                'e' => "expressions built apart",
                'c' => "contexts",
                _ => "symbols",
            };
            out.v("id-twice", &format!("id {id} was given to {n} {what}"));
        }
        out.p("ids");
    }
}
