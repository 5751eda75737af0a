//! Threads that end while they still own library values: destructors of the user's thread-local
//! values use the library, before or after the library's own thread-local state is gone.
use crate::driver::{Out, Scenario, panic_text, param_n};
use crate::ops;
use crate::rng::Rng;
use crate::rt::SimCfg;
use crate::s_api::guarded;
use std::cell::RefCell;
use std::sync::{Arc, Mutex};
use symb_anafis::*;

type Log = Arc<Mutex<Vec<(String, String)>>>;
/// Runs its calls when it is dropped.
struct AtExit {
    calls: Vec<(usize, String)>,
    log: Option<Log>,
    ctx: Option<Context>,
    held: Vec<Expr>,
    evaluator: Option<CompiledEvaluator>,
}
impl AtExit {
    const fn new() -> Self {
        Self { calls: Vec::new(), log: None, ctx: None, held: Vec::new(), evaluator: None }
    }
}
impl Drop for AtExit {
    fn drop(&mut self) {
        let Some(log) = self.log.take() else { return };
        for (i, c) in std::mem::take(&mut self.calls) {
            let r = exec(&c, self.ctx.as_ref(), &self.held);
            log.lock().expect("not poisoned").push((format!("line {i} `{c}`"), r));
        }
        self.held.clear();
        drop(self.evaluator.take());
        drop(self.ctx.take());
    }
}
thread_local! {
    static FIRST: RefCell<AtExit> = const { RefCell::new(AtExit::new()) };
    static SECOND: RefCell<AtExit> = const { RefCell::new(AtExit::new()) };
}

fn exec(line: &str, ctx: Option<&Context>, held: &[Expr]) -> String {
    let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
    guarded(line, || match k {
        "symb" => {
            let s = symb(rest);
            format!("{} {:?} {}", s == symb(rest), s.name(), s.to_expr() + Expr::number(1.0))
        }
        "get" => format!("{:?} {}", symb_get(rest).ok().map(|s| s.name()), symbol_exists(rest)),
        "remove" => {
            let n = format!("gone_{rest}");
            let _ = symb(&n);
            let a = remove_symbol(&n);
            format!("{a} {}", symb_get(&n).is_ok())
        }
        "held" => held.iter().map(|e| format!("{e} {}", ops::show_all(&e.derive("x", None)))).collect::<Vec<_>>().join(" ; "),
        "ctx" => ctx.map_or_else(String::new, |c| {
            let s = c.symb(rest);
            format!("{} {:?} {}", c.get_symbol(rest) == Some(s), s.name(), Diff::new().with_context(c).diff_str("w_fn(x)*x", "x", &[]).unwrap_or_else(|e| e.to_string()))
        }),
        "anon" => format!("{}", Symbol::anon() != Symbol::anon()),
        "thread" => std::thread::spawn(|| simplify("x + x", &[], None).unwrap_or_default()).join().unwrap_or_else(|_| "died".into()),
        "call" => ops::exec(rest),
        _ => "unknown".into(),
    })
}
fn gen_call(r: &mut Rng, kinds: &[&str]) -> String {
    match r.n(16) {
        0 => format!("symb {}", r.pick(&["x", "alpha", "exit_a", "exit_b"])),
        1 => format!("get {}", r.pick(&["sin", "exp", "x"])),
        2 => format!("remove {}", r.n(1000)),
        3 | 4 => "held".into(),
        5 => format!("ctx {}", r.pick(&["x", "cx_a", "pi"])),
        6 => "anon".into(),
        7 => "thread".into(),
        _ => format!("call {}", ops::gen_op(r, 2, &["x", "y", "t1"], kinds)),
    }
}

pub struct Exit;
impl Scenario for Exit {
    fn name(&self) -> &'static str {
        "thread-exit"
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "symbol registry and its thread-local caches, expressions, contexts, evaluators, every kind of API call, real thread-local destructors of real threads"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 8));
    }
    fn nontrivial(&self, run: &crate::driver::RunRes) -> bool {
        run.text.contains("P\texit_call") && run.threads > 1
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(1, 4);
        let mut kinds = ops::KINDS.to_vec();
        kinds.extend(["rpn", "rpnsimp"]);
        r.shuffle(&mut kinds);
        kinds.truncate(r.range(2, 8));
        if r.chance(1, 4) {
            // evaluators with more operands than they keep inline
            kinds = vec!["big"];
            kinds.extend(r.pick(&["", "batch", "ef64", "pbatch", "comp"]).split_whitespace());
        }
        let mut v = vec![format!("#rayon {}", r.range(1, 3)), format!("#threads {nt}"), format!("#main {}", u8::from(r.chance(1, 2)))];
        for t in 0..nt {
            // W: work while alive; F / S: from the destructor of a thread-local made before / after the library's
            // a call while alive makes the library's thread-local state for it, and the same or another
            // call of its kind comes when that state is gone
            let mut w = Vec::new();
            for _ in 0..r.range(0, 3) {
                w.push(gen_call(r, &kinds));
                v.push(format!("T{t} W {}", w[w.len() - 1]));
            }
            for _ in 0..r.range(1, 4) {
                let c = if !w.is_empty() && r.chance(1, 3) { r.pick(&w).clone() } else { gen_call(r, &kinds) };
                v.push(format!("T{t} {} {c}", r.pick(&["F", "F", "S"])));
            }
        }
        v
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        let all = crate::s_batch::split(lines);
        let held = || vec![symb("x").to_expr().sin() * symb("y").to_expr(), parse("x^3 + 2*x^2 + alpha", &std::collections::HashSet::new(), &std::collections::HashSet::new(), None).unwrap_or_else(|_| Expr::number(0.0))];
        let ctx = || Context::new().with_symbols(["x", "cx_a"]).with_function("w_fn", ops::scale(2.0));
        if variant == 0 {
            let (h, c) = (held(), ctx());
            for (i, _, l) in all.iter().rev() {
                let l = l.split_once(' ').map_or("", |x| x.1);
                let r = exec(l, Some(&c), &h);
                out.d(&format!("line {i} `{l}`"), &r);
            }
            return;
        }
        let nt = param_n(lines, "threads", 2).clamp(1, 8);
        let log: Log = Arc::default();
        if param_n(lines, "main", 0) == 1 {
            let _ = symb("x");
        }
        let shared = ctx();
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let mine: Vec<(usize, String, String)> = all.iter().filter(|a| a.1 % nt == t).filter_map(|(i, _, l)| l.split_once(' ').map(|(k, c)| (*i, k.to_string(), c.to_string()))).collect();
                let log = Arc::clone(&log);
                let shared = shared.clone();
                std::thread::spawn(move || {
                    let pick = |k: &str| mine.iter().filter(|m| m.1 == k).map(|m| (m.0, m.2.clone())).collect::<Vec<_>>();
                    // registered first: destroyed after the library's own thread-locals
                    FIRST.with(|f| {
                        let mut f = f.borrow_mut();
                        f.calls = pick("F");
                        f.log = Some(Arc::clone(&log));
                    });
                    let h = held();
                    for (i, c) in pick("W") {
                        let r = exec(&c, Some(&shared), &h);
                        log.lock().expect("not poisoned").push((format!("line {i} `{c}`"), r));
                    }
                    let ev = h[0].compile().ok();
                    FIRST.with(|f| {
                        let mut f = f.borrow_mut();
                        f.ctx = Some(shared.clone());
                        f.held = h.clone();
                        f.evaluator = ev;
                    });
                    SECOND.with(|f| {
                        let mut f = f.borrow_mut();
                        f.calls = pick("S");
                        f.log = Some(Arc::clone(&log));
                        f.ctx = Some(shared.clone());
                        f.held = h;
                    });
                })
            })
            .collect();
        for h in hs {
            if let Err(p) = h.join() {
                out.v("panic", &format!("a thread died: {}", panic_text(p.as_ref())));
            }
        }
        for (l, r) in log.lock().expect("not poisoned").iter() {
            out.d(l, r);
            out.p("exit_call");
        }
        let after = guarded("after", || simplify("x + x + sin(x)", &[], None).unwrap_or_default());
        if after.starts_with("PANIC") {
            out.v("panic", &after);
        }
    }
}
