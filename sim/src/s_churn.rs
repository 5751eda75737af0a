//! Calls whose very symbol names other threads remove, clear and re-create meanwhile.
use crate::driver::{Out, Scenario, param_n};
use crate::ops;
use crate::rng::Rng;
use crate::rt::SimCfg;
use crate::s_api::guarded;
use crate::s_batch::on_threads;
use symb_anafis::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// The names of the formulas' variables are churned: nothing may panic or hang.
    Progress,
    /// Built-in names are churned: formulas without variables must not notice.
    Builtins,
}
pub struct Churn {
    pub name: &'static str,
    pub mode: Mode,
}
const BUILTINS: [&str; 40] = [
    "PI", "Pi", "E", "exp_polar", "ynm", "spherical_harmonic", "hermite", "assoc_legendre", "zeta", "zeta_deriv", "elliptic_k", "trigamma", "floor", "acsch",
    "pi", "e", "sin", "cos", "tan", "exp", "ln", "sqrt", "cbrt", "abs", "log", "log10", "erf", "gamma", "atan2", "besselj", "sinh", "cosh", "tanh", "asin", "sec", "beta", "digamma", "polygamma", "signum", "lambertw",
];
fn churn_op(line: &str) -> String {
    let (k, n) = line.split_once(' ').unwrap_or((line, ""));
    guarded(line, || {
        match k {
            "remove" => drop(remove_symbol(n)),
            "clear" => clear_symbols(),
            "symb" => drop(symb(n).to_expr() + Expr::number(1.0)),
            "new" => drop(symb_new(n)),
            "get" => drop(symb_get(n).map(|s| s.name())),
            "names" => drop((symbol_names(), symbol_count(), symbol_exists(n))),
            "ctx" => {
                let mut c = Context::new().with_symbol(n).with_function(n, ops::scale(2.0));
                let _ = c.symb(n).to_expr().sin();
                let _ = c.remove_symbol(n);
                c.clear_all();
            }
            "many" => drop(symbols_many(n)),
            _ => {}
        }
        "done".to_string()
    })
}
fn symbols_many(n: &str) -> usize {
    let m = [n, "t1", "alpha"];
    symb_new(m[0]).map_or(0, |s| s.id() as usize & 1)
}
fn is_churn(l: &str) -> bool {
    l.starts_with("~")
}
fn exec(l: &str) -> String {
    if let Some(c) = l.strip_prefix("~") { churn_op(c) } else { guarded(l, || ops::exec(l)) }
}
/// Formulas of numbers, constants and built-in functions.
fn constant(r: &mut Rng) -> String {
    let leafs = ["pi", "e", "2", "0.5", "3", "1.25", "PI", "E", "Pi"];
    let l = |r: &mut Rng| (*r.pick(&leafs)).to_string();
    let f = |r: &mut Rng| {
        let mut s = l(r);
        for _ in 0..r.range(1, 3) {
            s = match r.n(6) {
                0 => format!("({s} + {})", r.pick(&leafs)),
                1 => format!("({s}*{})", r.pick(&leafs)),
                2 => format!("({s})^2"),
                _ => format!("{}({s})", r.pick(&["sin", "cos", "exp", "ln", "sqrt", "erf", "gamma", "abs", "tanh", "cbrt", "sinh", "atan", "log10", "elliptic_k", "zeta", "exp_polar", "acsch", "floor", "trigamma", "lambertw", "digamma", "signum", "sec"])),
            };
        }
        s
    };
    match r.n(7) {
        0 => format!("{} - {}", f(r), f(r)),
        1 => format!("sin({0})^2 + cos({0})^2", f(r)),
        2 => format!("atan2({}, {})", f(r), f(r)),
        3 => format!("exp(ln({}))*{}", f(r), f(r)),
        4 => format!("{}/sqrt({})", f(r), f(r)),
        5 => format!("besselj(1, {}) + log(2, {})", f(r), f(r)),
        _ => f(r),
    }
}
const CONST_KINDS: [&str; 12] = ["parse", "simp", "simpds", "eval", "comp", "batch", "latex", "visit", "limits", "diffraw", "ctxdiff", "nth"];

impl Scenario for Churn {
    fn name(&self) -> &'static str {
        self.name
    }
    fn reference(&self) -> bool {
        true
    }
    fn real(&self) -> &'static str {
        "symbol registry (shards, slot map, caches, removal), known-symbol and function tables, parser, differentiation, simplification, compiler, evaluation, uncertainty, contexts, parallel evaluation"
    }
    fn tune(&self, r: &mut Rng, _l: &[String], c: &mut SimCfg) {
        c.max_steps = 60_000_000;
        c.fair_after = 4_000_000;
        c.mem_points = u32::from(r.chance(1, 8));
    }
    fn generate(&self, r: &mut Rng) -> Vec<String> {
        let nt = r.range(2, 4);
        let nv = r.range(1, 4);
        let mut vars = ops::VARS.to_vec();
        r.shuffle(&mut vars);
        vars.truncate(nv);
        let mut kinds: Vec<&str> = if self.mode == Mode::Builtins { CONST_KINDS.to_vec() } else { ops::KINDS.iter().copied().chain(["rpn", "rpnsimp"]).collect() };
        if r.chance(2, 3) {
            r.shuffle(&mut kinds);
            kinds.truncate(r.range(2, 6));
        }
        let mut v = vec![format!("#rayon {}", r.range(1, 3)), format!("#threads {nt}"), format!("#warm {}", u8::from(r.chance(3, 4)))];
        let call = |r: &mut Rng| if self.mode == Mode::Builtins { format!("{} x | {}", r.pick(&kinds), constant(r)) } else { ops::gen_op(r, 2, &vars, &kinds) };
        for _ in 0..r.range(2, 7) {
            v.push(format!("T{} {}", r.n(nt), call(r)));
        }
        for _ in 0..r.range(2, 16) {
            let n: &str = if self.mode == Mode::Builtins && r.chance(4, 5) { *r.pick(&BUILTINS) } else { *r.pick(&vars) };
            let k = *r.pick(&["remove", "remove", "clear", "symb", "new", "get", "names", "ctx", "many"]);
            v.push(format!("T{} ~{k} {n}", r.n(nt)));
        }
        // afterwards, alone
        for _ in 0..r.range(1, 3) {
            v.push(format!("A {}", if r.chance(1, 2) { call(r) } else { ops::gen_op(r, 2, &vars, &ops::KINDS) }));
        }
        // the churn mixed in anywhere
        let (h, mut b): (Vec<String>, Vec<String>) = v.into_iter().partition(|l| l.starts_with('#'));
        r.shuffle(&mut b);
        h.into_iter().chain(b).collect()
    }
    fn run(&self, lines: &[String], variant: u32, out: &mut Out) {
        let after: Vec<(usize, &str)> = lines.iter().enumerate().filter_map(|(i, l)| l.strip_prefix("A ").map(|l| (i, l))).collect();
        if variant == 0 {
            for (i, _, l) in crate::s_batch::split(lines).into_iter().rev() {
                if !is_churn(&l) && self.mode == Mode::Builtins {
                    out.d(&format!("line {i} `{l}`"), &exec(&l));
                }
            }
            for (i, l) in after {
                out.d(&format!("line {i} `{l}`"), &exec(l));
            }
            return;
        }
        if param_n(lines, "warm", 1) == 1 {
            let _ = exec("simp | sin(x)^2 + cos(x)^2 + 1");
        }
        let nt = param_n(lines, "threads", 2).clamp(1, 8);
        let res = on_threads(lines, nt, out, |_, l| exec(l));
        for (i, l, r) in res {
            if r.starts_with("PANIC") {
                out.v("panic", &r);
            } else if !is_churn(&l) {
                out.p("churned_call");
                if self.mode == Mode::Builtins {
                    out.d(&format!("line {i} `{l}`"), &r);
                }
            }
        }
        for (i, l) in after {
            out.d(&format!("line {i} `{l}`"), &exec(l));
        }
    }
}
