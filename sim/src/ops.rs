//! Random formulas and library calls written as text lines, and their execution to a text digest.
use crate::bank::BANK;
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::Arc;
use symb_anafis::parallel::{EvalResult, ExprInput, SKIP, Value, VarInput, evaluate_parallel};
use symb_anafis::*;

/// Names for symbols: ordinary ones, long ones alike at the beginning or the end, ones that differ
/// little, letters of other alphabets, and ones that no formula can contain.
const NAME_POOLS: [[&str; 6]; 6] = [
    ["qa", "qb", "alpha_7", "K", "qz9", "long_symbol_name_with_many_bytes_x"],
    [
        "a_name_of_more_than_sixty_four_bytes_that_only_differs_in_its_very_last_part_a",
        "a_name_of_more_than_sixty_four_bytes_that_only_differs_in_its_very_last_part_b",
        "a_name_of_more_than_sixty_four_bytes_that_only_differs_in_its_very_last_part_",
        "a_name_of_more_than_sixty_four_bytes_that_only_differs_in_its_very_last_part_ab",
        "b_name_of_more_than_sixty_four_bytes_that_only_differs_in_its_very_last_part_a",
        "a_name_of_more_than_sixty_four_bytes_that_only_differs_in_its_very_last_part_aa",
    ],
    ["qab", "qaB", "Qab", "q_ab", "qab_", "qab1"],
    ["qa", "aq", "qa_1", "qa_2", "qa_3", "qa_4"],
    ["\u{3b4}q", "\u{3b8}q", "\u{436}_2", "\u{e9}q", "e\u{301}q", "\u{65e5}\u{672c}"],
    ["q a", "qa ", " qa", "qa+1", "2q", "q(a)"],
];
static POOL_IN_USE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// Number of names in a pool.
pub const POOLED: usize = 6;
pub fn gen_pool(r: &mut Rng) -> String {
    format!("#pool {}", if r.chance(3, 5) { 0 } else { r.range(1, NAME_POOLS.len() - 1) })
}
/// Chooses the pool of this run.
pub fn set_pool(lines: &[String]) {
    POOL_IN_USE.store(crate::driver::param_n(lines, "pool", 0) % NAME_POOLS.len(), std::sync::atomic::Ordering::Relaxed);
}
pub fn pooled(i: usize) -> &'static str {
    // not a step of the simulated program
    crate::rt::quiet(|| NAME_POOLS[POOL_IN_USE.load(std::sync::atomic::Ordering::Relaxed)][i % POOLED])
}
/// Whether the names of the pool are identifiers of formulas.
pub fn pool_parses() -> bool {
    crate::rt::quiet(|| POOL_IN_USE.load(std::sync::atomic::Ordering::Relaxed) < 3)
}
pub const VARS: [&str; 6] = ["x", "y", "z", "t1", "alpha", "omega_k"];
pub const KNOWN: [&str; 4] = ["t1", "alpha", "omega_k", "beta_2"];
const F1: [&str; 61] = [
    "acot", "asec", "acsc", "acoth", "asech", "acsch", "elliptic_k", "elliptic_e", "zeta", "exp_polar", "tan", "sinh", "cosh", "tanh", "atan",
    "sin", "cos", "tan", "cot", "sec", "csc", "asin", "acos", "atan", "sinh", "cosh", "tanh", "coth", "sech", "csch", "asinh", "acosh", "atanh", "exp", "ln", "log10", "log2", "sqrt", "cbrt", "abs", "signum", "erf", "erfc", "gamma", "digamma", "erf",
    "sinc", "lambertw", "floor", "ceil", "round", "sin", "cos", "exp", "ln", "sqrt", "sin", "cos", "exp", "sqrt", "abs",
];
const F2: [&str; 16] =
    ["atan2", "log", "besselj", "polygamma", "beta", "hermite", "trigamma", "bessely", "besseli", "besselk", "zeta_deriv", "tetragamma", "assoc_legendre", "spherical_harmonic", "ynm", "atan2"];

pub fn leaf(r: &mut Rng, vars: &[&str]) -> String {
    match r.n(10) {
        0 => format!("{}", r.range(1, 9)),
        1 => (*r.pick(&["0.5", "2.5", "1.25", "3.75", "10", "1", "100"])).to_string(),
        2 => (*r.pick(&["pi", "e", "2", "3"])).to_string(),
        _ => (*r.pick(vars)).to_string(),
    }
}
pub fn formula(r: &mut Rng, depth: usize, vars: &[&str]) -> String {
    if depth == 0 {
        return leaf(r, vars);
    }
    match r.n(20) {
        0..=3 => {
            let n = r.range(2, 4);
            let mut s = formula(r, depth - 1, vars);
            for _ in 1..n {
                let _ = write!(s, " {} {}", if r.chance(2, 3) { "+" } else { "-" }, formula(r, depth - 1, vars));
            }
            format!("({s})")
        }
        4..=6 => {
            let n = r.range(2, 3);
            let mut s = formula(r, depth - 1, vars);
            for _ in 1..n {
                let _ = write!(s, "*{}", formula(r, depth - 1, vars));
            }
            format!("({s})")
        }
        7 | 8 => format!("({}/{})", formula(r, depth - 1, vars), formula(r, depth - 1, vars)),
        9 | 10 => format!("{}^{}", paren(&formula(r, depth - 1, vars)), r.pick(&["2", "3", "2", "0.5", "(-1)", "4", "(1/3)"])),
        11 => format!("{}^{}", paren(&leaf(r, vars)), paren(&formula(r, depth - 1, vars))),
        12 | 13 => {
            // a polynomial in one variable
            let v = *r.pick(vars);
            let n = r.range(2, 4);
            let mut t = Vec::new();
            for _ in 0..n {
                t.push(format!("{}*{v}^{}", r.range(1, 7), r.range(1, 4)));
            }
            format!("({})", t.join(if r.chance(1, 2) { " + " } else { " - " }))
        }
        14 => leaf(r, vars),
        15 => {
            let f = *r.pick(&F2);
            match f {
                // their evaluation takes time proportional to a negative argument's magnitude
                "polygamma" => format!("polygamma({}, {})", r.range(0, 3), leaf(r, vars)),
                "trigamma" | "tetragamma" => format!("{f}({})", leaf(r, vars)),
                "zeta_deriv" => format!("zeta_deriv({}, {})", r.range(1, 3), leaf(r, vars)),
                "assoc_legendre" => {
                    let l = r.range(0, 3);
                    format!("assoc_legendre({l}, {}, {})", r.range(0, l), formula(r, depth - 1, vars))
                }
                "spherical_harmonic" | "ynm" => {
                    let l = r.range(0, 3);
                    format!("{f}({l}, {}, {}, {})", r.range(0, l), leaf(r, vars), formula(r, depth - 1, vars))
                }
                "besselj" | "bessely" | "besseli" | "besselk" | "hermite" => format!("{f}({}, {})", r.range(0, 3), formula(r, depth - 1, vars)),
                _ => format!("{f}({}, {})", formula(r, depth - 1, vars), formula(r, depth - 1, vars)),
            }
        }
        _ => format!("{}({})", r.pick(&F1), formula(r, depth - 1, vars)),
    }
}
fn paren(s: &str) -> String {
    if s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.') || s.starts_with('(') && s.ends_with(')') && balanced(s) { s.to_string() } else { format!("({s})") }
}
fn balanced(s: &str) -> bool {
    let mut d = 0;
    for (i, c) in s.char_indices() {
        match c {
            '(' => d += 1,
            ')' => {
                d -= 1;
                if d == 0 && i + 1 < s.len() {
                    return false;
                }
            }
            _ => {}
        }
    }
    true
}
/// Formulas whose simplification takes rule paths that random ones seldom reach.
pub const SPECIAL: [&str; 34] = [
    "sin(x)^2 + cos(x)^2",
    "x^2 + 2*x*y + y^2",
    "a*x + b*x + c*x",
    "(x^2 - 1)/(x - 1)",
    "(x + y)*(x - y)",
    "exp(x)*exp(y)*exp(z)",
    "ln(x) + ln(y) - ln(z)",
    "sqrt(x)*sqrt(y)*sqrt(x)",
    "cosh(x)^2 - sinh(x)^2",
    "x/y + z/y + 1/y",
    "1/(1/x + 1/y)",
    "(a*b + a*c + a*d)/(a*e1)",
    "sin(x)*cos(y) + cos(x)*sin(y)",
    "2*sin(x)*cos(x)",
    "(exp(x) - exp(-x))/2",
    "(exp(x) + exp(-x))/2",
    "(exp(x) - exp(-x))/(exp(x) + exp(-x))",
    "x*y*z + z*y*x + y*x*z",
    "abs(-x)*abs(x)",
    "x^a*x^b*x^c",
    "(x*y)^3/(x^2*y)",
    "3*x^2 + 2*x + 1 - x^2",
    "sin(3*x) - 3*sin(x) + 4*sin(x)^3",
    "tan(x)*cos(x) + sec(x)*sin(x)",
    "exp(ln(x) + 2*ln(y))",
    "sqrt(x^2 + 2*x*y + y^2)",
    "a/(b*c) + d/(b*e1) + f1/(c*e1)",
    "u*v + v*w + w*u + u*w + v*u + w*v",
    "(x + 1)^2*(x + 1)^3/(x + 1)",
    "x^3*y - x*y^3 + x*y",
    "log(2, x) + log10(x) + log2(x)",
    "besselj(0, x) + bessely(1, x) + besseli(0, x) + besselk(1, x)",
    "pi*x^2 + e*x + pi*e",
    "4*pi*epsilon*r^2 + 2*h*r - k_b*t",
];
/// A formula of the bank, its variables in part renamed to the caller's.
pub fn bank_formula(r: &mut Rng, vars: &[&str]) -> String {
    let f = *r.pick(BANK);
    rename(r, f, vars)
}
fn rename(r: &mut Rng, f: &str, vars: &[&str]) -> String {
    let c: Vec<char> = f.chars().collect();
    let mut map: Vec<(char, &str)> = Vec::new();
    let mut o = String::new();
    let keep = r.chance(1, 3);
    let mut i = 0;
    while i < c.len() {
        let word = |x: char| x.is_alphanumeric() || x == '_';
        if !(c[i].is_alphabetic() || c[i] == '_') {
            o.push(c[i]);
            i += 1;
            continue;
        }
        let mut j = i;
        while j < c.len() && word(c[j]) {
            j += 1;
        }
        let called = c[j..].iter().find(|x| **x != ' ') == Some(&'(');
        if keep || j - i > 1 || called || c[i] == 'e' {
            o.extend(&c[i..j]);
        } else if let Some((_, v)) = map.iter().find(|(k, _)| *k == c[i]) {
            o.push_str(v);
        } else {
            let v = *r.pick(vars);
            map.push((c[i], v));
            o.push_str(v);
        }
        i = j;
    }
    o
}
/// Formulas whose result depends on the settings of the call.
const SETTINGS: [&str; 34] = [
    "sqrt(x^2)", "sqrt(x^2*y)", "(x^2 - 1)/(x - 1)", "ln(x^2)", "exp(ln(x))", "ln(exp(x))", "x^a/x^b", "sqrt(x)*sqrt(y)", "ln(x*y)", "ln(x/y)", "ln(x) + ln(y)", "ln(x) - ln(y)", "(x^2)^(1/2)", "(x^a)^b", "sqrt(x^4)",
    "x/x + y/y", "(x*y)/(x*z)", "exp(ln(x) + ln(y))", "sqrt(x/y)", "sqrt(x)/sqrt(y)", "cbrt(x^3)", "abs(x^2)", "(x*y)^(1/2)", "x^0 + 0^x", "ln(sqrt(x))", "2*ln(x) + 3*ln(y)", "sqrt((x + 1)^2)", "exp(2*ln(x))", "1/sqrt(x^2)", "ln(x^y)",
    "x*sqrt(x)/x^2", "(x^2 + 2*x + 1)/(x + 1)", "tan(x)*cot(x)", "w_fn(x) + w_fn(2)*y",
];
pub fn setting_formula(r: &mut Rng, vars: &[&str]) -> String {
    let f = *r.pick(&SETTINGS);
    rename(r, f, vars)
}
pub fn any_formula(r: &mut Rng, depth: usize, vars: &[&str]) -> String {
    if r.chance(1, 60) {
        return many_formula(r, 5, 14);
    }
    match r.n(8) {
        0 => (*r.pick(&SPECIAL)).to_string(),
        6 => bank_formula(r, vars),
        7 => match r.n(6) {
            0 => format!("({})*({})", bank_formula(r, vars), leaf(r, vars)),
            1 => format!("{} + {}", bank_formula(r, vars), bank_formula(r, vars)),
            2 => format!("sin({})", bank_formula(r, vars)),
            3 => format!("({})/({})", bank_formula(r, vars), bank_formula(r, vars)),
            4 => setting_formula(r, vars),
            _ => bank_formula(r, vars),
        },
        1 => {
            let n = r.range(2, 3);
            let mut v: Vec<String> = (0..n).map(|_| (*r.pick(&SPECIAL)).to_string()).collect();
            v[0] = formula(r, 2.min(depth), vars);
            v.join(*r.pick(&[" + ", " - "]))
        }
        _ => formula(r, depth, vars),
    }
}
const MANY: [&str; 24] = ["a", "b", "c", "d", "f", "g", "h", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"];
/// A cheap formula of more variables than others have.
pub fn many_formula(r: &mut Rng, lo: usize, hi: usize) -> String {
    let mut vars = MANY.to_vec();
    r.shuffle(&mut vars);
    let n = r.range(lo, hi);
    let mut t: Vec<String> = Vec::new();
    let mut i = 0;
    while i < n {
        let (v, w) = (vars[i], vars[(i + 1) % n]);
        i += 1;
        t.push(match r.n(7) {
            0 => format!("{v}^2"),
            1 => format!("{}*{v}", r.range(2, 9)),
            2 => {
                i += 1;
                format!("{v}*{w}")
            }
            3 => format!("sin({v})"),
            4 => format!("{v}/{}", r.range(2, 5)),
            5 => format!("sqrt({v} + {})", r.range(2, 9)),
            _ => v.to_string(),
        });
    }
    t.join(if r.chance(1, 2) { " + " } else { " - " })
}
/// A program in reverse Polish notation for the operator interface.
pub fn rpn(r: &mut Rng, n: usize, vars: &[&str]) -> String {
    let mut t: Vec<String> = Vec::new();
    let mut h = 0;
    for _ in 0..n {
        if h < 2 || r.chance(2, 5) {
            t.push(if r.chance(1, 4) { format!("{}", r.range(1, 5)) } else { (*r.pick(vars)).to_string() });
            h += 1;
        } else if r.chance(1, 4) {
            t.push((*r.pick(&["sin", "cos", "exp", "sqrt", "ln", "neg", "sq"])).to_string());
        } else {
            t.push((*r.pick(&["+", "+", "*", "*", "-", "/"])).to_string());
            h -= 1;
        }
    }
    while h > 1 {
        t.push((*r.pick(&["+", "*"])).to_string());
        h -= 1;
    }
    t.join(" ")
}
pub fn build_rpn(p: &str) -> Expr {
    let mut st: Vec<Expr> = Vec::new();
    for t in p.split(' ').filter(|t| !t.is_empty()) {
        let e = match t {
            "+" | "*" | "-" | "/" => {
                let b = st.pop().unwrap_or_else(|| Expr::number(1.0));
                let a = st.pop().unwrap_or_else(|| Expr::number(1.0));
                match t {
                    "+" => a + b,
                    "*" => a * b,
                    "-" => a - b,
                    _ => a / b,
                }
            }
            "sin" | "cos" | "exp" | "sqrt" | "ln" => {
                let a = st.pop().unwrap_or_else(|| Expr::number(1.0));
                Expr::func(t, a)
            }
            "neg" => -st.pop().unwrap_or_else(|| Expr::number(1.0)),
            "sq" => st.pop().unwrap_or_else(|| Expr::number(1.0)).pow(2.0),
            _ => t.parse::<f64>().map_or_else(|_| symb(t).to_expr(), Expr::number),
        };
        st.push(e);
    }
    st.pop().unwrap_or_else(|| Expr::number(0.0))
}

mod expr_custom {
    pub type Map = std::collections::HashMap<String, std::sync::Arc<dyn Fn(&[f64]) -> Option<f64> + Send + Sync>>;
}
fn er2(r: Result<Expr, DiffError>) -> Expr {
    r.unwrap_or_else(|_| Expr::number(1.0))
}
pub fn known() -> HashSet<String> {
    KNOWN.iter().chain(&["k_b", "e1", "f1", "epsilon", "omega_k"]).map(|s| (*s).to_string()).collect()
}
pub fn known_v() -> Vec<&'static str> {
    let mut v = KNOWN.to_vec();
    v.extend(["k_b", "e1", "f1", "epsilon"]);
    v
}
pub fn p(f: &str) -> Result<Expr, DiffError> {
    parse(f, &known(), &HashSet::new(), None)
}
pub fn bits(v: &[f64]) -> String {
    let mut s = String::new();
    for x in v {
        if x.is_nan() {
            s.push_str("nan ");
        } else {
            let _ = write!(s, "{:x} ", x.to_bits());
        }
    }
    s
}
pub fn vars_sorted(e: &Expr) -> Vec<String> {
    let mut v: Vec<String> = e.variables().into_iter().filter(|v| v != "pi" && v != "e").collect();
    v.sort();
    v
}
fn er<T>(r: Result<T, DiffError>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(e) => format!("error {e}"),
    }
}
/// Input column `k` of `n` points: ordinary values, zeros, signs, extremes.
pub fn column(seed: u64, k: usize, n: usize) -> Vec<f64> {
    let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(k as u64 * 7919));
    (0..n)
        .map(|_| match r.n(24) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => -1.0,
            4 => 1e300,
            5 => -1e-300,
            6 => f64::NAN,
            7 => f64::INFINITY,
            8 => 2.0,
            9..=14 => r.f() * 20.0 - 10.0,
            _ => r.f() * 3.0,
        })
        .collect()
}
pub fn scale(n: f64) -> UserFunction {
    UserFunction::new(1..=1).body(move |a| Expr::number(n) * (*a[0]).clone().pow(2.0) + (*a[0]).clone()).partial(0, move |a| Expr::number(2.0 * n) * (*a[0]).clone() + Expr::number(1.0)).expect("valid")
}
pub fn two_arg() -> UserFunction {
    UserFunction::new(2..=2)
        .body(|a| (*a[0]).clone() * (*a[1]).clone() + (*a[0]).clone())
        .partial(0, |a| (*a[1]).clone() + Expr::number(1.0))
        .expect("valid")
        .partial(1, |a| (*a[0]).clone())
        .expect("valid")
}

/// All kinds of calls that `exec` knows and that take one formula.
pub const KINDS: [&str; 45] = [
    "setting", "setting",
    "undiff", "dsum", "dnot", "perm", "evcust", "mapfold", "symops", "ef64p", "view", "big", "sumprod", "gradsym", "cov3", "opts", "ufnum", "idval",
    "parse", "diff", "diffraw", "simp", "simpds", "grad", "hess", "jac", "eval", "comp", "batch", "pbatch", "ef64", "epar", "unc", "relunc", "unccov", "ctxdiff", "ufn", "ufn2", "subst", "nth", "eqhash", "latex", "limits", "visit", "symexpr",
];
pub fn gen_op(r: &mut Rng, depth: usize, vars: &[&str], kinds: &[&str]) -> String {
    let k = *r.pick(kinds);
    let v = *r.pick(vars);
    match k {
        "rpn" | "rpnsimp" => format!("{k} {v} | {}", rpn(r, 12, vars)),
        "undiff" | "dsum" | "dnot" | "sumprod" | "symops" | "big" => format!("{k} {v} {} | {}", r.n(1_000_000), formula(r, depth.min(2), vars)),
        "setting" => format!("setting {v} {} | {}", r.n(1_000_000), if r.chance(2, 3) { setting_formula(r, &[v, v, *vars.last().unwrap_or(&v)]) } else { any_formula(r, depth, vars) }),
        "gradsym" => format!("{k} {v} | {}", formula(r, depth.min(2), vars)),
        "ufnum" => format!("{k} {v} {} | {}", r.n(1_000_000), formula(r, 1, vars)),
        "jac" | "epar" | "ef64" | "eqhash" => format!("{k} {v} | {} ;; {}", formula(r, depth.min(2), vars), any_formula(r, depth, vars)),
        "hess" => format!("{k} {v} | {}", formula(r, depth.min(2), vars)),
        "badparse" => format!("{k} {v} | {}", r.pick(&["x +", "sin(", "((x)", "2 ** ", "f(x,,y)", "@", "x^^2", "1.2.3", ")x(", ""])),
        _ => format!("{k} {v} | {}", any_formula(r, depth, vars)),
    }
}

pub fn show_all(e: &Expr) -> String {
    format!("{e} # {} # {} # {} {}", e.to_latex(), e.to_unicode(), e.node_count(), e.max_depth())
}

/// A formula too large for the evaluators' inline stack (48 scalars, 64 vectors), inline cache (32
/// slots) and local operand buffer (64), in the shape `seed` picks.
pub fn big_formula(seed: u64, vars: &[&str]) -> String {
    let mut r = Rng::new(seed);
    let mut fs = vec!["sin", "cos", "atan", "exp", "tanh", "sqrt", "abs", "erf"];
    r.shuffle(&mut fs);
    let v = |r: &mut Rng| *r.pick(vars);
    match r.n(4) {
        0 => {
            // operands that wait for a deeply nested one
            let n = r.range(40, 90);
            let mut s = v(&mut r).to_string();
            for i in 0..n {
                let f = *r.pick(&["sin", "cos", "atan", "tanh", "erf"]);
                s = format!("{f}({}{}{s})", v(&mut r), if i % 3 == 2 { "/" } else { " - " });
            }
            s
        }
        1 => {
            // many common subexpressions, each used up at once or all of them kept for later
            let n = if r.chance(1, 4) { r.range(3, 33) } else { r.range(34, 44) };
            if r.chance(2, 3) {
                let t: Vec<String> = (0..n).map(|i| format!("{}({} + {})", fs[i % 3], v(&mut r), i + 1)).collect();
                let again: Vec<String> = t.iter().enumerate().map(|(i, s)| format!("{s}/{}", i + 2)).collect();
                return format!("atan({})*({}) + {}", t.join(" + "), again.join(if r.chance(1, 2) { " + " } else { " - " }), t[n / 2]);
            }
            (0..n)
                .map(|i| {
                    let f = fs[i % 3];
                    let x = v(&mut r);
                    let s = format!("{f}({x} + {})", i + 1);
                    format!("{s}*cos({s})")
                })
                .collect::<Vec<_>>()
                .join(if r.chance(1, 2) { " + " } else { " - " })
        }
        2 => {
            // one function of many operands
            let n = r.range(50, 80);
            let t: Vec<String> = (0..n).map(|i| format!("{}({}*{})", fs[i % 4], v(&mut r), i + 2)).collect();
            format!("exp(-abs({}))", t.join("*"))
        }
        _ => {
            let n = r.range(50, 75);
            let mut s = format!("{}({})", fs[0], v(&mut r));
            for i in 0..n {
                s = format!("({} + {}*{s})", v(&mut r), if i % 2 == 0 { "0.5" } else { "atan(x)" });
            }
            s
        }
    }
}
/// Derivatives of unknown functions, in random order, as terms and factors.
fn unknown_terms(seed: u64, names: &[&str]) -> Vec<Expr> {
    let mut r = Rng::new(seed);
    let mut args: Vec<&str> = names.to_vec();
    r.shuffle(&mut args);
    args.truncate(r.range(1, 3));
    let n = r.range(2, 5);
    (0..n)
        .map(|_| {
            let f = *r.pick(&["fu", "hu"]);
            let inner = Expr::func_multi(f, args.iter().map(|a| symb(a).to_expr()).collect());
            let var = *r.pick(&args);
            let d = Expr::derivative(inner, var, r.range(1, 3) as u32);
            if r.chance(1, 3) { Expr::number(r.range(2, 4) as f64) * d } else { d }
        })
        .collect()
}
fn view_text(e: &Expr, depth: usize) -> String {
    use visitor::ExprView as V;
    if depth == 0 {
        return "..".into();
    }
    let many = |v: &[Arc<Expr>]| v.iter().map(|e| view_text(e, depth - 1)).collect::<Vec<_>>().join(", ");
    match e.view() {
        V::Number(n) => format!("{n}"),
        V::Symbol(s) => s.into_owned(),
        V::Function { name, args } => format!("{name}[{}]", many(args)),
        V::Sum(t) => format!("S[{}]", many(&t)),
        V::Product(t) => format!("P[{}]", many(&t)),
        V::Div(a, b) => format!("D[{} {}]", view_text(a, depth - 1), view_text(b, depth - 1)),
        V::Pow(a, b) => format!("W[{} {}]", view_text(a, depth - 1), view_text(b, depth - 1)),
        V::Derivative { inner, var, order } => format!("d{order}/d{var}[{}]", view_text(inner, depth - 1)),
    }
}
fn join(v: &[Expr]) -> String {
    v.iter().map(ToString::to_string).collect::<Vec<_>>().join(" ; ")
}

/// Executes one call; the digest is everything a user can observe of its result.
pub fn exec(line: &str) -> String {
    let (head, f) = line.split_once(" | ").unwrap_or((line, ""));
    let mut h = head.split(' ');
    let kind = h.next().unwrap_or("");
    let v = h.next().unwrap_or("x");
    let seed: u64 = h.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let (f, g) = f.split_once(" ;; ").unwrap_or((f, "x"));
    let kv = known_v();
    match kind {
        "parse" | "badparse" => er(p(f), |e| format!("{} {:?}", show_all(&e), vars_sorted(&e))),
        "diff" => er(diff(f, v, &kv.iter().copied().filter(|k| *k != v).collect::<Vec<_>>(), None), |s| s),
        "diffraw" => er(p(f), |e| show_all(&e.derive(v, None))),
        "nth" => er(p(f), |e| {
            let d = e.derive(v, None);
            er(d.simplified(), |d| er(d.diff(v), |d2| d2.to_string()))
        }),
        "simp" => er(simplify(f, &kv, None), |s| s),
        "simpds" => er(p(f), |e| er(Simplify::new().domain_safe(true).simplify(&e), |e| show_all(&e))),
        "limits" => er(p(f), |e| {
            let n = e.node_count();
            let mut o = String::new();
            for m in [1, n - 1, n] {
                let _ = write!(o, "{} ", er(Diff::new().max_nodes(m).differentiate(&e, &symb(v)), |x| x.to_string()));
            }
            o + &er(Diff::new().fixed_var(&v).diff_str(f, v, &kv), |x| x)
        }),
        "grad" => er(p(f), |e| {
            let vs = vars_sorted(&e);
            let sy: Vec<Symbol> = vs.iter().map(|s| symb(s)).collect();
            let rf: Vec<&Symbol> = sy.iter().collect();
            er(gradient(&e, &rf), |g| g.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" ; "))
        }),
        "hess" => er(hessian_str(f, &["x", "y"]), |m| format!("{m:?}")),
        "jac" => er(jacobian_str(&[f, g], &["x", "z"]), |m| format!("{m:?}")),
        "eval" => er(evaluate_str(f, &[("x", 1.5), ("y", -0.75)]), |s| s),
        "comp" => er(p(f), |e| {
            er(e.compile(), |c| {
                let n = c.param_count();
                let vals: Vec<f64> = (0..5)
                    .map(|i| {
                        let cols: Vec<f64> = (0..n).map(|k| column(i, k, 1)[0]).collect();
                        c.evaluate(&cols)
                    })
                    .collect();
                let fixed: Vec<f64> = (0..n).map(|k| 0.3 + k as f64 * 0.41).collect();
                format!("{:?} {} {} {:x}", c.param_names(), bits(&vals), c.instruction_count(), c.evaluate(&fixed).to_bits() & if c.evaluate(&fixed).is_nan() { 0 } else { u64::MAX })
            })
        }),
        "batch" | "pbatch" => er(p(f), |e| {
            er(e.compile(), |c| {
                let n = if kind == "batch" { 11 } else { 300 };
                let cols: Vec<Vec<f64>> = (0..c.param_count()).map(|k| column(5, k, n)).collect();
                let refs: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                if kind == "batch" {
                    let mut out = vec![0.0; n];
                    er(c.eval_batch(&refs, &mut out, None), |()| bits(&out))
                } else {
                    er(c.eval_batch_parallel(&refs), |o| bits(&o))
                }
            })
        }),
        "ef64" => match (p(f), p(g)) {
            (Ok(a), Ok(b)) => {
                let es = [&a, &b];
                let names: Vec<Vec<String>> = es.iter().map(|e| vars_sorted(e)).collect();
                let ns: Vec<&[String]> = names.iter().map(Vec::as_slice).collect();
                let cols: Vec<Vec<Vec<f64>>> = names.iter().map(|n| (0..n.len()).map(|k| column(9, k, 270)).collect()).collect();
                let c1: Vec<Vec<&[f64]>> = cols.iter().map(|c| c.iter().map(Vec::as_slice).collect()).collect();
                let c2: Vec<&[&[f64]]> = c1.iter().map(Vec::as_slice).collect();
                match eval_f64(&es, &ns, &c2) {
                    Ok(o) => o.iter().map(|x| bits(x)).collect::<Vec<_>>().join(" / "),
                    Err(_) => "error".into(),
                }
            }
            _ => "parse error".into(),
        },
        "epar" => match (p(f), p(g)) {
            (Ok(a), Ok(b)) => {
                let na = vars_sorted(&a);
                let nb = vars_sorted(&b);
                let val = |k: usize, i: usize| match (k * 7 + i * 3) % 9 {
                    0 => SKIP,
                    1 => Value::Expr(symb("q_sub").to_expr() + Expr::number(1.0)),
                    j => Value::Num(0.25 * j as f64),
                };
                let va: Vec<Vec<Value>> = (0..na.len()).map(|k| (0..6).map(|i| val(k, i)).collect()).collect();
                let vb: Vec<Vec<Value>> = (0..nb.len()).map(|k| (0..4).map(|i| Value::Num(0.3 * (k + i) as f64)).collect()).collect();
                let names = vec![na.iter().map(|s| VarInput::from(s.as_str())).collect(), nb.iter().map(|s| VarInput::from(s.as_str())).collect()];
                er(evaluate_parallel(vec![ExprInput::Parsed(a), ExprInput::Parsed(b)], names, vec![va, vb]), |r| {
                    r.iter()
                        .map(|row| {
                            row.iter()
                                .map(|x| match x {
                                    EvalResult::Expr(e) => format!("E {e}"),
                                    EvalResult::String(s) => format!("S {s}"),
                                })
                                .collect::<Vec<_>>()
                                .join(", ")
                        })
                        .collect::<Vec<_>>()
                        .join(" / ")
                })
            }
            _ => "parse error".into(),
        },
        "unc" | "relunc" | "unccov" => er(p(f), |e| {
            let vs = vars_sorted(&e);
            let rf: Vec<&str> = vs.iter().take(2).map(String::as_str).collect();
            match kind {
                "unc" => er(uncertainty_propagation(&e, &rf, None), |e| e.to_string()),
                "relunc" => er(relative_uncertainty(&e, &rf, None), |e| e.to_string()),
                _ => {
                    let n = rf.len();
                    let m: Vec<Vec<CovEntry>> = (0..n).map(|i| (0..n).map(|j| if i == j { CovEntry::Num(0.5 + i as f64) } else { CovEntry::Symbolic(Expr::symbol("cov_xy")) }).collect()).collect();
                    er(CovarianceMatrix::new(m), |m| er(uncertainty_propagation(&e, &rf, Some(&m)), |e| e.to_string()))
                }
            }
        }),
        "ctxdiff" => {
            let ctx = Context::new().with_symbols(known_v());
            er(Diff::new().with_context(&ctx).diff_str(f, v, &[]), |s| format!("{s} {}", er(Simplify::new().with_context(&ctx).simplify_str(f, &[]), |s| s)))
        }
        "ufn" => {
            let fs = format!("w_fn({f}) + w_fn({v})*{v}");
            let ctx = Context::new().with_symbols(known_v()).with_function("w_fn", scale(1.5));
            let a = er(Diff::new().user_fn("w_fn", scale(2.5)).diff_str(&fs, v, &kv.iter().copied().filter(|k| *k != v).collect::<Vec<_>>()), |s| s);
            let b = er(parse(&fs, &known(), &HashSet::new(), Some(&ctx)), |e| er(CompiledEvaluator::compile_auto(&e, Some(&ctx)), |c| bits(&[c.evaluate(&vec![0.7; c.param_count()])])));
            format!("{a} # {b}")
        }
        "ufn2" => {
            let fs = format!("g_two({v}, {f})");
            let ctx = Context::new().with_symbols(known_v()).with_function("g_two", two_arg());
            er(Diff::new().with_context(&ctx).diff_str(&fs, v, &[]), |s| s)
        }
        "subst" => er(p(f), |e| {
            let r = Expr::symbol("q_sub").pow(2.0) + Expr::number(1.0);
            show_all(&e.substitute(v, &r))
        }),
        "eqhash" => match (p(f), p(g)) {
            (Ok(a), Ok(b)) => {
                let s1 = a.clone() + b.clone();
                let s2 = b.clone() + a.clone();
                let m1 = a.clone() * b.clone();
                let m2 = b.clone() * a.clone();
                let mut set = HashSet::new();
                set.insert(s1.clone());
                format!("{} {} {} {} {}", s1 == s2, m1 == m2, set.contains(&s2), set.contains(&a), er(Simplify::new().simplify(&(s1 - s2)), |e| e.to_string()))
            }
            _ => "parse error".into(),
        },
        "latex" => er(p(f), |e| {
            let s = er(e.simplified(), |e| show_all(&e));
            format!("{s} {:?}", e.contains_var(v))
        }),
        "visit" => er(p(f), |e| {
            let mut c = visitor::NodeCounter::default();
            visitor::walk_expr(&e, &mut c);
            let mut vc = visitor::VariableCollector::default();
            visitor::walk_expr(&e, &mut vc);
            let mut n: Vec<String> = vc.variable_names().into_iter().collect();
            n.sort();
            let d = e.deep_clone();
            format!("{} {n:?} {} {}", e.fold(0usize, |a, _| a + 1), d == e, d)
        }),
        "symexpr" => er(p(f), |e| {
            let x = symb(v);
            let h = Arc::new(e.clone());
            let s = x.pow(2.0) * h.as_ref().clone() + x.sin() - x;
            let mut m: HashMap<u64, f64> = HashMap::new();
            m.insert(x.id(), 0.5);
            format!("{s} # {}", s.evaluate(&m, &HashMap::new()))
        }),
        "undiff" => {
            let mut r = Rng::new(seed);
            let fns: HashSet<String> = ["fu", "hu"].iter().map(|s| (*s).to_string()).collect();
            let (a, b) = (*r.pick(&VARS), *r.pick(&VARS));
            let t = match r.n(4) {
                0 => format!("fu({f}, {a}) + hu({v})*{b}"),
                1 => format!("fu({a}, {b})*hu({b}, {f})"),
                2 => format!("fu({v})^2 + fu({f}) + hu({a}, {v}, {b})"),
                _ => format!("({f})*fu({a}, {v})/(1 + hu({b}))"),
            };
            er(parse(&t, &known(), &fns, None), |e| {
                let mut o = String::new();
                for x in [v, a, b] {
                    let d = e.derive(x, None);
                    let _ = write!(o, "{} # {} # ", show_all(&d), er(Diff::new().differentiate(&e, &symb(x)), |d| show_all(&d)));
                    let d2 = d.derive(b, None);
                    let _ = write!(o, "{} | ", er(d2.simplified(), |d| d.to_string()));
                }
                o
            })
        }
        "dsum" => {
            let names: Vec<&str> = VARS.to_vec();
            let mut t = unknown_terms(seed, &names);
            let mut r = Rng::new(seed ^ 0xabc);
            let s1 = Expr::sum(t.clone());
            let p1 = Expr::product(t.clone());
            r.shuffle(&mut t);
            let s2 = Expr::sum(t.clone());
            let p2 = Expr::product(t.clone());
            let mut set = HashSet::new();
            set.insert(s1.clone());
            let (se, pe) = (s1 == s2, p1 == p2);
            let extra = er(p(f), |e| er((s1.clone() * e + p1.clone()).simplified(), |e| show_all(&e)));
            format!("{s1} # {p1} # {s2} {p2} {se} {pe} {} # {} # {} # {extra}", set.contains(&s2), er(s1.simplified(), |e| show_all(&e)), er((s1.clone() - s2.clone()).simplified(), |e| e.to_string()))
        }
        "dnot" => {
            let mut r = Rng::new(seed);
            let (a, b) = (*r.pick(&["x", "y", "z"]), *r.pick(&["x", "y", "t1"]));
            let fns: HashSet<String> = ["f", "g"].iter().map(|s| (*s).to_string()).collect();
            let o = r.range(1, 3);
            let t = match r.n(3) {
                0 => format!("∂^{o}_f({a}, {b})/∂_{a}^{o} + {b}"),
                1 => format!("{a}*∂_g({b})/∂_{b} + f({a})"),
                _ => format!("sin(∂_f({a}*{b})/∂_{a}) + ∂_g({a})/∂_{b}"),
            };
            er(parse(&t, &known(), &fns, None), |e| format!("{} # {} # {}", show_all(&e), er(e.simplified(), |e| e.to_string()), er(Diff::new().differentiate(&e, &symb(a)), |e| e.to_string())))
        }
        "perm" => er(p(f), |e| {
            let mut vs = vars_sorted(&e);
            let mut o = String::new();
            for k in 0..3 {
                if k == 1 {
                    vs.reverse();
                } else if k == 2 {
                    let n = usize::from(vs.len() > 1);
                    vs.rotate_left(n);
                }
                let by_symbol: Vec<Symbol> = vs.iter().map(|s| symb(s)).collect();
                let rf: Vec<&str> = vs.iter().map(String::as_str).collect();
                let c = if k == 2 { e.compile_with_params(&by_symbol) } else { e.compile_with_params(&rf) };
                let _ = write!(
                    o,
                    "{} | ",
                    er(c, |c| {
                        let x: Vec<f64> = vs.iter().map(|n| 0.4 + 0.13 * f64::from(n.as_bytes()[0] % 11)).collect();
                        let cols: Vec<Vec<f64>> = x.iter().map(|y| (0..6).map(|i| y + f64::from(i) * 0.25).collect()).collect();
                        let cr: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                        let mut out = vec![0.0; 6];
                        let b = er(c.eval_batch(&cr, &mut out, None), |()| bits(&out));
                        format!("{:?} {} {b}", c.param_names(), bits(&[c.evaluate(&x)]))
                    })
                );
            }
            o
        }),
        "evcust" => {
            let fns: HashSet<String> = ["fu", "hu"].iter().map(|s| (*s).to_string()).collect();
            er(parse(&format!("fu({f}) + hu({v}, 2)*{v}"), &known(), &fns, None), |e| {
                let mut m: expr_custom::Map = HashMap::new();
                m.insert("fu".into(), Arc::new(|a| Some(a.iter().sum::<f64>() + 1.0)));
                m.insert("hu".into(), Arc::new(|a| if a[0] > 0.5 { Some(a[0] * a[1]) } else { None }));
                let vs = vars_sorted(&e);
                let mut o = String::new();
                for k in 0..3 {
                    let vals: HashMap<&str, f64> = vs.iter().enumerate().take(vs.len() + 1 - k.min(vs.len())).map(|(i, n)| (n.as_str(), 0.25 * (i + k) as f64)).collect();
                    let _ = write!(o, "{} | ", e.evaluate(&vals, &m));
                }
                o
            })
        }
        "mapfold" => er(p(f), |e| {
            let m = e.map(|x| x.as_number().map_or_else(|| x.clone(), |n| Expr::number(n + 1.0)));
            let texts = e.fold(String::new(), |mut a, x| {
                let _ = write!(a, "{} ", x.node_count());
                a
            });
            format!("{m} # {texts} # {} # {}", m == e, er(m.simplified(), |m| m.to_string()))
        }),
        "symops" => {
            let mut r = Rng::new(seed);
            let (x, y) = (symb(v), symb(*r.pick(&VARS)));
            let n = r.range(1, 3) as f64;
            let e = match r.n(8) {
                0 => x.besselj(n) + y.bessely(n) * x.besseli(n) - y.besselk(n),
                1 => x.polygamma(n) / x.beta(y) + y.log(2.0),
                2 => x.atan2(y) + y.hermite(n) - x.zeta_deriv(n),
                3 => x.assoc_legendre(2.0, n.min(2.0)) + y.sin() * x.cos(),
                4 => x.spherical_harmonic(2.0, 1.0, y) + x.ynm(2.0, 1.0, y),
                5 => -x + y.pow(x) - 2.0 * x / y,
                6 => {
                    let a = Arc::new(x + y);
                    a.sin() * a.pow(2.0) + ArcExprExt::exp(&a) - &a
                }
                _ => x.sinh() + y.erf() + x.gamma() + y.sqrt() + x.cbrt() + y.abs() + x.floor(),
            };
            let z = er(p(f), |f| er((f * e.clone()).diff(v), |d| d.to_string()));
            format!("{} # {} # {z}", show_all(&e), er(e.simplified(), |e| show_all(&e)))
        }
        "ef64p" => er(p(f), |e| {
            // the same expression twice, with its variables the other way round
            let a = vars_sorted(&e);
            let mut b = a.clone();
            b.reverse();
            let n = 258;
            let cols: Vec<Vec<f64>> = (0..a.len()).map(|k| column(3, k, n)).collect();
            let c: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
            let names: [&[String]; 3] = [&a, &b, &a];
            match eval_f64(&[&e, &e, &e], &names, &[&c, &c, &c]) {
                Ok(o) => o.iter().map(|x| format!("{} ", crate::rng::hash_str(&bits(x)))).collect(),
                Err(_) => "error".into(),
            }
        }),
        "view" => er(p(f), |e| format!("{} # {}", view_text(&e, 9), er(e.simplified(), |e| view_text(&e, 9)))),
        "big" => {
            let bf = big_formula(seed, &[v, "x", "y"]);
            er(p(&bf), |e| {
                er(e.compile(), |c| {
                    let n = c.param_count();
                    let cols: Vec<Vec<f64>> = (0..n).map(|k| (0..9).map(|i| 0.3 + 0.17 * f64::from(i) + 0.31 * k as f64).collect()).collect();
                    let cr: Vec<&[f64]> = cols.iter().map(Vec::as_slice).collect();
                    let sc: Vec<f64> = (0..9).map(|i| c.evaluate(&cols.iter().map(|x| x[i]).collect::<Vec<_>>())).collect();
                    let mut out = vec![0.5; 9];
                    let b = er(c.eval_batch(&cr, &mut out, None), |()| bits(&out));
                    let pb = er(c.eval_batch_parallel(&cr), |o| bits(&o));
                    format!("{} {} {} # {b} # {pb} # {:x}", c.instruction_count(), c.param_names().join(" "), bits(&sc), crate::rng::hash_str(&e.to_string()))
                })
            })
        }
        "sumprod" => {
            let mut r = Rng::new(seed);
            let mut t: Vec<Expr> = f.split(" + ").filter_map(|x| p(x).ok()).collect();
            t.extend((0..r.range(2, 5)).filter_map(|_| p(&formula(&mut r, 1, &VARS)).ok()));
            let (s1, p1) = (Expr::sum(t.clone()), Expr::product(t.clone()));
            r.shuffle(&mut t);
            let (s2, p2) = (Expr::sum(t.clone()), Expr::product(t));
            format!("{} # {} # {s2} # {p2} # {} {}", show_all(&s1), show_all(&p1), s1 == s2, p1 == p2)
        }
        "gradsym" => er(p(f), |e| {
            let (x, y) = (symb(v), symb("y"));
            format!(
                "{} # {} # {:?}",
                er(hessian(&e, &[&x, &y]), |m| m.iter().map(|r| join(r)).collect::<Vec<_>>().join(" / ")),
                er(jacobian(&[e.clone(), e.clone() * x], &[&y, &x]), |m| m.iter().map(|r| join(r)).collect::<Vec<_>>().join(" / ")),
                gradient_str(f, &[v, "z"]).ok()
            )
        }),
        "cov3" => er(p(f), |e| {
            let mut vs = vars_sorted(&e);
            vs.truncate(3);
            let rf: Vec<&str> = vs.iter().map(String::as_str).collect();
            let n = rf.len();
            let m: Vec<Vec<CovEntry>> = (0..n)
                .map(|i| {
                    (0..n)
                        .map(|j| match (i.min(j), i.max(j)) {
                            (a, b) if a == b => CovEntry::Num(0.25 + a as f64),
                            (0, 1) => CovEntry::Num(0.0),
                            (a, b) => CovEntry::Symbolic(Expr::symbol(format!("c_{a}{b}"))),
                        })
                        .collect()
                })
                .collect();
            er(CovarianceMatrix::new(m), |m| format!("{} # {}", er(uncertainty_propagation(&e, &rf, Some(&m)), |e| e.to_string()), er(uncertainty_propagation(&e, &rf, Some(&CovarianceMatrix::diagonal_symbolic(&rf))), |e| e.to_string())))
        }),
        "opts" => {
            let y = *VARS.iter().find(|y| **y != v).unwrap_or(&"y");
            let a = er(Diff::new().domain_safe(true).fixed_vars(&[y]).max_depth(60).diff_str(f, v, &kv.iter().copied().filter(|k| *k != v).collect::<Vec<_>>()), |s| s);
            let b = er(Diff::new().skip_simplification(true).diff_str(f, v, &[]), |s| s);
            let c = er(Simplify::new().fixed_vars(&[y, v]).max_depth(40).max_nodes(500).simplify_str(f, &[]), |s| s);
            let d = er(Simplify::new().user_fn("w_fn", scale(1.0 + f.len() as f64)).simplify_str(&format!("w_fn({f}) + w_fn(2)"), &kv), |s| s);
            format!("{a} # {b} # {c} # {d}")
        }
        "ufnum" => {
            // a function of everyone's name and one's own definition, called with numbers
            let k = 1.0 + (seed % 5) as f64;
            let add = move |n: f64| UserFunction::new(1..=2).body(move |a| a.iter().fold(Expr::number(n), |s, x| s + (**x).clone()));
            let e = Expr::func("u_fn", Expr::number(2.0)) + Expr::call("u_fn", [Expr::number(2.0), Expr::number(3.0)]) * symb(v) + er2(p(f));
            let s = Simplify::new().user_fn("u_fn", add(k));
            let ctx = Context::new().with_function("u_fn", add(k * 10.0));
            let d = Diff::new().user_fn("u_fn", UserFunction::new(1..=2).body(move |a| (*a[0]).clone() * Expr::number(k)).partial(0, move |_| Expr::number(k)).expect("valid"));
            format!(
                "{} # {} # {} # {}",
                er(s.simplify(&e), |e| e.to_string()),
                er(Simplify::new().with_context(&ctx).simplify(&e), |e| e.to_string()),
                er(CompiledEvaluator::compile_auto(&e, Some(&ctx)), |c| bits(&[c.evaluate(&vec![1.25; c.param_count()])])),
                er(d.differentiate(&Expr::func("u_fn", e), &symb(v)), |e| e.to_string())
            )
        }
        "idval" => er(p(f), |e| {
            let vs = vars_sorted(&e);
            let m: HashMap<u64, f64> = vs.iter().enumerate().map(|(i, n)| (symb(n).id(), 0.5 + 0.25 * i as f64)).collect();
            let part: HashMap<u64, f64> = vs.iter().take(1).map(|n| (symb(n).id(), 0.75)).collect();
            let has: Vec<bool> = VARS.iter().map(|n| e.contains_var(n)).collect();
            format!("{} # {} # {has:?} {}", e.evaluate(&m, &HashMap::new()), e.evaluate(&part, &HashMap::new()), e.has_free_variables(&vs.iter().cloned().collect()))
        }),
        "setting" => {
            // a choice of settings, for a formula on which they matter
            let mut r = Rng::new(seed);
            let (mut s, mut d) = (Simplify::new(), Diff::new());
            if r.chance(1, 2) {
                let on = r.chance(2, 3);
                s = s.domain_safe(on);
                d = d.domain_safe(on);
            }
            if r.chance(1, 3) {
                let m = *r.pick(&[1, 2, 3, 5, 9, 40]);
                s = s.max_depth(m);
                d = d.max_depth(m);
            }
            if r.chance(1, 5) {
                let m = *r.pick(&[1, 4, 12, 200]);
                s = s.max_nodes(m);
                d = d.max_nodes(m);
            }
            if r.chance(1, 4) {
                d = d.skip_simplification(true);
            }
            if r.chance(1, 3) {
                let k = 1.0 + r.n(4) as f64;
                s = s.user_fn("w_fn", scale(k));
                d = d.user_fn("w_fn", scale(k));
            }
            if r.chance(1, 3) {
                let y = *VARS.iter().find(|y| **y != v).unwrap_or(&"y");
                s = s.fixed_var(&y);
                d = d.fixed_var(&y);
            }
            let kx: Vec<&str> = kv.iter().copied().filter(|k| *k != v).collect();
            let w: HashSet<String> = ["w_fn".to_string()].into();
            let e = parse(f, &known(), &w, None);
            let a = er(s.simplify_str(f, &kv), |x| x);
            let b = er(d.diff_str(f, v, &kx), |x| x);
            let (c, x) = match e {
                Ok(e) => (er(s.simplify(&e), |e| show_all(&e)), er(d.differentiate(&e, &symb(v)), |e| show_all(&e))),
                Err(x) => (x.to_string(), String::new()),
            };
            format!("{a} # {b} # {c} # {x}")
        }
        "rpn" => show_all(&build_rpn(f)),
        "rpnsimp" => {
            let e = build_rpn(f);
            format!("{} # {}", er(e.simplified(), |e| show_all(&e)), er(e.diff(v), |e| e.to_string()))
        }
        _ => format!("unknown call {kind}"),
    }
}
