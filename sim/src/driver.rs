//! Seeded search over schedules and faults: fork one fresh process per simulated run, compare with
//! the reference run of the same case, minimise what fails, write the replay file and the evidence.
use crate::rng::{Rng, hash_str, mix};
use crate::rt::{self, FaultEnt, SchedEnt, Shared, SimCfg};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(fd: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
}

/// What a scenario reports.
#[derive(Default)]
pub struct Out {
    pub text: String,
}
fn clean(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
impl Out {
    /// Observable result: must equal the one of the same label in the reference run.
    pub fn d(&mut self, label: &str, v: &str) {
        let _ = writeln!(self.text, "D\t{}\t{}", clean(label), clean(v));
    }
    pub fn v(&mut self, kind: &str, msg: &str) {
        let _ = writeln!(self.text, "V\t{}\t{}", clean(kind), clean(msg));
    }
    /// Something interesting was reached in this run.
    pub fn p(&mut self, name: &str) {
        let _ = writeln!(self.text, "P\t{name}");
    }
}

pub trait Scenario: Sync {
    fn name(&self) -> &'static str;
    /// Lines starting with '#' are parameters; the others are operations that may be deleted.
    fn generate(&self, r: &mut Rng) -> Vec<String>;
    /// Whether variant 0 (the reference) is run too and its D lines compared.
    fn reference(&self) -> bool {
        false
    }
    fn tune(&self, _r: &mut Rng, _lines: &[String], _c: &mut SimCfg) {}
    fn run(&self, lines: &[String], variant: u32, out: &mut Out);
    fn real(&self) -> &'static str;
    /// Whether a run counts as a non-trivial one.
    fn nontrivial(&self, run: &RunRes) -> bool {
        run.switches > 0 && run.threads > 1
    }
}

pub fn param<'a>(lines: &'a [String], key: &str) -> Option<&'a str> {
    lines.iter().find_map(|l| l.strip_prefix('#').and_then(|x| x.strip_prefix(key)).and_then(|x| x.strip_prefix(' ')))
}
pub fn param_n(lines: &[String], key: &str, default: usize) -> usize {
    param(lines, key).and_then(|x| x.trim().parse().ok()).unwrap_or(default)
}

#[derive(Clone, Debug)]
pub struct RunRes {
    pub status: u32,
    pub text: String,
    pub steps: u64,
    pub mem_steps: u64,
    pub switches: u64,
    pub blocks: u64,
    pub threads: u64,
    pub races_checked: u64,
    pub sched_hash: u64,
    pub faults: [u64; 8],
    pub overflow: bool,
    pub sched: Vec<SchedEnt>,
    pub flts: Vec<FaultEnt>,
    pub wall: f64,
}
impl RunRes {
    pub fn violations(&self) -> Vec<(String, String)> {
        self.text
            .lines()
            .filter_map(|l| {
                let mut p = l.splitn(3, '\t');
                if p.next() == Some("V") { Some((p.next().unwrap_or("").to_string(), p.next().unwrap_or("").to_string())) } else { None }
            })
            .collect()
    }
    fn d(&self) -> Vec<(&str, &str)> {
        self.text
            .lines()
            .filter_map(|l| {
                let mut p = l.splitn(3, '\t');
                if p.next() == Some("D") { Some((p.next().unwrap_or(""), p.next().unwrap_or(""))) } else { None }
            })
            .collect()
    }
}

/// Wall-clock seconds after which a run is given up. A reference run that takes longer than its
/// limit (a slow computation, no concurrency involved) is skipped.
const WALL_LIMIT: u32 = 120;
const REF_LIMIT: u32 = 4;

pub fn run_child(sh: *mut Shared, sc: &dyn Scenario, lines: &[String], variant: u32, cfg: &SimCfg, sched: &[SchedEnt], faults: &[FaultEnt]) -> RunRes {
    let t0 = Instant::now();
    unsafe { rt::sim_shared_reset(sh) };
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            alarm(if variant == 0 && sc.reference() { REF_LIMIT } else { WALL_LIMIT });
            let n = if variant == 0 && sc.reference() { 1 } else { param_n(lines, "rayon", 2) };
            std::env::set_var("RAYON_NUM_THREADS", n.to_string());
            rt::sim_begin(sh, cfg, sched.as_ptr(), sched.len() as u32, faults.as_ptr(), faults.len() as u32);
        }
        let mut out = Out::default();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc.run(lines, variant, &mut out)));
        rt::end();
        if let Err(p) = r {
            let m = panic_text(p.as_ref());
            out.v("panic", &format!("unexpected panic on the main thread: {m}"));
        }
        rt::result(out.text.as_bytes());
        unsafe { rt::sim_exit(0) };
    }
    let mut st = 0;
    unsafe { waitpid(pid, &raw mut st, 0) };
    let s = unsafe { &*sh };
    let mut text = String::from_utf8_lossy(&s.result[..s.result_len as usize]).into_owned();
    let mut status = s.status;
    if status < 2 {
        status = 3;
        let sig = st & 127;
        text = if sig == 14 && variant == 0 && sc.reference() {
            status = 4;
            String::new()
        } else if sig == 14 {
            format!("V\tno-progress\tno scheduling point for {WALL_LIMIT} s of wall time\n")
        } else {
            format!("V\tcrash\tprocess ended abnormally (wait status {st:#x})\n")
        };
    }
    RunRes {
        status,
        text,
        steps: s.steps,
        mem_steps: s.mem_steps,
        switches: s.switches,
        blocks: s.blocks,
        threads: s.threads,
        races_checked: s.races_checked,
        sched_hash: s.sched_hash,
        faults: s.fault_count,
        overflow: s.sched_overflow != 0,
        sched: s.sched[..s.nsched as usize].to_vec(),
        flts: s.faults[..s.nfault as usize].to_vec(),
        wall: t0.elapsed().as_secs_f64(),
    }
}
pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_else(|| "<non-text payload>".into())
}

/// One violation of one run: kind and text. None when the run is fine.
fn judge(run: &RunRes, reference: Option<&RunRes>) -> Option<(String, String)> {
    if let Some(v) = run.violations().into_iter().next() {
        return Some(v);
    }
    if run.status != 2 && run.status != 4 {
        return Some(("crash".into(), "run ended without a result".into()));
    }
    let r = reference?;
    let rd: BTreeMap<&str, &str> = r.d().into_iter().collect();
    let d = run.d();
    for (l, v) in &d {
        match rd.get(l) {
            None => return Some(("differs".into(), format!("{l}: result {v} has no counterpart in the reference run"))),
            Some(x) if x != v => return Some(("differs".into(), format!("{l}: got {v} but the reference run got {x}"))),
            _ => {}
        }
    }
    if d.len() != rd.len() {
        return Some(("differs".into(), format!("{} results but {} in the reference run", d.len(), rd.len())));
    }
    None
}

pub fn base_cfg() -> SimCfg {
    SimCfg { seed: 1, hash_seed: 0x1234_5678, alloc_seed: 0, mode: 0, gap: 1 << 30, depth: 0, mem_points: 0, race: 0, spurious: 0, stall: 0, stack_kb: 0, max_steps: 40_000_000, fair_after: 40_000_000 }
}
/// The reference run: no faults, no preemption beyond what blocking forces, fixed seeds.
/// Only wall time bounds it: how long a call takes by itself is not judged.
pub fn ref_cfg() -> SimCfg {
    SimCfg { max_steps: 1 << 40, fair_after: 1 << 40, ..base_cfg() }
}
pub fn rand_cfg(r: &mut Rng) -> SimCfg {
    let mut c = base_cfg();
    c.seed = r.u64();
    c.hash_seed = r.u64();
    c.alloc_seed = if r.chance(3, 4) { r.u64() | 1 } else { 0 };
    c.race = 1;
    match r.n(13) {
        11 | 12 => {
            // meetings: threads wait at chosen atomic operations for one another
            c.mode = 5;
            c.gap = r.range(6, 14) as u32;
            c.depth = r.range(0, 6) as u32 | (r.n(4) as u32) << 3 | (r.range(5, 13) as u32) << 8;
        }
        10 => {
            // lockstep: round-robin with a fixed burst per thread
            c.mode = 4;
            c.gap = r.range(1, 8) as u32;
        }
        0..=3 => {
            c.mode = 0;
            c.gap = *r.pick(&[2, 4, 10, 30, 100, 300, 1000]);
        }
        4..=6 => {
            c.mode = 1;
            c.gap = r.range(3, 14) as u32;
        }
        _ => {
            c.mode = 2;
            c.gap = r.range(4, 15) as u32;
            c.depth = r.range(0, 6) as u32;
        }
    }
    c.mem_points = u32::from(r.chance(1, 4));
    c.spurious = *r.pick(&[0, 0, 10, 100, 300]);
    c.stall = *r.pick(&[0, 0, 5, 50, 200]);
    c.max_steps = 4_000_000;
    c.fair_after = 600_000;
    c
}

pub struct Found {
    pub scenario: usize,
    pub index: u64,
    pub lines: Vec<String>,
    pub variant: u32,
    pub cfg: SimCfg,
    pub sched: Vec<SchedEnt>,
    pub faults: Vec<FaultEnt>,
    pub kind: String,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Plan {
    pub property: &'static str,
    /// scenario, runs in the quick tier, runs in the thorough tier
    pub scenarios: Vec<(&'static dyn Scenario, u64, u64)>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

fn stop_flag() -> *mut u32 {
    unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0).cast() }
}

/// Generates and executes run `i` of a scenario.
fn one_run(sh: *mut Shared, prop: &str, seed: u64, si: usize, sc: &dyn Scenario, i: u64) -> (Vec<String>, SimCfg, RunRes, Option<RunRes>, Option<(u32, String, String)>) {
    let mut r = Rng::new(mix(seed ^ hash_str(prop).rotate_left(17)) ^ mix(hash_str(sc.name()).wrapping_add(i.wrapping_mul(0x9E37_79B9))));
    let _ = si;
    let lines = sc.generate(&mut r);
    let mut cfg = rand_cfg(&mut r);
    sc.tune(&mut r, &lines, &mut cfg);
    let reference = if sc.reference() {
        let rr = run_child(sh, sc, &lines, 0, &ref_cfg(), &[], &[]);
        if let Some((k, m)) = judge(&rr, None) {
            return (lines, ref_cfg(), rr, None, Some((0, k, m)));
        }
        if rr.status == 4 {
            return (lines, ref_cfg(), rr, None, None);
        }
        // the bound on progress is in proportion to the work of the calls themselves
        cfg.max_steps = cfg.max_steps.max(30 * (rr.steps + if cfg.mem_points == 1 { rr.mem_steps } else { 0 }));
        Some(rr)
    } else {
        None
    };
    let run = run_child(sh, sc, &lines, 1, &cfg, &[], &[]);
    let v = judge(&run, reference.as_ref()).map(|(k, m)| (1, k, m));
    (lines, cfg, run, reference, v)
}

#[derive(Default)]
struct Stats {
    runs: u64,
    refs: u64,
    steps: u64,
    mem: u64,
    switches: u64,
    blocks: u64,
    threads: u64,
    races: u64,
    faults: [u64; 8],
    probes: BTreeMap<String, u64>,
    per_scenario: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    outcomes: BTreeSet<u64>,
    samples: Vec<String>,
    overflow: u64,
    skipped: u64,
    /// the largest share of its step budget that a run used, in thousandths
    budget: u64,
}

struct Deterministic {
    checked: u64,
}

pub struct Known {
    pub property: String,
    pub scenario: String,
    pub pattern: String,
    pub text: String,
}
/// known-findings.txt: `finding: property=<id> scenario=<name> match=<substring> :: <what fails>`
pub fn load_known(path: &Path) -> Vec<Known> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(x) = l.strip_prefix("finding: ") {
            let (h, t) = x.split_once(" :: ").unwrap_or((x, ""));
            let mut k = Known { property: String::new(), scenario: String::new(), pattern: String::new(), text: t.to_string() };
            if let Some((a, m)) = h.split_once(" match=") {
                k.pattern = m.to_string();
                for f in a.split(' ') {
                    if let Some(p) = f.strip_prefix("property=") {
                        k.property = p.into();
                    }
                    if let Some(p) = f.strip_prefix("scenario=") {
                        k.scenario = p.into();
                    }
                }
                v.push(k);
            }
        }
    }
    v
}

fn ser_found(f: &Found) -> String {
    let mut s = String::new();
    let c = &f.cfg;
    let _ = writeln!(s, "scenario {}\nindex {}\nvariant {}\nkind {}\nmsg {}", f.scenario, f.index, f.variant, f.kind, clean(&f.msg));
    let _ = writeln!(
        s,
        "cfg {} {} {} {} {} {} {} {} {} {} {} {} {}",
        c.seed, c.hash_seed, c.alloc_seed, c.mode, c.gap, c.depth, c.mem_points, c.race, c.spurious, c.stall, c.stack_kb, c.max_steps, c.fair_after
    );
    for l in &f.lines {
        let _ = writeln!(s, "case {l}");
    }
    for e in &f.sched {
        let _ = writeln!(s, "sched {} {} {} {}", e.tid, e.step, e.next, e.forced);
    }
    for e in &f.faults {
        let _ = writeln!(s, "fault {} {} {} {}", e.tid, e.kind, e.step, e.arg);
    }
    s
}
fn parse_found(t: &str) -> Found {
    let mut f = Found { scenario: 0, index: 0, lines: vec![], variant: 1, cfg: base_cfg(), sched: vec![], faults: vec![], kind: String::new(), msg: String::new() };
    for l in t.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        let n: Vec<u64> = v.split(' ').map_while(|x| x.parse().ok()).collect();
        match k {
            "scenario" => f.scenario = n.first().copied().unwrap_or(0) as usize,
            "index" => f.index = n[0],
            "variant" => f.variant = n[0] as u32,
            "kind" => f.kind = v.into(),
            "msg" => f.msg = v.into(),
            "cfg" => {
                f.cfg = SimCfg {
                    seed: n[0],
                    hash_seed: n[1],
                    alloc_seed: n[2],
                    mode: n[3] as u32,
                    gap: n[4] as u32,
                    depth: n[5] as u32,
                    mem_points: n[6] as u32,
                    race: n[7] as u32,
                    spurious: n[8] as u32,
                    stall: n[9] as u32,
                    stack_kb: n[10] as u32,
                    max_steps: n[11],
                    fair_after: n[12],
                }
            }
            "case" => f.lines.push(v.into()),
            "sched" => f.sched.push(SchedEnt { tid: n[0] as u32, step: n[1], next: n[2] as u32, forced: n[3] as u32, pad: 0 }),
            "fault" => f.faults.push(FaultEnt { tid: n[0] as u32, kind: n[1] as u32, step: n[2], arg: n[3] }),
            _ => {}
        }
    }
    f
}

fn worker(w: u64, nw: u64, plan: &Plan, seed: u64, tier: Tier, deadline: Instant, stop: *mut u32, known: &[Known], out: &mut dyn Write) {
    let sh = unsafe { rt::sim_shared_new() };
    let mut st = Stats::default();
    let mut known_hit: BTreeSet<usize> = BTreeSet::new();
    let mut found: Option<Found> = None;
    // The scenarios are interleaved, so that a run cut short by its deadline has seen all of them.
    let total: Vec<u64> = plan.scenarios.iter().map(|s| if tier == Tier::Quick { s.1 } else { s.2 }).collect();
    let max = total.iter().copied().max().unwrap_or(0).max(1);
    let rounds = 100u64.min(max);
    'all: for round in 0..rounds {
        for (si, (sc, _, _)) in plan.scenarios.iter().enumerate() {
            let lo = total[si] * round / rounds;
            let hi = total[si] * (round + 1) / rounds;
            for i in lo..hi {
                if i % nw != w {
                    continue;
                }
                if unsafe { stop.read_volatile() } != 0 || Instant::now() > deadline {
                    break 'all;
                }
                let (lines, cfg, run, reference, bad) = one_run(sh, plan.property, seed, si, *sc, i);
                if run.status == 4 {
                    st.skipped += 1;
                    continue;
                }
                st.runs += 1;
                st.refs += u64::from(reference.is_some());
                st.steps += run.steps;
                st.budget = st.budget.max(run.steps * 1000 / cfg.max_steps.max(1));
                st.mem += run.mem_steps;
                st.switches += run.switches;
                st.blocks += run.blocks;
                st.threads += run.threads;
                st.races += run.races_checked;
                st.overflow += u64::from(run.overflow);
                for k in 0..8 {
                    st.faults[k] += run.faults[k];
                }
                for l in run.text.lines() {
                    if let Some(p) = l.strip_prefix("P\t") {
                        *st.probes.entry(p.to_string()).or_default() += 1;
                    }
                }
                *st.per_scenario.entry(sc.name().to_string()).or_default() += 1;
                if sc.nontrivial(&run) {
                    st.hashes.insert(mix(run.sched_hash ^ hash_str(sc.name())) ^ hash_str(&lines.join("\n")));
                }
                st.outcomes.insert(hash_str(&run.text));
                if w == 0 && st.samples.len() < 4 && i < 200 {
                    st.samples.push(format!(
                        "{} run {i}: {} ops, {} threads, {} switches, {} steps, mode {} gap {}, faults {:?}: {}",
                        sc.name(),
                        lines.iter().filter(|l| !l.starts_with('#')).count(),
                        run.threads,
                        run.switches,
                        run.steps,
                        cfg.mode,
                        cfg.gap,
                        &run.faults[..4],
                        lines.iter().take(6).cloned().collect::<Vec<_>>().join(" | ")
                    ));
                }
                if let Some((variant, kind, msg)) = bad {
                    let full = format!("{kind}: {msg}");
                    if let Some(k) = known.iter().position(|k| k.property == plan.property && k.scenario == sc.name() && full.contains(&k.pattern)) {
                        known_hit.insert(k);
                        continue;
                    }
                    unsafe { stop.write_volatile(1) };
                    found = Some(Found { scenario: si, index: i, lines, variant, cfg, sched: run.sched, faults: run.flts, kind, msg });
                    break 'all;
                }
            }
        }
    }
    let mut s = String::new();
    let _ = writeln!(s, "n {} {} {} {} {} {} {} {} {} {} {}", st.runs, st.refs, st.steps, st.mem, st.switches, st.blocks, st.threads, st.races, st.overflow, st.skipped, st.budget);
    let _ = writeln!(s, "f {}", st.faults.iter().map(u64::to_string).collect::<Vec<_>>().join(" "));
    for (k, v) in &st.probes {
        let _ = writeln!(s, "p {v} {k}");
    }
    for (k, v) in &st.per_scenario {
        let _ = writeln!(s, "s {v} {k}");
    }
    for h in &st.hashes {
        let _ = writeln!(s, "h {h}");
    }
    for h in &st.outcomes {
        let _ = writeln!(s, "o {h}");
    }
    for x in &st.samples {
        let _ = writeln!(s, "x {}", clean(x));
    }
    for k in known_hit {
        let _ = writeln!(s, "k {k}");
    }
    if let Some(f) = found {
        s.push_str("FOUND\n");
        s.push_str(&ser_found(&f));
    }
    let _ = out.write_all(s.as_bytes());
}

fn find_again(sh: *mut Shared, sc: &dyn Scenario, f: &Found, lines: &[String], sched: &[SchedEnt], faults: &[FaultEnt]) -> Option<RunRes> {
    let mut c = f.cfg;
    c.mode = 3;
    let reference = if f.variant != 0 && sc.reference() { Some(run_child(sh, sc, lines, 0, &ref_cfg(), &[], &[])) } else { None };
    if let Some(r) = &reference {
        if r.status == 4 || judge(r, None).is_some() {
            return None;
        }
    }
    let run = run_child(sh, sc, lines, f.variant, &c, sched, faults);
    match judge(&run, reference.as_ref()) {
        Some((k, _)) if k == f.kind => Some(run),
        _ => None,
    }
}
/// Same case, other schedules: used when a shorter case no longer fits the recorded schedule.
fn find_fresh(sh: *mut Shared, sc: &dyn Scenario, f: &Found, lines: &[String], tries: u64, until: Instant) -> Option<(RunRes, u64)> {
    let reference = if f.variant != 0 && sc.reference() { Some(run_child(sh, sc, lines, 0, &ref_cfg(), &[], &[])) } else { None };
    if let Some(r) = &reference {
        if r.status == 4 || judge(r, None).is_some() {
            return None;
        }
    }
    for t in 0..tries {
        if Instant::now() > until {
            return None;
        }
        let mut c = f.cfg;
        c.seed = mix(f.cfg.seed.wrapping_add(t));
        let run = run_child(sh, sc, lines, f.variant, &c, &[], &[]);
        if let Some((k, _)) = judge(&run, reference.as_ref()) {
            if k == f.kind && !run.overflow {
                return Some((run, c.seed));
            }
        }
    }
    None
}

fn minimise(sh: *mut Shared, sc: &dyn Scenario, mut f: Found, limit: Duration) -> Found {
    let until = Instant::now() + limit;
    if find_again(sh, sc, &f, &f.lines, &f.sched, &f.faults).is_none() {
        return f; // replayed from its seed instead
    }
    // 1. operations
    let mut chunk = (f.lines.len() / 2).max(1);
    let mut changed = true;
    while (changed || chunk > 1) && Instant::now() < until {
        if !changed {
            chunk = (chunk / 2).max(1);
        }
        changed = false;
        let mut i = 0;
        while i < f.lines.len() && Instant::now() < until {
            let j = (i + chunk).min(f.lines.len());
            let cand: Vec<String> = f.lines.iter().enumerate().filter(|(k, l)| *k < i || *k >= j || l.starts_with('#')).map(|(_, l)| l.clone()).collect();
            if cand.len() == f.lines.len() {
                i = j;
                continue;
            }
            if let Some(_r) = find_again(sh, sc, &f, &cand, &f.sched, &f.faults) {
                f.lines = cand;
                changed = true;
            } else if let Some((r, seed)) = find_fresh(sh, sc, &f, &cand, if f.variant == 0 { 0 } else { 60 }, until) {
                f.lines = cand;
                f.sched = r.sched;
                f.faults = r.flts;
                f.cfg.seed = seed;
                changed = true;
            } else {
                i = j;
            }
        }
        if chunk == 1 && !changed {
            break;
        }
    }
    // 2. faults, 3. switches
    macro_rules! shrink {
        ($field:ident) => {{
            let mut chunk = f.$field.len().max(1);
            loop {
                let mut i = 0;
                while i < f.$field.len() && Instant::now() < until {
                    let keep = f.$field.clone();
                    let j = (i + chunk).min(keep.len());
                    f.$field.drain(i..j);
                    if find_again(sh, sc, &f, &f.lines, &f.sched, &f.faults).is_none() {
                        f.$field = keep;
                        i = j;
                    }
                }
                if chunk == 1 || Instant::now() >= until {
                    break;
                }
                chunk /= 2;
            }
        }};
    }
    shrink!(faults);
    shrink!(sched);
    f
}

fn write_replay(path: &Path, prop: &str, sc: &dyn Scenario, f: &Found, seed: u64, run: &RunRes) {
    let mut s = format!("symsim-replay 1\nproperty {prop}\nname {}\nsearch_seed {seed}\n", sc.name());
    s.push_str(&ser_found(f));
    let _ = writeln!(s, "expect_hash {:016x}", run.sched_hash);
    let _ = std::fs::write(path, s);
}

/// Executes a replay file; returns (reproduced exactly, report).
pub fn replay(path: &Path, plans: &[Plan]) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {e}", path.display());
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).and_then(|x| x.strip_prefix(' ')));
    let f = parse_found(&t);
    let Some(plan) = plans.iter().find(|p| Some(p.property) == get("property")) else {
        eprintln!("unknown property");
        return 2;
    };
    let Some((sc, _, _)) = plan.scenarios.iter().find(|s| Some(s.0.name()) == get("name")) else {
        eprintln!("unknown scenario");
        return 2;
    };
    let sh = unsafe { rt::sim_shared_new() };
    let mode3 = !f.sched.is_empty() || f.cfg.mode == 3;
    let mut c = f.cfg;
    if mode3 {
        c.mode = 3;
    }
    let reference = if f.variant != 0 && sc.reference() { Some(run_child(sh, *sc, &f.lines, 0, &ref_cfg(), &[], &[])) } else { None };
    let run = run_child(sh, *sc, &f.lines, f.variant, &c, &f.sched, &f.faults);
    for l in &f.lines {
        println!("  {l}");
    }
    println!("schedule: {} context switches recorded, {} faults; run: {} steps, {} switches, hash {:016x}", f.sched.len(), f.faults.len(), run.steps, run.switches, run.sched_hash);
    match judge(&run, reference.as_ref()) {
        Some((k, m)) => {
            println!("VIOLATION property={} replay={}\n  {k}: {}", plan.property, path.display(), symbolise(&m));
            let same = k == f.kind && clean(&m) == f.msg && get("expect_hash").is_none_or(|h| h == format!("{:016x}", run.sched_hash));
            println!("  {}", if same { "reproduced exactly" } else { "a violation, but not the recorded one" });
            1
        }
        None => {
            println!("no violation: property {} holds on this schedule", plan.property);
            0
        }
    }
}

pub fn symbolise(m: &str) -> String {
    let Some(p) = m.find("pc ") else { return m.to_string() };
    let pc: String = m[p + 3..].chars().take_while(char::is_ascii_hexdigit).collect();
    let exe = std::env::current_exe().unwrap_or_default();
    if let Ok(o) = std::process::Command::new("addr2line").args(["-f", "-C", "-i", "-e"]).arg(exe).arg(&pc).output() {
        let t = String::from_utf8_lossy(&o.stdout).replace('\n', " ");
        return format!("{m} [{}]", t.trim());
    }
    m.to_string()
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs the same seeds twice and demands identical runs: the simulator controls everything.
fn determinism(plan: &Plan, seed: u64, n: u64) -> Result<Deterministic, String> {
    let a = unsafe { rt::sim_shared_new() };
    let mut checked = 0;
    let mut first = Vec::new();
    for (si, (sc, _, _)) in plan.scenarios.iter().enumerate() {
        for i in 0..n {
            let (l1, _, r1, _, b) = one_run(a, plan.property, seed, si, *sc, i);
            if b.is_some() || r1.status == 4 {
                continue;
            }
            let (l2, c2, r2, _, _) = one_run(a, plan.property, seed, si, *sc, i);
            if r2.status == 4 {
                continue;
            }
            if l1 != l2 || r1.sched_hash != r2.sched_hash || r1.text != r2.text || r1.steps != r2.steps || r1.mem_steps != r2.mem_steps {
                return Err(format!("{} run {i} is not repeatable ({:x}/{:x}, {}/{} steps)", sc.name(), r1.sched_hash, r2.sched_hash, r1.steps, r2.steps));
            }
            if !r1.overflow {
                let mut c = c2;
                c.mode = 3;
                let r3 = run_child(a, *sc, &l1, 1, &c, &r1.sched, &r1.flts);
                if r3.sched_hash != r1.sched_hash || r3.text != r1.text {
                    return Err(format!("{} run {i}: replay of the recorded schedule diverges", sc.name()));
                }
            }
            checked += 1;
            first.push((si, *sc, i, r1.sched_hash, r1.steps, r1.text));
        }
    }
    // Once more, in another order and with this process's state changed by all the runs before.
    for (si, sc, i, hash, steps, text) in first.into_iter().rev() {
        let (_, _, r, _, _) = one_run(a, plan.property, seed, si, sc, i);
        if r.status == 4 {
            continue;
        }
        if r.sched_hash != hash || r.steps != steps || r.text != text {
            return Err(format!("{} run {i} depends on the runs before it", sc.name()));
        }
    }
    Ok(Deterministic { checked })
}

/// Executes the runs [lo, hi) of every scenario `n` times each and reports those that differ.
pub fn det_loop(plan: &Plan, seed: u64, lo: u64, hi: u64, n: u64) -> i32 {
    let a = unsafe { rt::sim_shared_new() };
    let mut bad = 0;
    for (si, (sc, _, _)) in plan.scenarios.iter().enumerate() {
        for i in lo..hi {
            let mut seen: BTreeMap<(u64, u64, u64, u64), u64> = BTreeMap::new();
            for _ in 0..n {
                let (_, _, r, _, _) = one_run(a, plan.property, seed, si, *sc, i);
                *seen.entry((r.sched_hash, r.steps, r.mem_steps, hash_str(&r.text))).or_default() += 1;
            }
            if seen.len() > 1 {
                bad += 1;
                println!("{} run {i}: {seen:x?}", sc.name());
            }
        }
    }
    println!("{bad} runs differ");
    i32::from(bad > 0)
}

pub struct Args {
    pub tier: Tier,
    pub seed: u64,
    pub workers: u64,
    pub secs: u64,
    pub root: PathBuf,
}

pub fn check(plan: &Plan, a: &Args) -> i32 {
    let t0 = Instant::now();
    let mut unrepeatable = false;
    let det = match determinism(plan, a.seed, if a.tier == Tier::Quick { 3 } else { 20 }) {
        Ok(d) => d,
        Err(e) => {
            // Search all the same: a violation is worth reporting even if its replay may vary.
            eprintln!("simulator not deterministic: {e}");
            unrepeatable = true;
            Deterministic { checked: 0 }
        }
    };
    let known = load_known(&a.root.join("known-findings.txt"));
    let stop = stop_flag();
    let deadline = t0 + Duration::from_secs(a.secs);
    let mut kids = Vec::new();
    for w in 0..a.workers {
        let mut fd = [0i32; 2];
        unsafe { pipe(fd.as_mut_ptr()) };
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { close(fd[0]) };
            let mut o = unsafe { std::fs::File::from_raw_fd(fd[1]) };
            worker(w, a.workers, plan, a.seed, a.tier, deadline, stop, &known, &mut o);
            drop(o);
            unsafe { rt::sim_exit(0) };
        }
        unsafe { close(fd[1]) };
        kids.push((pid, unsafe { std::fs::File::from_raw_fd(fd[0]) }));
    }
    let mut n = [0u64; 11];
    let mut faults = [0u64; 8];
    let (mut probes, mut per): (BTreeMap<String, u64>, BTreeMap<String, u64>) = Default::default();
    let (mut hashes, mut outcomes): (BTreeSet<u64>, BTreeSet<u64>) = Default::default();
    let mut samples = Vec::new();
    let mut known_hit = BTreeSet::new();
    let mut founds: Vec<Found> = Vec::new();
    for (pid, mut fd) in kids {
        let mut t = String::new();
        let _ = fd.read_to_string(&mut t);
        let mut st = 0;
        unsafe { waitpid(pid, &raw mut st, 0) };
        if st != 0 {
            eprintln!("worker failed with status {st:#x}");
            return 3;
        }
        let (head, tail) = t.split_once("FOUND\n").map_or((t.as_str(), None), |(a, b)| (a, Some(b)));
        for l in head.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "n" => v.split(' ').enumerate().for_each(|(i, x)| {
                    let x = x.parse::<u64>().unwrap_or(0);
                    n[i] = if i == 10 { n[i].max(x) } else { n[i] + x };
                }),
                "f" => v.split(' ').enumerate().for_each(|(i, x)| faults[i] += x.parse::<u64>().unwrap_or(0)),
                "p" | "s" => {
                    let (c, name) = v.split_once(' ').unwrap_or(("0", v));
                    *(if k == "p" { &mut probes } else { &mut per }).entry(name.to_string()).or_default() += c.parse::<u64>().unwrap_or(0);
                }
                "h" => {
                    hashes.insert(v.parse().unwrap_or(0));
                }
                "o" => {
                    outcomes.insert(v.parse().unwrap_or(0));
                }
                "x" => samples.push(v.to_string()),
                "k" => {
                    known_hit.insert(v.parse::<usize>().unwrap_or(0));
                }
                _ => {}
            }
        }
        if let Some(x) = tail {
            founds.push(parse_found(x));
        }
    }
    let search_wall = t0.elapsed().as_secs_f64();
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {}", plan.property, known[*k].text);
    }
    let mut code = 0;
    let nviol = founds.len();
    founds.sort_by_key(|f| (f.scenario, f.index));
    if let Some(f) = founds.into_iter().next() {
        code = 1;
        let sh = unsafe { rt::sim_shared_new() };
        let sc = plan.scenarios[f.scenario].0;
        let dir = a.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.replay", plan.property, sc.name(), f.index));
        let index = f.index;
        let mut m = minimise(sh, sc, f, Duration::from_secs(if a.tier == Tier::Quick { 45 } else { 240 }));
        // Execute what is about to be written, and record exactly what it shows.
        let exact = find_again(sh, sc, &m, &m.lines, &m.sched, &m.faults).is_some();
        let mut c = m.cfg;
        if exact {
            c.mode = 3;
            m.cfg.mode = 3;
        }
        let reference = if m.variant != 0 && sc.reference() { Some(run_child(sh, sc, &m.lines, 0, &ref_cfg(), &[], &[])) } else { None };
        if !exact {
            m.sched.clear();
            m.faults.clear();
        }
        let run = run_child(sh, sc, &m.lines, m.variant, &c, &m.sched, &m.faults);
        if let Some((k, msg)) = judge(&run, reference.as_ref()) {
            m.kind = k;
            m.msg = msg;
        }
        write_replay(&path, plan.property, sc, &m, a.seed, &run);
        println!("VIOLATION property={} replay={}", plan.property, path.display());
        println!("  {} run {index} (seed {}): {}: {}", sc.name(), a.seed, m.kind, symbolise(&m.msg));
        println!("  minimised to {} operations, {} recorded switches, {} faults", m.lines.iter().filter(|l| !l.starts_with('#')).count(), m.sched.len(), m.faults.len());
        for l in m.lines.iter().take(40) {
            println!("    {}", if l.len() > 300 { &l[..l.char_indices().nth(250).map_or(l.len(), |x| x.0)] } else { l });
        }
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let sim_s = n[2] as f64 * 1e-7;
    let mut e = String::new();
    let _ = write!(
        e,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"reference_runs\": {},\n  \"runs_per_hour\": {},\n  \"executions_per_hour\": {},\n  \"search_wall_s\": {:.1},\n  \"scheduling_steps\": {},\n  \"simulated_seconds\": {:.3},\n  \"memory_accesses_checked\": {},\n  \"race_checks\": {},\n  \"context_switches\": {},\n  \"blocking_waits\": {},\n  \"threads_simulated\": {},\n  \"runs_with_truncated_trace\": {},\n  \"skipped_slow_references\": {},\n  \"largest_share_of_step_budget\": {:.3},\n",
        jstr(plan.property),
        jstr(if a.tier == Tier::Quick { "quick" } else { "thorough" }),
        a.seed,
        n[0],
        hashes.len(),
        jstr(plan.rule),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        n[1],
        (n[0] as f64 / search_wall * 3600.0) as u64,
        ((n[0] + n[1]) as f64 / search_wall * 3600.0) as u64,
        search_wall,
        n[2],
        sim_s,
        n[3],
        n[7],
        n[4],
        n[5],
        n[6],
        n[8],
        n[9],
        n[10] as f64 / 1000.0
    );
    let _ = write!(
        e,
        "  \"faults_injected\": {{{}}},\n  \"runs_per_scenario\": {{{}}},\n  \"probes\": {{{}}},\n  \"distinct_measure\": \"hash of the case and of every context switch (who, at which step, to whom)\",\n  \"distinct_outcomes\": {},\n  \"determinism_self_check_runs\": {},\n  \"real_components\": [{}],\n  \"stub_components\": [\"futex wait/wake (simulated)\", \"thread scheduler (simulated; real OS threads, one runs at a time)\", \"clock, sleep, yield, getrandom (simulated)\", \"heap (simulated arena with use-after-free, double-free and bounds checks)\"]\n }},\n",
        rt::FAULT_NAMES.iter().enumerate().map(|(i, k)| format!("{}: {}", jstr(k), faults[i])).collect::<Vec<_>>().join(", "),
        per.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "),
        probes.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "),
        outcomes.len(),
        det.checked,
        plan.scenarios.iter().map(|s| jstr(s.0.real())).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(", ")
    );
    let _ = write!(
        e,
        " \"wall_s\": {:.1},\n \"violations\": {},\n \"known_findings_seen\": {},\n \"assumptions\": [{}]\n}}\n",
        wall,
        nviol,
        known_hit.len(),
        plan.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    );
    let dir = a.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", plan.property)), e);
    println!(
        "{} {}: {} runs ({} distinct interleavings), {} steps, {} switches, faults {:?}, {:.0} s",
        plan.property,
        if code != 0 { "VIOLATED" } else if unrepeatable { "UNDECIDED (runs not repeatable)" } else { "held" },
        n[0],
        hashes.len(),
        n[2],
        n[4],
        &faults[..4],
        wall
    );
    if code == 0 && unrepeatable { 3 } else { code }
}
