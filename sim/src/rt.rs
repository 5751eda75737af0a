//! Interface to rt/simrt.c: the scheduler, fault injector, heap and race detector.
use std::alloc::{GlobalAlloc, Layout};

pub const MAXSCHED: usize = 1 << 17;
pub const MAXFAULT: usize = 4096;
pub const RESULT_CAP: usize = 1 << 20;
pub const FAULT_NAMES: [&str; 4] = ["spurious_wakeup", "wake_reordered", "thread_stall", "interrupted_wait"];

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SchedEnt {
    pub tid: u32,
    pub next: u32,
    pub step: u64,
    pub forced: u32,
    pub pad: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FaultEnt {
    pub tid: u32,
    pub kind: u32,
    pub step: u64,
    pub arg: u64,
}
#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub nsched: u32,
    pub nfault: u32,
    pub sched_overflow: u32,
    pub steps: u64,
    pub switches: u64,
    pub forced_switches: u64,
    pub mem_steps: u64,
    pub blocks: u64,
    pub threads: u64,
    pub allocs: u64,
    pub races_checked: u64,
    pub sched_hash: u64,
    pub fault_count: [u64; 8],
    pub result_len: u32,
    pub pad: u32,
    pub result: [u8; RESULT_CAP],
    pub sched: [SchedEnt; MAXSCHED],
    pub faults: [FaultEnt; MAXFAULT],
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct SimCfg {
    pub seed: u64,
    pub hash_seed: u64,
    pub alloc_seed: u64,
    pub mode: u32,
    pub gap: u32,
    pub depth: u32,
    pub mem_points: u32,
    pub race: u32,
    pub spurious: u32,
    pub stall: u32,
    pub stack_kb: u32,
    pub max_steps: u64,
    pub fair_after: u64,
}

unsafe extern "C" {
    fn sim_alloc(size: u64, align: u64) -> *mut u8;
    fn sim_free(p: *mut u8, size: u64, align: u64);
    pub fn sim_shared_new() -> *mut Shared;
    pub fn sim_shared_reset(s: *mut Shared);
    pub fn sim_begin(s: *mut Shared, c: *const SimCfg, sc: *const SchedEnt, nsc: u32, fl: *const FaultEnt, nf: u32);
    fn sim_end();
    fn sim_result(p: *const u8, n: u64);
    fn sim_live_blocks() -> u64;
    fn sim_live_bytes() -> u64;
    fn sim_unfinished() -> u32;
    fn sim_event() -> u64;
    fn sim_tid() -> u32;
    fn sim_nosched(on: i32);
    fn sim_step() -> u64;
    pub fn sim_exit(c: i32) -> !;
}
pub fn end() {
    unsafe { sim_end() }
}
pub fn result(b: &[u8]) {
    unsafe { sim_result(b.as_ptr(), b.len() as u64) }
}
pub fn live_blocks() -> u64 {
    unsafe { sim_live_blocks() }
}
pub fn live_bytes() -> u64 {
    unsafe { sim_live_bytes() }
}
/// Global event number: the real-time order of history events.
pub fn event() -> u64 {
    unsafe { sim_event() }
}
pub fn tid() -> u32 {
    unsafe { sim_tid() }
}
pub fn steps() -> u64 {
    unsafe { sim_step() }
}
pub fn unfinished() -> u32 {
    unsafe { sim_unfinished() }
}
/// Runs harness bookkeeping without scheduling points.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    unsafe { sim_nosched(1) };
    let r = f();
    unsafe { sim_nosched(0) };
    r
}

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { sim_alloc(l.size() as u64, l.align() as u64) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { sim_free(p, l.size() as u64, l.align() as u64) }
    }
}
#[global_allocator]
static A: Alloc = Alloc;
