//! The simulated runtime: every source of nondeterminism goes through this file.
//!
//! * threads: real OS threads, but exactly one holds the baton at any time; who gets it next is decided here, at
//!   yield points (operation boundaries, allocations made by the code under test, log records, system calls,
//!   user callbacks, lock acquisitions);
//! * memory: allocations made by the code under test come from a private, fixed-address, deterministic heap whose
//!   layout and junk contents are a function of the run's heap seed; they can be made to fail;
//! * clock, entropy, futexes, sleeping and file output: libc symbols are interposed by this executable.
use crate::rng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAXT: usize = 12;

thread_local! {
    /// simulated thread id, -1 outside the simulation
    static TID: Cell<i32> = const { Cell::new(-1) };
    /// executing code under test
    static SUT: Cell<bool> = const { Cell::new(false) };
    /// yield points and faults disabled (reference executions)
    static QUIET: Cell<bool> = const { Cell::new(false) };
    /// entropy stream of this thread
    static ENT: Cell<u64> = const { Cell::new(0) };
}

// ------------------------------------------------------------------------------------------------ raw system calls
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _, options(nostack));
    r
}
pub fn futex_wait(w: &AtomicU32, v: u32) {
    unsafe { sys6(libc::SYS_futex, w as *const _ as i64, (libc::FUTEX_WAIT) as i64, v as i64, 0, 0, 0); }
}
pub fn futex_wake(w: &AtomicU32) {
    unsafe { sys6(libc::SYS_futex, w as *const _ as i64, (libc::FUTEX_WAKE) as i64, i32::MAX as i64, 0, 0, 0); }
}
pub fn raw_write(fd: i32, b: &[u8]) -> i64 { unsafe { sys6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) } }
pub fn exit_now(code: i32) -> ! { unsafe { sys6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0); } loop {} }

// ------------------------------------------------------------------------------------------------ heap of the code under test
const HEAP_BASE: usize = 0x3000_0000_0000;
const HEAP_SIZE: usize = 8 << 30;
struct Heap { next: usize, end: usize, free: [usize; 96], seed: u64, count: u64, jitter: bool, junk: u8 }
static mut HEAP: Heap = Heap { next: 0, end: 0, free: [0; 96], seed: 0, count: 0, jitter: false, junk: 0 };
fn class_of(size: usize) -> (usize, usize) {
    // classes: 16-byte steps up to 512, then powers of two
    if size <= 512 { let c = (size.max(1) + 15) / 16; (c, c * 16) } else { let p = size.next_power_of_two(); (33 + p.trailing_zeros() as usize - 10, p) }
}
#[allow(static_mut_refs)]
fn heap() -> &'static mut Heap { unsafe { &mut *std::ptr::addr_of_mut!(HEAP) } }
pub fn heap_init() {
    let p = unsafe { libc::mmap(HEAP_BASE as *mut _, HEAP_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0) };
    assert!(p as usize == HEAP_BASE, "cannot map the simulated heap");
    let h = heap();
    h.next = HEAP_BASE + 4096; h.end = HEAP_BASE + HEAP_SIZE;
}
/// Change layout and contents of memory handed out from now on.
pub fn heap_perturb(seed: u64) {
    let h = heap();
    h.seed = seed; h.count = 0; h.jitter = seed & 1 == 1; h.junk = (seed >> 8) as u8;
    h.next = ((h.next + 63) & !63) + ((mix(seed, 77) % 4096) as usize & !15);
}
unsafe fn heap_alloc(l: Layout) -> *mut u8 {
    let h = heap();
    h.count += 1;
    let (c, sz) = class_of(l.size());
    let align = l.align().max(16);
    let mut p = 0;
    if align == 16 && h.free[c] != 0 && !(h.jitter && h.next < HEAP_BASE + (512 << 20) && mix(h.seed, h.count) % 5 == 0) {
        p = h.free[c];
        h.free[c] = *(p as *const usize);
    }
    if p == 0 {
        if h.jitter { h.next += (mix(h.seed, h.count) % 8) as usize * 16; }
        p = (h.next + align - 1) & !(align - 1);
        if p + sz > h.end { return std::ptr::null_mut(); }
        h.next = p + sz;
    }
    if l.size() <= 1 << 16 { std::ptr::write_bytes(p as *mut u8, h.junk, l.size()); } else { std::ptr::write_bytes(p as *mut u8, h.junk, 4096); }
    p as *mut u8
}
unsafe fn heap_free(p: *mut u8, l: Layout) {
    let h = heap();
    let (c, _) = class_of(l.size());
    if l.size() <= 4096 { std::ptr::write_bytes(p, 0xDD, l.size()); }
    if l.align() <= 16 { *(p as *mut usize) = h.free[c]; h.free[c] = p as usize; }
}
#[inline] fn in_heap(p: *mut u8) -> bool { (p as usize).wrapping_sub(HEAP_BASE) < HEAP_SIZE }

/// What the code under test holds: (blocks, bytes) of the simulated heap.
static mut HELD: (i64, i64) = (0, 0);
pub fn held() -> (i64, i64) { unsafe { HELD } }
/// Measures one call: what it still holds, what it held at most, how often it asked.
#[derive(Clone, Copy, Default, Debug)]
pub struct Meter { pub on: bool, pub blocks: i64, pub bytes: i64, pub peak: i64, pub asked: u64, pub total: u64 }
const NOMETER: Meter = Meter { on: false, blocks: 0, bytes: 0, peak: 0, asked: 0, total: 0 };
thread_local! { static METER: Cell<Meter> = const { Cell::new(NOMETER) }; }
pub fn meter_start() { METER.set(Meter { on: true, ..NOMETER }); }
pub fn meter_stop() -> Meter { METER.replace(NOMETER) }
#[inline] fn account(sign: i64, size: usize) {
    unsafe { HELD.0 += sign; HELD.1 += sign * size as i64; }
    let mut m = METER.get();
    if m.on { m.blocks += sign; m.bytes += sign * size as i64; m.peak = m.peak.max(m.bytes); if sign > 0 { m.asked += 1; m.total += size as u64; } METER.set(m); }
}
pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !SUT.get() { return System.alloc(l); }
        if TID.get() >= 0 { if !QUIET.get() { if !alloc_point() { return std::ptr::null_mut(); } } else if active() { let s = sim(); s.spin[s.cur] = 0; } }
        let p = heap_alloc(l);
        if !p.is_null() { account(1, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if in_heap(p) { account(-1, l.size()); heap_free(p, l) } else { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !in_heap(p) && !SUT.get() { return System.realloc(p, l, new); }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(new)); self.dealloc(p, l); }
        q
    }
}

// ------------------------------------------------------------------------------------------------ simulation state
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ts { Ready, Lock, Phase(u8), Stalled(u64), Futex(usize, bool), Done }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Yk { Op, Alloc, Log, Sys, Cb, Lock, Futex, Shared }
pub const YK: [&str; 8] = ["op_boundary", "allocation", "log_record", "syscall", "callback", "lock", "futex", "shared_access"];

/// Where an injected unwind strikes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Up { Name, Decl, Data, Iter, Log }
pub const UPN: [&str; 5] = ["name", "decl", "data", "iter", "log"];
pub struct Injected;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault { Full, Short(u32), Eintr, Zero, Err(i32), Stall(u32) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Crash { AllocFail(u32), KillAlloc(u32), KillWrite(u32, u32), AbortLog(u32) }

#[derive(Clone, Debug, Default)]
pub struct WriteEv { pub pos: i64, pub data: Vec<u8>, pub ret: i64, pub weird: Option<String> }
#[derive(Default)]
pub struct SinkRt { pub fd: i32, pub kind: u8, pub ino: (u64, u64), pub faults: Vec<Fault>, pub next: usize, pub log: Vec<WriteEv>, pub calls: u32, pub fatal: Option<i32>, pub zero: bool, pub zero_first: bool, pub fired: [u64; 6] }

#[derive(Default)]
pub struct OpCtx {
    pub uid: u32, pub k: u32, pub allocs: u32, pub logs: u32, pub cbs: [u32; 5],
    pub unwind: Option<(Up, u32)>, pub fired: bool, pub stall: Option<(u32, u32)>, pub stalled: bool,
    pub sink: Option<Box<SinkRt>>, pub crash: Option<Crash>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Ops, Random(u32), Pct(u32), Replay }

pub struct Sim {
    pub n: usize, pub st: [Ts; MAXT], pub woken: [bool; MAXT], pub cur: usize, pub words: [AtomicU32; MAXT + 1],
    pub phase: u8, pub mode: Mode, pub rng: Rng, pub steps: u64, pub max_steps: u64, next: u64,
    pub prio: [u64; MAXT], change: Vec<u64>,
    pub log: Vec<(u32, u32, u8)>, replay: std::collections::BTreeMap<(u32, u32), u8>,
    pub ctx: [OpCtx; MAXT],
    pub clock: u64, pub solo: bool, pub switches: u64, pub preempts: u64, pub ihash: u64, spin: [u32; MAXT], pub yk: [u64; 8],
    pub unwinds: [u64; 5], pub stalls: u64, pub crashes: [u64; 4], pub faults: [u64; 6], pub futexes: u64, pub entropy: u64, pub hosts: u64, pub clocks: u64,
    pub log_level: u8, pub log_bytes: u64,
    pub on_fatal: fn(&str) -> !,
}
static mut SIM: *mut Sim = std::ptr::null_mut();
pub fn sim() -> &'static mut Sim { unsafe { &mut *SIM } }
pub fn active() -> bool { unsafe { !SIM.is_null() } }
pub fn tid() -> i32 { TID.get() }

/// The decisions taken, kept where they survive the death of the process.
pub const KEPT: usize = 60_000;
static mut SHARED: *mut u32 = std::ptr::null_mut();
pub fn kept_reset() { unsafe {
    if SHARED.is_null() {
        let p = libc::mmap(std::ptr::null_mut(), 16 + KEPT * 12, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED { return; }
        SHARED = p as *mut u32;
    }
    *SHARED = 0;
} }
pub fn kept() -> Vec<(u32, u32, u8)> { unsafe {
    if SHARED.is_null() { return vec![]; }
    (0..(*SHARED as usize).min(KEPT)).map(|i| { let p = SHARED.add(4 + i * 3); (*p, *p.add(1), *p.add(2) as u8) }).collect()
} }
fn keep(u: u32, k: u32, t: u8) { unsafe {
    if SHARED.is_null() { return; }
    let n = *SHARED as usize;
    if n < KEPT { let p = SHARED.add(4 + n * 3); *p = u; *p.add(1) = k; *p.add(2) = t as u32; }
    *SHARED = (n + 1) as u32;
} }

impl Sim {
    pub fn install(n: usize, mode: Mode, seed: u64, replay: &[(u32, u32, u8)], max_steps: u64, on_fatal: fn(&str) -> !) {
        let mut rng = Rng::new(seed);
        let mut prio = [0; MAXT];
        for p in prio.iter_mut() { *p = 1_000_000 + rng.below(1_000_000); }
        let mut change = Vec::new();
        if let Mode::Pct(d) = mode { let span = 1u64 << rng.range(6, 15); for _ in 0..d { change.push(1 + rng.below(span)); } change.sort(); }
        let next = match mode { Mode::Random(p) => 1 + rng.below(2 * p.max(1) as u64), _ => 0 };
        let s = Box::new(Sim {
            n, st: [Ts::Ready; MAXT], woken: [false; MAXT], cur: 0, words: Default::default(), phase: 0, mode, rng, steps: 0, max_steps, next, prio, change,
            log: Vec::with_capacity(4096), replay: replay.iter().map(|&(u, k, t)| ((u, k), t)).collect(), ctx: Default::default(), clock: 1_000_000_000_000, solo: false, switches: 0, preempts: 0, ihash: 0,
            yk: [0; 8], spin: [0; MAXT], unwinds: [0; 5], stalls: 0, crashes: [0; 4], faults: [0; 6], futexes: 0, entropy: 0, hosts: 0, clocks: 0, log_level: 0, log_bytes: 0, on_fatal,
        });
        let mut s = s;
        // decisions before a thread's first call need keys of their own
        for (i, c) in s.ctx.iter_mut().enumerate() { c.uid = 0x800000 + i as u32; }
        unsafe { SIM = Box::into_raw(s); }
    }
    pub fn uninstall() { unsafe { if !SIM.is_null() { drop(Box::from_raw(SIM)); SIM = std::ptr::null_mut(); } } }
    fn runnable(&mut self) -> ([usize; MAXT], usize) {
        loop {
            let mut v = [0; MAXT]; let mut n = 0;
            for i in 0..self.n {
                if let Ts::Stalled(u) = self.st[i] { if u <= self.steps { self.st[i] = Ts::Ready; } }
                if self.st[i] == Ts::Ready { v[n] = i; n += 1; }
            }
            if n > 0 { return (v, n); }
            // nothing runnable: jump to the end of the shortest stall, or open the next phase
            let mut m = u64::MAX;
            for i in 0..self.n { if let Ts::Stalled(u) = self.st[i] { m = m.min(u); } }
            if m != u64::MAX { self.clock += (m - self.steps) * 1_000_000; self.steps = m; continue; }
            // a wait with a time limit ends when nothing else can happen
            if (0..self.n).any(|i| matches!(self.st[i], Ts::Futex(_, true))) {
                self.clock += 1_000_000_000;
                for i in 0..self.n { if matches!(self.st[i], Ts::Futex(_, true)) { self.st[i] = Ts::Ready; } }
                continue;
            }
            if (0..self.n).any(|i| matches!(self.st[i], Ts::Futex(..))) { (self.on_fatal)("deadlock: a lock inside the library is never released"); }
            let mut ph = u8::MAX;
            for i in 0..self.n { if let Ts::Phase(p) = self.st[i] { ph = ph.min(p); } }
            if ph != u8::MAX {
                if (0..self.n).any(|i| self.st[i] == Ts::Lock) { (self.on_fatal)("deadlock: a lock is never released"); }
                self.phase = ph;
                for i in 0..self.n { if let Ts::Phase(p) = self.st[i] { if p <= ph { self.st[i] = Ts::Ready; } } }
                continue;
            }
            if (0..self.n).any(|i| self.st[i] == Ts::Lock) { (self.on_fatal)("deadlock: a lock is never released"); }
            return (v, 0);
        }
    }
    /// choose who runs next; `forced`: the current thread cannot go on
    fn pick(&mut self, forced: bool, avoid: bool) -> Option<usize> {
        let (v, n) = self.runnable();
        if n == 0 { return None; }
        let me = self.cur;
        let default = if !forced { me } else if avoid { *v[..n].iter().find(|&&t| t > me).unwrap_or(&v[0]) } else { v[0] };
        let cand: Vec<usize> = v[..n].iter().copied().filter(|&t| !(avoid && t == me && n > 1)).collect();
        let (uid, k) = (self.ctx[me].uid, self.ctx[me].k);
        let t = match self.mode {
            Mode::Replay => match self.replay.get(&(uid, k)) { Some(&t) if cand.contains(&(t as usize)) => t as usize, _ => default },
            Mode::Pct(_) => *cand.iter().max_by_key(|&&t| self.prio[t]).unwrap(),
            _ => cand[self.rng.idx(cand.len())],
        };
        if t != default { self.log.push((uid, k, t as u8)); keep(uid, k, t as u8); }
        Some(t)
    }
    fn hand(&mut self, t: usize) {
        let me = self.cur;
        if t == me { return; }
        self.switches += 1;
        self.ihash = mix(self.ihash, (me as u64) << 56 ^ (t as u64) << 48 ^ (self.ctx[me].uid as u64) << 24 ^ self.ctx[me].k as u64);
        self.cur = t;
        self.words[t].store(1, SeqCst);
        futex_wake(&self.words[t]);
    }
    fn wait(&mut self, me: usize) {
        loop {
            if self.words[me].load(SeqCst) == 1 { self.words[me].store(0, SeqCst); return; }
            futex_wait(&self.words[me], 0);
        }
    }
    fn yield_now(&mut self, kind: Yk) {
        if self.solo { self.spin[self.cur] = 0; return; }
        self.steps += 1; self.clock += 40; self.yk[kind as usize] += 1;
        let me = self.cur;
        self.ctx[me].k += 1;
        if self.steps > self.max_steps { (self.on_fatal)("no progress: the step bound was exceeded"); }
        if let Some((at, dur)) = self.ctx[me].stall { if !self.ctx[me].stalled && self.ctx[me].k >= at {
            self.ctx[me].stalled = true; self.stalls += 1;
            self.st[me] = Ts::Stalled(self.steps + dur as u64);
            return self.block();
        } }
        if matches!(kind, Yk::Shared) { self.spin[me] += 1; if self.spin[me] > 200 { self.spin[me] = 0; return self.give_way(); } } else { self.spin[me] = 0; }
        let consider = match self.mode {
            Mode::Ops => matches!(kind, Yk::Op | Yk::Lock),
            Mode::Random(_) if matches!(kind, Yk::Shared) => self.rng.below(4) == 0,
            Mode::Random(p) => if matches!(kind, Yk::Op) { true } else if self.steps >= self.next { self.next = self.steps + 1 + self.rng.below(2 * p.max(1) as u64); true } else { false },
            Mode::Pct(_) => {
                let mut hit = false;
                while let Some(&c) = self.change.first() { if c <= self.steps { self.change.remove(0); self.prio[me] = self.change.len() as u64; hit = true; } else { break; } }
                // what clients share inside the library is where order matters
                if matches!(kind, Yk::Shared) && self.rng.below(8) == 0 { self.prio[me] = self.rng.below(1_000_000); hit = true; }
                hit || matches!(kind, Yk::Op)
            }
            Mode::Replay => self.replay.contains_key(&(self.ctx[me].uid, self.ctx[me].k)),
        };
        if !consider { return; }
        if let Some(t) = self.pick(false, false) { if t != me { self.preempts += 1; self.hand(t); self.wait(me); } }
    }
    /// whoever waits by spinning must not starve the one it waits for
    fn give_way(&mut self) {
        let me = self.cur;
        if let Mode::Pct(_) = self.mode { for p in self.prio.iter_mut() { *p += 1; } self.prio[me] = self.prio[..self.n].iter().min().unwrap() - 1; }
        if let Some(t) = self.pick(true, true) { if t != me { self.hand(t); self.wait(me); } }
    }
    /// the current thread cannot continue until its state is Ready again and it is picked
    fn block(&mut self) {
        if self.solo { return; }
        let me = self.cur;
        self.ctx[me].k += 1;
        if let Some(t) = self.pick(true, false) { if t != me { self.hand(t); self.wait(me); } }
    }
}

struct Hg(bool);
/// Leave the code under test for a moment: allocations made here belong to the harness.
fn harness() -> Hg { Hg(SUT.replace(false)) }
impl Drop for Hg { fn drop(&mut self) { SUT.set(self.0); } }
fn live() -> bool { TID.get() >= 0 && !QUIET.get() && active() }

pub fn yield_op() { if live() { sim().yield_now(Yk::Op); } }
pub fn yield_lock_wait(me: usize) { let s = sim(); s.st[me] = Ts::Lock; s.steps += 1; s.yk[Yk::Lock as usize] += 1; s.block(); }
pub fn unlock_waiters() { let s = sim(); for i in 0..s.n { if s.st[i] == Ts::Lock { s.st[i] = Ts::Ready; } } }
pub fn wait_phase(p: u8) { let s = sim(); let me = s.cur; if s.phase < p { s.st[me] = Ts::Phase(p); s.block(); } }

fn crash_now(i: usize, sig: i32) -> ! {
    sim().crashes[i] += 1;
    unsafe { sys6(libc::SYS_kill, sys6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0), sig as i64, 0, 0, 0, 0); }
    exit_now(99)
}
fn alloc_point() -> bool {
    let s = sim();
    let me = s.cur;
    let c = &mut s.ctx[me];
    c.allocs += 1;
    match c.crash {
        Some(Crash::AllocFail(k)) if c.allocs >= k => { c.crash = None; return false; }
        Some(Crash::KillAlloc(k)) if c.allocs >= k => crash_now(1, libc::SIGKILL),
        _ => {}
    }
    let _h = harness();
    s.yield_now(Yk::Alloc);
    true
}
/// The code under test is about to touch memory that other clients may touch as well.
#[cold]
pub fn shared_point() {
    if TID.get() < 0 || !SUT.get() || !active() { return; }
    let s = sim();
    if QUIET.get() || s.solo {
        // not preempted, unless it waits for somebody else
        let me = s.cur;
        s.spin[me] += 1;
        if s.solo { if s.spin[me] > 3_000_000 { crash_now(1, libc::SIGKILL); } return; }
        if s.spin[me] <= 200 { return; }
        s.spin[me] = 0;
        let _h = harness();
        s.steps += 1; s.ctx[me].k += 1;
        if s.steps > s.max_steps { (s.on_fatal)("no progress: the step bound was exceeded"); }
        return s.give_way();
    }
    let _h = harness();
    s.yield_now(Yk::Shared);
}
/// A callback supplied by the user of the library is running.
pub fn callback(p: Up) {
    if !live() || !SUT.get() { return; }
    let _h = harness();
    let s = sim();
    s.yield_now(Yk::Cb);
    strike(p);
}
fn strike(p: Up) {
    let s = sim();
    let me = s.cur;
    let c = &mut s.ctx[me];
    c.cbs[p as usize] += 1;
    if let Some((q, k)) = c.unwind { if q == p && !c.fired && c.cbs[p as usize] >= k.max(1) {
        c.fired = true; s.unwinds[p as usize] += 1;
        std::panic::resume_unwind(Box::new(Injected));
    } }
}

/// Run code under test on this simulated thread.
pub fn sut<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    SUT.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    SUT.set(false);
    r
}
/// Run code under test as a reference: its own heap, but no preemption and no faults.
pub fn sut_quiet<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    let q = QUIET.replace(true);
    let s = SUT.replace(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    SUT.set(s); QUIET.set(q);
    r
}
pub fn sut_off() -> bool { SUT.replace(false) }
pub fn sut_restore(s: bool) { SUT.set(s) }

// ------------------------------------------------------------------------------------------------ threads
const STACK: usize = 8 << 20;
const STACK_BASE: usize = 0x2000_0000_0000;
static STACKS: AtomicU32 = AtomicU32::new(0);
struct Start { f: Box<dyn FnOnce()>, ent: u64, pad: usize }
extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    ENT.set(st.ent);
    pad(st.pad, st.f);
    std::ptr::null_mut()
}
#[inline(never)]
fn pad(n: usize, f: Box<dyn FnOnce()>) {
    let mut b = [0u8; 48];
    std::hint::black_box(&mut b);
    if n == 0 { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); } else { pad(n - 1, f); }
    std::hint::black_box(&mut b);
}
/// A thread on a fixed-address stack with its own entropy stream; `pad` frames shift everything on it.
pub fn spawn(ent: u64, padn: usize, f: Box<dyn FnOnce()>) -> libc::pthread_t {
    let i = STACKS.fetch_add(1, SeqCst) as usize;
    unsafe {
        let base = STACK_BASE + i * (STACK + (1 << 20));
        let p = libc::mmap(base as *mut _, STACK, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
        assert!(p as usize == base);
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstack(&mut attr, p, STACK);
        let mut t: libc::pthread_t = 0;
        let st = Box::into_raw(Box::new(Start { f, ent, pad: padn }));
        let r = libc::pthread_create(&mut t, &attr, tramp, st as *mut _);
        assert_eq!(r, 0);
        t
    }
}
pub fn join(t: libc::pthread_t) { unsafe { libc::pthread_join(t, std::ptr::null_mut()); } }
/// run a closure alone on a fresh thread (own hash keys, own stack position)
pub fn on_fresh_thread<R: 'static>(ent: u64, padn: usize, f: impl FnOnce() -> R + 'static) -> Option<R> {
    let slot = std::rc::Rc::new(std::cell::RefCell::new(None));
    let s2 = slot.clone();
    let g: Box<dyn FnOnce()> = Box::new(move || { let r = f(); *s2.borrow_mut() = Some(r); });
    join(spawn(ent, padn, g));
    let r = slot.borrow_mut().take();
    r
}
/// Run the simulation: body(i) is the script of client i.
pub fn run_threads(n: usize, ent: &[u64], pads: &[usize], body: fn(usize)) {
    let mut hs = Vec::new();
    static READY: AtomicU32 = AtomicU32::new(0);
    for i in 0..n {
        READY.store(0, SeqCst);
        hs.push(spawn(ent[i], pads[i], Box::new(move || {
            TID.set(i as i32);
            READY.store(1, SeqCst); futex_wake(&READY);
            let s = sim();
            s.wait(i);
            s.cur = i;
            body(i);
            let s = sim();
            s.st[i] = Ts::Done;
            s.ctx[i].k += 1;
            TID.set(-1);
            match s.pick(true, false) {
                Some(t) => { s.hand(t); }
                None => { s.words[MAXT].store(1, SeqCst); futex_wake(&s.words[MAXT]); }
            }
            s.wait(i); // until the controller lets the thread end, so that thread exit is sequential too
        })));
        while READY.load(SeqCst) == 0 { futex_wait(&READY, 0); }
    }
    let s = sim();
    s.cur = 0;
    // the first to run is a decision as well
    let first = s.pick(true, false).unwrap_or(0);
    s.cur = first;
    s.words[first].store(1, SeqCst); futex_wake(&s.words[first]);
    while s.words[MAXT].load(SeqCst) == 0 { futex_wait(&s.words[MAXT], 0); }
    for (i, h) in hs.into_iter().enumerate() { s.words[i].store(1, SeqCst); futex_wake(&s.words[i]); join(h); }
}

// ------------------------------------------------------------------------------------------------ logging seam
pub struct SimLog;
struct Cap(usize);
impl std::fmt::Write for Cap { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0 < s.len() { self.0 = 0; Err(std::fmt::Error) } else { self.0 -= s.len(); Ok(()) } } }
impl log::Log for SimLog {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn flush(&self) {}
    fn log(&self, r: &log::Record) {
        if !live() || !SUT.get() { return; }
        let s = sim();
        // the sink formats the record, as a real one would (the Debug code of the library runs here), up to a limit
        let mut c = Cap(400);
        let _ = std::fmt::write(&mut c, *r.args());
        s.log_bytes += (400 - c.0) as u64;
        let _h = harness();
        let me = s.cur;
        s.ctx[me].logs += 1;
        if let Some(Crash::AbortLog(k)) = s.ctx[me].crash { if s.ctx[me].logs >= k { crash_now(3, libc::SIGABRT); } }
        s.yield_now(Yk::Log);
        strike(Up::Log);
    }
}
pub fn set_log(level: u8) {
    use log::LevelFilter::*;
    log::set_max_level([Off, Error, Info, Debug, Trace][level.min(4) as usize]);
}

// ------------------------------------------------------------------------------------------------ interposed libc
unsafe fn set_errno(e: i32) { *libc::__errno_location() = e; }
unsafe fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r } }
fn sink_of(fd: i32) -> Option<&'static mut SinkRt> {
    if TID.get() < 0 || !SUT.get() || !active() { return None; }
    let s = sim();
    let me = s.cur;
    match s.ctx[me].sink { Some(ref mut k) if k.fd == fd || k.ino == inode(fd) => Some(unsafe { &mut *(k.as_mut() as *mut SinkRt) }), _ => None }
}
pub fn inode(fd: i32) -> (u64, u64) {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { sys6(libc::SYS_fstat, fd as i64, &mut st as *mut _ as i64, 0, 0, 0, 0) } != 0 { return (0, 0); }
    (st.st_dev, st.st_ino)
}
unsafe fn sink_write(k: &'static mut SinkRt, buf: &[u8], at: Option<i64>) -> i64 {
    let _h = harness();
    let s = sim();
    s.yield_now(Yk::Sys);
    // no positioned writes on a pipe; those on an appending file append
    if k.kind == 2 && at.is_some() { return ret(-(libc::ESPIPE as i64)); }
    let pos = if k.kind == 1 { size_of(k.fd) } else { match at { Some(a) => a, None => sys6(libc::SYS_lseek, k.fd as i64, 0, libc::SEEK_CUR as i64, 0, 0, 0) } };
    let do_write = |b: &[u8]| match at {
        Some(a) => sys6(libc::SYS_pwrite64, k.fd as i64, b.as_ptr() as i64, b.len() as i64, a, 0, 0),
        None => sys6(libc::SYS_write, k.fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0),
    };
    k.calls += 1;
    let me = s.cur;
    if let Some(Crash::KillWrite(n, m)) = s.ctx[me].crash { if k.calls >= n {
        let m = (m as usize).min(buf.len());
        if m > 0 { do_write(&buf[..m]); }
        crash_now(2, libc::SIGKILL);
    } }
    let f = k.faults.get(k.next).copied().unwrap_or(Fault::Full);
    if !buf.is_empty() { k.next += 1; }
    let mut fi = 0;
    let r = match f {
        _ if buf.is_empty() => 0,
        Fault::Full => do_write(buf),
        Fault::Short(n) => { let n = (n.max(1) as usize).min(buf.len()); if n < buf.len() { fi = 1; } do_write(&buf[..n]) }
        Fault::Eintr => { fi = 2; -(libc::EINTR as i64) }
        Fault::Zero => { fi = 3; k.zero = true; k.zero_first |= k.fatal.is_none(); 0 }
        Fault::Err(e) => { fi = 4; if k.fatal.is_none() { k.fatal = Some(e); } -(e as i64) }
        Fault::Stall(n) => {
            fi = 5;
            if !s.solo { s.st[me] = Ts::Stalled(s.steps + n as u64); s.block(); }
            do_write(buf)
        }
    };
    k.fired[fi] += 1; s.faults[fi] += 1;
    k.log.push(WriteEv { pos, data: buf.to_vec(), ret: r, weird: None });
    ret(r)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    match sink_of(fd) { Some(k) => sink_write(k, std::slice::from_raw_parts(b, n), None) as isize,
        None => ret(sys6(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, off: i64) -> isize {
    match sink_of(fd) { Some(k) => sink_write(k, std::slice::from_raw_parts(b, n), Some(off)) as isize,
        None => ret(sys6(libc::SYS_pwrite64, fd as i64, b as i64, n as i64, off, 0, 0)) as isize }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, b: *const u8, n: usize, off: i64) -> isize { pwrite64(fd, b, n, off) }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    match sink_of(fd) {
        Some(k) => {
            let s = SUT.replace(false);
            let mut all = Vec::new();
            for i in 0..n as usize { let x = &*v.add(i); if x.iov_len > 0 { all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)); } }
            SUT.set(s);
            let r = sink_write(k, &all, None) as isize;
            let s = SUT.replace(false); drop(all); SUT.set(s);
            r
        }
        None => ret(sys6(libc::SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize,
    }
}
unsafe fn weird(fd: i32, what: &str, n: i64) {
    if let Some(k) = sink_of(fd) {
        let _h = harness();
        sim().yield_now(Yk::Sys);
        k.log.push(WriteEv { pos: n, weird: Some(what.to_string()), ..Default::default() });
    }
}
fn size_of(fd: i32) -> i64 {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    unsafe { sys6(libc::SYS_fstat, fd as i64, &mut st as *mut _ as i64, 0, 0, 0, 0) };
    st.st_size
}
/// a sink of this call that has no position
fn pipe(fd: i32) -> bool { matches!(sink_of(fd), Some(k) if k.kind == 2) }
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, o: i64, wh: i32) -> i64 { if pipe(fd) { return ret(-(libc::ESPIPE as i64)); } ret(sys6(libc::SYS_lseek, fd as i64, o, wh as i64, 0, 0, 0)) }
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, o: i64, wh: i32) -> i64 { lseek64(fd, o, wh) }
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut libc::stat) -> i32 {
    let p = pipe(fd);
    let r = ret(sys6(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as i32;
    if r == 0 && p { (*st).st_mode = (*st).st_mode & !libc::S_IFMT | libc::S_IFIFO; (*st).st_size = 0; }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, st: *mut libc::stat) -> i32 { fstat64(fd, st) }
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const libc::c_char, fl: i32, mask: u32, st: *mut libc::statx) -> i32 {
    let p = fl & libc::AT_EMPTY_PATH != 0 && *path == 0 && pipe(dir);
    let r = ret(sys6(libc::SYS_statx, dir as i64, path as i64, fl as i64, mask as i64, st as i64, 0)) as i32;
    if r == 0 && p { (*st).stx_mode = (*st).stx_mode & !(libc::S_IFMT as u16) | libc::S_IFIFO as u16; (*st).stx_size = 0; }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if pipe(fd) { return ret(-(libc::EINVAL as i64)) as i32; }
    weird(fd, "ftruncate", n);
    ret(sys6(libc::SYS_ftruncate, fd as i64, n, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 { if pipe(fd) { return ret(-(libc::EINVAL as i64)) as i32; } weird(fd, "fsync", 0); ret(sys6(libc::SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as i32 }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { if pipe(fd) { return ret(-(libc::EINVAL as i64)) as i32; } weird(fd, "fsync", 0); ret(sys6(libc::SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0)) as i32 }
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, fl: u32) -> isize {
    if TID.get() < 0 && ENT.get() == 0 { return ret(sys6(libc::SYS_getrandom, b as i64, n as i64, fl as i64, 0, 0, 0)) as isize; }
    let mut e = ENT.get();
    if active() { sim().entropy += 1; }
    let out = std::slice::from_raw_parts_mut(b, n);
    for c in out.iter_mut() { *c = (crate::rng::splitmix(&mut e) >> 24) as u8; }
    ENT.set(e);
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if TID.get() < 0 || !active() { return ret(sys6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32; }
    let s = sim();
    s.clocks += 1;
    // monotonic clocks never go back; the wall clock jumps
    let t = if id == libc::CLOCK_REALTIME { s.clock.wrapping_add(mix(s.clock >> 12, 5) % 4_000_000_000_000_000_000) } else { s.clock };
    (*ts).tv_sec = (t / 1_000_000_000) as i64; (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
/// Which of the simulated hosts this process runs on; 0 is the real one.
pub static HOST: AtomicU32 = AtomicU32::new(0);
fn host() -> u64 { if TID.get() >= 0 && active() { HOST.load(SeqCst) as u64 } else { 0 } }
/// Every variable somebody asks for under the simulation has a value of the host's choice.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    let h = host();
    if h != 0 && !n.starts_with(b"RUST_") {
        sim().hosts += 1;
        let v: Option<&'static [u8]> = [None, Some(&b"1\0"[..]), Some(&b"0\0"[..]), Some(&b"yes\0"[..]), Some(&b"17\0"[..]), Some(&b"/tmp\0"[..])][(mix(h, crate::rng::hash_bytes(9, n)) % 6) as usize];
        return v.map_or(std::ptr::null_mut(), |v| v.as_ptr() as *mut libc::c_char);
    }
    extern "C" { static environ: *const *mut libc::c_char; }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let x = std::ffi::CStr::from_ptr(*e).to_bytes();
        if x.len() > n.len() && x.starts_with(n) && x[n.len()] == b'=' { return (*e).add(n.len() + 1); }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    let h = host();
    if h != 0 { sim().hosts += 1; return (mix(h, 71) % 4_000_000) as i32 + 2; }
    sys6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}
/// the number of processors
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut libc::c_void) -> i32 {
    let h = host();
    if h != 0 && n >= 16 {
        sim().hosts += 1;
        std::ptr::write_bytes(set as *mut u8, 0, n);
        let cpus = [1, 2, 3, 4, 8, 12, 64, 96][(mix(h, 72) % 8) as usize];
        for c in 0..cpus { *(set as *mut u8).add(c / 8) |= 1 << (c % 8); }
        return 0;
    }
    let r = sys6(libc::SYS_sched_getaffinity, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r < 0 { return ret(r) as i32; }
    std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: i32) -> i64 {
    let h = host();
    if h != 0 && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) { sim().hosts += 1; return [1, 2, 3, 4, 8, 12, 64, 96][(mix(h, 72) % 8) as usize]; }
    extern "C" { fn __sysconf(name: i32) -> i64; }
    __sysconf(name)
}
unsafe fn sleep_yield() {
    let s = sim();
    let _h = harness();
    if s.solo { s.steps += 1; if s.steps > s.max_steps + 100_000 { crash_now(1, libc::SIGKILL); } return; }
    s.steps += 1; s.yk[Yk::Sys as usize] += 1;
    let me = s.cur; s.ctx[me].k += 1;
    if s.steps > s.max_steps { (s.on_fatal)("no progress: the step bound was exceeded"); }
    s.give_way();
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 { if TID.get() >= 0 && active() { sleep_yield(); 0 } else { sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32 } }
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    if TID.get() >= 0 && active() { sim().clock += (*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64; sleep_yield(); return 0; }
    ret(sys6(libc::SYS_nanosleep, r as i64, m as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, r: *const libc::timespec, m: *mut libc::timespec) -> i32 {
    if TID.get() >= 0 && active() { if f == 0 { sim().clock += (*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64; } sleep_yield(); return 0; }
    -(sys6(libc::SYS_clock_nanosleep, c as i64, f as i64, r as i64, m as i64, 0, 0) as i32)
}
/// std takes its locks with futexes through this entry point: waiting becomes a scheduling decision.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && (TID.get() >= 0 || ENT.get() != 0) { return getrandom(a as *mut u8, b as usize, c as u32) as i64; }
    if n == libc::SYS_futex && TID.get() >= 0 && active() {
        let op = (b as i32) & 0x7f;
        let s = sim();
        s.futexes += 1;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let w = &*(a as *const AtomicU32);
            if w.load(SeqCst) != c as u32 { set_errno(libc::EAGAIN); return -1; }
            s.yk[Yk::Futex as usize] += 1;
            if s.solo { sleep_yield(); if d != 0 { s.clock += 1_000_000_000; set_errno(libc::ETIMEDOUT); return -1; } return 0; }
            let _h = harness();
            s.steps += 1;
            if s.steps > s.max_steps { (s.on_fatal)("no progress: the step bound was exceeded"); }
            let me = s.cur;
            s.st[me] = Ts::Futex(a as usize, d != 0);
            s.block();
            if std::mem::replace(&mut s.woken[me], false) { return 0; }
            if d != 0 { set_errno(libc::ETIMEDOUT); return -1; }
            return 0;
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            let mut n = 0;
            for i in (0..s.n).map(|i| (s.cur + 1 + i) % s.n) {
                if n >= c { break; }
                if matches!(s.st[i], Ts::Futex(w, _) if w == a as usize) { s.st[i] = Ts::Ready; s.woken[i] = true; n += 1; }
            }
            return n;
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}
