//! Executes a scenario against the real faerie and judges it while it runs.
use crate::elfr::{self, Focus};
use crate::link;
use crate::machr;
use crate::model::*;
use crate::rng::{hash_bytes, mix};
use crate::rt::{self, *};
use crate::scen::*;
use faerie::{Artifact, ArtifactError, Data, Decl, Link};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::fs::File;
use std::os::fd::FromRawFd;
use std::rc::Rc;

// ------------------------------------------------------------------------------------------------ user-supplied code
struct SName(String);
impl AsRef<str> for SName { fn as_ref(&self) -> &str { callback(Up::Name); &self.0 } }
struct SDecl(MDecl, u32);
impl From<SDecl> for Decl { fn from(d: SDecl) -> Decl { callback(Up::Decl); d.0.real_via(d.1) } }
struct SData(Data);
impl From<SData> for Data { fn from(d: SData) -> Data { callback(Up::Data); d.0 } }
struct SIter { v: Vec<(String, MDecl)>, i: usize }
impl Iterator for SIter {
    type Item = (SName, Decl);
    fn next(&mut self) -> Option<Self::Item> {
        callback(Up::Iter);
        let (n, d) = self.v.get_mut(self.i)?;
        self.i += 1;
        Some((SName(std::mem::take(n)), d.real()))
    }
}

pub fn errv(e: ArtifactError) -> ErrV {
    use ArtifactError::*;
    match e {
        Undeclared(s) => ErrV::Undeclared(s.as_str().into()), ImportDefined(s) => ErrV::ImportDefined(s.as_str().into()), RelocateImport(s) => ErrV::RelocateImport(s.as_str().into()),
        IncompatibleDeclaration { old, new } => ErrV::Incompatible(old, new), DuplicateDefinition(s) => ErrV::Duplicate(s.as_str().into()),
        InvalidZeroInit(d) => ErrV::ZeroInit(d), NonSectionCustomSymbols(d, m) => ErrV::Syms(d, m.iter().map(|(k, v)| (k.as_str().to_string(), *v)).collect()),
        UnsupportedBinaryFormat(b) => ErrV::Unsupported(Fmt::of(b)), UndefinedSymbols(v) => ErrV::UndefinedSymbols(v.iter().map(|s| s.as_str().to_string()).collect()),
        Io(e) => ErrV::Io(e.raw_os_error(), format!("{:?}", e.kind())),
        e => ErrV::Other(format!("{}", e)),
    }
}
thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// silence panics of the code under test and keep their message
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = rt::sut_off();
        let m = format!("{} at {}", i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().map(|s| s.as_str().to_string())).unwrap_or_default(), i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line())));
        PANIC.with(|p| *p.borrow_mut() = m);
        rt::sut_restore(s);
    }));
}
fn out_of<T>(r: std::thread::Result<Result<T, ArtifactError>>, f: impl FnOnce(T) -> Out) -> Out {
    match r {
        Ok(Ok(v)) => f(v),
        Ok(Err(e)) => Out::Err(errv(e)),
        Err(p) => if p.is::<Injected>() { Out::Unwound } else { let m = PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())); Out::Panic(m) },
    }
}
pub fn key(o: &Out) -> String {
    match o { Out::Bytes(b) => format!("bytes {} {:016x}{:016x}", b.len(), hash_bytes(1, b), hash_bytes(2, b)), Out::Panic(_) => "panic".into(), x => format!("{:?}", x) }
}
#[derive(Clone, Copy)]
struct How { quiet: bool }
fn run<R>(h: How, f: impl FnOnce() -> R) -> std::thread::Result<R> { if h.quiet { sut_quiet(f) } else { sut(f) } }

pub fn new_art(s: &SlotInit) -> Box<Artifact> {
    use std::str::FromStr;
    let t = faerie::Triple::from_str(&s.target).unwrap();
    let n = s.name.clone();
    let lib = n.len() % 4 == 2;
    sut_quiet(|| {
        let n: String = n.as_str().into();
        Box::new(if n == "faerie.o" { faerie::ArtifactBuilder::new(t).finish() } else if n.len() % 2 == 0 { faerie::ArtifactBuilder::new(t).library(lib).name(n).finish() } else { Artifact::new(t, n) })
    }).expect("Artifact::new")
}
/// One mutating call.
fn mutate(a: &mut Artifact, k: &K, uid: u32, h: How) -> Out {
    let nm = |n: &str| SName(n.to_string());
    let unit = |_: ()| Out::Ok;
    match k {
        K::Declare { name, decl } => { let (n, d) = (nm(name), SDecl(*decl, uid)); out_of(run(h, || a.declare(n, d)), unit) }
        K::DeclareWith { name, decl, cont } => { let (n, d, b) = (nm(name), SDecl(*decl, uid), cont.bytes()); out_of(run(h, || a.declare_with(n, d, b)), unit) }
        K::Batch { items } => { let it = SIter { v: items.clone(), i: 0 }; out_of(run(h, || a.declarations(it)), unit) }
        K::Import { name, f } => { let n = nm(name); let kind = if *f { faerie::ImportKind::Function } else { faerie::ImportKind::Data }; out_of(run(h, || a.import(n, kind)), unit) }
        K::Define { name, cont } => {
            let n = nm(name);
            match *cont {
                Cont::Zero(z) => out_of(run(h, || a.define_zero_init(n, z as usize)), unit),
                Cont::Blob { .. } => { let b = cont.bytes(); out_of(run(h, || a.define(n, b)), unit) }
            }
        }
        K::DefineSyms { name, cont, syms } => {
            let n = nm(name);
            let d = SData(match *cont { Cont::Zero(z) => Data::ZeroInit(z as usize), _ => Data::Blob(cont.bytes()) });
            let m: BTreeMap<String, u64> = syms.iter().cloned().collect();
            out_of(run(h, || a.define_with_symbols(n, d, m)), unit)
        }
        K::Link { from, to, at, rel } => {
            let (f, t, at, r) = (from.clone(), to.clone(), *at, rel.real());
            if *rel == MRel::Auto && uid % 2 == 0 { out_of(run(h, || a.link(Link { from: &f, to: &t, at })), unit) }
            else { out_of(run(h, || a.link_with(Link { from: &f, to: &t, at }, r)), unit) }
        }
        K::Retarget { name, target } => {
            use std::str::FromStr;
            let t = faerie::Triple::from_str(target).unwrap();
            let n = name.clone();
            out_of(run(QUIET, || { a.name = n.as_str().into(); a.target = t; }).map(Ok::<(), ArtifactError>), unit)
        }
        _ => unreachable!(),
    }
}
/// One non-mutating call other than write.
fn query(a: &Artifact, k: &K, h: How) -> Out {
    match k {
        K::Imports => match run(h, || a.imports().map(|(n, k)| (n.to_string(), *k == faerie::ImportKind::Function)).collect::<Vec<_>>()) { Ok(v) => Out::Imports(v.iter().map(|(s, f)| (s.as_str().to_string(), *f)).collect()), Err(p) => out_of::<()>(Err(p), |_| Out::Ok) },
        K::Undefined => match run(h, || a.undefined_symbols()) { Ok(v) => Out::Names(v.iter().map(|s| s.as_str().to_string()).collect()), Err(p) => out_of::<()>(Err(p), |_| Out::Ok) },
        K::Emit { fmt: None } => out_of(run(h, || a.emit()), |b| Out::Bytes(Rc::new(b))),
        K::Emit { fmt: Some(f) } => { let f = f.real(); out_of(run(h, || a.emit_as(f)), |b| Out::Bytes(Rc::new(b))) }
        _ => unreachable!(),
    }
}
const QUIET: How = How { quiet: true };
const LIVE: How = How { quiet: false };

// ------------------------------------------------------------------------------------------------ the simulated world
pub struct Slot {
    pub init: SlotInit, pub art: Option<Box<Artifact>>, shadow: Option<Box<Artifact>>,
    pub model: Model, pub model_ok: bool, pub tainted: bool,
    /// accepted primitive steps
    acc: Vec<K>, acc_h: u64,
    /// every completed call (call, key of its result) of this lineage
    calls: Vec<(K, String)>, muts: Vec<K>, mut_h: u64,
    readers: u32, writer: bool, checked: u64,
}
pub struct RefReq { pub init: SlotInit, pub ops: Vec<(K, Option<String>)>, pub what: String }
#[derive(Default)]
struct Rep { stats: BTreeMap<&'static str, u64>, states: Vec<u64>, lines: Vec<String> }
pub struct World {
    pub scen: Scen, p: u8, script: Vec<Vec<usize>>, slots: Vec<Slot>, rep: Rep,
    seen: BTreeMap<(u64, String), (RefReq, Vec<(u32, String)>)>, seen_order: Vec<(u64, String)>, lineage_refs: Vec<RefReq>,
    fd: i32,
    /// C21: the last object of every artifact, with what it was made of (per format)
    objs: BTreeMap<(bool, usize), (Rc<Vec<u8>>, Model)>,
}
static mut WORLD: *mut World = std::ptr::null_mut();
fn w() -> &'static mut World { unsafe { &mut *WORLD } }
fn stat(n: &'static str, v: u64) { *w().rep.stats.entry(n).or_default() += v; }
pub fn pnum(p: &str) -> u8 { p[1..].parse().unwrap_or(0) }

pub fn one_line(s: &str) -> String { s.replace('\n', " ").replace('\r', " ") }
fn finish(status: &str, key: &str, text: &str) -> ! {
    let wd = w();
    let mut s = String::with_capacity(8192);
    let _ = write!(s, "status {}\nkey {}\ntext {}\n", status, one_line(key), one_line(text));
    if active() {
        let m = sim();
        let _ = write!(s, "ihash {}\n", m.ihash);
        let mut st = |n: &str, v: u64| { if v > 0 { let _ = write!(s, "stat {} {}\n", n, v); } };
        st("steps", m.steps); st("sim_ns", m.clock.wrapping_sub(1_000_000_000_000)); st("switches", m.switches); st("preemptions", m.preempts);
        for i in 0..YK.len() { st(&format!("yield.{}", YK[i]), m.yk[i]); }
        for i in 0..5 { st(&format!("fault.unwind_in_{}", UPN[i]), m.unwinds[i]); }
        st("fault.stalled_thread", m.stalls);
        for (i, n) in ["none", "short_write", "interrupted_write", "zero_length_write", "failed_write", "stalled_write"].iter().enumerate() { if i > 0 { st(&format!("fault.{}", n), m.faults[i]); } }
        st("writes_passed", m.faults[0]); st("futex_calls", m.futexes); st("entropy_reads", m.entropy); st("host_reads", m.hosts); st("clock_reads", m.clocks); st("log_bytes", m.log_bytes);
        for (u, k, t) in m.log.iter().take(60_000) { let _ = write!(s, "switch {} {} {}\n", u, k, t); }
        if m.log.len() > 60_000 { s.push_str("truncated 1\n"); }
    }
    for (k, v) in &wd.rep.stats { let _ = write!(s, "stat {} {}\n", k, v); }
    for h in &wd.rep.states { let _ = write!(s, "state {}\n", h); }
    for l in &wd.rep.lines { s.push_str(l); s.push('\n'); }
    let mut b = s.as_bytes();
    while !b.is_empty() { let r = raw_write(wd.fd, b); if r <= 0 { if r == -(libc::EINTR as i64) { continue; } break; } b = &b[r as usize..]; }
    exit_now(0)
}
fn violate(key: &str, text: &str) -> ! { let d = rt::sut_off(); let _ = d; finish("viol", key, text) }
fn fatal(m: &str) -> ! { violate(&format!("liveness {}", m), m) }
/// the shape of a message, without its particulars
pub fn shape(s: &str) -> String {
    let mut o = String::new(); let mut q = false;
    for c in s.chars() { if c == '"' { q = !q; continue; } if q || c.is_ascii_digit() { continue; } if c == '[' || c == '{' { break; } o.push(c); if o.len() > 60 { break; } }
    o
}

// ------------------------------------------------------------------------------------------------ locks of the clients
fn lock(me: usize, s: usize, wr: bool) {
    loop {
        let l = &mut w().slots[s];
        if wr { if l.readers == 0 && !l.writer { l.writer = true; return; } } else if !l.writer { l.readers += 1; return; }
        yield_lock_wait(me);
    }
}
fn unlock(s: usize, wr: bool) { let l = &mut w().slots[s]; if wr { l.writer = false } else { l.readers -= 1 } unlock_waiters(); }

// ------------------------------------------------------------------------------------------------ judging mutating calls
fn class_of(k: &K) -> u8 { match k { K::Declare { .. } | K::Import { .. } | K::Batch { .. } => 5, K::Define { .. } | K::DefineSyms { .. } => 6, K::Link { .. } => 17, _ => 6 } }
fn mismatch(s: usize, class: u8, kind: &str, text: String) {
    let wd = w();
    stat("model_deviations", 1);
    if wd.p == class { violate(&format!("C{:02} {}", class, kind), &text); }
    wd.slots[s].model_ok = false;
}
fn observe(a: &Artifact) -> (Out, Out) { (query(a, &K::Undefined, QUIET), query(a, &K::Imports, QUIET)) }
fn same_obs(a: &(Out, Out), b: &(Out, Out)) -> bool { a.0.same(&b.0) && a.1.same(&b.1) }
fn model_obs(a: &(Out, Out), m: &Model) -> bool {
    let u = matches!(&a.0, Out::Names(v) if *v == m.undefined());
    let i = matches!(&a.1, Out::Imports(v) if { let mut x = v.clone(); x.sort(); x == m.imports().into_iter().collect::<Vec<_>>() });
    u && i
}
fn accept(s: usize, st: &K) {
    let sl = &mut w().slots[s];
    if sl.model_ok { sl.model.accept(st); }
    sl.acc_h = mix(sl.acc_h, hash_bytes(1, step_text(st).as_bytes()));
    sl.acc.push(st.clone());
}
fn step_text(k: &K) -> String { Op { uid: 0, phase: 0, client: 0, slot: 0, k: k.clone(), unwind: None, stall: None }.text() }
/// A mutating call `k` on slot `s` returned `out`: update model and shadow, judge.
fn settle(s: usize, k: &K, uid: u32, out: &Out) {
    let wd = w();
    let steps = Model::steps(k);
    stat(match out { Out::Ok => "mutations_accepted", Out::Err(_) => "mutations_rejected", Out::Unwound => "mutations_unwound", _ => "mutations_panicked" }, 1);
    if wd.p == 7 { return settle_shadow(s, k, uid, &steps, out); }
    match out {
        Out::Ok => {
            for st in &steps {
                if wd.slots[s].model_ok {
                    let e = wd.slots[s].model.errs(st);
                    if !e.is_empty() { if wd.p == 16 { wd.rep.lines.push(format!("conflict {}", uid)); } mismatch(s, class_of(st), "accepted", format!("op {}: {:?} was accepted; it had to be refused with {:?}", uid, st, e[0])); }
                }
                accept(s, st);
            }
        }
        Out::Err(e) => {
            if wd.p == 16 { wd.rep.lines.push(format!("rej {}", uid)); }
            if !wd.slots[s].model_ok { if steps.len() > 1 { wd.slots[s].tainted = true; } return; }
            let mut hit = None;
            for (i, st) in steps.iter().enumerate() {
                let x = wd.slots[s].model.errs(st);
                if !x.is_empty() { hit = Some((i, x)); break; }
                accept(s, st);
            }
            match hit {
                None => { wd.slots[s].tainted = true; let c = if steps.len() > 1 && matches!(k, K::DeclareWith { .. }) { if matches!(e, ErrV::Incompatible(..)) { 5 } else { 6 } } else { class_of(k) };
                    mismatch(s, c, "refused", format!("op {}: {:?} was refused with {:?}; it had to be accepted", uid, k, e)); }
                Some((i, x)) => {
                    if wd.p == 16 { wd.rep.lines.push(format!("conflict {}", uid)); }
                    if !x.contains(e) { mismatch(s, class_of(&steps[i]), "wrong error", format!("op {}: {:?} returned {:?} instead of {:?}", uid, k, e, x[0])); }
                    else if steps.len() > 1 && (wd.p == 5 || wd.p == 6) {
                        // a compound call leaves exactly its completed steps
                        let a = wd.slots[s].art.as_ref().unwrap();
                        let o = observe(a);
                        if !model_obs(&o, &wd.slots[s].model) { mismatch(s, if matches!(k, K::Batch { .. }) { 5 } else { 6 }, "compound effect", format!("op {}: after {:?} failed at its step {} with {:?} the artifact reports undefined {} and imports {}, expected {:?} and {:?}", uid, k, i, e, o.0.brief(), o.1.brief(), wd.slots[s].model.undefined(), wd.slots[s].model.imports())); }
                    }
                }
            }
        }
        Out::Unwound => {
            wd.slots[s].tainted = true;
            if !wd.slots[s].model_ok { return; }
            let o = observe(wd.slots[s].art.as_ref().unwrap());
            let (lo, hi) = completed(k);
            let mut i = 0;
            loop {
                if i >= lo && model_obs(&o, &wd.slots[s].model) { return; }
                if i >= hi.min(steps.len()) || !wd.slots[s].model.errs(&steps[i]).is_empty() { mismatch(s, 7, "prefix", String::new()); return; }
                accept(s, &steps[i]);
                i += 1;
            }
        }
        Out::Panic(m) => {
            wd.slots[s].tainted = true;
            mismatch(s, class_of(&steps[0]), "panic", format!("op {}: {:?} panicked: {}", uid, k, m));
            wd.slots[s].model_ok = false;
        }
        _ => unreachable!(),
    }
}
/// How many steps of `k` were completed when caller-supplied code inside it unwound: (at least, at most).
fn completed(k: &K) -> (usize, usize) {
    let c = &sim().ctx[sim().cur];
    match (k, c.unwind) {
        // members are taken from the iterator one by one; the last one taken is the one that failed
        (K::Batch { .. }, _) => { let n = (c.cbs[Up::Iter as usize] as usize).saturating_sub(1); (n, n) }
        // a second look at the name may happen before or after the declaration is in force
        (K::DeclareWith { .. }, Some((Up::Name, n))) if n > 1 => (0, 1),
        _ => (0, 0),
    }
}
/// C07: the shadow artifact receives only what was accepted; failed calls must be invisible.
fn settle_shadow(s: usize, k: &K, uid: u32, steps: &[K], out: &Out) {
    let wd = w();
    let sh: *mut Artifact = &mut **wd.slots[s].shadow.as_mut().unwrap();
    let sh = unsafe { &mut *sh };
    let push = |st: &K, sh: &mut Artifact| {
        let r = mutate(sh, st, uid, QUIET);
        if !matches!(r, Out::Ok) { violate("C07 accepted differs", &format!("op {}: step {:?} of {:?} took effect, but on an artifact that never saw the failed calls it returns {}", uid, st, k, r.brief())); }
        if w().slots[s].model_ok && !w().slots[s].model.errs(st).is_empty() { w().slots[s].model_ok = false; }
        accept(s, st);
    };
    let obs = observe(wd.slots[s].art.as_ref().unwrap());
    match out {
        Out::Ok => { for st in steps { push(st, sh); } }
        Out::Panic(_) => { stat("inconclusive", 1); finish("ok", "", ""); }
        Out::Err(e) if steps.len() == 1 => {
            // the same call on an artifact that never saw a failed call
            let mut f = rebuild(&wd.slots[s].init, &wd.slots[s].acc);
            let r = mutate(&mut f, &steps[0], uid, QUIET);
            if !matches!(&r, Out::Err(x) if x == e) { violate("C07 result differs", &format!("op {}: {:?} returned {:?}; on an artifact that never saw the failed calls it returns {}", uid, k, e, r.brief())); }
        }
        _ => {
            // how many steps were completed: predicted by the model for a refusal, by the callbacks made for an unwound call
            let (mut lo, mut hi) = (0, steps.len());
            if matches!(out, Out::Unwound) { let c = completed(k); lo = c.0.min(hi); hi = c.1.min(hi); }
            else if wd.slots[s].model_ok {
                let mut m = wd.slots[s].model.clone();
                let mut j = 0;
                for st in steps { if !m.errs(st).is_empty() { break; } m.accept(st); j += 1; }
                if j < steps.len() { lo = j; hi = j; }
            }
            let mut j = 0;
            loop {
                if j >= lo && same_obs(&obs, &observe(sh)) { break; }
                let bad = |what: &str| -> ! { violate("C07 trace left", &format!("op {}: {:?} returned {} after {} to {} completed steps and left the artifact in a state that these do not explain ({}): undefined {} imports {}", uid, k, out.brief(), lo, hi, what, obs.0.brief(), obs.1.brief())) };
                if j >= hi { bad("observation"); }
                let st = &steps[j];
                let r = mutate(sh, st, uid, QUIET);
                if !matches!(r, Out::Ok) { bad(&format!("step {} alone returns {}", j, r.brief())); }
                if w().slots[s].model_ok && !w().slots[s].model.errs(st).is_empty() { w().slots[s].model_ok = false; }
                accept(s, st);
                j += 1;
            }
        }
    }
    let o2 = observe(sh);
    if !same_obs(&obs, &o2) { violate("C07 observation", &format!("op {}: after {:?} returned {} the artifact reports undefined {} imports {}; one that never saw the failed calls reports {} and {}", uid, k, out.brief(), obs.0.brief(), obs.1.brief(), o2.0.brief(), o2.1.brief())); }
}
fn rebuild(init: &SlotInit, acc: &[K]) -> Box<Artifact> {
    let mut a = new_art(init);
    for k in acc { let _ = mutate(&mut a, k, 0, QUIET); }
    a
}
/// An artifact that received only what the model says is in force.
fn from_model(init: &SlotInit, m: &Model) -> Option<Box<Artifact>> {
    let mut a = new_art(init);
    let n = m.name.clone();
    let _ = run(QUIET, || { a.name = n.as_str().into(); a.target = m.target.clone(); });
    for (n, d, _) in &m.decls { if !mutate(&mut a, &K::Declare { name: n.clone(), decl: *d }, 0, QUIET).is_ok() { return None; } }
    for d in &m.defs { if !mutate(&mut a, &K::DefineSyms { name: d.name.clone(), cont: d.cont, syms: d.syms.iter().map(|(a, b)| (a.clone(), *b)).collect() }, 0, QUIET).is_ok() { return None; } }
    for (f, t, at, r) in &m.links { if !mutate(&mut a, &K::Link { from: f.clone(), to: t.clone(), at: *at, rel: *r }, 1, QUIET).is_ok() { return None; } }
    Some(a)
}

// ------------------------------------------------------------------------------------------------ judging readers
fn target_fmt(m: &Model) -> Fmt { Fmt::of(m.target.binary_format) }
fn bytes_of(o: &Out) -> Option<&Rc<Vec<u8>>> { if let Out::Bytes(b) = o { Some(b) } else { None } }
fn canon(b: &[u8], f: Fmt, m: &Model) -> Option<Vec<String>> {
    guarded(|| match f { Fmt::Elf => elfr::parse(b).ok().map(|e| elfr::canon(&e, m)), Fmt::Macho => machr::parse(b).ok().map(|e| machr::canon(&e, m)), _ => None }).ok().flatten()
}
/// run a reader of the object; if it trips over the object it is the object's fault
fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| format!("the object makes the reader fail ({})", PANIC.with(|p| p.borrow().clone())))
}
fn diff(a: &[String], b: &[String]) -> String {
    let (sa, sb): (BTreeSet<&String>, BTreeSet<&String>) = (a.iter().collect(), b.iter().collect());
    let x: Vec<&&String> = sa.difference(&sb).take(3).collect();
    let y: Vec<&&String> = sb.difference(&sa).take(3).collect();
    format!("only in the first: {:?}; only in the second: {:?} ({} and {} facts)", x, y, a.len(), b.len())
}
/// Judge the result of a query or emission (`k`) on slot `s`. A write that succeeded is judged as an emission.
fn judge(s: usize, k: &K, uid: u32, out: &Out) {
    let wd = w();
    let p = wd.p;
    if matches!(out, Out::Unwound) { stat("emissions_unwound", 1); return; }
    let fmt = match k { K::Emit { fmt } => { stat(match out { Out::Bytes(_) => "emissions", _ => "emissions_refused" }, 1); Some(fmt.unwrap_or(target_fmt(&wd.slots[s].model))) } _ => { stat("queries", 1); None } };
    let sl = &mut wd.slots[s];
    if fmt.is_some() { let h = mix(sl.model.hash(), fmt.unwrap() as u64); wd.rep.states.push(h); }
    match p {
        7 => {
            let r = query(sl.shadow.as_ref().unwrap(), k, QUIET);
            if !r.same(out) { violate(if fmt.is_some() { "C07 emission differs" } else { "C07 query differs" }, &format!("op {}: {:?} returns {}; on an artifact that never saw the failed calls it returns {}", uid, k, out.brief(), r.brief())); }
            return;
        }
        1 | 2 => {
            if sl.tainted || (p == 1 && bytes_of(out).is_none()) { return; }
            let (h, prog) = if p == 1 { (sl.acc_h, &sl.acc) } else { (sl.mut_h, &sl.muts) };
            let kk = (mix(h, s as u64), format!("{:?}", k));
            let e = wd.seen.entry(kk.clone()).or_insert_with(|| { wd.seen_order.push(kk); (RefReq { init: sl.init.clone(), ops: prog.iter().map(|k| (k.clone(), None)).collect(), what: String::new() }, vec![]) });
            let key = key(out);
            if let Some((u0, k0)) = e.1.first() { if *k0 != key { violate(if p == 1 { "C01 bytes differ" } else { "C02 results differ" }, &format!("{:?} on the same state of slot {}: op {} got {}, op {} got {}", k, s, u0, k0, uid, key)); } }
            e.1.push((uid, key));
            if e.0.ops.last().map_or(true, |x| x.1.is_none()) { let key = e.1[0].1.clone(); e.0.ops.push((k.clone(), Some(key))); }
            return;
        }
        15 => return,
        19 => return judge_cost(s, k, uid),
        _ => {}
    }
    if !sl.model_ok { stat("inconclusive", 1); return; }
    let m = &sl.model;
    match k {
        K::Undefined => { if !matches!(out, Out::Names(v) if *v == m.undefined()) { let t = format!("op {}: the undefined-symbols query returns {}; missing are {:?}", uid, out.brief(), m.undefined()); mismatch(s, 4, "query", t); } }
        K::Imports => { let mut got = match out { Out::Imports(v) => v.clone(), _ => vec![(format!("{:?}", out), false)] }; got.sort();
            let want: Vec<_> = m.imports().into_iter().collect();
            if got != want { let t = format!("op {}: the imports listing is {:?}; currently imports are {:?}", uid, got, want); mismatch(s, 5, "imports", t); } }
        _ => judge_emit(s, k, fmt.unwrap(), uid, out),
    }
}
/// What an artifact contains, in bytes (alignments are paid for by padding); the sizes of zero-initialised objects count nothing.
fn amount(m: &Model) -> u64 {
    let mut n = m.name.len() as u64;
    for d in &m.decls { n += d.0.len() as u64 + 64; }
    for d in &m.defs { if !d.cont.is_zero() { n += d.cont.size(); } n += d.decl.align().unwrap_or(0) + 64 + d.syms.keys().map(|k| k.len() as u64 + 64).sum::<u64>(); }
    n + 64 * m.links.len() as u64
}
/// One call, measured, its result dropped.
fn measured(a: &Artifact, k: &K) -> Meter {
    let mut out = Meter::default();
    let _ = sut_quiet(|| {
        meter_start();
        match k {
            K::Imports => drop(a.imports().map(|(n, k)| (n.len(), *k)).collect::<Vec<_>>()),
            K::Undefined => drop(a.undefined_symbols()),
            K::Emit { fmt: None } => drop(a.emit()),
            K::Emit { fmt: Some(f) } => drop(a.emit_as(f.real())),
            _ => {}
        }
        out = meter_stop();
    });
    meter_stop();
    out
}
/// C19: calls on `&self` hold nothing once their result is gone; memory and allocations are bounded by the content.
fn judge_cost(s: usize, k: &K, uid: u32) {
    let wd = w();
    let a: &Artifact = wd.slots[s].art.as_ref().unwrap();
    let ms: Vec<Meter> = (0..3).map(|_| measured(a, k)).collect();
    stat("calls_measured", 3);
    if ms.iter().all(|m| m.blocks > 0) { violate("C19 memory kept", &format!("op {}: {:?}, repeated, keeps {} blocks ({} bytes) each time after its result is gone", uid, k, ms[2].blocks, ms[2].bytes)); }
    if !wd.slots[s].model_ok { return; }
    let n = amount(&wd.slots[s].model);
    let m = ms[2];
    if std::env::var_os("SIM_COST").is_some() { eprintln!("cost {:?} amount {} peak {} ratio {:.2} asked {} per {:.2}", k, n, m.peak, m.peak as f64 / (n as f64 + 512.0), m.asked, m.asked as f64 / (n as f64 / 64.0 + 8.0)); eprintln!("TOTAL {:.2}", m.total as f64 / (n as f64 + 2048.0)); }
    if m.peak as u64 > COST_BYTES * (n + 2048) { violate("C19 memory", &format!("op {}: {:?} held {} bytes at once for an artifact of {} bytes", uid, k, m.peak, n)); }
    if m.total > COST_TOTAL * (n + 2048) { violate("C19 memory traffic", &format!("op {}: {:?} asked for {} bytes in all for an artifact of {} bytes", uid, k, m.total, n)); }
    if m.asked > COST_CALLS * (n / 64 + 64) { violate("C19 allocations", &format!("op {}: {:?} allocated {} times for an artifact of {} bytes", uid, k, m.asked, n)); }
}
const COST_BYTES: u64 = 40;
const COST_TOTAL: u64 = 100;
const COST_CALLS: u64 = 40;
/// The same call unwinds again and again: it must not keep memory each time.
fn judge_unwound_cost(s: usize, op: &Op, first: Meter) {
    if first.blocks <= 0 { return; }
    let a: &Artifact = unsafe { &*(&**w().slots[s].art.as_ref().unwrap() as *const Artifact) };
    let mut last = first;
    for _ in 0..2 {
        let me = sim().cur;
        let c = &mut sim().ctx[me];
        c.fired = false; c.cbs = [0; 5]; c.logs = 0;
        meter_start();
        let o = query(a, &op.k, LIVE);
        last = meter_stop();
        if !matches!(o, Out::Unwound) || last.blocks <= 0 { return; }
    }
    violate("C19 memory kept by unwound", &format!("op {}: {:?}, abandoned by an unwinding log sink, keeps {} blocks ({} bytes) each time", op.uid, op.k, last.blocks, last.bytes));
}
fn judge_emit(s: usize, k: &K, fmt: Fmt, uid: u32, out: &Out) {
    let wd = w();
    let p = wd.p;
    let m = &wd.slots[s].model;
    let und = m.undefined();
    if !und.is_empty() {
        if !matches!(out, Out::Err(ErrV::UndefinedSymbols(v)) if *v == und) { let t = format!("op {}: {:?} returns {} while {:?} lack a definition", uid, k, out.brief(), und); mismatch(s, 4, "missing definitions", t); }
        return;
    }
    if p == 20 && (fmt == Fmt::Elf || fmt == Fmt::Macho) {
        match m.fits(fmt) {
            None => { stat("unspecified_emissions", 1); return; }
            Some(Err(why)) => {
                stat("inexpressible_requests", 1);
                if !matches!(out, Out::Err(_) | Out::Panic(_)) { violate(&format!("C20 accepted {:?} {}", fmt, why), &format!("op {}: emitting as {:?} returns {}, although the format cannot express: {}", uid, fmt, out.brief(), why)); }
                return;
            }
            Some(Ok(())) => {}
        }
        let b = match out { Out::Bytes(b) => b.clone(), o => violate(&format!("C20 refused {:?} {}", fmt, shape(&o.brief())), &format!("op {}: emitting as {:?} returns {}, although the format can express everything that was asked for", uid, fmt, o.brief())) };
        stat("objects_judged", 1);
        let r = guarded(|| -> Result<(), String> { match fmt {
            Fmt::Elf => { let e = elfr::parse(&b)?; elfr::check_defs(&e, m, Focus::All)?; elfr::check_links(&e, m, true) }
            _ => { let e = machr::parse(&b)?; machr::check_defs(&e, m, Focus::All)?; machr::check_links(&e, m, m.elf_arch_x64()) }
        } });
        let e = match r { Ok(Ok(())) => return, Ok(Err(e)) => e, Err(e) => format!("reader: {}", e) };
        violate(&format!("C20 mangled {:?} {}", fmt, shape(&e)), &format!("op {} slot {} {:?}: {}", uid, s, fmt, e));
    }
    match m.supports(fmt) {
        Sup::Unspecified => { stat("unspecified_emissions", 1); return; }
        Sup::Refused => {
            if !matches!(out, Out::Err(ErrV::Unsupported(f)) if *f == fmt) { let t = format!("op {}: emitting as {:?} returns {}; it had to be refused as unsupported, naming that format", uid, fmt, out.brief()); mismatch(s, 4, "unsupported format", t); }
            return;
        }
        // ... but an emission which accepts the link has to keep it
        Sup::Yes => if fmt == Fmt::Elf && m.zero_source() && (!matches!(p, 9 | 17) || !matches!(out, Out::Bytes(_))) { stat("unspecified_emissions", 1); return; },
    }
    let b = match out {
        Out::Bytes(b) => b.clone(),
        o => {
            let t = format!("op {}: emitting as {:?} with nothing missing returns {}", uid, fmt, o.brief());
            if p == 4 || (fmt == Fmt::Elf && [8, 9, 10, 14].contains(&p)) || (fmt == Fmt::Macho && [11, 12, 13, 14].contains(&p)) { violate(&format!("C{:02} emission fails {}", p, shape(&o.brief())), &t); }
            if p == 16 && k_is_final(uid) { wd.rep.lines.push(format!("canon {} {:?} emission fails: {}", s, fmt, shape(&o.brief()))); }
            stat("inconclusive", 1);
            return;
        }
    };
    stat("objects_judged", 1);
    let sl = &wd.slots[s];
    let bad = |key: &str, e: String| -> ! { violate(&format!("C{:02} {} {}", p, key, shape(&e)), &format!("op {} slot {} {:?}: {}", uid, s, fmt, e)) };
    match (p, fmt) {
        (8 | 9 | 10 | 14, Fmt::Elf) => {
            let r = guarded(|| -> Result<(), (&'static str, String)> {
                let e = elfr::parse(&b).map_err(|e| ("unreadable", e))?;
                if e.extended { stat("extended_objects", 1); }
                match p {
                    8 => elfr::check_defs(&e, m, Focus::All).map_err(|e| ("definitions", e)),
                    9 => elfr::check_links(&e, m, true).map_err(|e| ("links", e)),
                    10 => e.problems.first().map_or(Ok(()), |x| Err(("structure", x.clone()))),
                    _ => elfr::check_defs(&e, m, Focus::Zero).map_err(|e| ("storage", e)),
                }
            });
            match r { Ok(Ok(())) => {} Ok(Err((a, e))) => bad(a, e), Err(e) => bad("reader", e) }
        }
        (11 | 12 | 13 | 14, Fmt::Macho) => {
            let r = guarded(|| -> Result<(), (&'static str, String)> {
                let e = machr::parse(&b).map_err(|e| ("unreadable", e))?;
                match p {
                    11 => machr::check_defs(&e, m, Focus::All).map_err(|e| ("definitions", e)),
                    12 => machr::check_links(&e, m, m.elf_arch_x64()).map_err(|e| ("links", e)),
                    13 => e.problems.first().map_or(Ok(()), |x| Err(("structure", x.clone()))),
                    _ => machr::check_defs(&e, m, Focus::Zero).map_err(|e| ("storage", e)),
                }
            });
            match r { Ok(Ok(())) => {} Ok(Err((a, e))) => bad(a, e), Err(e) => bad("reader", e) }
        }
        (18, Fmt::Elf | Fmt::Macho) => {
            if let Err(e) = identity(&b, fmt, &m.target) { bad("identity", e) }
            // everything in the object is in that byte order, of that width, for that machine
            let whole = |b: &[u8], m: &Model| -> Result<(), String> { match guarded(|| whole(b, fmt, m)) { Ok(r) => r, Err(e) => Err(format!("reader: {}", e)) } };
            if let Err(e) = whole(&b, m) {
                // wrong for every target alike: other properties judge that
                let mut init = sl.init.clone();
                init.target = if fmt == Fmt::Elf { "x86_64-unknown-linux-gnu" } else { "x86_64-apple-darwin" }.into();
                let mut m2 = m.clone();
                m2.target = init.target.parse().unwrap();
                match from_model(&init, &m2).map(|a| query(&a, &K::Emit { fmt: Some(fmt) }, QUIET)) {
                    Some(Out::Bytes(t)) if whole(&t, &m2).is_ok() => bad("interior", e),
                    _ => stat("inconclusive", 1),
                }
            }
        }
        (5 | 6 | 17, Fmt::Elf | Fmt::Macho) => {
            // read independently of any other artifact: contents (C06), number of links (C17)
            let r = guarded(|| match (p, fmt) {
                (6, Fmt::Elf) => elfr::parse(&b).ok().map(|e| elfr::check_contents(&e, m)),
                (6, _) => machr::parse(&b).ok().map(|e| machr::check_contents(&e, m)),
                (17, Fmt::Elf) => elfr::parse(&b).ok().map(|e| elfr::check_kept(&e, m)),
                (17, _) => machr::parse(&b).ok().map(|e| machr::check_kept(&e, m)),
                _ => Some(Ok(())),
            });
            match r { Ok(Some(Err(e))) => bad(if p == 6 { "contents" } else { "links" }, e), Ok(Some(Ok(()))) => {} _ => stat("inconclusive", 1) }
            let t = from_model(&sl.init, m).map(|a| query(&a, &K::Emit { fmt: Some(fmt) }, QUIET));
            match (canon(&b, fmt, m), t.as_ref().and_then(bytes_of).and_then(|t| canon(t, fmt, m))) {
                (Some(x), Some(y)) => if x != y {
                    // links belong to C17, contents to C06, declared attributes to C05
                    let rel = |v: &[String]| v.iter().filter(|l| l.starts_with("relocation")).cloned().collect::<Vec<_>>();
                    let non = |v: &[String]| v.iter().filter(|l| !l.starts_with("relocation")).cloned().collect::<Vec<_>>();
                    let d = if p == 17 { (rel(&x), rel(&y)) } else { (non(&x), non(&y)) };
                    if d.0 != d.1 { bad("meaning", format!("the object differs from that of an artifact given only what is in force: {}", diff(&d.0, &d.1))) }
                },
                _ => stat("inconclusive", 1),
            }
        }
        _ => {}
    }
    if p == 14 { judge_zero(s, fmt, uid, &b); }
    if p == 21 { judge_program(s, fmt, uid, &b); }
    if let (16, true) = (p, wd.scen.cfg.alt != 0) { match canon(&b, fmt, m) { Some(c) => { if k_is_final(uid) { for l in c { wd.rep.lines.push(format!("canon {} {:?} {}", s, fmt, one_line(&l))); } } } None => { if k_is_final(uid) { wd.rep.lines.push(format!("canon {} {:?} unreadable object", s, fmt)); } stat("inconclusive", 1) } } }
}
/// C21: the new object and the last ones of the other artifacts, linked into one program.
fn judge_program(s: usize, fmt: Fmt, uid: u32, b: &Rc<Vec<u8>>) {
    let wd = w();
    let m = &wd.slots[s].model;
    if !m.target.to_string().starts_with("x86_64") || m.target.to_string().ends_with("x32") || !matches!(fmt, Fmt::Elf | Fmt::Macho) { stat("inconclusive", 1); return; }
    let mach = fmt == Fmt::Macho;
    wd.objs.insert((mach, s), (b.clone(), m.clone()));
    let n = wd.slots.len();
    // the new one first, last or in between
    let mut order: Vec<usize> = (0..n).filter(|i| wd.objs.contains_key(&(mach, *i))).collect();
    let seed = mix(wd.scen.cfg.seed, uid as u64);
    for i in (1..order.len()).rev() { let j = (mix(seed, i as u64) % (i as u64 + 1)) as usize; order.swap(i, j); }
    if let Some(at) = order.iter().position(|&x| x == s) { let x = order.remove(at); order.insert(0, x); }
    let ms: Vec<&Model> = order.iter().map(|i| &wd.objs[&(mach, *i)].1).collect();
    let mut set: Vec<usize> = link::compatible(&ms, mach).into_iter().map(|i| order[i]).collect();
    let k = (mix(seed, 77) % set.len() as u64) as usize;
    set.rotate_left(k);
    let r = guarded(|| -> Result<link::Done, String> {
        let mut objs = vec![];
        for i in &set { let (b, m) = &wd.objs[&(mach, *i)]; let what = format!("the object of slot {}", i); objs.push(if mach { link::mach_obj(b, m, what)? } else { link::elf_obj(b, m, what)? }); }
        link::link(&mut objs, mach, seed)
    });
    match r {
        Ok(Ok(d)) => { stat("programs_linked", 1); if set.len() > 1 { stat("programs_of_several_objects", 1); } stat("links_followed", d.checked); stat("links_between_objects", d.cross); stat("weak_replaced", d.weak); }
        Ok(Err(e)) => violate(&format!("C21 {:?} {}", fmt, shape(&e)), &format!("op {} {:?}, objects of slots {:?} linked in this order: {}", uid, fmt, set, e)),
        Err(e) => violate("C21 reader", &format!("op {} {:?}: {}", uid, fmt, e)),
    }
}
fn whole(b: &[u8], fmt: Fmt, m: &Model) -> Result<(), String> {
    match fmt {
        Fmt::Elf => { let e = elfr::parse(b)?; if let Some(x) = e.problems.first() { return Err(x.clone()); } elfr::check_defs(&e, m, Focus::All)?; elfr::check_links(&e, m, true) }
        _ => { let e = machr::parse(b)?; if let Some(x) = e.problems.first() { return Err(x.clone()); } machr::check_defs(&e, m, Focus::All)?; machr::check_links(&e, m, false) }
    }
}
/// C18: what the object says it is for. Numbers are those of the processor supplements.
fn identity(b: &[u8], fmt: Fmt, t: &faerie::Triple) -> Result<(), String> {
    let txt = t.to_string();
    let row = ARCHES.iter().find(|r| txt.starts_with(r.0)).ok_or_else(|| format!("harness: no row for {}", txt))?;
    let (_, wide, little, em, cpu) = *row;
    let wide = wide && !txt.ends_with("x32");
    if b.len() < 28 { return Err(format!("{} bytes are no object", b.len())); }
    let n = |o: usize, k: usize| (0..k).fold(0u64, |v, i| v << 8 | b[if little { o + k - 1 - i } else { o + i }] as u64);
    match fmt {
        Fmt::Elf => {
            if &b[..4] != b"\x7fELF" { return Err("no ELF magic".into()); }
            if (b[4], b[5], b[6]) != (1 + wide as u8, 2 - little as u8, 1) { return Err(format!("{} is {}-bit {} endian; the object has class {}, data encoding {}, version {}", txt, if wide { 64 } else { 32 }, if little { "little" } else { "big" }, b[4], b[5], b[6])); }
            if n(16, 2) != 1 { return Err(format!("file type {} instead of relocatable", n(16, 2))); }
            if n(18, 2) != em { return Err(format!("machine {} instead of {} for {}", n(18, 2), em, txt)); }
        }
        _ => {
            let cpu = match cpu { Some(c) => c, None => return Ok(()) };
            if n(0, 4) != 0xfeedface + wide as u64 { return Err(format!("magic {:02x?} for {}", &b[..4], txt)); }
            if n(4, 4) != cpu { return Err(format!("processor {:#x} instead of {:#x} for {}", n(4, 4), cpu, txt)); }
            if n(12, 4) != 1 { return Err(format!("file type {} instead of object", n(12, 4))); }
            // Intel numbers its processors from 3; for ARM, any of the existing ones will do
            let sub = n(8, 4) & 0xff_ffff;
            if !(match cpu & 0xff_ffff { 7 => sub == 3, 12 if wide => sub <= 2, 12 => sub == 0 || (5..=16).contains(&sub), _ => sub == 0 }) { return Err(format!("processor subtype {} for {}", sub, txt)); }
        }
    }
    Ok(())
}
/// (prefix of the triple, 64 bits, little endian, e_machine, cputype)
const ARCHES: [(&str, bool, bool, u64, Option<u64>); 26] = [
    ("x86_64", true, true, 62, Some(0x0100_0007)), ("i686", false, true, 3, Some(7)), ("i586", false, true, 3, Some(7)), ("i386", false, true, 3, Some(7)),
    ("aarch64_be", true, false, 183, Some(0x0100_000c)), ("aarch64", true, true, 183, Some(0x0100_000c)),
    ("armeb", false, false, 40, Some(12)), ("arm", false, true, 40, Some(12)), ("thumb", false, true, 40, Some(12)),
    ("mips64el", true, true, 8, None), ("mips64", true, false, 8, None), ("mipsel", false, true, 8, None), ("mips", false, false, 8, None),
    ("powerpc64le", true, true, 21, Some(0x0100_0012)), ("powerpc64", true, false, 21, Some(0x0100_0012)), ("powerpc", false, false, 20, Some(18)),
    ("riscv64", true, true, 243, None), ("riscv32", false, true, 243, None), ("s390x", true, false, 22, None),
    ("sparc64", true, false, 43, None), ("sparcv9", true, false, 43, None), ("sparc", false, false, 2, Some(14)), ("msp430", false, true, 105, None),
    ("wasm", false, true, 0, None), ("nvptx", true, true, 0, None), ("hexagon", false, true, 164, None),
];
pub const IDENT_T: [&str; 26] = ["x86_64-unknown-linux-gnu", "x86_64-apple-darwin", "x86_64-unknown-linux-gnux32", "i686-unknown-linux-gnu", "i686-apple-darwin", "i586-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "aarch64-apple-ios", "armv7-unknown-linux-gnueabihf", "arm-unknown-linux-gnueabi", "armebv7r-none-eabi", "thumbv7em-none-eabi", "mips-unknown-linux-gnu", "mipsel-unknown-linux-gnu", "mips64-unknown-linux-gnuabi64", "mips64el-unknown-linux-gnuabi64", "powerpc-unknown-linux-gnu", "powerpc64-unknown-linux-gnu", "powerpc64le-unknown-linux-gnu", "riscv64gc-unknown-linux-gnu", "riscv32imac-unknown-none-elf", "s390x-unknown-linux-gnu", "sparc64-unknown-linux-gnu", "sparcv9-sun-solaris", "sparc-unknown-linux-gnu", "msp430-none-elf"];
fn k_is_final(uid: u32) -> bool { w().scen.ops.iter().any(|o| o.uid == uid && o.phase >= 2) }
/// C14: sizes of zero-initialised objects add nothing to the file, and their presence disturbs no relocation.
fn judge_zero(s: usize, fmt: Fmt, uid: u32, b: &[u8]) {
    let wd = w();
    let sl = &wd.slots[s];
    let m = &sl.model;
    if !m.defs.iter().any(|d| d.cont.is_zero()) { return; }
    let mut m2 = m.clone();
    for d in m2.defs.iter_mut() { if let Cont::Zero(n) = &mut d.cont { *n = 1.min(*n); } }
    if let Some(Out::Bytes(t)) = from_model(&sl.init, m).map(|a| query(&a, &K::Emit { fmt: Some(fmt) }, QUIET)) {
        if let Some(Out::Bytes(z)) = from_model(&sl.init, &m2).map(|a| query(&a, &K::Emit { fmt: Some(fmt) }, QUIET)) {
            if t.len() != z.len() || t.len() != b.len() { violate("C14 file size", &format!("op {}: the {:?} object has {} bytes; with all zero-initialised objects shrunk to one byte it has {}", uid, fmt, b.len().max(t.len()), z.len())); }
        }
    }
    // without the zero-initialised objects, are the links right? if so they have to be right with them
    let links = |b: &[u8], m: &Model| -> Option<Result<(), String>> { guarded(|| match fmt { Fmt::Elf => elfr::parse(b).ok().map(|e| elfr::check_links(&e, m, false)), _ => machr::parse(b).ok().map(|e| machr::check_links(&e, m, false)) }).ok().flatten() };
    if let Some(Err(e)) = links(b, m) {
        let zero: BTreeSet<String> = m.defs.iter().filter(|d| d.cont.is_zero()).map(|d| d.name.clone()).collect();
        let mut m3 = Model::new(&sl.init);
        m3.name = m.name.clone(); m3.target = m.target.clone();
        for (n, d, _) in &m.decls { if !zero.contains(n) { m3.declare(n, *d); } }
        for d in &m.defs { if !zero.contains(&d.name) { m3.define(&d.name, &d.cont, &d.syms); } }
        for l in &m.links { if !zero.contains(&l.0) && !zero.contains(&l.1) { m3.links.push(l.clone()); } }
        if let Some(Out::Bytes(t)) = from_model(&sl.init, &m3).map(|a| query(&a, &K::Emit { fmt: Some(fmt) }, QUIET)) {
            if let Some(Ok(())) = links(&t, &m3) { violate("C14 links disturbed", &format!("op {}: {:?}: right without the zero-initialised objects, wrong with them: {}", uid, fmt, e)); }
        }
    }
}

// ------------------------------------------------------------------------------------------------ files
fn memfd(prefill: u32, pos: u32) -> i32 {
    unsafe {
        let fd = libc::memfd_create(b"sink\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
        assert!(fd >= 0);
        let v = prefill_bytes(prefill);
        let mut o = 0;
        while o < v.len() { let r = raw_write(fd, &v[o..]); assert!(r > 0); o += r as usize; }
        libc::lseek(fd, pos as i64, libc::SEEK_SET);
        fd
    }
}
fn prefill_bytes(n: u32) -> Vec<u8> { (0..n).map(|i| (i.wrapping_mul(37) >> 2) as u8 ^ 0xA5).collect() }
fn content(fd: i32) -> Vec<u8> {
    let mut v = vec![]; let mut b = vec![0u8; 1 << 16];
    loop { let r = unsafe { libc::pread(fd, b.as_mut_ptr() as *mut _, b.len(), v.len() as i64) }; if r <= 0 { return v; } v.extend_from_slice(&b[..r as usize]); }
}
/// is `c` the earlier content followed (at `pos`) by a prefix of `b`? returns the prefix length
fn prefix_of(c: &[u8], prefill: &[u8], pos: usize, b: &[u8]) -> Option<usize> {
    let n = if c.len() > prefill.len() || (c.len() == prefill.len() && pos < c.len()) { // longest agreeing prefix
        let mut n = 0; while pos + n < c.len() && n < b.len() && c[pos + n] == b[n] { n += 1; } n
    } else { 0 };
    // any shorter prefix that explains the rest
    for n in (0..=n).rev() {
        let mut e = prefill.to_vec();
        if n > 0 { if e.len() < pos + n { e.resize(pos + n, 0); } e[pos..pos + n].copy_from_slice(&b[..n]); }
        if e == c { return Some(n); }
        if n > 0 && c.len() > prefill.len().max(pos + n) { return None; }
    }
    None
}
fn sink_rt(fd: i32, sink: &Sink) -> SinkRt {
    if sink.kind == 1 { unsafe { let r = libc::fcntl(fd, libc::F_SETFL, libc::O_APPEND | libc::O_RDWR); assert!(r == 0); } }
    stat(match sink.kind { 0 => "sink.file", 1 => "sink.appending", _ => "sink.pipe" }, 1);
    SinkRt { fd, ino: inode(fd), kind: sink.kind, faults: sink.faults.clone(), ..Default::default() }
}
struct Wres { out: Out, fd: i32 }
fn do_write(a: &Artifact, fmt: Option<Fmt>, sink: &Sink, h: How, crash: Option<Crash>) -> (Wres, SinkRt) {
    let keep = memfd(sink.prefill, sink.pos);
    let fd = unsafe { libc::dup(keep) };
    let s = sim();
    let me = s.cur;
    s.ctx[me].sink = Some(Box::new(sink_rt(fd, sink)));
    s.ctx[me].crash = crash;
    let f = unsafe { File::from_raw_fd(fd) };
    let r = match fmt { None => run(h, || a.write(f)), Some(x) => { let x = x.real(); run(h, || a.write_as(f, x)) } };
    let rt = *sim().ctx[me].sink.take().unwrap();
    sim().ctx[me].crash = None;
    let out = out_of(r, |_| Out::Ok);
    if w().p == 19 {
        let open = (3..400).filter(|&f| f != keep && inode(f) == rt.ino).count();
        if open > 0 { violate("C19 descriptor", &format!("a write returned {} and left {} descriptors of its file open", out.brief(), open)); }
    }
    (Wres { out, fd: keep }, rt)
}
/// Perform and judge one write. Returns the result as an emission result where it is one.
fn write_op(s: usize, op: &Op, fmt: Option<Fmt>, sink: &Sink) -> Option<Out> {
    let wd = w();
    let a: &Artifact = unsafe { &*(&**wd.slots[s].art.as_ref().unwrap() as *const Artifact) };
    let (r, rt) = do_write(a, fmt, sink, LIVE, None);
    stat("writes", 1);
    let c = content(r.fd);
    let at = unsafe { libc::lseek(r.fd, 0, libc::SEEK_CUR) };
    unsafe { libc::close(r.fd); }
    let clean = !sink.faults.iter().any(|f| matches!(f, Fault::Zero | Fault::Err(_)));
    let pre = prefill_bytes(sink.prefill);
    if wd.p == 20 && c != pre {
        let m = &wd.slots[s].model;
        let f = fmt.unwrap_or(target_fmt(m));
        if wd.slots[s].model_ok && (!m.undefined().is_empty() || matches!(m.fits(f), Some(Err(_)))) { violate("C20 written on refusal", &format!("op {}: a write which had to be refused ({}) changed the file", op.uid, r.out.brief())); }
    }
    if wd.p == 3 { judge_write(s, op.uid, fmt, sink, &r.out, &rt, &c, at); }
    if wd.p == 3 && sink.retry && !matches!(r.out, Out::Unwound) { retry(s, op.uid, fmt); }
    match &r.out {
        Out::Ok => { let p = sink.start(); let end = if rt.log.is_empty() { c.len() } else { rt.log.iter().filter(|e| e.weird.is_none() && e.ret > 0).map(|e| e.pos as usize + e.ret as usize).max().unwrap_or(p) };
            let _ = pre; if p <= end && end <= c.len() { Some(Out::Bytes(Rc::new(c[p..end].to_vec()))) } else { Some(Out::Bytes(Rc::new(vec![]))) } }
        Out::Err(ErrV::Io(..)) => if clean { Some(r.out) } else { None },
        _ => Some(r.out),
    }
}
fn retry(s: usize, uid: u32, fmt: Option<Fmt>) {
    let wd = w();
    let a: &Artifact = unsafe { &*(&**wd.slots[s].art.as_ref().unwrap() as *const Artifact) };
    let e = query(a, &K::Emit { fmt }, QUIET);
    let (r, _) = do_write(a, fmt, &Sink::default(), QUIET, None);
    let c = content(r.fd);
    unsafe { libc::close(r.fd); }
    stat("retries", 1);
    if let Out::Bytes(b) = &e { if !matches!(r.out, Out::Ok) || c != **b { violate("C03 retry", &format!("op {}: after the faults stopped, writing to a fresh file returns {} and leaves {} of {} bytes", uid, r.out.brief(), c.len(), b.len())); } }
}
fn judge_write(s: usize, uid: u32, fmt: Option<Fmt>, sink: &Sink, out: &Out, rt: &SinkRt, c: &[u8], at: i64) {
    let wd = w();
    let a: &Artifact = unsafe { &*(&**wd.slots[s].art.as_ref().unwrap() as *const Artifact) };
    let e = query(a, &K::Emit { fmt }, QUIET);
    let pre = prefill_bytes(sink.prefill);
    let pos = sink.start();
    let v = |key: &str, t: String| -> ! { violate(&format!("C03 {}", key), &format!("op {} write {:?} ({} write calls, faults {:?}) returned {}: {}", uid, fmt, rt.calls, sink.faults, out.brief(), t)) };
    if matches!(out, Out::Unwound) {
        // abandoned: whatever was written is a prefix
        if let Out::Bytes(b) = &e { if prefix_of(c, &pre, pos, b).is_none() { v("unwound content", "the file is not its earlier content followed by a prefix of the object".into()) } }
        return;
    }
    let b = match &e {
        Out::Bytes(b) => b,
        Out::Unwound => return,
        e => {
            if c != pre.as_slice() || rt.log.iter().any(|x| x.weird.is_none() || x.weird.as_deref() == Some("ftruncate")) { v("written on failure", format!("emission fails ({}), yet the file was touched", e.brief())) }
            if !e.same(out) { v("emission error", format!("emission returns {}", e.brief())) }
            return;
        }
    };
    // the file at every instant
    let mut virt = pre.clone();
    for ev in &rt.log {
        match ev.weird.as_deref() {
            Some("ftruncate") => virt.resize(ev.pos.max(0) as usize, 0),
            Some(_) => {}
            None => if ev.ret > 0 { let (p, n) = (ev.pos as usize, ev.ret as usize); if virt.len() < p + n { virt.resize(p + n, 0); } virt[p..p + n].copy_from_slice(&ev.data[..n]); }
        }
        if prefix_of(&virt, &pre, pos, b).is_none() { v("not a prefix", format!("after a system call the file ({} bytes) is not its earlier content followed by a prefix of the object ({} bytes at {})", virt.len(), b.len(), pos)) }
    }
    if virt != c { v("unseen write", "the file was changed other than by its write calls".into()) }
    let done = prefix_of(c, &pre, pos, b).unwrap_or(0);
    let once: u64 = rt.log.iter().filter(|e| e.weird.is_none() && e.ret > 0).map(|e| e.ret as u64).sum();
    match (out, rt.fatal) {
        (Out::Ok, None) => { if done != b.len() { v("incomplete", format!("success reported with {} of {} bytes", done, b.len())) } if once != b.len() as u64 { v("not once", format!("{} bytes were written for an object of {}", once, b.len())) } if at != (pos + b.len()) as i64 { v("position", format!("the object ends at {}, the position of the file is {}: what is written next does not follow it", pos + b.len(), at)) } }
        (Out::Ok, Some(e)) => v("swallowed", format!("the system reported error {} and the call reports success", e)),
        (Out::Err(ErrV::Io(Some(x), _)), Some(e)) => if *x != e { v("other error", format!("the system reported error {}, the caller sees {}", e, x)) },
        // a write that took nothing is a failure of its own, when it came first
        (Out::Err(ErrV::Io(None, _)), Some(_)) if rt.zero_first => {}
        (_, Some(e)) => v("error lost", format!("the system reported error {}", e)),
        (Out::Err(ErrV::Io(..)), None) if rt.zero => {}
        (o, None) => v("spurious error", format!("no failure was injected: {}", o.brief())),
    }
}
fn crash_write(s: usize, op: &Op, fmt: Option<Fmt>, sink: &Sink, crash: Crash) {
    let wd = w();
    let a: &Artifact = unsafe { &*(&**wd.slots[s].art.as_ref().unwrap() as *const Artifact) };
    let e = query(a, &K::Emit { fmt }, QUIET);
    let keep = memfd(sink.prefill, sink.pos);
    stat("crash_runs", 1);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        sim().solo = true;
        let s = sim();
        let me = s.cur;
        let fd = unsafe { libc::dup(keep) };
        s.ctx[me].sink = Some(Box::new(sink_rt(fd, sink)));
        s.ctx[me].crash = Some(crash);
        let f = unsafe { File::from_raw_fd(fd) };
        let r = match fmt { None => sut(|| a.write(f)), Some(x) => { let x = x.real(); sut(|| a.write_as(f, x)) } };
        exit_now(match r { Ok(Ok(())) => 0, Ok(Err(ArtifactError::Io(_))) => 1, Ok(Err(_)) => 2, Err(_) => 3 });
    }
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
    let c = content(keep);
    unsafe { libc::close(keep); }
    let died = libc::WIFSIGNALED(st);
    if died { stat(match crash { Crash::AllocFail(_) => "fault.crash_allocation_failure", Crash::KillAlloc(_) => "fault.crash_kill_in_emission", Crash::KillWrite(..) => "fault.crash_kill_in_write", Crash::AbortLog(_) => "fault.crash_abort_in_log" }, 1); }
    let pre = prefill_bytes(sink.prefill);
    match &e {
        Out::Bytes(b) => {
            match prefix_of(&c, &pre, sink.start(), b) {
                None => violate("C03 crash content", &format!("op {}: after a crash ({:?}, faults {:?}) the file ({} bytes) is not its earlier content ({} bytes) followed at {} by a prefix of the object ({} bytes)", op.uid, crash, sink.faults, c.len(), pre.len(), sink.start(), b.len())),
                Some(n) => if !died && libc::WEXITSTATUS(st) == 0 && n != b.len() { violate("C03 incomplete", &format!("op {}: success reported with {} of {} bytes", op.uid, n, b.len())) },
            }
        }
        _ => if c != pre { violate("C03 written on failure", &format!("op {}: emission fails, yet the file was touched", op.uid)) },
    }
    if sink.retry { retry(s, op.uid, fmt); }
}

// ------------------------------------------------------------------------------------------------ the clients
fn note(s: usize, k: &K, out: &Out, mutator: bool) {
    let wd = w();
    let sl = &mut wd.slots[s];
    if wd.p == 2 && mutator { sl.mut_h = mix(sl.mut_h, hash_bytes(1, step_text(k).as_bytes())); sl.muts.push(k.clone()); }
    if wd.p == 15 { sl.calls.push((k.clone(), key(out))); }
}
fn mut_op(s: usize, k: &K, uid: u32) {
    let wd = w();
    let a: &mut Artifact = unsafe { &mut *(&mut **wd.slots[s].art.as_mut().unwrap() as *mut Artifact) };
    let out = mutate(a, k, uid, LIVE);
    if !matches!(out, Out::Unwound) { note(s, k, &out, true); }
    settle(s, k, uid, &out);
}
fn read_op(s: usize, op: &Op) {
    let wd = w();
    let a: &Artifact = unsafe { &*(&**wd.slots[s].art.as_ref().unwrap() as *const Artifact) };
    match &op.k {
        K::Write { fmt, sink } => {
            if let Some(out) = write_op(s, op, *fmt, sink) { let k = K::Emit { fmt: *fmt }; if !matches!(out, Out::Unwound) { note(s, &k, &out, false); } judge(s, &k, op.uid, &out); }
        }
        K::CrashWrite { fmt, sink, crash } => crash_write(s, op, *fmt, sink, *crash),
        K::EmitMany { fmt, n } => emit_many(s, op, *fmt, *n),
        k => { if wd.p == 19 { meter_start(); } let out = query(a, k, LIVE); let mt = meter_stop(); if wd.p == 19 && matches!(out, Out::Unwound) { judge_unwound_cost(s, op, mt); } if !matches!(out, Out::Unwound) { note(s, k, &out, false); } judge(s, k, op.uid, &out); }
    }
}
/// Whatever was emitted before, the result is the same, and nothing accumulates.
fn emit_many(s: usize, op: &Op, fmt: Option<Fmt>, n: u32) {
    let p = w().p;
    let a: &Artifact = unsafe { &*(&**w().slots[s].art.as_ref().unwrap() as *const Artifact) };
    let k = K::Emit { fmt };
    let first = query(a, &k, QUIET);
    let mut from = (0, 0);
    for i in 0..n {
        if p == 19 { measured(a, &k); if i == 2 { from = held(); } continue; }
        let o = query(a, &k, QUIET);
        let same = match (&o, &first) { (Out::Bytes(a), Out::Bytes(b)) => a == b, _ => key(&o) == key(&first) };
        if !same && (p == 1 || p == 2) { violate(if p == 1 { "C01 bytes differ" } else { "C02 results differ" }, &format!("op {}: {:?} of slot {}: the first returned {}, repetition {} {}", op.uid, fmt, s, first.brief(), i + 1, o.brief())); }
    }
    stat("repeated_emissions", n as u64);
    if p == 19 && n > 3 { let (b, t) = held(); if b > from.0 + 1 { violate("C19 memory accumulates", &format!("op {}: {} emissions ({:?}) of slot {} keep {} blocks ({} bytes)", op.uid, n - 3, fmt, s, b - from.0, t - from.1)); } }
}
/// Small artifacts come and go; the process must not remember them.
fn churn(n: u32, tag: u64, uid: u32) {
    let p = w().p;
    let mut from = (0, 0);
    for i in 0..n {
        let h = mix(tag, i as u64 / 2);
        let init = SlotInit { name: format!("c{}.o", h % 97), target: IDENT_T[(h >> 8) as usize % if h >> 16 & 1 == 0 { 2 } else { IDENT_T.len() }].into() };
        let mut a = new_art(&init);
        let fun = format!("f{}", h >> 20 & 7);
        let (d, e) = (format!("d{}", h >> 24 & 0xff), format!("e{}", h >> 32 & 1));
        let fdecl = MDecl::Fn { scope: (h >> 33 & 1) as u8, vis: 0, align: None };
        for k in [K::Declare { name: fun.clone(), decl: fdecl }, K::Import { name: e.clone(), f: true }, K::Define { name: fun.clone(), cont: Cont::Blob { tag: h, len: 16 + (h >> 40 & 63) as u32 } },
            K::Declare { name: d.clone(), decl: MDecl::Data { scope: 0, vis: 0, w: true, s: false, align: None } }, K::Define { name: d, cont: if h >> 50 & 1 == 0 { Cont::Zero(h >> 51) } else { Cont::Blob { tag: !h, len: 9 } } }, K::Link { from: fun, to: e, at: 4, rel: MRel::Auto }] { mutate(&mut a, &k, uid, QUIET); }
        let k = K::Emit { fmt: None };
        let x = key(&query(&a, &k, QUIET));
        let y = key(&query(&a, &k, QUIET));
        if x != y && (p == 1 || p == 2) { violate(if p == 1 { "C01 bytes differ" } else { "C02 results differ" }, &format!("op {}: a small artifact for {} emitted twice: {} and {}", uid, init.target, x, y)); }
        let _ = sut_quiet(move || drop(a));
        if p == 19 && i == 8 { from = held(); }
    }
    stat("passing_artifacts", n as u64);
    if p == 19 && n > 60 { let (b, t) = held(); if b > from.0 + n as i64 / 16 { violate("C19 memory accumulates", &format!("op {}: {} artifacts, emitted and dropped, keep {} blocks ({} bytes)", uid, n - 9, b - from.0, t - from.1)); } }
}
/// the lineage of a slot ends here: remember it for replay on a fresh artifact (C15)
fn retire(s: usize) {
    let wd = w();
    let sl = &mut wd.slots[s];
    if wd.p == 15 && !sl.tainted && sl.calls.len() > sl.checked as usize && wd.lineage_refs.len() < 6 {
        sl.checked = sl.calls.len() as u64;
        wd.lineage_refs.push(RefReq { init: sl.init.clone(), ops: sl.calls.iter().map(|(k, o)| (k.clone(), Some(o.clone()))).collect(), what: format!("C15 slot {}", s) });
    }
}
fn copy_op(me: usize, src: usize, dst: usize) {
    if src == dst { return; }
    for s in [src.min(dst), src.max(dst)] { lock(me, s, s == dst); }
    let wd = w();
    let a: &Artifact = unsafe { &*(&**wd.slots[src].art.as_ref().unwrap() as *const Artifact) };
    match sut(|| Box::new(a.clone())) {
        Ok(c) => {
            stat("copies", 1);
            retire(dst);
            let shadow = if wd.p == 7 { Some(rebuild(&wd.slots[src].init, &wd.slots[src].acc)) } else { None };
            let sl = &wd.slots[src];
            let n = Slot { init: sl.init.clone(), art: Some(c), shadow, model: sl.model.clone(), model_ok: sl.model_ok, tainted: sl.tainted, acc: sl.acc.clone(), acc_h: sl.acc_h, calls: sl.calls.clone(), muts: sl.muts.clone(), mut_h: sl.mut_h, readers: 0, writer: true, checked: 0 };
            let old = std::mem::replace(&mut wd.slots[dst], n);
            let art = old.art;
            let _ = sut(move || drop(art)); // the previous artifact of that slot goes away
        }
        Err(p) => if !p.is::<Injected>() { let t = format!("copying slot {} panicked", src); if wd.p == 15 { violate("C15 copy panics", &t) } },
    }
    for s in [src.min(dst), src.max(dst)] { unlock(s, s == dst); }
}
fn fresh_op(me: usize, s: usize, init: usize) {
    lock(me, s, true);
    retire(s);
    let wd = w();
    stat("replaced", 1);
    let init = wd.scen.slots[init % wd.scen.slots.len()].clone();
    let mut n = slot_new(&init, wd.p, wd.slots[s].model.strict);
    let old = &mut wd.slots[s];
    // in place: the new artifact lives where the old one did
    let new = n.art.take().unwrap();
    let b = old.art.as_mut().unwrap();
    let _ = sut(move || { **b = *new; });
    n.art = old.art.take();
    n.writer = true;
    *old = n;
    unlock(s, true);
}
fn body(me: usize) {
    let wd = w();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for &i in &wd.script[me] {
            let op: &Op = unsafe { &*(&w().scen.ops[i] as *const Op) };
            wait_phase(op.phase);
            sim().ctx[me] = OpCtx { uid: op.uid, unwind: op.unwind, stall: op.stall, ..Default::default() };
            yield_op();
            let s = op.slot as usize;
            match &op.k {
                K::Imports | K::Undefined | K::Emit { .. } | K::Write { .. } | K::CrashWrite { .. } | K::EmitMany { .. } => { lock(me, s, false); read_op(s, op); unlock(s, false); }
                K::Copy { dst } => copy_op(me, s, *dst as usize),
                K::Fresh { init } => fresh_op(me, s, *init as usize),
                K::Finish { tag } => {
                    lock(me, s, true);
                    let names = match query(w().slots[s].art.as_ref().unwrap(), &K::Undefined, QUIET) { Out::Names(v) => v, _ => vec![] };
                    for n in names {
                        let h = mix(*tag, hash_bytes(3, n.as_bytes()));
                        let sl = &w().slots[s];
                        let decl = sl.model.get(&n).map(|d| d.1);
                        // (the padding of a huge alignment would have to be held in memory)
                        let zero = decl.map_or(false, |d| d.is_data() && (d.align().unwrap_or(1) > 1 << 17 || h % 4 == 0 && !sl.model.links.iter().any(|l| l.0 == n)));
                        let cont = if zero { Cont::Zero(h >> 8 & 0xfff) } else { Cont::Blob { tag: h, len: max_at(&sl.model, &n).max((h >> 32 & 31) as u32) } };
                        mut_op(s, &K::Define { name: n, cont }, op.uid);
                    }
                    unlock(s, true);
                }
                K::Churn { n, tag } => churn(*n, *tag, op.uid),
                K::Bulk { .. } | K::BulkLinks { .. } => {
                    lock(me, s, true);
                    let a: &mut Artifact = unsafe { &mut *(&mut **w().slots[s].art.as_mut().unwrap() as *mut Artifact) };
                    for k in Model::steps(&op.k) { let o = mutate(a, &k, op.uid, QUIET); note(s, &k, &o, true); settle(s, &k, op.uid, &o); }
                    unlock(s, true);
                }
                k => { lock(me, s, true); mut_op(s, k, op.uid); unlock(s, true); }
            }
            if op.unwind.is_some() && !sim().ctx[me].fired { stat("unwinds_not_reached", 1); }
        }
    }));
    if r.is_err() { finish("harness", "harness", &PANIC.with(|p| p.borrow().clone())); }
    // nothing of the idle client counts any more
}
fn max_at(m: &Model, n: &str) -> u32 { m.links.iter().filter(|l| l.0 == n).map(|l| l.2.saturating_add(9).min(1 << 16) as u32).max().unwrap_or(0) }

fn set_env(e: u8) {
    if e == 0 { return; }
    HOST.store(e as u32, std::sync::atomic::Ordering::SeqCst);
    let set = |k: &str, v: String| std::env::set_var(k, v);
    for k in ["SOURCE_DATE_EPOCH", "RUST_LOG", "TZ", "LANG", "HOME", "USER", "HOSTNAME", "PWD", "TMPDIR", "DEBUG"] { set(k, format!("{}", mix(e as u64, hash_bytes(0, k.as_bytes())) % 100_000)); }
    let _ = std::env::set_current_dir(["/", "/tmp", "/usr/lib", "/"][e as usize % 4]);
}
fn slot_new(s: &SlotInit, p: u8, strict: bool) -> Slot {
    let mut model = Model::new(s);
    model.strict = strict;
    let ih = mix(hash_bytes(1, s.name.as_bytes()), hash_bytes(2, s.target.as_bytes()));
    Slot { init: s.clone(), art: Some(new_art(s)), shadow: if p == 7 { Some(new_art(s)) } else { None }, model, model_ok: true, tainted: false, acc: vec![], acc_h: ih, calls: vec![], muts: vec![], mut_h: ih, readers: 0, writer: false, checked: 0 }
}
fn mode_of(s: &str) -> Mode {
    match s.split_once(':') { Some(("random", p)) => Mode::Random(p.parse().unwrap()), Some(("pct", d)) => Mode::Pct(d.parse().unwrap()), _ => if s == "replay" { Mode::Replay } else { Mode::Ops } }
}
/// Run the whole scenario and report on `fd`. Never returns.
pub fn simulate(scen: &Scen, second: bool, fd: i32) -> ! {
    hook();
    let c = &scen.cfg;
    set_env(c.env);
    heap_perturb(c.heap);
    set_log(c.log);
    let n = scen.clients.max(1) as usize;
    let mut script = vec![vec![]; n];
    for (i, o) in scen.ops.iter().enumerate() { script[o.client as usize % n].push(i); }
    let bulk: u64 = scen.ops.iter().map(|o| match o.k { K::Bulk { n, .. } | K::BulkLinks { n, .. } => n as u64, K::Churn { n, .. } | K::EmitMany { n, .. } => n as u64 / 8, _ => 0 }).sum();
    let p = pnum(&scen.prop);
    // a quiet artifact is created by the controller, outside the simulation proper
    let slots = scen.slots.iter().map(|s| slot_new(s, p, c.strict_names)).collect();
    let world = Box::new(World { scen: scen.clone(), p, script, slots, rep: Rep::default(), seen: BTreeMap::new(), seen_order: vec![], lineage_refs: vec![], fd, objs: BTreeMap::new() });
    unsafe { WORLD = Box::into_raw(world); }
    let (mode, seed, sched) = if second { (if c.mode == "replay" { Mode::Replay } else { mode_of(&c.mode) }, c.alt, &scen.sched2) } else { (mode_of(&c.mode), c.seed, &scen.sched) };
    let steps = 20_000 + scen.ops.len() as u64 * 200_000 + bulk * 4_000;
    Sim::install(n, mode, seed, sched, steps, fatal);
    let ent: Vec<u64> = (0..n).map(|i| mix(c.hash, i as u64) | 1).collect();
    let pads: Vec<usize> = (0..n).map(|i| c.pads.get(i).copied().unwrap_or(0) as usize % 64).collect();
    run_threads(n, &ent, &pads, body);
    finalise();
    finish("ok", "", "")
}
fn finalise() {
    let wd = w();
    for s in 0..wd.slots.len() { let h = wd.slots[s].model.hash(); wd.rep.states.push(h); }
    let p = wd.p;
    if p == 19 {
        for sl in wd.slots.iter_mut() { let (a, b) = (sl.art.take(), sl.shadow.take()); let _ = sut_quiet(move || { drop(a); drop(b); }); }
        let (blocks, bytes) = held();
        stat("final_balances", 1);
        if blocks > 12 { violate("C19 memory after the end", &format!("after every artifact and result is gone {} blocks ({} bytes) are still held", blocks, bytes)); }
        return;
    }
    let mut reqs: Vec<RefReq> = vec![];
    if p == 1 || p == 2 {
        let order = std::mem::take(&mut wd.seen_order);
        let skip = order.len().saturating_sub(8);
        for k in order.into_iter().skip(skip) { let (mut r, outs) = wd.seen.remove(&k).unwrap(); r.what = format!("{} ({} calls, first op {})", if p == 1 { "C01" } else { "C02" }, outs.len(), outs[0].0);
            if p == 1 { for _ in 0..k.0 % 3 { let l = r.ops.last().unwrap().clone(); r.ops.push(l); } }
            reqs.push(r); }
        if p == 1 { // one with everything in a row
            for s in 0..wd.slots.len() { let sl = &wd.slots[s]; if sl.tainted { continue; } let mut ops: Vec<(K, Option<String>)> = vec![];
                for (i, k) in sl.acc.iter().enumerate() { ops.push((k.clone(), None)); if i % 5 == 4 { ops.push((K::Emit { fmt: Some(if i % 2 == 0 { Fmt::Elf } else { Fmt::Macho }) }, None)); } }
                let mut n = 0;
                for f in [None, Some(Fmt::Elf), Some(Fmt::Macho)] { let k = K::Emit { fmt: f }; if let Out::Bytes(b) = query(sl.art.as_ref().unwrap(), &k, QUIET) { ops.push((k, Some(key(&Out::Bytes(b))))); n += 1; } }
                if n > 0 { reqs.push(RefReq { init: sl.init.clone(), ops, what: format!("C01 slot {} at the end", s) }); } }
        }
    }
    if p == 15 { for s in 0..wd.slots.len() { retire(s); } reqs = std::mem::take(&mut wd.lineage_refs); }
    if p == 7 { for s in 0..wd.slots.len().min(3) { let sl = &wd.slots[s]; let mut ops: Vec<(K, Option<String>)> = sl.acc.iter().map(|k| (k.clone(), None)).collect();
        for k in [K::Undefined, K::Imports, K::Emit { fmt: Some(Fmt::Elf) }, K::Emit { fmt: Some(Fmt::Macho) }] { let o = query(sl.art.as_ref().unwrap(), &k, QUIET); ops.push((k, Some(key(&o)))); }
        reqs.push(RefReq { init: sl.init.clone(), ops, what: format!("C07 slot {}", s) }); } }
    for r in reqs {
        wd.rep.lines.push(format!("ref {} {} {}", enc(&r.init.name), r.init.target, one_line(&r.what)));
        for (k, e) in r.ops { wd.rep.lines.push(format!("refop {}", step_text(&k))); if let Some(e) = e { wd.rep.lines.push(format!("refexp {}", one_line(&e))); } }
    }
}

// ------------------------------------------------------------------------------------------------ reference executions
struct RefRun { init: SlotInit, ops: Vec<(K, Option<String>)>, fd: i32, what: String }
static mut REF: *mut RefRun = std::ptr::null_mut();
fn ref_say(fd: i32, s: String) -> ! { let mut b = s.as_bytes(); while !b.is_empty() { let r = raw_write(fd, b); if r <= 0 { break; } b = &b[r as usize..]; } exit_now(0) }
fn ref_body(_: usize) {
    let r = unsafe { &mut *REF };
    let mut a = new_art(&r.init);
    for (i, (k, exp)) in r.ops.iter().enumerate() {
        let out = match k { K::Imports | K::Undefined | K::Emit { .. } => query(&a, k, QUIET), _ => mutate(&mut a, k, 1, QUIET) };
        if let Some(e) = exp { let got = one_line(&key(&out)); if got != *e { ref_say(r.fd, format!("step {} of {}: {:?} gave {} in the simulation and {} in the reference execution", i, r.what, k, e, got)); } }
    }
    ref_say(r.fd, "same".into())
}
/// A lone caller in a process of its own. `vary`: under different hash seeds, heap layout, clock, environment, log level.
pub fn reference(init: SlotInit, ops: Vec<(K, Option<String>)>, what: String, cfg: &Cfg, vary: u64, fd: i32) -> ! {
    hook();
    let (hash, heap, env, log) = if vary != 0 { (mix(cfg.alt, vary), mix(cfg.alt, vary + 100), (cfg.env.wrapping_add(vary as u8)) % 251, (cfg.log + vary as u8) % 5) } else { (cfg.hash, cfg.heap, 0, 0) };
    set_env(env); heap_perturb(heap); set_log(log);
    unsafe { REF = Box::into_raw(Box::new(RefRun { init, ops, fd, what })); WORLD = std::ptr::null_mut(); }
    fn f(m: &str) -> ! { let r = unsafe { &*REF }; ref_say(r.fd, format!("the reference execution stopped: {}", m)) }
    Sim::install(1, Mode::Ops, 1, &[], 1 << 30, f);
    if vary != 0 { sim().clock = sim().clock.wrapping_add(mix(vary, cfg.alt) % (1 << 61)); }
    run_threads(1, &[hash | 1], &[(heap % 64) as usize], ref_body);
    exit_now(1)
}
