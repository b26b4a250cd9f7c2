//! Many runs: search over seeds, minimisation, replay, evidence.
use crate::exec::{self, one_line, shape};
use crate::gen::generate;
use crate::json::{self, J};
use crate::rng::{hash_bytes, mix};
use crate::rt::raw_write;
use crate::scen::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Report { pub status: String, pub key: String, pub text: String, pub ihash: u64, pub stats: BTreeMap<String, u64>, pub sched: Vec<(u32, u32, u8)>, pub truncated: bool, pub states: Vec<u64>, refs: Vec<(SlotInit, Vec<(K, Option<String>)>, String)>, canon: Vec<String>, rej: std::collections::BTreeSet<String>, conflict: bool }
impl Report {
    pub fn viol(&self) -> bool { self.status == "viol" }
    fn parse(b: &[u8]) -> Report {
        let mut r = Report::default();
        for l in String::from_utf8_lossy(b).lines() {
            let (w, x) = l.split_once(' ').unwrap_or((l, ""));
            match w {
                "status" => r.status = x.into(), "key" => r.key = x.into(), "text" => r.text = x.into(), "ihash" => r.ihash = x.parse().unwrap_or(0),
                "stat" => if let Some((n, v)) = x.rsplit_once(' ') { *r.stats.entry(n.into()).or_default() += v.parse::<u64>().unwrap_or(0); },
                "switch" => { let p: Vec<u32> = x.split(' ').filter_map(|y| y.parse().ok()).collect(); if p.len() == 3 { r.sched.push((p[0], p[1], p[2] as u8)); } }
                "truncated" => r.truncated = true,
                "state" => r.states.push(x.parse().unwrap_or(0)),
                "canon" => r.canon.push(x.into()),
                "rej" => { r.rej.insert(x.into()); }
                "conflict" => r.conflict = true,
                "ref" => { let p: Vec<&str> = x.splitn(3, ' ').collect(); r.refs.push((SlotInit { name: dec(p[0]), target: p[1].into() }, vec![], p[2].into())); }
                "refop" => if let Some(f) = r.refs.last_mut() { f.1.push((Op::parse(x).k, None)); },
                "refexp" => if let Some(f) = r.refs.last_mut() { if let Some(o) = f.1.last_mut() { o.1 = Some(x.into()); } },
                _ => {}
            }
        }
        r
    }
}
pub static mut VERBOSE: bool = false;
/// Run `f` in a forked child; returns what it wrote and how it ended.
fn fork_collect(cpu: i64, f: impl FnOnce(i32)) -> (Vec<u8>, i32) {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            let t = libc::itimerval { it_interval: std::mem::zeroed(), it_value: libc::timeval { tv_sec: cpu, tv_usec: 0 } };
            libc::syscall(libc::SYS_setitimer, 2, &t as *const _, 0);
            libc::alarm(280);
            if !VERBOSE { let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY); libc::dup2(n, 2); libc::close(n); }
            f(p[1]);
            libc::_exit(98);
        }
        libc::close(p[1]);
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop { let n = libc::read(p[0], b.as_mut_ptr() as *mut _, b.len()); if n > 0 { v.extend_from_slice(&b[..n as usize]); } else if n == 0 || *libc::__errno_location() != libc::EINTR { break; } }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        (v, st)
    }
}
fn sim_once(s: &Scen, second: bool) -> Report {
    let bulk = s.ops.iter().any(|o| matches!(o.k, K::Bulk { .. } | K::BulkLinks { .. } | K::Churn { .. } | K::EmitMany { .. }));
    crate::rt::kept_reset();
    let (b, st) = fork_collect(if bulk { 150 } else { 40 }, |fd| exec::simulate(s, second, fd));
    let mut r = Report::parse(&b);
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        r.sched = crate::rt::kept();
        r.truncated = r.sched.len() >= crate::rt::KEPT;
        if sig == libc::SIGALRM { r.status = "harness".into(); r.text = "wall clock limit".into(); }
        else { r.status = "viol".into(); r.key = format!("{} process died with signal {}", s.prop, sig); r.text = if sig == libc::SIGPROF { "a call did not return within the processor time limit".into() } else { format!("the process was killed by signal {} inside the code under test", sig) }; }
    } else if r.status.is_empty() { r.status = "harness".into(); r.text = format!("no report (exit {})", libc::WEXITSTATUS(st)); }
    r
}
pub fn run_scen(s: &Scen) -> Report {
    let mut r = sim_once(s, false);
    if r.status != "ok" { return r; }
    let p = exec::pnum(&s.prop);
    if p == 16 {
        let r2 = sim_once(s, true);
        for (k, v) in &r2.stats { *r.stats.entry(k.clone()).or_default() += v; }
        r.ihash = mix(r.ihash, r2.ihash);
        r.states.extend(r2.states.iter());
        if r2.status != "ok" { let sched = r.sched; r = r2; r.sched = sched; return r; }
        r.canon.sort(); let mut c2 = r2.canon.clone(); c2.sort();
        // clients whose calls conflict are outside this property
        if r.conflict || r2.conflict { *r.stats.entry("schedule_pairs_with_conflicts".into()).or_default() += 1; r.canon.clear(); return r; }
        if r.rej != r2.rej { r.status = "viol".into(); r.key = "C16 refused".into(); r.text = format!("compatible calls of different clients are refused under one schedule and accepted under another: refused ops {:?} and {:?}", r.rej, r2.rej); return r; }
        if !r.rej.is_empty() { r.canon.clear(); return r; }
        *r.stats.entry("schedule_pairs_compared".into()).or_default() += (!r.canon.is_empty() && !c2.is_empty()) as u64;
        if r.canon != c2 && !r.canon.is_empty() && !c2.is_empty() {
            let a: Vec<&String> = r.canon.iter().filter(|x| !c2.contains(x)).take(3).collect();
            let b: Vec<&String> = c2.iter().filter(|x| !r.canon.contains(x)).take(3).collect();
            let d = a.first().or(b.first()).map_or(String::new(), |x| x.split(' ').skip(2).take(2).collect::<Vec<_>>().join(" "));
            r.status = "viol".into(); r.key = format!("C16 meaning differs {}", shape(&d)); r.text = one_line(&format!("the same calls under two schedules give different objects: only under the first {:?}; only under the second {:?}", a, b));
        }
        r.canon.clear();
        return r;
    }
    let refs = std::mem::take(&mut r.refs);
    for (i, (init, ops, what)) in refs.into_iter().enumerate() {
        *r.stats.entry("reference_executions".into()).or_default() += 1;
        let (b, st) = fork_collect(40, |fd| { exec::reference(init, ops, what.clone(), &s.cfg, if p == 1 { i as u64 + 1 } else { 0 }, fd) });
        let t = String::from_utf8_lossy(&b).into_owned();
        if t == "same" { continue; }
        r.status = "viol".into();
        if t.is_empty() { if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) != libc::SIGALRM { r.key = format!("{} reference died", s.prop); r.text = format!("{}: a lone execution of the same calls was killed by signal {}", what, libc::WTERMSIG(st)); } else { r.status = "harness".into(); r.text = format!("reference execution of {} gave no answer ({:#x})", what, st); } }
        else { r.key = format!("{} reference differs", s.prop); r.text = one_line(&t); }
        return r;
    }
    r
}

// ------------------------------------------------------------------------------------------------ shared between workers
struct Set { p: *mut AtomicU64, n: usize }
impl Set {
    fn new(bits: u32) -> Set { let n = 1usize << bits; unsafe { let p = libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0); assert!(p != libc::MAP_FAILED); Set { p: p as *mut AtomicU64, n } } }
    fn at(&self, i: usize) -> &AtomicU64 { unsafe { &*self.p.add(i) } }
    fn insert(&self, h: u64) -> bool {
        let h = h | 1;
        let mut i = mix(h, 11) as usize & (self.n - 1);
        for _ in 0..64 { match self.at(i).compare_exchange(0, h, SeqCst, SeqCst) { Ok(_) => return true, Err(x) if x == h => return false, _ => i = (i + 1) & (self.n - 1) } }
        false
    }
    fn len(&self) -> u64 { (0..self.n).filter(|&i| self.at(i).load(Relaxed) != 0).count() as u64 }
}
pub struct Plan { pub prop: String, pub tier: String, pub seed: u64, pub runs: u64, pub secs: u64, pub workers: usize }
pub fn seed_of(prop: &str, base: u64, i: u64) -> u64 { mix(mix(base, hash_bytes(0, prop.as_bytes())), i) }

pub fn check(p: &Plan, root: &str) -> i32 {
    let t0 = Instant::now();
    let ctl = Set::new(6); // 0: next index, 1: smallest failing index + 1, 2: runs
    let (inter, states, scens) = (Set::new(22), Set::new(22), Set::new(22));
    let deadline = t0 + Duration::from_secs(p.secs);
    // known findings first: each has its own scenario
    let mut code = 0;
    let mut violations = 0;
    let findings = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let mut known = 0;
    for l in findings.lines() {
        let l = l.trim();
        if !l.starts_with("finding:") || !l.contains(&format!("property={} ", p.prop)) { continue; }
        let f = l.split("scenario=").nth(1).and_then(|x| x.split(' ').next()).unwrap_or("");
        let what = l.split("what=").nth(1).unwrap_or("");
        let s = Scen::parse(&std::fs::read_to_string(format!("{}/{}", root, f)).expect("scenario of a known finding"));
        let r = run_scen(&s);
        if r.viol() && r.key.trim_end() == s.expect.trim_end() { println!("KNOWN-FINDING: property={} {}", p.prop, what); known += 1; }
        else if r.viol() { println!("VIOLATION property={} replay={}/{}", p.prop, root, f); println!("  {}: {}", r.key, r.text); violations += 1; code = 1; }
    }
    let mut pipes = vec![];
    for wk in 0..p.workers {
        let mut fds = [0i32; 2];
        unsafe { assert_eq!(libc::pipe2(fds.as_mut_ptr(), 0), 0); }
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::close(fds[0]); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut cs: libc::cpu_set_t = std::mem::zeroed(); let mut cur: libc::cpu_set_t = std::mem::zeroed();
                libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut cur);
                let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &cur)).collect();
                libc::CPU_SET(cpus[wk % cpus.len()], &mut cs); libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &cs); }
            let mut stats: BTreeMap<String, u64> = BTreeMap::new();
            let mut out = String::new();
            loop {
                let i = ctl.at(0).fetch_add(1, SeqCst);
                let bad = ctl.at(1).load(SeqCst);
                if i >= p.runs || (bad != 0 && i >= bad - 1) || Instant::now() > deadline { break; }
                let sd = seed_of(&p.prop, p.seed, i);
                let s = generate(&p.prop, sd);
                let r = run_scen(&s);
                ctl.at(2).fetch_add(1, SeqCst);
                for (k, v) in &r.stats { *stats.entry(k.clone()).or_default() += v; }
                *stats.entry(format!("status.{}", r.status)).or_default() += 1;
                if r.ihash != 0 { inter.insert(r.ihash); }
                for h in &r.states { states.insert(*h); }
                let work = r.stats.get("mutations_accepted").copied().unwrap_or(0) > 0 && ["emissions", "writes", "crash_runs", "queries", "emissions_refused", "mutations_rejected"].iter().any(|k| r.stats.contains_key(*k));
                if work && scens.insert(hash_bytes(1, s.text().as_bytes())) { *stats.entry("nontrivial".into()).or_default() += 1; }
                if r.status == "harness" { out.push_str(&format!("harness {} {}\n", i, one_line(&r.text))); }
                if i % 101 == 7 { let r2 = run_scen(&s); *stats.entry("replayed_twice".into()).or_default() += 1; if (&r2.status, &r2.key, r2.ihash, &r2.stats, &r2.sched, &r2.states) != (&r.status, &r.key, r.ihash, &r.stats, &r.sched, &r.states) { *stats.entry("replay_mismatches".into()).or_default() += 1; out.push_str(&format!("harness {} run differs when repeated\n", i)); } }
                if r.viol() {
                    let mut cur = ctl.at(1).load(SeqCst);
                    while cur == 0 || i + 1 < cur { match ctl.at(1).compare_exchange(cur, i + 1, SeqCst, SeqCst) { Ok(_) => break, Err(x) => cur = x } }
                    out.push_str(&format!("viol {} {}\n", i, r.key));
                }
            }
            for (k, v) in &stats { out.push_str(&format!("stat {} {}\n", k, v)); }
            let mut b = out.as_bytes();
            while !b.is_empty() { let n = raw_write(fds[1], b); if n <= 0 { break; } b = &b[n as usize..]; }
            crate::rt::exit_now(0);
        }
        unsafe { libc::close(fds[1]); }
        pipes.push((pid, fds[0]));
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    for (pid, fd) in pipes {
        use std::io::Read; use std::os::fd::FromRawFd;
        let mut t = String::new();
        let _ = unsafe { std::fs::File::from_raw_fd(fd) }.read_to_string(&mut t);
        let mut st = 0; unsafe { libc::waitpid(pid, &mut st, 0); }
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("stat ") { if let Some((n, v)) = x.rsplit_once(' ') { *stats.entry(n.into()).or_default() += v.parse::<u64>().unwrap_or(0); } }
            else if l.starts_with("harness") { eprintln!("note: {}", l); }
        }
    }
    let search = t0.elapsed().as_secs_f64();
    let runs = ctl.at(2).load(SeqCst);
    let bad = ctl.at(1).load(SeqCst);
    let mut found = None;
    if bad != 0 {
        let i = bad - 1;
        let sd = seed_of(&p.prop, p.seed, i);
        let s = generate(&p.prop, sd);
        let r = run_scen(&s);
        violations += 1;
        code = 1;
        let (m, r) = shrink(s, r);
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let f = format!("{}/{}-{:016x}.txt", dir, p.prop, sd);
        let _ = std::fs::write(&f, format!("# found by run {} of VERIF_SEED {} (seed {:#018x})\n# {}\n{}", i, p.seed, sd, r.text, m.text()));
        println!("VIOLATION property={} replay={}", p.prop, f);
        println!("  {}", r.text);
        // replay from the file, as a user would
        let again = run_scen(&Scen::parse(&std::fs::read_to_string(&f).unwrap_or_default()));
        println!("  run {} seed {:#x}; minimised to {} calls and {} scheduling decisions; replay of the file reproduces it: {}", i, sd, m.ops.len(), m.sched.len() + m.sched2.len(), again.viol() && again.key == r.key);
        found = Some((m, r.text));
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(p, root, runs, search, wall, &stats, inter.len(), states.len(), scens.len(), violations, known, found);
    println!("{} {}: {} runs in {:.1} s, {} distinct interleavings, {} distinct artifact states, violations {}", p.prop, p.tier, runs, search, inter.len(), states.len(), violations);
    code
}

// ------------------------------------------------------------------------------------------------ minimisation
fn shrink(s0: Scen, r0: Report) -> (Scen, Report) {
    let t0 = Instant::now();
    let key = r0.key.clone();
    let mut tries = 0;
    let mut best = s0.clone();
    let mut rep = r0.clone();
    best.expect = key.clone();
    let ok = |c: &Scen, tries: &mut u32| -> Option<Report> { if *tries > 4000 || t0.elapsed() > Duration::from_secs(75) { return None; } *tries += 1; let r = run_scen(c); if r.viol() && r.key == key { Some(r) } else { None } };
    // pin the schedule
    if !r0.truncated && exec::pnum(&s0.prop) != 16 {
        let mut c = best.clone();
        c.sched = r0.sched.clone(); c.cfg.mode = "replay".into();
        if let Some(r) = ok(&c, &mut tries) { best = c; rep = r; }
    } else if exec::pnum(&s0.prop) == 16 {
        let mut c = best.clone();
        let (a, b) = (sim_once(&s0, false), sim_once(&s0, true));
        c.sched = a.sched; c.sched2 = b.sched; c.cfg.mode = "replay".into();
        if let Some(r) = ok(&c, &mut tries) { best = c; rep = r; }
    }
    macro_rules! attempt { ($c:expr) => {{ let c = $c; if c != best { if let Some(r) = ok(&c, &mut tries) { best = c; rep = r; true } else { false } } else { false } }} }
    loop {
        let before = best.clone();
        // calls
        let mut n = (best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() { let mut c = best.clone(); let e = (i + n).min(c.ops.len()); c.ops.drain(i..e); if !attempt!(c) { i += n; } }
            if n == 1 { break; }
            n /= 2;
        }
        // scheduling decisions
        for second in [false, true] {
            let len = |b: &Scen| if second { b.sched2.len() } else { b.sched.len() };
            let mut n = len(&best).max(1);
            while n >= 1 {
                let mut i = 0;
                while i < len(&best) { let mut c = best.clone(); { let v = if second { &mut c.sched2 } else { &mut c.sched }; let e = (i + n).min(v.len()); v.drain(i..e); } if !attempt!(c) { i += n; } }
                n /= 2;
            }
        }
        { let mut c = best.clone(); c.cfg.log = 0; attempt!(c); }
        { let mut c = best.clone(); c.cfg.env = 0; attempt!(c); }
        { let mut c = best.clone(); for p in c.cfg.pads.iter_mut() { *p = 0; } attempt!(c); }
        { let mut c = best.clone(); for o in c.ops.iter_mut() { o.client = 0; } c.clients = 1; c.sched.clear(); c.sched2.clear(); attempt!(c); }
        if best.slots.len() > 1 && best.ops.iter().all(|o| o.slot == 0 && !matches!(o.k, K::Copy { .. })) { let mut c = best.clone(); c.slots.truncate(1); attempt!(c); }
        for i in 0..best.ops.len() {
            { let mut c = best.clone(); c.ops[i].stall = None; attempt!(c); }
            { let mut c = best.clone(); c.ops[i].unwind = None; attempt!(c); }
            let small = |x: Cont| -> Vec<Cont> { match x { Cont::Blob { tag, len } => vec![Cont::Blob { tag, len: 0 }, Cont::Blob { tag, len: len.min(1) }, Cont::Blob { tag, len: len / 2 }], Cont::Zero(n) => vec![Cont::Zero(0), Cont::Zero(n.min(1)), Cont::Zero(n.min(16)), Cont::Zero(n / 2)] } };
            match best.ops[i].k.clone() {
                K::Define { cont, .. } | K::DeclareWith { cont, .. } | K::DefineSyms { cont, .. } => for x in small(cont) { let mut c = best.clone(); match &mut c.ops[i].k { K::Define { cont, .. } | K::DeclareWith { cont, .. } | K::DefineSyms { cont, .. } => *cont = x, _ => {} } if attempt!(c) { break; } },
                K::Batch { items } => for j in (0..items.len()).rev() { let mut c = best.clone(); let mut it = items.clone(); it.remove(j); if let K::Batch { items: cur } = &best.ops[i].k { it = cur.clone(); if j < it.len() { it.remove(j); } } c.ops[i].k = K::Batch { items: it }; attempt!(c); },
                K::Write { sink, .. } | K::CrashWrite { sink, .. } => {
                    let mut set = |f: &dyn Fn(&mut Sink)| { let mut c = best.clone(); match &mut c.ops[i].k { K::Write { sink, .. } | K::CrashWrite { sink, .. } => f(sink), _ => {} } attempt!(c) };
                    set(&|s| s.retry = false); set(&|s| { s.prefill = 0; s.pos = 0 }); set(&|s| s.kind = 0);
                    for j in (0..sink.faults.len()).rev() { set(&|s: &mut Sink| { if j < s.faults.len() { s.faults.remove(j); } }); }
                }
                _ => {}
            }
            // by bisection: boundaries are what matters for a burst
            if let K::Bulk { n, .. } | K::BulkLinks { n, .. } | K::Churn { n, .. } | K::EmitMany { n, .. } = best.ops[i].k {
                let (mut lo, mut hi) = (0, n);
                while hi - lo > 1 { let mid = (lo + hi) / 2; let mut c = best.clone(); if let K::Bulk { n, .. } | K::BulkLinks { n, .. } | K::Churn { n, .. } | K::EmitMany { n, .. } = &mut c.ops[i].k { *n = mid; } if attempt!(c) { hi = mid; } else { lo = mid; } }
            }
            if let K::DefineSyms { syms, .. } = best.ops[i].k.clone() { let mut n = syms.len(); while n > 8 { n /= 2; let mut c = best.clone(); if let K::DefineSyms { syms, .. } = &mut c.ops[i].k { syms.truncate(n); } if !attempt!(c) { break; } } }
            if let K::DefineSyms { syms, .. } = best.ops[i].k.clone() { for j in (0..syms.len()).rev() { let mut c = best.clone(); if let K::DefineSyms { syms, .. } = &mut c.ops[i].k { if j < syms.len() { syms.remove(j); } } attempt!(c); } }
        }
        if best == before || tries > 4000 || t0.elapsed() > Duration::from_secs(75) { break; }
    }
    (best, rep)
}

// ------------------------------------------------------------------------------------------------ evidence
fn evidence(p: &Plan, root: &str, runs: u64, search: f64, wall: f64, st: &BTreeMap<String, u64>, inter: u64, states: u64, scens: u64, violations: i64, known: i64, found: Option<(Scen, String)>) {
    let g = |k: &str| st.get(k).copied().unwrap_or(0);
    let group = |pre: &str| J::O(st.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), J::I(*v as i64))).collect());
    let sample = |i: u64| { let sd = seed_of(&p.prop, p.seed, i); let s = generate(&p.prop, sd); json::o(vec![("run", J::I(i as i64)), ("seed", json::s(format!("{:#018x}", sd))), ("targets", J::A(s.slots.iter().map(|x| json::s(x.target.clone())).collect())), ("schedule", json::s(s.cfg.mode.clone())), ("calls", J::A(s.ops.iter().take(25).map(|o| json::s(o.text())).collect())), ("calls_total", J::I(s.ops.len() as i64))]) };
    let mut samples = vec![sample(0), sample(1)];
    if let Some((m, t)) = &found { samples.push(json::o(vec![("violation", json::s(t.clone())), ("minimised", json::s(m.text()))])); }
    let skip = ["status.", "fault.", "yield."];
    let rest = J::O(st.iter().filter(|(k, _)| !skip.iter().any(|s| k.starts_with(s)) && *k != "sim_ns" && *k != "nontrivial").map(|(k, v)| (k.clone(), J::I(*v as i64))).collect());
    let cov = json::o(vec![
        ("evaluations", J::I(runs as i64)), ("distinct_nontrivial", J::I(g("nontrivial") as i64)),
        ("rule", json::s("One evaluation is one simulated run: a seed generates artifacts, clients, their calls, the schedule policy and the faults (gen.rs), which are executed against the real library. It is distinct by the full text of its scenario, and non-trivial if at least one mutating call was accepted and at least one call whose result the property speaks about (emission, write, query or refusal) was observed.")),
        ("samples", J::A(samples)),
        ("seeds", json::s(format!("run i uses seed mix(mix({}, hash(\"{}\")), i), i = 0..{}", p.seed, p.prop, runs))),
        ("runs_per_hour", J::I((runs as f64 / search.max(0.001) * 3600.0) as i64)),
        ("simulated_seconds", J::N(g("sim_ns") as f64 / 1e9)), ("simulated_steps", J::I(g("steps") as i64)),
        ("faults_injected", group("fault.")), ("scheduling_points", group("yield.")),
        ("distinct_interleavings", J::I(inter as i64)), ("distinct_interleavings_measure", json::s("hash of the sequence of (from, to, call, step) of all context switches of a run")),
        ("distinct_artifact_states", J::I(states as i64)), ("distinct_artifact_states_measure", json::s("hash of the model state (declarations, definitions, links) and format at every emission and at the end of a run")),
        ("distinct_scenarios", J::I(scens as i64)),
        ("outcomes", group("status.")), ("counters", rest),
        ("known_findings_reproduced", J::I(known)),
        ("real_components", J::A(["faerie (all of src/, compiled from /repo's working tree)", "goblin, scroll, string-interner, indexmap, target-lexicon, log facade", "std collections, std::fs::File and write_all, thread-local hash seeds", "the kernel's file objects behind the sink (memfd)"].iter().map(|x| json::s(*x)).collect())),
        ("simulated_components", J::A(["thread scheduling (one runnable thread at a time, chosen by the seeded scheduler)", "order of accesses to shared memory (compiler instrumentation)", "heap of the code under test (global allocator: layout, contents, failure)", "entropy (getrandom), clocks, sleeping, futex waiting", "the host: environment variables, working directory, process id, number of processors", "results of write/writev/pwrite on the sink", "log sink", "caller-supplied conversions and iterators", "the clients' lock around a shared artifact", "process death (forked process, killed or aborted at the chosen point)"].iter().map(|x| json::s(*x)).collect())),
    ]);
    let e = json::o(vec![
        ("property", json::s(p.prop.clone())), ("tier", json::s(p.tier.clone())), ("seed", J::I(p.seed as i64)), ("level", json::s("exploration")), ("coverage", cov),
        ("assumptions", J::A(["seeded search: what was not generated was not explored", "preemption happens at allocations, log records, system calls, callbacks, call boundaries and accesses to shared memory; between two of these, other threads cannot notice", "names without NUL; the input classes that are unspecified are listed in DESIGN.md"].iter().map(|x| json::s(*x)).collect())),
        ("wall_s", J::N(wall)), ("violations", J::I(violations)),
    ]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root, p.prop), e.text());
}

/// Every run twice, in different orders and processes: reports must be identical.
pub fn selftest(props: &[String], n: u64) -> i32 {
    let mut bad = 0;
    for p in props {
        for i in 0..n {
            let sd = seed_of(p, 99, i);
            let s = generate(p, sd);
            let t = Scen::parse(&s.text());
            if t != s { println!("{} {}: the replay format loses information", p, i); bad += 1; }
            let (a, b) = (run_scen(&s), run_scen(&t));
            if (&a.status, &a.key, &a.text, a.ihash, &a.stats, &a.sched, &a.states) != (&b.status, &b.key, &b.text, b.ihash, &b.stats, &b.sched, &b.states) { println!("{} {}: two executions differ", p, i); bad += 1; continue; }
            // the recorded schedule replayed
            if !a.truncated && exec::pnum(p) != 16 { let mut c = s.clone(); c.sched = a.sched.clone(); c.cfg.mode = "replay".into(); let r = run_scen(&c); if (r.ihash, &r.key, &r.states) != (a.ihash, &a.key, &a.states) { println!("{} {}: replaying the recorded schedule differs", p, i); bad += 1; } }
        }
        println!("{}: {} runs repeated", p, n);
    }
    (bad > 0) as i32
}
