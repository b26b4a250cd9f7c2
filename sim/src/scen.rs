//! A scenario: everything one simulated run does, as plain data with a text form (the replay file).
use crate::rt::{Crash, Fault, Up, UPN};
use faerie::artifact::{DefinedDecl, SectionKind};
use faerie::{Decl, DataType, ImportKind, Reloc, Scope, Visibility};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum MDecl {
    Imp { f: bool },
    Fn { scope: u8, vis: u8, align: Option<u8> },
    Data { scope: u8, vis: u8, w: bool, s: bool, align: Option<u8> },
    Sec { kind: u8, s: bool, align: Option<u8> },
}
pub const SC: [&str; 3] = ["global", "local", "weak"];
impl MDecl {
    pub fn is_import(&self) -> bool { matches!(self, MDecl::Imp { .. }) }
    pub fn is_local(&self) -> bool { matches!(self, MDecl::Fn { scope: 1, .. } | MDecl::Data { scope: 1, .. }) }
    pub fn is_weak(&self) -> bool { matches!(self, MDecl::Fn { scope: 2, .. } | MDecl::Data { scope: 2, .. }) }
    pub fn is_sec(&self) -> bool { matches!(self, MDecl::Sec { .. }) }
    pub fn is_data(&self) -> bool { matches!(self, MDecl::Data { .. }) }
    pub fn is_fn(&self) -> bool { matches!(self, MDecl::Fn { .. }) }
    pub fn align(&self) -> Option<u64> { match self { MDecl::Fn { align, .. } | MDecl::Data { align, .. } | MDecl::Sec { align, .. } => align.map(|a| 1u64 << a), _ => None } }
    pub fn real(&self) -> Decl {
        let sc = |s: u8| [Scope::Global, Scope::Local, Scope::Weak][s as usize];
        let vi = |v: u8| [Visibility::Default, Visibility::Hidden, Visibility::Protected][v as usize];
        let dt = |s: bool| if s { DataType::String } else { DataType::Bytes };
        match *self {
            MDecl::Imp { f } => Decl::Import(if f { ImportKind::Function } else { ImportKind::Data }),
            MDecl::Fn { scope, vis, align } => Decl::function().with_scope(sc(scope)).with_visibility(vi(vis)).with_align(align.map(|a| 1 << a)).into(),
            MDecl::Data { scope, vis, w, s, align } => Decl::data().with_scope(sc(scope)).with_visibility(vi(vis)).with_writable(w).with_datatype(dt(s)).with_align(align.map(|a| 1 << a)).into(),
            MDecl::Sec { kind, s, align } => Decl::section([SectionKind::Data, SectionKind::Debug, SectionKind::Text][kind as usize]).with_datatype(dt(s)).with_align(align.map(|a| 1 << a)).into(),
        }
    }
    /// The same declaration, built another way.
    pub fn real_via(&self, v: u32) -> Decl {
        let sc = |s: u8| [Scope::Global, Scope::Local, Scope::Weak][s as usize];
        let vi = |v: u8| [Visibility::Default, Visibility::Hidden, Visibility::Protected][v as usize];
        let dt = |s: bool| if s { DataType::String } else { DataType::Bytes };
        if v % 3 == 0 { return self.real(); }
        let setters = v % 3 == 2;
        match *self {
            MDecl::Imp { f } => if f { Decl::function_import().into() } else { Decl::data_import().into() },
            MDecl::Fn { scope, vis, align } => {
                let mut d = Decl::function();
                if setters { if v % 4 == 0 { d.set_scope(Scope::Weak); } d.set_align(align.map(|a| 1 << a)); d.set_visibility(vi(vis)); d.set_scope(sc(scope)); return d.into(); }
                if v % 2 == 0 { d = d.with_visibility(vi(vis)); }
                d = match scope { 0 => d.global(), 1 => if v % 4 == 0 { d } else { d.local() }, _ => d.weak() };
                if v % 2 == 1 { d = match vis { 0 => if v % 5 == 0 { d } else { d.default_visibility() }, 1 => d.hidden(), _ => d.protected() }; }
                if align.is_some() || v % 7 == 0 { d = d.with_align(align.map(|a| 1 << a)); }
                d.into()
            }
            MDecl::Data { scope, vis, w, s, align } => {
                let mut d = if s && v % 2 == 0 { Decl::cstring() } else { Decl::data() };
                if setters { d.set_align(align.map(|a| 1 << a)); d.set_datatype(dt(s)); d.set_writable(!w); d.set_writable(w); d.set_visibility(vi(vis)); d.set_scope(sc(scope)); return d.into(); }
                d = match scope { 0 => d.global(), 1 => if v % 4 == 0 { d } else { d.local() }, _ => d.weak() };
                d = match vis { 0 => if v % 5 == 0 { d } else { d.default_visibility() }, 1 => d.hidden(), _ => d.protected() };
                d = if w { d.writable() } else if v % 5 == 0 { d } else { d.read_only() };
                if s != (s && v % 2 == 0) { d = d.with_datatype(dt(s)); }
                if align.is_some() || v % 7 == 0 { d = d.with_align(align.map(|a| 1 << a)); }
                d.into()
            }
            MDecl::Sec { kind, s, align } => {
                let mut d = Decl::section([SectionKind::Data, SectionKind::Debug, SectionKind::Text][kind as usize]);
                if setters { d.set_align(align.map(|a| 1 << a)); d.set_datatype(dt(s)); } else { if s { d = d.with_datatype(dt(s)); } d = d.with_align(align.map(|a| 1 << a)); }
                d.into()
            }
        }
    }
    pub fn real_defined(&self) -> DefinedDecl { match self.real() { Decl::Defined(d) => d, _ => unreachable!() } }
    pub fn text(&self) -> String {
        let al = |a: &Option<u8>| a.map_or("-".to_string(), |x| x.to_string());
        match self {
            MDecl::Imp { f } => (if *f { "imp:f" } else { "imp:d" }).into(),
            MDecl::Fn { scope, vis, align } => format!("fn:{}:{}:{}", scope, vis, al(align)),
            MDecl::Data { scope, vis, w, s, align } => format!("data:{}:{}:{}:{}:{}", scope, vis, *w as u8, *s as u8, al(align)),
            MDecl::Sec { kind, s, align } => format!("sec:{}:{}:{}", kind, *s as u8, al(align)),
        }
    }
    pub fn parse(t: &str) -> MDecl {
        let p: Vec<&str> = t.split(':').collect();
        let n = |i: usize| p[i].parse::<u8>().unwrap();
        let al = |i: usize| if p[i] == "-" { None } else { Some(n(i)) };
        match p[0] {
            "imp" => MDecl::Imp { f: p[1] == "f" },
            "fn" => MDecl::Fn { scope: n(1), vis: n(2), align: al(3) },
            "data" => MDecl::Data { scope: n(1), vis: n(2), w: n(3) == 1, s: n(4) == 1, align: al(5) },
            "sec" => MDecl::Sec { kind: n(1), s: n(2) == 1, align: al(3) },
            x => panic!("bad decl {}", x),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Cont { Blob { tag: u64, len: u32 }, Zero(u64) }
/// `tag >> 40` of a blob may be one of these: zeros, padding bytes, half zeros, text, a common prefix, a file's magic; the three above: near twins
pub const CLASSES: u64 = 9;
impl Cont {
    pub fn bytes(&self) -> Vec<u8> {
        match *self {
            Cont::Blob { tag, len } => {
                let n = len as usize;
                let mut r = crate::rng::Rng::new(if tag >> 40 > CLASSES && tag >> 40 <= CLASSES + 3 { tag & (1 << 40) - 1 } else { tag });
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n { v.extend_from_slice(&r.u64().to_le_bytes()); }
                v.truncate(n);
                // contents that mean something to somebody (see `CLASSES`)
                match tag >> 40 {
                    1 => v.iter_mut().for_each(|b| *b = 0),
                    2 => v.iter_mut().for_each(|b| *b = 0xaa),
                    3 => v.iter_mut().for_each(|b| *b = [0xff, 0xcc, 0x90][(tag % 3) as usize]),
                    4 => v.iter_mut().skip(n / 2).for_each(|b| *b = 0),
                    5 => v.iter_mut().take(n - n / 3).for_each(|b| *b = 0),
                    6 => { v.iter_mut().for_each(|b| *b = b'a' + *b % 26); if n > 0 { v[n - 1] = 0 } }
                    7 => { v.iter_mut().for_each(|b| *b = if *b % 5 == 0 { 0 } else { b'a' + *b % 26 }); if n > 0 { v[n - 1] = 0 } }
                    8 => for (i, b) in v.iter_mut().enumerate() { *b = if i + 1 == n { tag as u8 } else { i as u8 } },
                    9 => { let m: &[u8] = [&b"\x7fELF\x02\x01\x01"[..], &b"\xcf\xfa\xed\xfe"[..], &b"\0.symtab\0.strtab\0"[..]][(tag % 3) as usize]; for (b, m) in v.iter_mut().zip(m) { *b = *m } }
                    // all but equal to the blob whose tag is the rest
                    c @ 10..=12 if n > 0 => v[[n - 1, 0, n / 2][c as usize - 10]] ^= 0x41,
                    _ => {}
                }
                v
            }
            Cont::Zero(_) => vec![],
        }
    }
    pub fn is_zero(&self) -> bool { matches!(self, Cont::Zero(_)) }
    pub fn size(&self) -> u64 { match *self { Cont::Blob { len, .. } => len as u64, Cont::Zero(n) => n } }
    fn text(&self) -> String { match self { Cont::Blob { tag, len } => format!("b{}.{}", tag, len), Cont::Zero(n) => format!("z{}", n) } }
    fn parse(t: &str) -> Cont { if let Some(r) = t.strip_prefix('b') { let (a, b) = r.split_once('.').unwrap(); Cont::Blob { tag: a.parse().unwrap(), len: b.parse().unwrap() } } else { Cont::Zero(t[1..].parse().unwrap()) } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt { Elf, Macho, Coff, Wasm, Unknown }
pub const FMTS: [(Fmt, &str); 5] = [(Fmt::Elf, "elf"), (Fmt::Macho, "macho"), (Fmt::Coff, "coff"), (Fmt::Wasm, "wasm"), (Fmt::Unknown, "unknown")];
impl Fmt {
    pub fn real(self) -> faerie::BinaryFormat { use faerie::BinaryFormat::*; match self { Fmt::Elf => Elf, Fmt::Macho => Macho, Fmt::Coff => Coff, Fmt::Wasm => Wasm, Fmt::Unknown => Unknown } }
    pub fn of(b: faerie::BinaryFormat) -> Fmt { FMTS.iter().find(|f| f.0.real() == b).map_or(Fmt::Unknown, |f| f.0) }
    fn text(self) -> &'static str { FMTS.iter().find(|f| f.0 == self).unwrap().1 }
    fn parse(t: &str) -> Option<Fmt> { FMTS.iter().find(|f| f.1 == t).map(|f| f.0) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum MRel { Auto, Raw(u32, i32), Debug(u8, i32) }
impl MRel {
    pub fn real(self) -> Reloc { match self { MRel::Auto => Reloc::Auto, MRel::Raw(reloc, addend) => Reloc::Raw { reloc, addend }, MRel::Debug(size, addend) => Reloc::Debug { size, addend } } }
    fn text(self) -> String { match self { MRel::Auto => "auto".into(), MRel::Raw(a, b) => format!("raw:{}:{}", a, b), MRel::Debug(a, b) => format!("debug:{}:{}", a, b) } }
    fn parse(t: &str) -> MRel { let p: Vec<&str> = t.split(':').collect(); match p[0] { "raw" => MRel::Raw(p[1].parse().unwrap(), p[2].parse().unwrap()), "debug" => MRel::Debug(p[1].parse().unwrap(), p[2].parse().unwrap()), _ => MRel::Auto } }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Sink { pub prefill: u32, pub pos: u32, pub faults: Vec<Fault>, pub retry: bool, /** 0: a file, 1: opened for appending, 2: a pipe (no position) */ pub kind: u8 }
impl Sink {
    /// where the object belongs
    pub fn start(&self) -> usize { if self.kind == 1 { self.prefill as usize } else { self.pos as usize } }
    fn text(&self) -> String {
        let mut s = format!("{},{},{}", self.prefill, self.pos, self.retry as u8 + 2 * self.kind);
        for f in &self.faults { match f { Fault::Full => s.push_str(",full"), Fault::Short(n) => { let _ = write!(s, ",short{}", n); } Fault::Eintr => s.push_str(",eintr"), Fault::Zero => s.push_str(",zero"), Fault::Err(e) => { let _ = write!(s, ",err{}", e); } Fault::Stall(n) => { let _ = write!(s, ",stall{}", n); } } }
        s
    }
    fn parse(t: &str) -> Sink {
        let p: Vec<&str> = t.split(',').collect();
        let mut faults = vec![];
        for f in &p[3..] {
            faults.push(match *f { "full" => Fault::Full, "eintr" => Fault::Eintr, "zero" => Fault::Zero,
                x if x.starts_with("short") => Fault::Short(x[5..].parse().unwrap()),
                x if x.starts_with("err") => Fault::Err(x[3..].parse().unwrap()),
                x if x.starts_with("stall") => Fault::Stall(x[5..].parse().unwrap()), x => panic!("bad fault {}", x) });
        }
        let n: u8 = p[2].parse().unwrap();
        Sink { prefill: p[0].parse().unwrap(), pos: p[1].parse().unwrap(), retry: n & 1 == 1, faults, kind: n >> 1 }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Declare { name: String, decl: MDecl },
    DeclareWith { name: String, decl: MDecl, cont: Cont },
    Batch { items: Vec<(String, MDecl)> },
    Import { name: String, f: bool },
    Define { name: String, cont: Cont },
    DefineSyms { name: String, cont: Cont, syms: Vec<(String, u64)> },
    Link { from: String, to: String, at: u64, rel: MRel },
    Imports, Undefined,
    Emit { fmt: Option<Fmt> },
    Write { fmt: Option<Fmt>, sink: Sink },
    CrashWrite { fmt: Option<Fmt>, sink: Sink, crash: Crash },
    /// the same emission `n` times, by one client
    EmitMany { fmt: Option<Fmt>, n: u32 },
    /// `n` small artifacts for all kinds of targets come and go
    Churn { n: u32, tag: u64 },
    /// dst becomes a copy of this operation's slot
    Copy { dst: u8 },
    /// the slot's artifact is dropped and a new one put in its place (same address); `init` names a slot
    Fresh { init: u8 },
    /// the public fields `name` and `target` are assigned
    Retarget { name: String, target: String },
    /// a source with `n` links, imports and definitions for them to lead to
    BulkLinks { n: u32, tag: u64 },
    /// declare and define `n` small local functions
    Bulk { n: u32, tag: u64 },
    /// define whatever is still missing
    Finish { tag: u64 },
}
#[derive(Clone, PartialEq, Debug)]
pub struct Op { pub uid: u32, pub phase: u8, pub client: u8, pub slot: u8, pub k: K, pub unwind: Option<(Up, u32)>, pub stall: Option<(u32, u32)> }

#[derive(Clone, PartialEq, Debug)]
pub struct SlotInit { pub name: String, pub target: String }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Cfg {
    pub mode: String, pub seed: u64, pub hash: u64, pub heap: u64, pub pads: Vec<u32>, pub log: u8, pub env: u8,
    /// C16: second schedule; C01/C02: environment of the reference execution
    pub alt: u64, pub strict_names: bool,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Scen { pub prop: String, pub cfg: Cfg, pub clients: u8, pub slots: Vec<SlotInit>, pub ops: Vec<Op>, pub sched: Vec<(u32, u32, u8)>, pub sched2: Vec<(u32, u32, u8)>, pub expect: String }

pub fn enc(s: &str) -> String {
    let mut o = String::from("'");
    for b in s.bytes() { if b.is_ascii_alphanumeric() || b == b'_' || b == b'.' { o.push(b as char) } else { let _ = write!(o, "%{:02x}", b); } }
    o
}
pub fn dec(s: &str) -> String {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 1;
    while i < b.len() { if b[i] == b'%' { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } else { o.push(b[i]); i += 1; } }
    String::from_utf8(o).unwrap()
}
fn up_text(u: &(Up, u32)) -> String { format!("{}:{}", UPN[u.0 as usize], u.1) }
pub const UPS: [Up; 5] = [Up::Name, Up::Decl, Up::Data, Up::Iter, Up::Log];
impl Op {
    pub fn text(&self) -> String {
        let f = |x: &Option<Fmt>| x.map_or("target", |f| f.text());
        let mut s = format!("op {} phase={} client={} slot={} ", self.uid, self.phase, self.client, self.slot);
        let _ = match &self.k {
            K::Declare { name, decl } => write!(s, "declare {} {}", enc(name), decl.text()),
            K::DeclareWith { name, decl, cont } => write!(s, "declare_with {} {} {}", enc(name), decl.text(), cont.text()),
            K::Batch { items } => { let _ = write!(s, "batch"); for (n, d) in items { let _ = write!(s, " {} {}", enc(n), d.text()); } Ok(()) }
            K::Import { name, f } => write!(s, "import {} {}", enc(name), if *f { "f" } else { "d" }),
            K::Define { name, cont } => write!(s, "define {} {}", enc(name), cont.text()),
            K::DefineSyms { name, cont, syms } => { let _ = write!(s, "define_syms {} {}", enc(name), cont.text()); for (n, o) in syms { let _ = write!(s, " {} {}", enc(n), o); } Ok(()) }
            K::Link { from, to, at, rel } => write!(s, "link {} {} {} {}", enc(from), enc(to), at, rel.text()),
            K::Imports => write!(s, "imports"),
            K::Undefined => write!(s, "undefined"),
            K::Emit { fmt } => write!(s, "emit {}", f(fmt)),
            K::Write { fmt, sink } => write!(s, "write {} {}", f(fmt), sink.text()),
            K::CrashWrite { fmt, sink, crash } => { let c = match crash { Crash::AllocFail(a) => format!("allocfail:{}:0", a), Crash::KillAlloc(a) => format!("killalloc:{}:0", a), Crash::KillWrite(a, b) => format!("killwrite:{}:{}", a, b), Crash::AbortLog(a) => format!("abortlog:{}:0", a) }; write!(s, "crash_write {} {} {}", f(fmt), sink.text(), c) }
            K::EmitMany { fmt, n } => write!(s, "emit_many {} {}", f(fmt), n),
            K::Churn { n, tag } => write!(s, "churn {} {}", n, tag),
            K::Copy { dst } => write!(s, "copy {}", dst),
            K::Fresh { init } => write!(s, "fresh {}", init),
            K::Retarget { name, target } => write!(s, "retarget {} {}", enc(name), target),
            K::BulkLinks { n, tag } => write!(s, "bulk_links {} {}", n, tag),
            K::Bulk { n, tag } => write!(s, "bulk {} {}", n, tag),
            K::Finish { tag } => write!(s, "finish {}", tag),
        };
        if let Some(u) = &self.unwind { let _ = write!(s, " unwind={}", up_text(u)); }
        if let Some((a, b)) = self.stall { let _ = write!(s, " stall={}:{}", a, b); }
        s
    }
    pub fn parse(l: &str) -> Op {
        let mut unwind = None; let mut stall = None;
        let mut t: Vec<&str> = vec![];
        for w in l.split_whitespace() {
            if let Some(r) = w.strip_prefix("unwind=") { let (a, b) = r.split_once(':').unwrap(); unwind = Some((UPS[UPN.iter().position(|x| *x == a).unwrap()], b.parse().unwrap())); }
            else if let Some(r) = w.strip_prefix("stall=") { let (a, b) = r.split_once(':').unwrap(); stall = Some((a.parse().unwrap(), b.parse().unwrap())); }
            else { t.push(w); }
        }
        let kv = |i: usize| t[i].split_once('=').unwrap().1.parse::<u8>().unwrap();
        let a = &t[6..];
        let k = match t[5] {
            "slot" => unreachable!(),
            "declare" => K::Declare { name: dec(a[0]), decl: MDecl::parse(a[1]) },
            "declare_with" => K::DeclareWith { name: dec(a[0]), decl: MDecl::parse(a[1]), cont: Cont::parse(a[2]) },
            "batch" => K::Batch { items: a.chunks(2).map(|c| (dec(c[0]), MDecl::parse(c[1]))).collect() },
            "import" => K::Import { name: dec(a[0]), f: a[1] == "f" },
            "define" => K::Define { name: dec(a[0]), cont: Cont::parse(a[1]) },
            "define_syms" => K::DefineSyms { name: dec(a[0]), cont: Cont::parse(a[1]), syms: a[2..].chunks(2).map(|c| (dec(c[0]), c[1].parse().unwrap())).collect() },
            "link" => K::Link { from: dec(a[0]), to: dec(a[1]), at: a[2].parse().unwrap(), rel: MRel::parse(a[3]) },
            "imports" => K::Imports, "undefined" => K::Undefined,
            "emit" => K::Emit { fmt: Fmt::parse(a[0]) },
            "write" => K::Write { fmt: Fmt::parse(a[0]), sink: Sink::parse(a[1]) },
            "crash_write" => { let p: Vec<&str> = a[2].split(':').collect(); let x: u32 = p[1].parse().unwrap(); let y: u32 = p[2].parse().unwrap();
                K::CrashWrite { fmt: Fmt::parse(a[0]), sink: Sink::parse(a[1]), crash: match p[0] { "allocfail" => Crash::AllocFail(x), "killalloc" => Crash::KillAlloc(x), "killwrite" => Crash::KillWrite(x, y), _ => Crash::AbortLog(x) } } }
            "emit_many" => K::EmitMany { fmt: Fmt::parse(a[0]), n: a[1].parse().unwrap() },
            "churn" => K::Churn { n: a[0].parse().unwrap(), tag: a[1].parse().unwrap() },
            "copy" => K::Copy { dst: a[0].parse().unwrap() },
            "retarget" => K::Retarget { name: dec(a[0]), target: a[1].to_string() },
            "fresh" => K::Fresh { init: a[0].parse().unwrap() },
            "bulk_links" => K::BulkLinks { n: a[0].parse().unwrap(), tag: a[1].parse().unwrap() },
            "bulk" => K::Bulk { n: a[0].parse().unwrap(), tag: a[1].parse().unwrap() },
            "finish" => K::Finish { tag: a[0].parse().unwrap() },
            x => panic!("bad op {}", x),
        };
        Op { uid: t[1].parse().unwrap(), phase: kv(2), client: kv(3), slot: kv(4), k, unwind, stall }
    }
}
impl Scen {
    pub fn text(&self) -> String {
        let c = &self.cfg;
        let mut s = format!("# replay with: /verif/sim/target/release/faerie-sim replay <this file>\nproperty {}\nexpect {}\nmode {}\nseed {}\nhash {}\nheap {}\nlog {}\nenv {}\nalt {}\nstrict {}\nclients {}\npads", self.prop, self.expect, c.mode, c.seed, c.hash, c.heap, c.log, c.env, c.alt, c.strict_names as u8, self.clients);
        for p in &c.pads { let _ = write!(s, " {}", p); }
        s.push('\n');
        for x in &self.slots { let _ = writeln!(s, "slot {} {}", enc(&x.name), x.target); }
        for o in &self.ops { s.push_str(&o.text()); s.push('\n'); }
        for (u, k, t) in &self.sched { let _ = writeln!(s, "switch {} {} {}", u, k, t); }
        for (u, k, t) in &self.sched2 { let _ = writeln!(s, "switch2 {} {} {}", u, k, t); }
        s
    }
    pub fn parse(t: &str) -> Scen {
        let mut s = Scen::default();
        for l in t.lines() {
            let l = l.trim_end();
            if l.is_empty() || l.starts_with('#') { continue; }
            let (w, r) = l.split_once(' ').unwrap_or((l, ""));
            let n = || r.parse::<u64>().unwrap();
            match w {
                "property" => s.prop = r.into(), "expect" => s.expect = r.into(), "mode" => s.cfg.mode = r.into(),
                "seed" => s.cfg.seed = n(), "hash" => s.cfg.hash = n(), "heap" => s.cfg.heap = n(), "log" => s.cfg.log = n() as u8, "env" => s.cfg.env = n() as u8,
                "alt" => s.cfg.alt = n(), "strict" => s.cfg.strict_names = n() == 1, "clients" => s.clients = n() as u8,
                "pads" => s.cfg.pads = r.split_whitespace().map(|x| x.parse().unwrap()).collect(),
                "slot" => { let (a, b) = r.split_once(' ').unwrap(); s.slots.push(SlotInit { name: dec(a), target: b.into() }); }
                "op" => s.ops.push(Op::parse(l)),
                "switch" | "switch2" => { let p: Vec<u32> = r.split(' ').map(|x| x.parse().unwrap()).collect(); let e = (p[0], p[1], p[2] as u8); if w == "switch" { s.sched.push(e) } else { s.sched2.push(e) } }
                _ => panic!("bad line {}", l),
            }
        }
        s
    }
}
