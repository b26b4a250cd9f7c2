//! The reference model: what an artifact is supposed to be after a sequence of calls. Deliberately naive.
use crate::rng::{hash_bytes, mix};
use crate::scen::*;
use faerie::artifact::DefinedDecl;
use faerie::{Architecture, Decl, Triple};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::str::FromStr;

/// What a call returned.
#[derive(Clone, Debug)]
pub enum Out { Ok, Bytes(Rc<Vec<u8>>), Names(Vec<String>), Imports(Vec<(String, bool)>), Err(ErrV), Unwound, Panic(String) }
#[derive(Clone, Debug, PartialEq)]
pub enum ErrV {
    Undeclared(String), ImportDefined(String), RelocateImport(String), Incompatible(Decl, Decl), Duplicate(String),
    ZeroInit(DefinedDecl), Syms(DefinedDecl, BTreeMap<String, u64>), Unsupported(Fmt), UndefinedSymbols(Vec<String>), Io(Option<i32>, String), Other(String),
}
impl Out {
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok | Out::Bytes(_) | Out::Names(_) | Out::Imports(_)) }
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Ok, Out::Ok) | (Out::Unwound, Out::Unwound) | (Out::Panic(_), Out::Panic(_)) => true,
            (Out::Bytes(a), Out::Bytes(b)) => a == b,
            (Out::Names(a), Out::Names(b)) => a == b,
            (Out::Imports(a), Out::Imports(b)) => a == b,
            (Out::Err(a), Out::Err(b)) => a == b,
            _ => false,
        }
    }
    pub fn brief(&self) -> String {
        match self { Out::Bytes(b) => format!("{} bytes (hash {:016x})", b.len(), hash_bytes(1, b)), Out::Panic(m) => format!("panic: {}", m), x => { let mut s = format!("{:?}", x); if s.len() > 600 { let mut c = 600; while !s.is_char_boundary(c) { c -= 1; } s.truncate(c); s.push_str("..."); } s } }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct MDef { pub name: String, pub decl: MDecl, pub cont: Cont, pub syms: BTreeMap<String, u64> }
#[derive(Clone, Debug)]
pub struct Model { pub name: String, pub target: Triple, pub decls: Vec<(String, MDecl, bool)>, pub ix: BTreeMap<String, usize>, pub defs: Vec<MDef>, pub links: Vec<(String, String, u64, MRel)>, pub strict: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sup { Yes, Unspecified, Refused }

pub fn mach_sectname(n: &str) -> String { if let Some(r) = n.strip_prefix(".debug") { format!("__debug{}", r) } else { n.to_string() } }
pub fn mach_segname(kind: u8) -> &'static str { ["__DATA", "__DWARF", "__TEXT"][kind as usize] }

impl Model {
    pub fn new(s: &SlotInit) -> Model { Model { name: s.name.clone(), target: Triple::from_str(&s.target).unwrap(), decls: vec![], ix: BTreeMap::new(), defs: vec![], links: vec![], strict: false } }
    pub fn get(&self, n: &str) -> Option<&(String, MDecl, bool)> { self.ix.get(n).map(|&i| &self.decls[i]) }
    pub fn def(&self, n: &str) -> Option<&MDef> { self.defs.iter().find(|d| d.name == n) }
    pub fn can_declare(&self, n: &str, d: MDecl) -> Result<(), ErrV> {
        let old = match self.get(n) { None => return Ok(()), Some(o) => o.1 };
        let ok = match (old, d) {
            (MDecl::Imp { f }, MDecl::Imp { f: g }) => f == g,
            (MDecl::Imp { f: true }, MDecl::Fn { .. }) | (MDecl::Imp { f: false }, MDecl::Data { .. }) => true,
            (MDecl::Fn { .. }, MDecl::Imp { f: true }) | (MDecl::Data { .. }, MDecl::Imp { f: false }) => true,
            (a, b) => a == b,
        };
        if ok { Ok(()) } else { Err(ErrV::Incompatible(old.real(), d.real())) }
    }
    pub fn declare(&mut self, n: &str, d: MDecl) {
        match self.ix.get(n) {
            None => { self.ix.insert(n.to_string(), self.decls.len()); self.decls.push((n.to_string(), d, false)); }
            Some(&i) => if self.decls[i].1.is_import() { self.decls[i].1 = d; },
        }
    }
    pub fn define_errs(&self, n: &str, c: &Cont, syms: &BTreeMap<String, u64>) -> Vec<ErrV> {
        let (_, d, defined) = match self.get(n) { None => return vec![ErrV::Undeclared(n.into())], Some(x) => x };
        let mut v = vec![];
        if *defined { v.push(ErrV::Duplicate(n.into())); }
        if d.is_import() { v.push(ErrV::ImportDefined(n.into())); return v; }
        if !d.is_sec() && !syms.is_empty() { v.push(ErrV::Syms(d.real_defined(), syms.clone())); }
        if c.is_zero() && !d.is_data() { v.push(ErrV::ZeroInit(d.real_defined())); }
        v
    }
    pub fn define(&mut self, n: &str, c: &Cont, syms: &BTreeMap<String, u64>) {
        let i = self.ix[n];
        self.decls[i].2 = true;
        self.defs.push(MDef { name: n.into(), decl: self.decls[i].1, cont: *c, syms: syms.clone() });
    }
    pub fn link_errs(&self, from: &str, to: &str) -> Vec<ErrV> {
        let mut v = vec![];
        match self.get(from) { None => v.push(ErrV::Undeclared(from.into())), Some(d) => if d.1.is_import() { v.push(ErrV::RelocateImport(from.into())) } }
        if self.get(to).is_none() { v.push(ErrV::Undeclared(to.into())); }
        v
    }
    pub fn undefined(&self) -> Vec<String> { self.decls.iter().filter(|d| !d.1.is_import() && !d.2).map(|d| d.0.clone()).collect() }
    pub fn imports(&self) -> BTreeSet<(String, bool)> { self.decls.iter().filter_map(|d| if let MDecl::Imp { f } = d.1 { Some((d.0.clone(), f)) } else { None }).collect() }
    /// The primitive steps a mutating call consists of.
    pub fn steps(k: &K) -> Vec<K> {
        match k {
            K::Batch { items } => items.iter().map(|(n, d)| K::Declare { name: n.clone(), decl: *d }).collect(),
            K::DeclareWith { name, decl, cont } => vec![K::Declare { name: name.clone(), decl: *decl }, K::Define { name: name.clone(), cont: *cont }],
            K::Import { name, f } => vec![K::Declare { name: name.clone(), decl: MDecl::Imp { f: *f } }],
            K::BulkLinks { n, tag } => bulk_links(*tag, *n),
            K::Bulk { n, tag } => (0..*n).flat_map(|i| { let (nm, d, c) = bulk_item(*tag, i, *n > 10_000); let mut v = vec![K::Declare { name: nm.clone(), decl: d }]; if !d.is_import() { v.push(K::Define { name: nm, cont: c }); } v }).collect(),
            x => vec![x.clone()],
        }
    }
    /// Errors allowed for a primitive mutating step (empty: it must be accepted).
    pub fn errs(&self, k: &K) -> Vec<ErrV> {
        match k {
            K::Declare { name, decl } => self.can_declare(name, *decl).err().into_iter().collect(),
            K::Define { name, cont } => self.define_errs(name, cont, &BTreeMap::new()),
            K::DefineSyms { name, cont, syms } => self.define_errs(name, cont, &syms.iter().cloned().collect()),
            K::Link { from, to, .. } => self.link_errs(from, to),
            _ => vec![],
        }
    }
    pub fn accept(&mut self, k: &K) {
        match k {
            K::Declare { name, decl } => self.declare(name, *decl),
            K::Define { name, cont } => self.define(name, cont, &BTreeMap::new()),
            K::DefineSyms { name, cont, syms } => self.define(name, cont, &syms.iter().cloned().collect()),
            K::Link { from, to, at, rel } => self.links.push((from.clone(), to.clone(), *at, *rel)),
            K::Retarget { name, target } => { self.name = name.clone(); self.target = Triple::from_str(target).unwrap(); }
            _ => {}
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = hash_bytes(7, self.name.as_bytes());
        for d in &self.decls { h = mix(h, hash_bytes(d.2 as u64, d.0.as_bytes())); h = mix(h, hash_bytes(3, d.1.text().as_bytes())); }
        for d in &self.defs { h = mix(h, hash_bytes(5, d.name.as_bytes())); h = mix(h, match d.cont { Cont::Blob { tag, len } => mix(tag, len as u64), Cont::Zero(n) => mix(n, 1) }); for (s, o) in &d.syms { h = mix(h, hash_bytes(*o, s.as_bytes())); } }
        for l in &self.links { h = mix(h, hash_bytes(l.2, l.0.as_bytes())); h = mix(h, hash_bytes(9, l.1.as_bytes())); }
        h
    }
    /// Mach-O: custom symbols are external there; a name that occurs twice has no meaning (see DESIGN.md, known findings).
    fn collides(&self) -> bool {
        if self.strict { return false; }
        let mut seen: BTreeSet<&str> = self.decls.iter().map(|d| d.0.as_str()).collect();
        for d in &self.defs { for s in d.syms.keys() { if !seen.insert(s) || s.is_empty() { return true; } } }
        false
    }
    /// Mach-O: could an address, with whatever padding, leave the address space?
    fn wraps(&self) -> bool {
        let max = if self.is64() { u64::MAX as u128 } else { u32::MAX as u128 };
        let coarse = self.defs.iter().map(|d| d.decl.align().unwrap_or(1) as u128).max().unwrap_or(1).max(16);
        let far = self.defs.iter().flat_map(|d| d.syms.values()).max().map_or(0, |&o| o as u128);
        // padding in front of every definition and of every section
        self.defs.iter().map(|d| d.cont.size() as u128).sum::<u128>() + coarse * (2 * self.defs.len() as u128 + 8) + far > max
    }
    /// A link from zero-initialised data: there are no bytes to relocate, an emission may refuse it.
    pub fn zero_source(&self) -> bool { self.links.iter().any(|l| self.def(&l.0).map_or(false, |d| d.cont.is_zero())) }
    pub fn elf_arch_x64(&self) -> bool { self.target.architecture == Architecture::X86_64 }
    pub fn is64(&self) -> bool { self.target.pointer_width().map_or(true, |p| p.bits() == 64) }
    /// Can the format express the (fully defined) artifact? `None`: not specified.
    pub fn fits(&self, f: Fmt) -> Option<Result<(), String>> {
        use Architecture::*;
        let no = |t: String| Some(Err(t));
        let elf = match f { Fmt::Elf => true, Fmt::Macho => false, _ => return None };
        if elf && !matches!(self.target.architecture, X86_64 | X86_32(_) | Aarch64(_) | Arm(_) | Mips32(_) | Mips64(_) | Powerpc | Powerpc64 | Powerpc64le | Riscv32(_) | Riscv64(_) | S390x | Sparc | Sparc64 | Sparcv9 | Msp430 | Unknown)
            || !elf && !matches!(self.target.architecture, X86_64 | Aarch64(_) | X86_32(_) | Arm(_) | Powerpc | Powerpc64 | Powerpc64le | Sparc | Unknown) { return no(format!("architecture {}", self.target.architecture)); }
        if self.decls.iter().any(|d| d.0.contains('\0')) || self.defs.iter().any(|d| d.syms.keys().any(|s| s.contains('\0'))) { return no("NUL in a name".into()); }
        let narrow = !self.is64();
        let max = u32::MAX as u64;
        // of the symbols of one name only the first gets into a Mach-O object (known finding), whatever the address of the others
        let collide = !elf && self.collides();
        let mut unknown = self.name.contains('\0') || collide;
        let mut sum = 0u128;
        for d in &self.defs {
            if narrow && d.cont.size() > max { return no("size beyond 32 bits".into()); }
            if narrow && elf && d.decl.align().unwrap_or(1) > max { return no("alignment beyond 32 bits".into()); }
            for &o in d.syms.values() { if narrow && o > max && !collide { return no("custom symbol beyond 32 bits".into()); } }
            sum += d.cont.size() as u128;
        }
        if !elf {
            let max = if narrow { max as u128 } else { u64::MAX as u128 };
            if sum > max { return no(format!("total size beyond {} bits", if narrow { 32 } else { 64 })); }
            if self.wraps() { unknown = true; }
            // an address has to be computed from the offset of a custom symbol: what surely lies in front of its section counts
            let before = self.defs.iter().filter(|d| !d.decl.is_sec()).map(|d| d.cont.size() as u128).sum::<u128>();
            if !collide && self.defs.iter().any(|d| d.syms.values().any(|&o| before + o as u128 > max)) { return no("custom symbol beyond the last address".into()); }
        }
        if !elf {
            let mut secs = BTreeSet::new();
            for d in &self.defs { if let MDecl::Sec { kind, .. } = d.decl {
                let n = mach_sectname(&d.name);
                if n.len() > 16 { return no("section name of more than 16 bytes".into()); }
                if n.is_empty() || !secs.insert((kind, n, d.cont.bytes())) { unknown = true; }
            } }
            if self.defs.iter().filter(|d| d.decl.is_sec()).count() > 251 { return no("more than 255 sections".into()); }
        }
        let odd_arch = !self.elf_arch_x64();
        for (fr, to, at, r) in &self.links {
            let (a, b) = (self.get(fr).unwrap().1, self.get(to).unwrap().1);
            if self.def(fr).map_or(false, |d| d.cont.is_zero()) { unknown = true; }
            if elf {
                if narrow && *at > max { return no("link offset beyond 32 bits".into()); }
                match r {
                    MRel::Auto => { if a.is_sec() { return no("automatic relocation in a section".into()); } if a.is_fn() && b.is_sec() { return no("automatic relocation from a function to a section".into()); } }
                    MRel::Debug(s, _) => if *s != 4 && *s != 8 { return no(format!("debug relocation of {} bytes", s)); },
                    MRel::Raw(t, _) => if narrow && *t > 255 { return no("relocation type beyond 8 bits".into()); },
                }
            } else {
                if let MRel::Debug(..) = r { if b.is_sec() { unknown = true; continue; } }
                if *at > i32::MAX as u64 { return no("link offset beyond 31 bits".into()); }
                if *at > i32::MAX as u64 / 2 && !a.is_sec() { unknown = true; }
                match r {
                    MRel::Auto => if a.is_sec() || b.is_sec() { return no("automatic relocation with a section".into()); },
                    MRel::Debug(s, ad) => { if !a.is_sec() { return no("debug relocation outside a section".into()); } if *s == 0 { unknown = true; } else if *s != 4 && *s != 8 { return no(format!("debug relocation of {} bytes", s)); }
                        if *ad != 0 { if self.strict { return no("addend of a debug relocation".into()); } unknown = true; } }
                    MRel::Raw(t, ad) => { if *t > 15 { return no("relocation type beyond 4 bits".into()); } if *ad != 0 { return no("addend".into()); }
                        if b.is_sec() { if self.defs.iter().any(|d| d.syms.contains_key(to)) { unknown = true; } else { return no("relocation to a section".into()); } } }
                }
            }
            if odd_arch && !matches!(r, MRel::Raw(..)) { if self.strict && matches!(r, MRel::Auto) { return no(format!("relocation with x86-64 numbers for {}", self.target.architecture)); } unknown = true; }
        }
        if unknown { None } else { Some(Ok(())) }
    }
    /// Is emission of the (fully defined) artifact in this format specified?
    pub fn supports(&self, f: Fmt) -> Sup {
        match f {
            Fmt::Elf => {
                use Architecture::*;
                if !matches!(self.target.architecture, X86_64 | X86_32(_) | Aarch64(_) | Arm(_) | Mips32(_) | Mips64(_) | Powerpc | Powerpc64 | Powerpc64le | Riscv32(_) | Riscv64(_) | S390x | Sparc | Sparc64 | Sparcv9 | Msp430 | Unknown) { return Sup::Unspecified; }
                if self.name.contains('\0') || !matches!(self.fits(Fmt::Elf), None | Some(Ok(()))) { return Sup::Unspecified; }
                for (fr, to, _, r) in &self.links {
                    let (a, b) = (self.get(fr).unwrap().1, self.get(to).unwrap().1);
                    match r {
                        MRel::Auto => if a.is_sec() || (a.is_fn() && b.is_sec()) { return Sup::Unspecified; },
                        MRel::Debug(s, _) => if *s != 4 && *s != 8 { return Sup::Unspecified; },
                        MRel::Raw(t, _) => if !self.is64() && *t > 255 { return Sup::Unspecified; },
                    }
                }
                Sup::Yes
            }
            Fmt::Macho => {
                use Architecture::*;
                if !matches!(self.target.architecture, X86_64 | Aarch64(_) | X86_32(_) | Arm(_) | Powerpc) { return Sup::Unspecified; }
                if self.collides() || self.wraps() || self.decls.iter().any(|d| d.0.contains('\0')) { return Sup::Unspecified; }
                let mut secs: BTreeMap<(u8, String), Vec<Cont>> = BTreeMap::new();
                for d in &self.defs { if let MDecl::Sec { kind, .. } = d.decl {
                    let n = mach_sectname(&d.name);
                    if n.len() > 16 || n.is_empty() { return Sup::Unspecified; }
                    // sections of the same name can be told apart by nothing but their contents
                    let alike = secs.entry((kind, n)).or_default();
                    alike.push(d.cont);
                    if alike[1..].iter().enumerate().any(|(i, c)| alike[..=i].iter().any(|x| x.bytes() == c.bytes())) { return Sup::Unspecified; }
                } }
                if !matches!(self.fits(Fmt::Macho), None | Some(Ok(()))) { return Sup::Unspecified; }
                for (fr, to, at, r) in &self.links {
                    let (a, b) = (self.get(fr).unwrap().1, self.get(to).unwrap().1);
                    if *at > i32::MAX as u64 { return Sup::Unspecified; }
                    match r {
                        MRel::Auto => if a.is_sec() || b.is_sec() { return Sup::Unspecified; },
                        MRel::Debug(s, _) => if !a.is_sec() || (*s != 4 && *s != 8) { return Sup::Unspecified; },
                        MRel::Raw(t, ad) => if *t > 15 || *ad != 0 || b.is_sec() { return Sup::Unspecified; },
                    }
                    if self.def(fr).map_or(false, |d| d.cont.is_zero()) { return Sup::Unspecified; }
                }
                Sup::Yes
            }
            _ => Sup::Refused,
        }
    }
}
fn bulk_links(tag: u64, n: u32) -> Vec<K> {
    let nm = |c: char, i: u64| format!("{}{}_{}", c, tag % 1000, i);
    let mut v = vec![];
    let src = if tag % 3 == 0 { MDecl::Data { scope: 1, vis: 0, w: tag % 2 == 0, s: false, align: None } } else { MDecl::Fn { scope: 0, vis: 0, align: None } };
    let imports = 1 + tag / 7 % (n as u64 / 50 + 2);
    for i in 0..imports { v.push(K::Declare { name: nm('i', i), decl: MDecl::Imp { f: i % 3 > 0 } }); }
    v.push(K::Declare { name: nm('s', 0), decl: src });
    v.push(K::Declare { name: nm('t', 0), decl: MDecl::Fn { scope: 1, vis: 0, align: None } });
    v.push(K::Define { name: nm('t', 0), cont: Cont::Blob { tag, len: 9 } });
    v.push(K::Define { name: nm('s', 0), cont: Cont::Blob { tag: tag + 1, len: n + 8 } });
    for i in 0..n {
        let h = mix(tag, i as u64);
        let to = match h % 4 { 0 => nm('t', 0), 1 => nm('s', 0), _ => nm('i', (h >> 8) % imports) };
        v.push(K::Link { from: nm('s', 0), to, at: i as u64, rel: MRel::Auto });
    }
    v
}
/// Very many of a kind (always functions if there are to be that many sections), of all kinds, or imports
pub fn bulk_item(tag: u64, i: u32, functions: bool) -> (String, MDecl, Cont) {
    let h = mix(tag, i as u64);
    let scope = if h % 16 == 0 { 0 } else { 1 };
    let name = format!("b{}_{}", tag % 1000, i);
    let small = Cont::Blob { tag: h, len: (h >> 8) as u32 % 3 };
    let kind = if functions { 0 } else { match tag >> 10 & 7 { 0..=2 => 0, 3 | 4 => h >> 20 & 7, 5 => 7, 6 => 5, _ => 4 } };
    let data = |w, s| MDecl::Data { scope, vis: 0, w, s, align: if h >> 30 & 7 == 0 { Some((h >> 33 & 3) as u8) } else { None } };
    match kind {
        0..=2 => (name, MDecl::Fn { scope, vis: 0, align: None }, small),
        3 => (name, data(h >> 24 & 1 == 0, false), small),
        4 => (name, data(false, true), Cont::Blob { tag: 6 << 40 | h >> 40, len: (h >> 8) as u32 % 5 }),
        5 | 6 => (name, data(true, false), Cont::Zero(h >> 8 & 31)),
        _ => (name, MDecl::Imp { f: h >> 24 & 1 == 0 }, Cont::Zero(0)),
    }
}
