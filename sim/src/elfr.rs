//! A strict, independent ELF relocatable-object reader, and the ELF oracles. Written from the gABI, not from faerie.
use crate::model::*;
use crate::rng::hash_bytes;
use crate::scen::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Sec { pub name: String, pub typ: u32, pub flags: u64, pub off: u64, pub size: u64, pub link: u32, pub info: u32, pub align: u64, pub entsize: u64 }
#[derive(Clone, Debug)]
pub struct Sym { pub name: String, pub bind: u8, pub typ: u8, pub vis: u8, pub raw: u16, pub shndx: u32, pub value: u64, pub size: u64 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Rel { pub off: u64, pub typ: u32, pub sym: u32, pub addend: i64 }
pub struct Elf<'a> { pub b: &'a [u8], pub c64: bool, pub secs: Vec<Sec>, pub syms: Vec<Sym>, pub rels: Vec<(u32, Vec<Rel>)>, pub problems: Vec<String>, pub extended: bool }

struct Rd<'a> { b: &'a [u8], le: bool, c64: bool }
impl<'a> Rd<'a> {
    fn n(&self, o: u64, k: usize) -> Result<u64, String> {
        let o = o as usize;
        if o.checked_add(k).map_or(true, |e| e > self.b.len()) { return Err(format!("read of {} bytes at {:#x} is outside the file ({:#x} bytes)", k, o, self.b.len())); }
        let mut v = 0u64;
        for i in 0..k { let x = self.b[if self.le { o + k - 1 - i } else { o + i }] as u64; v = v << 8 | x; }
        Ok(v)
    }
    fn word(&self, o: u64) -> Result<u64, String> { self.n(o, if self.c64 { 8 } else { 4 }) }
}
fn cstr(tab: &[u8], o: u64) -> Result<String, String> {
    let o = o as usize;
    if o >= tab.len() { return Err(format!("string offset {:#x} outside the string table ({:#x} bytes)", o, tab.len())); }
    let e = tab[o..].iter().position(|&c| c == 0).ok_or("unterminated string")?;
    String::from_utf8(tab[o..o + e].to_vec()).map_err(|_| format!("string at {:#x} is not a name that was given", o))
}
const NOBITS: u32 = 8;
impl Sec { pub fn nobits(&self) -> bool { self.typ == NOBITS } }

pub fn parse(b: &[u8]) -> Result<Elf<'_>, String> {
    let mut pr: Vec<String> = vec![];
    if b.len() < 52 || &b[..4] != b"\x7fELF" { return Err("not an ELF file".into()); }
    let c64 = match b[4] { 1 => false, 2 => true, c => return Err(format!("bad class {}", c)) };
    let le = match b[5] { 1 => true, 2 => false, c => return Err(format!("bad data encoding {}", c)) };
    if b[6] != 1 { pr.push(format!("EI_VERSION is {}", b[6])); }
    let r = Rd { b, le, c64 };
    let (eh, sh, st, ra) = if c64 { (64u64, 64u64, 24u64, 24u64) } else { (52, 40, 16, 12) };
    if r.n(16, 2)? != 1 { pr.push(format!("e_type is {}, not ET_REL", r.n(16, 2)?)); }
    let machine = r.n(18, 2)?;
    if r.n(20, 4)? != 1 { pr.push("e_version is not 1".into()); }
    let o = if c64 { 24 } else { 24 };
    let w = if c64 { 8 } else { 4 };
    let (phoff, shoff) = (r.word(o + w)?, r.word(o + 2 * w)?);
    let t = o + 3 * w;
    let (ehsize, phnum, shentsize, e_shnum, shstrndx) = (r.n(t + 4, 2)?, r.n(t + 8, 2)?, r.n(t + 10, 2)?, r.n(t + 12, 2)?, r.n(t + 14, 2)?);
    if ehsize != eh { pr.push(format!("e_ehsize {} instead of {}", ehsize, eh)); }
    if phnum != 0 || phoff != 0 { pr.push("a relocatable object has program headers".into()); }
    if shentsize != sh { return Err(format!("e_shentsize {} instead of {}", shentsize, sh)); }
    if shoff == 0 { return Err("no section header table".into()); }
    let size_of = |o: u64| -> Result<u64, String> { if c64 { r.n(o + 32, 8) } else { r.n(o + 20, 4) } };
    let mut extended = false;
    let shnum = if e_shnum == 0 { extended = true; size_of(shoff)? } else { e_shnum };
    if e_shnum >= 0xff00 { pr.push(format!("e_shnum {:#x} is in the reserved range", e_shnum)); }
    if extended && shnum < 0xff00 { pr.push(format!("extended section count used for {} sections", shnum)); }
    if shnum == 0 || shoff + shnum * sh > b.len() as u64 { return Err(format!("section header table ({} entries at {:#x}) outside the file", shnum, shoff)); }
    struct Raw { name: u64, s: Sec, addr: u64 }
    let mut raws = Vec::with_capacity(shnum as usize);
    for i in 0..shnum {
        let o = shoff + i * sh;
        let (name, typ) = (r.n(o, 4)?, r.n(o + 4, 4)? as u32);
        let (flags, addr, off, size, link, info, align, entsize) = if c64 { (r.n(o + 8, 8)?, r.n(o + 16, 8)?, r.n(o + 24, 8)?, r.n(o + 32, 8)?, r.n(o + 40, 4)?, r.n(o + 44, 4)?, r.n(o + 48, 8)?, r.n(o + 56, 8)?) }
            else { (r.n(o + 8, 4)?, r.n(o + 12, 4)?, r.n(o + 16, 4)?, r.n(o + 20, 4)?, r.n(o + 24, 4)?, r.n(o + 28, 4)?, r.n(o + 32, 4)?, r.n(o + 36, 4)?) };
        raws.push(Raw { name, addr, s: Sec { name: String::new(), typ, flags, off, size, link: link as u32, info: info as u32, align, entsize } });
    }
    { let z = &raws[0]; if z.s.typ != 0 || z.name != 0 || z.s.flags != 0 || z.addr != 0 || z.s.off != 0 || (!extended && z.s.size != 0) { pr.push("section header 0 is not the null section".into()); }
      if (shstrndx != 0xffff && z.s.link != 0) || z.s.info != 0 { pr.push("section header 0 carries a stray link or info".into()); } }
    let shstr = if shstrndx == 0xffff { raws[0].s.link as usize } else { shstrndx as usize };
    if shstr == 0 || shstr >= raws.len() || raws[shstr].s.typ != 3 { return Err(format!("section name table index {} is not a string table", shstr)); }
    // extents inside the file, no overlap
    let mut ext: Vec<(u64, u64, String)> = vec![(0, eh, "ELF header".into()), (shoff, shoff + shnum * sh, "section headers".into())];
    for (i, x) in raws.iter().enumerate() {
        if i > 0 && x.s.typ == 0 { pr.push(format!("section {} has type null", i)); }
        if x.s.align != 0 && !x.s.align.is_power_of_two() { pr.push(format!("section {}: alignment {} is not a power of two", i, x.s.align)); }
        if x.addr != 0 { pr.push(format!("section {} has an address", i)); }
        if x.s.typ == 0 || x.s.nobits() { continue; }
        match x.s.off.checked_add(x.s.size) { Some(e) if e <= b.len() as u64 => if x.s.size > 0 { ext.push((x.s.off, e, format!("section {}", i))) }, _ => return Err(format!("section {} ({:#x} bytes at {:#x}) outside the file ({:#x} bytes)", i, x.s.size, x.s.off, b.len())) }
    }
    ext.sort();
    for w in ext.windows(2) { if w[1].0 < w[0].1 { pr.push(format!("{} [{:#x},{:#x}) overlaps {} [{:#x},{:#x})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)); } }
    let body = |s: &Sec| &b[s.off as usize..(s.off + s.size) as usize];
    let names = body(&raws[shstr].s);
    for (i, x) in raws.iter().enumerate() { if x.s.typ == 3 { let t = body(&x.s); if t.is_empty() || t[0] != 0 || *t.last().unwrap() != 0 { pr.push(format!("string table {} does not begin and end with NUL", i)); } } }
    let mut secs = Vec::with_capacity(raws.len());
    for (i, mut x) in raws.into_iter().enumerate() { x.s.name = cstr(names, x.name).map_err(|e| format!("name of section {}: {}", i, e))?; secs.push(x.s); }
    let nsec = secs.len();
    // symbol table
    let tabs: Vec<usize> = (0..nsec).filter(|&i| secs[i].typ == 2).collect();
    if tabs.len() != 1 { return Err(format!("{} symbol tables", tabs.len())); }
    let ti = tabs[0];
    let tab = secs[ti].clone();
    if tab.entsize != st || tab.size % st != 0 { return Err(format!("symbol table of {} bytes with entry size {}", tab.size, tab.entsize)); }
    let sl = tab.link as usize;
    if sl >= nsec || secs[sl].typ != 3 { return Err(format!("symbol table's string table index {} is wrong", sl)); }
    let strs = body(&secs[sl]);
    let nsym = tab.size / st;
    let xi: Vec<usize> = (0..nsec).filter(|&i| secs[i].typ == 18).collect();
    if xi.len() > 1 { pr.push("more than one extended index table".into()); }
    let xt = xi.first().map(|&i| secs[i].clone());
    if let Some(x) = &xt {
        if x.link as usize != ti { pr.push(format!("extended index table linked to section {}", x.link)); }
        if x.size != nsym * 4 { pr.push(format!("extended index table of {} bytes for {} symbols", x.size, nsym)); }
        if x.entsize != 4 { pr.push("extended index table entry size".into()); }
    }
    let mut syms = Vec::with_capacity(nsym as usize);
    for i in 0..nsym {
        let o = tab.off + i * st;
        let (nm, info, other, raw, value, size) = if c64 { (r.n(o, 4)?, b[o as usize + 4], b[o as usize + 5], r.n(o + 6, 2)?, r.n(o + 8, 8)?, r.n(o + 16, 8)?) }
            else { (r.n(o, 4)?, b[o as usize + 12], b[o as usize + 13], r.n(o + 14, 2)?, r.n(o + 4, 4)?, r.n(o + 8, 4)?) };
        let name = cstr(strs, nm).map_err(|e| format!("name of symbol {}: {}", i, e))?;
        let xe = match &xt { Some(x) if (i + 1) * 4 <= x.size => r.n(x.off + i * 4, 4)? as u32, _ => 0 };
        let shndx = if raw == 0xffff {
            if xt.is_none() { return Err(format!("symbol {} needs an extended section index but there is no table", i)); }
            if xe < 0xff00 { pr.push(format!("symbol {} ({}) uses an extended section index for section {}", i, name, xe)); }
            xe
        } else { if xe != 0 { pr.push(format!("symbol {} ({}) has a stray extended section index {:#x}", i, name, xe)); } raw as u32 };
        let (bind, typ, vis) = (info >> 4, info & 15, other & 3);
        if other > 3 { pr.push(format!("symbol {} has st_other {:#x}", i, other)); }
        if bind > 2 { pr.push(format!("symbol {} has binding {}", i, bind)); }
        if i == 0 && (nm != 0 || info != 0 || other != 0 || raw != 0 || value != 0 || size != 0) { pr.push("symbol 0 is not the null symbol".into()); }
        if raw != 0xffff && raw >= 0xff00 { if raw != 0xfff1 { return Err(format!("symbol {} ({}) has reserved section index {:#x}", i, name, raw)); } }
        else if shndx as usize >= nsec { return Err(format!("symbol {} ({}) refers to section {} of {}", i, name, shndx, nsec)); }
        else if shndx != 0 {
            let s = &secs[shndx as usize];
            if typ != 3 && value.checked_add(size).map_or(true, |e| e > s.size) { pr.push(format!("symbol {} [{:#x}+{:#x}] lies outside its section {} of {:#x} bytes", name, value, size, s.name, s.size)); }
        }
        if typ == 3 && (bind != 0 || shndx == 0 || raw == 0xfff1 || value != 0) { pr.push(format!("malformed section symbol {}", i)); }
        if typ == 4 && (bind != 0 || raw != 0xfff1) { pr.push("the file symbol is not a local absolute symbol".into()); }
        syms.push(Sym { name, bind, typ, vis, raw: raw as u16, shndx, value, size });
    }
    let first = syms.iter().position(|s| s.bind != 0).unwrap_or(syms.len());
    if let Some(p) = syms[first..].iter().position(|s| s.bind == 0) { pr.push(format!("local symbol {} ({}) follows the non-local symbol {} ({})", first + p, syms[first + p].name, first, syms[first].name)); }
    let nloc = syms.iter().filter(|s| s.bind == 0).count();
    if tab.info as usize != nloc { pr.push(format!("symbol table says {} local symbols, there are {}", tab.info, nloc)); }
    // relocations
    let mut rels = vec![];
    for (i, s) in secs.iter().enumerate() {
        if s.typ == 9 { pr.push(format!("section {} is SHT_REL", i)); }
        if s.typ != 4 { continue; }
        if s.entsize != ra || s.size % ra != 0 { return Err(format!("relocation section {} of {} bytes with entry size {}", i, s.size, s.entsize)); }
        if s.link as usize != ti { pr.push(format!("relocation section {} names symbol table {}", i, s.link)); }
        if s.info == 0 || s.info as usize >= nsec || !(secs[s.info as usize].typ == 1 || secs[s.info as usize].nobits()) { pr.push(format!("relocation section {} applies to section {}", i, s.info)); continue; }
        if rels.iter().any(|x: &(u32, Vec<Rel>)| x.0 == s.info) { pr.push(format!("two relocation sections for section {}", s.info)); }
        let mut v = vec![];
        for j in 0..s.size / ra {
            let o = s.off + j * ra;
            // the fields of r_info have an order of their own on MIPS64: symbol (32 bits), special symbol, types 3, 2 and 1
            let q = if c64 && le && machine == 8 { Rel { off: r.n(o, 8)?, sym: r.n(o + 8, 4)? as u32, typ: (0..4).fold(0, |v, i| v << 8 | b[(o + 12 + i) as usize] as u32), addend: r.n(o + 16, 8)? as i64 } }
                else if c64 { let inf = r.n(o + 8, 8)?; Rel { off: r.n(o, 8)?, typ: inf as u32, sym: (inf >> 32) as u32, addend: r.n(o + 16, 8)? as i64 } }
                else { let inf = r.n(o + 4, 4)?; Rel { off: r.n(o, 4)?, typ: inf as u32 & 0xff, sym: inf as u32 >> 8, addend: r.n(o + 8, 4)? as u32 as i32 as i64 } };
            if q.sym as u64 >= nsym { return Err(format!("relocation {} of section {} names symbol {} of {}", j, i, q.sym, nsym)); }
            v.push(q);
        }
        rels.push((s.info, v));
    }
    // links of all the other sections
    for (i, s) in secs.iter().enumerate() { if i > 0 && ![2, 4, 18].contains(&s.typ) && (s.link != 0 || s.info != 0) { pr.push(format!("section {} ({}) has a stray link or info", i, s.name)); } }
    Ok(Elf { b, c64, secs, syms, rels, problems: pr, extended })
}
impl<'a> Elf<'a> {
    pub fn bytes(&self, s: &Sec) -> &'a [u8] { if s.typ == NOBITS || s.typ == 0 { &[] } else { &self.b[s.off as usize..(s.off + s.size) as usize] } }
    fn aux(&self, i: usize) -> bool { i == 0 || [2, 3, 4, 18].contains(&self.secs[i].typ) || (self.secs[i].typ == 1 && self.secs[i].size == 0 && self.secs[i].name == ".note.GNU-stack") }
}
fn show(b: &[u8]) -> String { if b.len() <= 12 { format!("{:02x?}", b) } else { format!("{:02x?}.. ({} bytes, hash {:x})", &b[..12], b.len(), hash_bytes(0, b)) } }

/// What of a definition's faithful appearance to look at.
#[derive(Clone, Copy, PartialEq)]
pub enum Focus { All, Zero }
/// C08 (and the ELF half of C14): every accepted definition, faithfully, and nothing else.
pub fn check_defs(e: &Elf, m: &Model, focus: Focus) -> Result<(), String> {
    let mut by: BTreeMap<&str, Vec<(usize, &Sym)>> = BTreeMap::new();
    for (i, s) in e.syms.iter().enumerate() { if s.typ != 3 && s.typ != 4 && i > 0 { by.entry(&s.name).or_default().push((i, s)); } }
    // a custom symbol may have the name of a definition, of an import, or of another section's custom symbol
    let customs: std::collections::BTreeSet<&str> = m.defs.iter().flat_map(|d| d.syms.keys()).map(|n| n.as_str()).collect();
    let named = |n: &str| -> Vec<(usize, &Sym)> { by.get(n).map_or(vec![], |v| v.iter().copied().filter(|x| !(customs.contains(n) && x.1.typ == 0 && x.1.raw != 0)).collect()) };
    let mut owned = vec![false; e.secs.len()];
    let mut zero_secs: Vec<(u32, String)> = vec![];
    for d in &m.defs {
        if d.decl.is_sec() { continue; }
        let skip = focus == Focus::Zero && !d.cont.is_zero();
        let v = named(d.name.as_str());
        if v.len() != 1 { if skip { continue; } return Err(format!("{} symbols named {:?} for one definition", v.len(), d.name)); }
        let s = v[0].1;
        if s.raw == 0 || s.raw == 0xfff1 { return Err(format!("definition {:?} is not located in a section (index {:#x})", d.name, s.raw)); }
        let sec = &e.secs[s.shndx as usize];
        owned[s.shndx as usize] = true;
        if skip { continue; }
        let (scope, vis, typ, x, w) = match d.decl { MDecl::Fn { scope, vis, .. } => (scope, vis, 2, true, false), MDecl::Data { scope, vis, w, .. } => (scope, vis, 1, false, w || d.cont.is_zero()), _ => unreachable!() };
        if focus == Focus::All {
            if s.bind != [1, 0, 2][scope as usize] { return Err(format!("{:?} is declared {} but has binding {}", d.name, SC[scope as usize], s.bind)); }
            if s.vis != [0, 2, 3][vis as usize] { return Err(format!("{:?} is declared with visibility {} but has {}", d.name, ["default", "hidden", "protected"][vis as usize], s.vis)); }
            if s.typ != typ { return Err(format!("{:?} has symbol type {} instead of {}", d.name, s.typ, typ)); }
            if s.value != 0 { return Err(format!("{:?} is at {:#x}, not at the start of its section", d.name, s.value)); }
        }
        if focus == Focus::All || d.cont.is_zero() {
            if s.size != d.cont.size() { return Err(format!("{:?} has size {} instead of {}", d.name, s.size, d.cont.size())); }
            if sec.size != d.cont.size() { return Err(format!("section {} of {:?} has size {} instead of {}", sec.name, d.name, sec.size, d.cont.size())); }
            if let Some(a) = d.decl.align() { if sec.align != a && !(a == 1 && sec.align == 0) { return Err(format!("{:?} asked for alignment {} and its section has {}", d.name, a, sec.align)); } }
            if d.cont.is_zero() != sec.nobits() || (!d.cont.is_zero() && sec.typ != 1) { return Err(format!("{:?} is in a section of type {}", d.name, sec.typ)); }
            if (sec.flags & 4 != 0) != x { return Err(format!("{:?}: section execute permission is {}", d.name, sec.flags & 4 != 0)); }
            if (sec.flags & 1 != 0) != w { return Err(format!("{:?}: section write permission is {}", d.name, sec.flags & 1 != 0)); }
            if sec.flags & 2 == 0 { return Err(format!("{:?}: section is not allocated", d.name)); }
            let str_like = matches!(d.decl, MDecl::Data { s: true, .. }) && !d.cont.is_zero();
            if !str_like && sec.flags & 0x30 != 0 { return Err(format!("{:?}: section may be merged by the linker (flags {:#x})", d.name, sec.flags)); }
            if d.cont.is_zero() { if zero_secs.iter().any(|z| z.0 == s.shndx) && d.cont.size() > 0 { return Err(format!("{:?} shares its storage with {:?}", d.name, zero_secs.iter().find(|z| z.0 == s.shndx).unwrap().1)); } zero_secs.push((s.shndx, d.name.clone())); }
            else if e.bytes(sec) != d.cont.bytes() { return Err(format!("contents of {:?}: {} instead of {}", d.name, show(e.bytes(sec)), show(&d.cont.bytes()))); }
        }
    }
    if focus == Focus::Zero {
        // others must not be disturbed: nothing else lives in a zero-fill section, contents of blobs are intact
        for d in &m.defs { if d.cont.is_zero() || d.decl.is_sec() { continue; }
            { let v = named(d.name.as_str()); if v.len() == 1 { let sec = &e.secs[v[0].1.shndx as usize];
                if sec.nobits() && d.cont.size() > 0 { return Err(format!("initialised {:?} is in a zero-fill section", d.name)); }
                if e.bytes(sec) != d.cont.bytes() { return Err(format!("contents of {:?} next to zero-initialised objects: {} instead of {}", d.name, show(e.bytes(sec)), show(&d.cont.bytes()))); } } } }
        return Ok(());
    }
    let mut nsyms = m.defs.iter().filter(|d| !d.decl.is_sec()).count();
    for d in &m.defs {
        if !d.decl.is_sec() { continue; }
        let want = d.cont.bytes();
        let c: Vec<usize> = (1..e.secs.len()).filter(|&i| e.secs[i].name == d.name && e.secs[i].typ == 1 && !owned[i]).collect();
        let hit = c.iter().copied().find(|&i| e.bytes(&e.secs[i]) == want.as_slice());
        let i = match hit { Some(i) => i, None => return Err(match c.first() { Some(&i) => format!("contents of custom section {:?}: {} instead of {}", d.name, show(e.bytes(&e.secs[i])), show(&want)), None => format!("custom section {:?} is missing", d.name) }) };
        owned[i] = true;
        let sec = &e.secs[i];
        if let MDecl::Sec { kind, .. } = d.decl {
            // mutable data, debug information, code or read-only data
            let (alloc, write, exec) = (sec.flags & 2 != 0, sec.flags & 1 != 0, sec.flags & 4 != 0);
            if alloc != (kind != 1) || write != (kind == 0) || (exec && kind != 2) { return Err(format!("custom section {:?} holds {} and is {}allocated, {}writable, {}executable", d.name, ["mutable data", "debug information", "code or read-only data"][kind as usize], if alloc { "" } else { "not " }, if write { "" } else { "not " }, if exec { "" } else { "not " })); }
        }
        if let Some(a) = d.decl.align() { if sec.align != a && !(a == 1 && sec.align == 0) { return Err(format!("custom section {:?} asked for alignment {} and has {}", d.name, a, sec.align)); } }
        for (n, off) in &d.syms {
            let v: Vec<(usize, &Sym)> = by.get(n.as_str()).map_or(vec![], |v| v.iter().copied().filter(|x| x.1.raw != 0 && (x.1.typ == 0 || m.get(n).is_none())).collect());
            let want = m.defs.iter().filter(|d| d.syms.contains_key(n)).count();
            if v.len() != want { return Err(format!("{} symbols named {:?} for {} custom symbols", v.len(), n, want)); }
            if !v.iter().any(|x| x.1.shndx as usize == i && x.1.value == *off) { let s = v[0].1; return Err(format!("custom symbol {:?} is at {:#x} in section {} instead of {:#x} in section {} ({:?})", n, s.value, s.shndx, off, i, d.name)); }
            nsyms += 1;
        }
    }
    for (n, _) in m.imports() {
        let v = named(n.as_str());
        if v.len() != 1 { return Err(format!("{} symbols for the import {:?}", v.len(), n)); }
        let s = v[0].1;
        if s.raw != 0 || s.bind != 1 || s.value != 0 { return Err(format!("import {:?} is not an undefined global symbol (section {:#x}, binding {})", n, s.raw, s.bind)); }
        nsyms += 1;
    }
    let total: usize = by.values().map(|v| v.len()).sum();
    if total != nsyms {
        let known = |n: &str| m.get(n).map_or(false, |d| !d.1.is_sec()) || m.defs.iter().any(|d| d.syms.contains_key(n));
        let extra: Vec<&&str> = by.keys().filter(|n| !known(n)).collect();
        return Err(format!("{} named symbols instead of {}; unexpected: {:?}", total, nsyms, &extra[..extra.len().min(5)]));
    }
    let files: Vec<&Sym> = e.syms.iter().filter(|s| s.typ == 4).collect();
    if files.len() > 1 || files.iter().any(|s| s.name != m.name) { return Err(format!("file name symbols {:?} for artifact {:?}", files.iter().map(|s| s.name.as_str()).collect::<Vec<_>>(), m.name)); }
    if e.syms.iter().any(|s| s.typ == 3 && !s.name.is_empty()) { return Err("a section symbol has a name".into()); }
    for i in 0..e.secs.len() { if !e.aux(i) && !owned[i] && e.secs[i].size > 0 { return Err(format!("section {} ({:?}, {} bytes) belongs to no accepted definition", i, e.secs[i].name, e.secs[i].size)); } }
    Ok(())
}

/// C06: the content of every accepted definition, once.
pub fn check_contents(e: &Elf, m: &Model) -> Result<(), String> {
    let mut by: BTreeMap<&str, Vec<&Sym>> = BTreeMap::new();
    for s in e.syms.iter().filter(|s| (s.typ == 1 || s.typ == 2) && s.raw != 0 && s.raw != 0xfff1) { by.entry(&s.name).or_default().push(s); }
    let customs: std::collections::BTreeSet<&str> = m.defs.iter().flat_map(|d| d.syms.keys()).map(|n| n.as_str()).collect();
    for d in &m.defs {
        let want = d.cont.bytes();
        if d.decl.is_sec() {
            if !(1..e.secs.len()).any(|i| e.secs[i].name == d.name && e.secs[i].typ == 1 && e.bytes(&e.secs[i]) == want.as_slice()) { return Err(format!("no section {:?} holds the {} bytes of the accepted definition", d.name, want.len())); }
            continue;
        }
        let v = by.get(d.name.as_str()).map_or(&[][..], |v| v.as_slice());
        if v.len() != 1 { if customs.contains(d.name.as_str()) { continue; } return Err(format!("{:?} is defined {} times in the object", d.name, v.len())); }
        let sec = &e.secs[v[0].shndx as usize];
        if d.cont.is_zero() { if v[0].size != d.cont.size() || (!sec.nobits() && e.bytes(sec).iter().any(|b| *b != 0)) { return Err(format!("{:?} is not {} zero bytes", d.name, d.cont.size())); } continue; }
        let o = v[0].value as usize;
        let got = e.bytes(sec).get(o..o.saturating_add(want.len()));
        if got != Some(want.as_slice()) || v[0].size != d.cont.size() { return Err(format!("{:?} is {} (size {}) instead of the accepted {}", d.name, got.map_or("absent".into(), show), v[0].size, show(&want))); }
    }
    Ok(())
}
/// C17: as many relocations as accepted links; the same multiset of sources, offsets and targets.
pub fn check_kept(e: &Elf, m: &Model) -> Result<(), String> { check_links(e, m, false) }
/// Index of the section that holds definition `n`.
pub fn home(e: &Elf, m: &Model, n: &str) -> Option<u32> {
    let d = m.def(n)?;
    if d.decl.is_sec() { let w = d.cont.bytes(); return (1..e.secs.len()).find(|&i| e.secs[i].name == n && e.secs[i].typ == 1 && e.bytes(&e.secs[i]) == w.as_slice() && !e.syms.iter().any(|s| (s.typ == 1 || s.typ == 2) && s.raw != 0 && s.shndx as usize == i)).map(|i| i as u32); }
    e.syms.iter().find(|s| s.name == n && (s.typ == 1 || s.typ == 2) && s.raw != 0).map(|s| s.shndx)
}
/// (source section, offset, type, target, addend); target: section index or import name
type R = (u32, u64, u32, String, i64);
/// C09: every accepted link exactly once, at the right place. `types`: check kind and addend as well.
pub fn check_links(e: &Elf, m: &Model, types: bool) -> Result<(), String> {
    let mut want: Vec<(R, String)> = vec![];
    let mut wild = vec![];
    let x64 = m.elf_arch_x64();
    let mut cache: BTreeMap<&str, Option<u32>> = BTreeMap::new();
    for (f, t, at, rel) in &m.links {
        for n in [f, t] { if !cache.contains_key(n.as_str()) { let h = home(e, m, n); cache.insert(n, h); } }
        let (fd, td) = (m.get(f).unwrap().1, m.get(t).unwrap().1);
        let src = cache[f.as_str()].ok_or_else(|| format!("the object has no section for {:?}, which has links", f))?;
        // a global definition elsewhere takes the place of a weak one: links have to refer to it by name
        let tgt = if td.is_import() { format!("import {}", t) } else if td.is_weak() { format!("weak {}", t) } else { format!("section {}", cache[t.as_str()].ok_or_else(|| format!("the object has no section for {:?}, the target of a link", t))?) };
        let (typ, add) = match rel {
            MRel::Raw(t, a) => (*t, *a as i64),
            MRel::Debug(s, a) => (if *s == 4 { 10 } else { 1 }, *a as i64),
            MRel::Auto => match (fd, td) {
                (MDecl::Fn { .. }, MDecl::Fn { .. }) | (MDecl::Fn { .. }, MDecl::Imp { f: true }) => (4, -4),
                (MDecl::Fn { .. }, MDecl::Data { .. }) => (2, -4),
                (MDecl::Fn { .. }, MDecl::Imp { f: false }) => (9, -4),
                _ => (if m.is64() { 1 } else { 10 }, 0),
            },
        };
        let any = !types || (!x64 && !matches!(rel, MRel::Raw(..)));
        want.push(((src, *at, typ, tgt, add), format!("{} -> {} at {} ({:?})", f, t, at, rel)));
        wild.push(any);
    }
    let mut have: Vec<(R, bool)> = vec![];
    for (sec, v) in &e.rels { for r in v {
        let s = &e.syms[r.sym as usize];
        let (tgt, add) = if s.raw == 0 { (format!("import {}", s.name), r.addend) } else if s.bind == 2 && s.typ != 3 { (format!("weak {}", s.name), r.addend) } else { (format!("section {}", s.shndx), r.addend + s.value as i64) };
        have.push(((*sec, r.off, r.typ, tgt, add), false));
    } }
    if have.len() != want.len() { return Err(format!("{} relocations for {} accepted links", have.len(), want.len())); }
    let mut at: std::collections::HashMap<(u32, u64), Vec<usize>> = Default::default();
    for (i, (h, _)) in have.iter().enumerate() { at.entry((h.0, h.1)).or_default().push(i); }
    let none = vec![];
    for pass in [false, true] { for (i, (w, desc)) in want.iter().enumerate() { if wild[i] != pass { continue; }
        let p = at.get(&(w.0, w.1)).unwrap_or(&none).iter().copied().find(|&i| { let (h, used) = &have[i]; !used && h.3 == w.3 && (pass || (h.2 == w.2 && h.4 == w.4)) });
        match p { Some(p) => have[p].1 = true, None => {
            let near: Vec<String> = have.iter().filter(|(h, u)| !u && h.0 == w.0).take(3).map(|(h, _)| format!("{:?}", h)).collect();
            return Err(format!("link {}: no relocation {:?} (section, offset, type, target, addend); unmatched in that section: [{}]", desc, w, near.join(", "))) } }
    } }
    Ok(())
}
/// Meaning of the object, independent of placement and order (C05, C06, C16, C17).
pub fn canon(e: &Elf, m: &Model) -> Vec<String> {
    let mut owner: BTreeMap<u32, String> = BTreeMap::new();
    for s in &e.syms { if (s.typ == 1 || s.typ == 2) && s.raw != 0 && s.raw != 0xfff1 { owner.insert(s.shndx, format!("def {}", s.name)); } }
    let mut v = vec![];
    let sd = |i: u32| -> String { let s = &e.secs[i as usize]; format!("type {} flags {:x} align {} size {} content {:x}", s.typ, s.flags, s.align, s.size, hash_bytes(0, e.bytes(s))) };
    for (i, s) in e.secs.iter().enumerate() { if !e.aux(i) && !owner.contains_key(&(i as u32)) { v.push(format!("section {} {}", s.name, sd(i as u32))); } }
    let own = |i: u32| owner.get(&i).cloned().unwrap_or_else(|| format!("section {}", e.secs[i as usize].name));
    for (i, s) in e.syms.iter().enumerate() { if i == 0 { continue; }
        let a = format!("symbol {:?} bind {} type {} vis {} value {} size {}", s.name, s.bind, s.typ, s.vis, s.value, s.size);
        v.push(if s.raw == 0 || s.raw == 0xfff1 { format!("{} index {:x}", a, s.raw) } else if s.typ == 3 { format!("section symbol of {}", own(s.shndx)) } else { format!("{} in {} {}", a, own(s.shndx), if s.typ == 0 { String::new() } else { sd(s.shndx) }) });
    }
    for (sec, r) in &e.rels { for r in r { let s = &e.syms[r.sym as usize];
        let t = if s.raw == 0 { format!("import {}", s.name) } else { format!("{} + {}", own(s.shndx), s.value) };
        v.push(format!("relocation in {} at {} type {} to {} addend {}", own(*sec), r.off, r.typ, t, r.addend)); } }
    let _ = m;
    v.sort();
    v
}
