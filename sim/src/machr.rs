//! A strict, independent Mach-O object reader, and the Mach-O oracles. Written from the format's reference.
use crate::model::*;
use crate::rng::hash_bytes;
use crate::scen::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Sec { pub sect: String, pub seg: String, pub addr: u64, pub size: u64, pub off: u64, pub align: u32, pub reloff: u64, pub nreloc: u64, pub flags: u32 }
#[derive(Clone, Debug)]
pub struct Sym { pub name: String, pub typ: u8, pub sect: u8, pub desc: u16, pub value: u64 }
#[derive(Clone, Copy, Debug)]
pub struct Rel { pub addr: i64, pub sym: u32, pub pcrel: bool, pub len: u8, pub ext: bool, pub typ: u8 }
pub struct Mach<'a> { pub b: &'a [u8], pub secs: Vec<Sec>, pub syms: Vec<Sym>, pub rels: Vec<Vec<Rel>>, pub problems: Vec<String>, pub vm: (u64, u64) }
impl Sec { pub fn zerofill(&self) -> bool { self.flags & 0xff == 1 } pub fn key(&self) -> String { format!("{},{}", self.seg, self.sect) } }

pub fn parse(b: &[u8]) -> Result<Mach<'_>, String> {
    let mut pr = vec![];
    let n = |o: u64, k: usize, le: bool| -> Result<u64, String> {
        let o = o as usize;
        if o.checked_add(k).map_or(true, |e| e > b.len()) { return Err(format!("read of {} bytes at {:#x} is outside the file ({:#x} bytes)", k, o, b.len())); }
        let mut v = 0u64;
        for i in 0..k { v = v << 8 | b[if le { o + k - 1 - i } else { o + i }] as u64; }
        Ok(v)
    };
    let (c64, le) = match n(0, 4, true)? as u32 { 0xfeedfacf => (true, true), 0xfeedface => (false, true), 0xcffaedfe => (true, false), 0xcefaedfe => (false, false), m => return Err(format!("bad magic {:#x}", m)) };
    let u = |o: u64, k: usize| n(o, k, le);
    let hsz = if c64 { 32 } else { 28 };
    if u(12, 4)? != 1 { pr.push(format!("file type {} is not an object", u(12, 4)?)); }
    let (ncmds, szcmds) = (u(16, 4)?, u(20, 4)?);
    let end = hsz + szcmds;
    if end > b.len() as u64 { return Err("load commands outside the file".into()); }
    let mut o = hsz;
    let mut secs: Vec<Sec> = vec![];
    let mut seg: Option<(u64, u64, u64, u64)> = None;
    let mut st: Option<(u64, u64, u64, u64)> = None;
    let name16 = |o: u64| -> String { let s = &b[o as usize..o as usize + 16]; let e = s.iter().position(|&c| c == 0).unwrap_or(16); String::from_utf8_lossy(&s[..e]).into_owned() };
    for i in 0..ncmds {
        if o + 8 > end { return Err(format!("load command {} starts outside the command area", i)); }
        let (cmd, sz) = (u(o, 4)?, u(o + 4, 4)?);
        if sz < 8 || o + sz > end { return Err(format!("load command {} of {} bytes leaves the command area", i, sz)); }
        if sz % if c64 { 8 } else { 4 } != 0 { pr.push(format!("load command {} has size {}", i, sz)); }
        match cmd {
            0x19 | 0x1 => {
                if (cmd == 0x19) != c64 { return Err("segment command of the wrong width".into()); }
                if seg.is_some() { pr.push("more than one segment".into()); }
                let (w, base) = if c64 { (8u64, 72u64) } else { (4, 56) };
                let ssz = if c64 { 80 } else { 68 };
                if sz < base { return Err("segment command too small".into()); }
                let f = |i: u64| u(o + 24 + i * w, w as usize);
                seg = Some((f(0)?, f(1)?, f(2)?, f(3)?));
                let ns = u(o + 24 + 4 * w + 8, 4)?;
                if base + ns * ssz != sz { return Err(format!("segment command of {} bytes with {} sections", sz, ns)); }
                for j in 0..ns {
                    let q = o + base + j * ssz;
                    let t = q + 32 + 2 * w;
                    secs.push(Sec { sect: name16(q), seg: name16(q + 16), addr: u(q + 32, w as usize)?, size: u(q + 32 + w, w as usize)?, off: u(t, 4)?, align: u(t + 4, 4)? as u32, reloff: u(t + 8, 4)?, nreloc: u(t + 12, 4)?, flags: u(t + 16, 4)? as u32 });
                }
            }
            0x2 => { if sz != 24 { pr.push(format!("symbol table command of {} bytes", sz)); } if st.is_some() { pr.push("more than one symbol table".into()); } st = Some((u(o + 8, 4)?, u(o + 12, 4)?, u(o + 16, 4)?, u(o + 20, 4)?)); }
            _ => pr.push(format!("unexpected load command {:#x}", cmd)),
        }
        o += sz;
    }
    if o != end { pr.push(format!("load commands end at {:#x}, the header says {:#x}", o, end)); }
    let (vmaddr, vmsize, fileoff, filesize) = seg.ok_or("no segment")?;
    let (symoff, nsyms, stroff, strsize) = st.ok_or("no symbol table")?;
    let fl = b.len() as u64;
    let mut ext: Vec<(u64, u64, String)> = vec![(0, end, "header and load commands".into())];
    let put = |ext: &mut Vec<(u64, u64, String)>, a: u64, s: u64, what: String| -> Result<(), String> {
        if a.checked_add(s).map_or(true, |e| e > fl) { return Err(format!("{} ({:#x} bytes at {:#x}) outside the file ({:#x} bytes)", what, s, a, fl)); }
        if s > 0 { ext.push((a, a + s, what)); }
        Ok(())
    };
    if fileoff + filesize > fl { pr.push(format!("segment contents [{:#x}+{:#x}] outside the file ({:#x} bytes)", fileoff, filesize, fl)); }
    if vmsize < filesize { pr.push(format!("segment has {:#x} bytes in the file but only {:#x} in memory", filesize, vmsize)); }
    let mut mem: Vec<(u64, u64, String)> = vec![];
    for s in &secs {
        if s.align > 62 { return Err(format!("section {} has alignment 2^{}", s.key(), s.align)); }
        if s.addr < vmaddr || s.addr.checked_add(s.size).map_or(true, |e| e > vmaddr + vmsize) { pr.push(format!("section {} [{:#x}+{:#x}] lies outside its segment [{:#x}+{:#x}]", s.key(), s.addr, s.size, vmaddr, vmsize)); }
        if s.size > 0 { mem.push((s.addr, s.addr.saturating_add(s.size), s.key())); }
        if !s.zerofill() {
            put(&mut ext, s.off, s.size, format!("section {}", s.key()))?;
            if s.size > 0 && (s.off < fileoff || s.off + s.size > fileoff + filesize) { pr.push(format!("section {} lies outside its segment's part of the file", s.key())); }
        }
        put(&mut ext, s.reloff, s.nreloc * 8, format!("relocations of {}", s.key()))?;
        if s.zerofill() && s.nreloc > 0 { pr.push(format!("zero-fill section {} has relocations", s.key())); }
    }
    mem.sort();
    for w in mem.windows(2) { if w[1].0 < w[0].1 { pr.push(format!("sections {} [{:#x},{:#x}) and {} [{:#x},{:#x}) overlap in memory", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)); } }
    let ssz = if c64 { 16 } else { 12 };
    put(&mut ext, symoff, nsyms * ssz, "symbol table".into())?;
    put(&mut ext, stroff, strsize, "string table".into())?;
    ext.sort();
    for w in ext.windows(2) { if w[1].0 < w[0].1 { pr.push(format!("{} [{:#x},{:#x}) overlaps {} [{:#x},{:#x})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)); } }
    let strs = &b[stroff as usize..(stroff + strsize) as usize];
    let mut syms = vec![];
    for i in 0..nsyms {
        let q = symoff + i * ssz;
        let sx = u(q, 4)? as usize;
        if sx >= strs.len() { return Err(format!("symbol {}: string offset {:#x} outside the string table ({:#x} bytes)", i, sx, strs.len())); }
        let e = strs[sx..].iter().position(|&c| c == 0).ok_or_else(|| format!("symbol {}: unterminated name", i))?;
        let name = String::from_utf8(strs[sx..sx + e].to_vec()).map_err(|_| format!("name of symbol {} is not a name that was given", i))?;
        let s = Sym { name, typ: b[q as usize + 4], sect: b[q as usize + 5], desc: u(q + 6, 2)? as u16, value: u(q + 8, if c64 { 8 } else { 4 })? };
        if s.name.is_empty() { pr.push(format!("symbol {} has no name", i)); }
        match s.typ & 0x0e {
            0x0e => {
                if s.sect == 0 || s.sect as usize > secs.len() { return Err(format!("symbol {} ({}) has section ordinal {} of {}", i, s.name, s.sect, secs.len())); }
                let c = &secs[s.sect as usize - 1];
                if s.value < c.addr || s.value > c.addr.saturating_add(c.size) { pr.push(format!("symbol {} at {:#x} lies outside its section {} [{:#x}+{:#x}]", s.name, s.value, c.key(), c.addr, c.size)); }
            }
            0 => { if s.sect != 0 || s.value != 0 || s.typ & 1 == 0 { pr.push(format!("malformed undefined symbol {} (type {:#x} section {} value {:#x})", s.name, s.typ, s.sect, s.value)); } }
            t => pr.push(format!("symbol {} has type {:#x}", s.name, t)),
        }
        if s.typ & 0xe0 != 0 { pr.push(format!("symbol {} is a debugging entry", s.name)); }
        syms.push(s);
    }
    let mut rels = vec![];
    for s in &secs {
        let mut v = vec![];
        for j in 0..s.nreloc {
            let q = s.reloff + j * 8;
            let (a, w) = (u(q, 4)? as u32 as i32 as i64, u(q + 4, 4)? as u32);
            let r = if le { Rel { addr: a, sym: w & 0xffffff, pcrel: w >> 24 & 1 == 1, len: (w >> 25 & 3) as u8, ext: w >> 27 & 1 == 1, typ: (w >> 28) as u8 } }
                else { Rel { addr: a, sym: w & 0xffffff, pcrel: w >> 24 & 1 == 1, len: (w >> 25 & 3) as u8, ext: w >> 27 & 1 == 1, typ: (w >> 28) as u8 } };
            if r.ext && r.sym as u64 >= nsyms { return Err(format!("relocation {} of {} names symbol {} of {}", j, s.key(), r.sym, nsyms)); }
            if !r.ext && (r.sym == 0 || r.sym as usize > secs.len()) { pr.push(format!("relocation {} of {} names section {}", j, s.key(), r.sym)); }
            v.push(r);
        }
        rels.push(v);
    }
    Ok(Mach { b, secs, syms, rels, problems: pr, vm: (vmaddr, vmsize) })
}
impl<'a> Mach<'a> {
    fn at(&self, s: &Sec, addr: u64, len: u64) -> Result<&'a [u8], String> {
        if addr < s.addr || addr + len > s.addr + s.size { return Err(format!("[{:#x}+{:#x}] is outside section {} [{:#x}+{:#x}]", addr, len, s.key(), s.addr, s.size)); }
        let o = (s.off + (addr - s.addr)) as usize;
        self.b.get(o..o + len as usize).ok_or_else(|| "contents outside the file".to_string())
    }
    fn find(&self, n: &str) -> Vec<&Sym> { self.syms.iter().filter(|s| s.name.strip_prefix('_') == Some(n)).collect() }
    fn by_name(&self) -> BTreeMap<&str, Vec<&Sym>> { let mut m: BTreeMap<&str, Vec<&Sym>> = BTreeMap::new(); for s in &self.syms { m.entry(s.name.strip_prefix('_').unwrap_or("\u{0}no underscore")).or_default().push(s); } m }
    fn sec_of(&self, s: &Sym) -> &Sec { &self.secs[s.sect as usize - 1] }
    pub fn custom(&self, d: &MDef) -> Result<usize, String> {
        let kind = match d.decl { MDecl::Sec { kind, .. } => kind, _ => unreachable!() };
        let key = format!("{},{}", mach_segname(kind), mach_sectname(&d.name));
        let v: Vec<usize> = (0..self.secs.len()).filter(|&i| self.secs[i].key() == key).collect();
        if v.len() > 1 {
            // named like a default section, or like another one (`.debug_x`, `__debug_x`): told apart by its contents
            let want = d.cont.bytes();
            let fits = |i: usize| { let s = &self.secs[i]; !s.zerofill() && s.size == want.len() as u64 && self.at(s, s.addr, s.size).map_or(false, |b| b == want.as_slice()) };
            return match v.iter().rev().find(|&&i| fits(i)) { Some(&i) => Ok(i), None => Err(format!("no section {} has the contents of custom section {:?}", key, d.name)) };
        }
        if v.len() == 1 { Ok(v[0]) } else { Err(format!("{} sections {} for custom section {:?}", v.len(), key, d.name)) }
    }
}
fn show(b: &[u8]) -> String { if b.len() <= 12 { format!("{:02x?}", b) } else { format!("{:02x?}.. ({} bytes, hash {:x})", &b[..12], b.len(), hash_bytes(0, b)) } }
use crate::elfr::Focus;
/// C11 and the Mach-O half of C14.
pub fn check_defs(e: &Mach, m: &Model, focus: Focus) -> Result<(), String> {
    let by = e.by_name();
    let none = vec![];
    let mut ranges: Vec<(u64, u64, String)> = vec![];
    let mut nsyms = 0;
    for d in &m.defs {
        let zero = d.cont.is_zero();
        if d.decl.is_sec() { let i = match e.custom(d) { Ok(i) => i, Err(x) => { if focus == Focus::Zero { continue; } return Err(x); } };
            let s = &e.secs[i];
            if s.size > 0 { ranges.push((s.addr, s.addr + s.size, format!("custom section {:?}", d.name))); }
            let want = d.cont.bytes();
            if s.size != want.len() as u64 || e.at(s, s.addr, s.size)? != want.as_slice() { return Err(format!("contents of custom section {:?}: {} bytes {} instead of {}", d.name, s.size, show(e.at(s, s.addr, s.size.min(1 << 20)).unwrap_or(&[])), show(&want))); }
            if focus == Focus::Zero { continue; }
            if let Some(a) = d.decl.align() { if (1u64 << s.align) < a || s.addr % a != 0 { return Err(format!("custom section {:?} asked for alignment {}: section alignment {}, address {:#x}", d.name, a, 1u64 << s.align, s.addr)); } }
            for (n, off) in &d.syms {
                let v = by.get(n.as_str()).unwrap_or(&none);
                if v.len() != 1 { return Err(format!("{} symbols for the custom symbol {:?}", v.len(), n)); }
                if v[0].sect as usize != i + 1 || v[0].value != s.addr + off { return Err(format!("custom symbol {:?} at {:#x} in section {} instead of {:#x} in section {}", n, v[0].value, v[0].sect, s.addr + off, i + 1)); }
                nsyms += 1;
            }
            continue;
        }
        let v = by.get(d.name.as_str()).unwrap_or(&none);
        if v.len() != 1 { if focus == Focus::Zero && !zero { continue; } return Err(format!("{} symbols for the definition {:?}", v.len(), d.name)); }
        nsyms += 1;
        let s = v[0];
        if s.typ & 0x0e != 0x0e { return Err(format!("definition {:?} has symbol type {:#x}", d.name, s.typ)); }
        let sec = e.sec_of(s);
        // strings which may change can be neither merged nor read-only
        let (scope, vis, want_sec) = match d.decl { MDecl::Fn { scope, vis, .. } => (scope, vis, "__TEXT,__text"), MDecl::Data { scope, vis, s: st, w, .. } => (scope, vis, if zero { "__DATA,__bss" } else if st && !w { "__TEXT,__cstring" } else { "__DATA,__data" }), _ => unreachable!() };
        if d.cont.size() > 0 { ranges.push((s.value, s.value.saturating_add(d.cont.size()), format!("{:?}", d.name))); }
        if s.value < sec.addr || s.value.saturating_add(d.cont.size()) > sec.addr.saturating_add(sec.size) { return Err(format!("{:?} [{:#x}+{:#x}] is outside its section {} [{:#x}+{:#x}]", d.name, s.value, d.cont.size(), sec.key(), sec.addr, sec.size)); }
        if zero != sec.zerofill() { return Err(format!("{:?} is in section {}, which is {}zero-fill", d.name, sec.key(), if zero { "not " } else { "" })); }
        if !zero { let got = e.at(sec, s.value, d.cont.size())?; let want = d.cont.bytes(); if got != want.as_slice() { return Err(format!("contents of {:?}: {} instead of {}", d.name, show(got), show(&want))); } }
        if focus == Focus::Zero && !zero { continue; }
        if let Some(a) = d.decl.align() {
            if s.value % a != 0 { return Err(format!("{:?} asked for alignment {} and is at {:#x}", d.name, a, s.value)); }
            if (1u64 << sec.align) < a { return Err(format!("{:?} asked for alignment {} and its section {} only guarantees {}", d.name, a, sec.key(), 1u64 << sec.align)); }
            if sec.addr % (1u64 << sec.align) != 0 { return Err(format!("section {} at {:#x} is not aligned to its own {}", sec.key(), sec.addr, 1u64 << sec.align)); }
        }
        if focus == Focus::Zero { if sec.seg != "__DATA" { return Err(format!("{:?} is in segment {}", d.name, sec.seg)); } continue; }
        if sec.key() != want_sec { return Err(format!("{:?} is in section {} instead of {}", d.name, sec.key(), want_sec)); }
        if (s.typ & 1 == 1) != (scope != 1) { return Err(format!("{:?} is declared {} and is {}external", d.name, SC[scope as usize], if s.typ & 1 == 1 { "" } else { "not " })); }
        if scope != 1 && (s.typ & 0x10 != 0) != (vis == 1) { return Err(format!("{:?} is declared {} and is {}private to the linked image", d.name, ["of default visibility", "hidden", "protected"][vis as usize], if s.typ & 0x10 != 0 { "" } else { "not " })); }
        if (s.desc & 0x80 != 0) != (scope == 2) { return Err(format!("{:?} is declared {} and its description is {:#x}", d.name, SC[scope as usize], s.desc)); }
    }
    ranges.sort();
    for w in ranges.windows(2) { if w[1].0 < w[0].1 { return Err(format!("{} [{:#x},{:#x}) and {} [{:#x},{:#x}) overlap", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)); } }
    if focus == Focus::Zero { return Ok(()); }
    for (n, _) in m.imports() {
        let v = by.get(n.as_str()).unwrap_or(&none);
        if v.len() != 1 { return Err(format!("{} symbols for the import {:?}", v.len(), n)); }
        if v[0].typ != 1 || v[0].sect != 0 { return Err(format!("import {:?} is not an undefined external symbol (type {:#x}, section {})", n, v[0].typ, v[0].sect)); }
        nsyms += 1;
    }
    if nsyms != e.syms.len() {
        let extra: Vec<&str> = by.keys().filter(|n| m.get(n).map_or(true, |d| d.1.is_sec()) && !m.defs.iter().any(|d| d.syms.contains_key(**n))).take(5).copied().collect();
        return Err(format!("{} symbols instead of {}; unexpected: {:?}", e.syms.len(), nsyms, extra));
    }
    let customs: Vec<usize> = m.defs.iter().filter(|d| d.decl.is_sec()).filter_map(|d| e.custom(d).ok()).collect();
    for (i, s) in e.secs.iter().enumerate() { if s.size > 0 && !customs.contains(&i) && !["__TEXT,__text", "__DATA,__data", "__TEXT,__cstring", "__DATA,__bss"].contains(&s.key().as_str()) { return Err(format!("section {} belongs to no accepted definition", s.key())); } }
    Ok(())
}
/// C06: the content of every accepted definition, once.
pub fn check_contents(e: &Mach, m: &Model) -> Result<(), String> {
    let by = e.by_name();
    let none = vec![];
    for d in &m.defs {
        let want = d.cont.bytes();
        if d.decl.is_sec() { if let Ok(i) = e.custom(d) { let s = &e.secs[i]; if s.size != want.len() as u64 || e.at(s, s.addr, s.size)? != want.as_slice() { return Err(format!("custom section {:?} does not hold the accepted {}", d.name, show(&want))); } } else { return Err(format!("custom section {:?} is absent", d.name)); } continue; }
        let v = by.get(d.name.as_str()).unwrap_or(&none);
        if v.len() != 1 || v[0].sect == 0 { return Err(format!("{:?} is defined {} times in the object", d.name, v.iter().filter(|s| s.sect > 0).count())); }
        let sec = e.sec_of(v[0]);
        if d.cont.is_zero() { if !sec.zerofill() && e.at(sec, v[0].value, d.cont.size())?.iter().any(|b| *b != 0) { return Err(format!("{:?} is not zero", d.name)); } continue; }
        if sec.zerofill() { return Err(format!("{:?} has no content", d.name)); }
        let got = e.at(sec, v[0].value, d.cont.size())?;
        if got != want.as_slice() { return Err(format!("{:?} is {} instead of the accepted {}", d.name, show(got), show(&want))); }
    }
    Ok(())
}
/// C17: every accepted link that needs a relocation has its own.
pub fn check_kept(e: &Mach, m: &Model) -> Result<(), String> { check_links(e, m, false) }
/// C12.
pub fn check_links(e: &Mach, m: &Model, types: bool) -> Result<(), String> {
    let by = e.by_name();
    let mut defs: BTreeMap<&str, &MDef> = BTreeMap::new();
    for d in &m.defs { defs.insert(&d.name, d); }
    // (section, offset, target) plus (type, pcrel, len) when specified
    let mut want: Vec<(usize, i64, String, Option<(u8, bool, u8)>, String)> = vec![];
    for (f, t, at, rel) in &m.links {
        let (fd, td) = (m.get(f).unwrap().1, m.get(t).unwrap().1);
        if let MRel::Debug(..) = rel { if td.is_sec() { continue; } }
        let d = defs[f.as_str()];
        let (sec, base) = if fd.is_sec() { (e.custom(d)?, 0) } else { let s = by.get(f.as_str()).and_then(|v| v.first()).ok_or_else(|| format!("{:?} has links but no symbol", f))?; if s.sect == 0 { return Err(format!("{:?} has links but is undefined", f)); } (s.sect as usize - 1, s.value as i64 - e.sec_of(s).addr as i64) };
        let kind = match rel {
            MRel::Auto => Some(match (fd, td) {
                (MDecl::Fn { .. }, MDecl::Fn { .. }) | (MDecl::Fn { .. }, MDecl::Imp { f: true }) => (2, true, 2),
                (MDecl::Fn { .. }, MDecl::Data { .. }) => (1, true, 2),
                (MDecl::Fn { .. }, MDecl::Imp { f: false }) => (3, true, 2),
                _ => (0, false, 3),
            }),
            MRel::Debug(s, _) => Some((0, false, if *s == 4 { 2 } else { 3 })),
            MRel::Raw(t, _) => Some((*t as u8, *t != 0, 9)),
        };
        want.push((sec, base + *at as i64, t.clone(), if types { kind } else { None }, format!("{} -> {} at {} ({:?})", f, t, at, rel)));
    }
    let mut have: Vec<(usize, Rel, String, bool)> = vec![];
    for (i, v) in e.rels.iter().enumerate() { for r in v { if !r.ext { return Err(format!("relocation at {:#x} of {} is not external", r.addr, e.secs[i].key())); } have.push((i, *r, e.syms[r.sym as usize].name.strip_prefix('_').unwrap_or("?").to_string(), false)); } }
    if have.len() != want.len() { return Err(format!("{} relocations for {} accepted links that need one", have.len(), want.len())); }
    let score = |w: &(usize, i64, String, Option<(u8, bool, u8)>, String)| match w.3 { None => 0, Some((_, _, 9)) => 1, _ => 2 };
    want.sort_by_key(|w| std::cmp::Reverse(score(w)));
    let mut at: std::collections::HashMap<(usize, i64), Vec<usize>> = Default::default();
    for (i, h) in have.iter().enumerate() { at.entry((h.0, h.1.addr)).or_default().push(i); }
    let none = vec![];
    for w in &want {
        let p = at.get(&(w.0, w.1)).unwrap_or(&none).iter().copied().find(|&i| { let h = &have[i]; !h.3 && h.2 == w.2 && w.3.map_or(true, |(t, p, l)| h.1.typ == t && (l == 9 || (h.1.pcrel == p && h.1.len == l))) });
        match p { Some(p) => have[p].3 = true, None => {
            let near: Vec<String> = have.iter().filter(|h| !h.3 && (h.2 == w.2 || h.0 == w.0)).take(3).map(|h| format!("{} {:?} -> {}", e.secs[h.0].key(), h.1, h.2)).collect();
            return Err(format!("link {}: no relocation in {} at {:#x} to {:?} (type, pc-relative, log2 width) {:?}; unmatched: [{}]", w.4, e.secs[w.0].key(), w.1, w.2, w.3, near.join(", "))) } }
    }
    Ok(())
}
/// Meaning of the object independent of placement and order; sizes of definitions come from the model.
pub fn canon(e: &Mach, m: &Model) -> Vec<String> {
    let mut v = vec![];
    let customs: BTreeMap<usize, &MDef> = m.defs.iter().filter(|d| d.decl.is_sec()).filter_map(|d| e.custom(d).ok().map(|i| (i, d))).collect();
    for (i, d) in &customs { let s = &e.secs[*i]; v.push(format!("section {} {:?} flags {:x} align {} size {} content {:x}", s.key(), d.name, s.flags, s.align, s.size, e.at(s, s.addr, s.size).map_or(0, |b| hash_bytes(0, b)))); }
    // address ranges of definitions, for naming the source of a relocation
    let mut rg: Vec<(usize, u64, u64, &str)> = vec![];
    for d in &m.defs { if d.decl.is_sec() { continue; } for s in e.find(&d.name) { if s.sect > 0 { rg.push((s.sect as usize - 1, s.value, d.cont.size(), &d.name)); } } }
    for s in &e.syms {
        let nm = s.name.strip_prefix('_').unwrap_or(&s.name);
        let a = format!("symbol {:?} type {:x} desc {:x}", s.name, s.typ, s.desc);
        if s.sect == 0 { v.push(format!("{} undefined {}", a, s.value)); continue; }
        let c = e.sec_of(s);
        match m.def(nm) {
            Some(d) if !d.decl.is_sec() => { let al = d.decl.align().unwrap_or(1); v.push(format!("{} in {} flags {:x} aligned {} guaranteed {} content {:x}", a, c.key(), c.flags, s.value % al == 0, (1u64 << c.align) >= al, if c.zerofill() { d.cont.size() } else { e.at(c, s.value, d.cont.size()).map_or(1, |b| hash_bytes(0, b)) })) }
            _ => v.push(format!("{} in {} at {}", a, c.key(), s.value as i64 - c.addr as i64)),
        }
    }
    for (i, l) in e.rels.iter().enumerate() { for r in l {
        let ad = e.secs[i].addr.wrapping_add(r.addr as u64);
        let src = match customs.get(&i) { Some(d) => format!("section {:?} at {}", d.name, r.addr), None => match rg.iter().find(|x| x.0 == i && x.1 <= ad && ad < x.1 + x.2) { Some(x) => format!("{:?} at {}", x.3, ad - x.1), None => format!("no bytes of any definition in {}", e.secs[i].key()) } };
        v.push(format!("relocation in {} type {} pcrel {} len {} extern {} to {}", src, r.typ, r.pcrel, r.len, r.ext, if r.ext { e.syms[r.sym as usize].name.as_str() } else { "section" }));
    } }
    v.sort();
    v
}
