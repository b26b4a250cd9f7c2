//! C21: a small static linker for x86-64 ELF and Mach-O objects, written from the psABI and Apple's reference, and what the
//! linked program has to look like according to the models of the artifacts.
use crate::elfr;
use crate::machr;
use crate::model::*;
use crate::rng::{hash_bytes, mix};
use crate::scen::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bind { Local, Weak, Strong, Undef }
/// what is stored: the address, the distance from the place (plus `back`), the distance to the slot that holds the address
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form { Abs, Pc, Got }
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Kind { pub form: Form, pub width: u8 }
struct OSec { data: Vec<u8>, size: u64, align: u64, addr: u64 }
struct OSym { name: String, bind: Bind, sec: usize, off: u64 }
enum Ref { Sym(usize), Sec(usize, u64) }
struct ORel { sec: usize, off: u64, kind: Option<Kind>, to: Ref, addend: i64, /** the field holds (part of) the addend */ inplace: bool }
pub struct Obj { secs: Vec<OSec>, syms: Vec<OSym>, rels: Vec<ORel>, /** place of every definition of the model */ place: BTreeMap<String, (usize, u64)>, pub m: Model, pub what: String }

fn elf_kind(t: u32) -> Option<Kind> {
    let k = |form, width| Some(Kind { form, width });
    match t { 1 => k(Form::Abs, 8), 2 | 4 => k(Form::Pc, 4), 9 => k(Form::Got, 4), 10 | 11 => k(Form::Abs, 4), 12 => k(Form::Abs, 2), 13 => k(Form::Pc, 2), 14 => k(Form::Abs, 1), 15 => k(Form::Pc, 1), 24 => k(Form::Pc, 8), _ => None }
}
pub fn elf_obj(b: &[u8], m: &Model, what: String) -> Result<Obj, String> {
    let e = elfr::parse(b)?;
    let secs = e.secs.iter().map(|s| OSec { data: e.bytes(s).to_vec(), size: s.size, align: s.align.max(1), addr: 0 }).collect();
    let syms = e.syms.iter().map(|s| OSym { name: s.name.clone(), bind: if s.raw == 0 { Bind::Undef } else { match s.bind { 0 => Bind::Local, 2 => Bind::Weak, _ => Bind::Strong } }, sec: s.shndx as usize, off: s.value }).collect();
    let mut rels = vec![];
    for (s, v) in &e.rels { for r in v { rels.push(ORel { sec: *s as usize, off: r.off, kind: elf_kind(r.typ), to: Ref::Sym(r.sym as usize), addend: r.addend, inplace: false }); } }
    let mut place = BTreeMap::new();
    let mut known: std::collections::HashMap<&str, &elfr::Sym> = Default::default();
    for s in &e.syms { if s.raw != 0 && (s.typ == 1 || s.typ == 2) { known.entry(&s.name).or_insert(s); } }
    for d in &m.defs {
        let at = if d.decl.is_sec() { elfr::home(&e, m, &d.name).map(|i| (i as usize, 0)) } else { known.get(d.name.as_str()).map(|s| (s.shndx as usize, s.value)) };
        place.insert(d.name.clone(), at.ok_or_else(|| format!("{:?} is nowhere in the object", d.name))?);
    }
    Ok(Obj { secs, syms, rels, place, m: m.clone(), what })
}
pub fn mach_obj(b: &[u8], m: &Model, what: String) -> Result<Obj, String> {
    let e = machr::parse(b)?;
    let mut secs = vec![];
    for s in &e.secs { secs.push(OSec { data: if s.zerofill() { vec![] } else { b.get(s.off as usize..(s.off + s.size) as usize).ok_or("section outside the file")?.to_vec() }, size: s.size, align: 1 << s.align.min(40), addr: 0 }); }
    let nm = |s: &machr::Sym| s.name.strip_prefix('_').unwrap_or("\u{0}no underscore").to_string();
    let syms = e.syms.iter().map(|s| OSym { name: nm(s), bind: if s.sect == 0 { Bind::Undef } else if s.typ & 1 == 0 { Bind::Local } else if s.desc & 0x80 != 0 { Bind::Weak } else { Bind::Strong }, sec: (s.sect as usize).saturating_sub(1), off: if s.sect == 0 { 0 } else { s.value.wrapping_sub(e.secs[s.sect as usize - 1].addr) } }).collect();
    // an undefined symbol with a value is a tentative definition, one with a type is absolute or indirect
    for s in &e.syms { if s.sect == 0 && (s.typ & 0x0e != 0 || s.value != 0) { return Err(format!("{:?} is defined outside of all sections", s.name)); } }
    let mut rels = vec![];
    for (i, v) in e.rels.iter().enumerate() { for r in v {
        let w = 1u8 << r.len;
        let kind = match (r.typ, r.pcrel) { (0, false) => Some(Kind { form: Form::Abs, width: w }), (1 | 2, true) => Some(Kind { form: Form::Pc, width: w }), (3 | 4, true) => Some(Kind { form: Form::Got, width: w }), _ => None };
        rels.push(ORel { sec: i, off: r.addr as u64, kind, to: if r.ext { Ref::Sym(r.sym as usize) } else { Ref::Sec((r.sym as usize).wrapping_sub(1), e.secs.get((r.sym as usize).wrapping_sub(1)).map_or(0, |s| s.addr)) }, addend: if r.pcrel { -4 } else { 0 }, inplace: true });
    } }
    let mut place = BTreeMap::new();
    let mut known: std::collections::HashMap<String, &machr::Sym> = Default::default();
    for s in &e.syms { if s.sect != 0 { known.entry(nm(s)).or_insert(s); } }
    for d in &m.defs {
        if d.decl.is_sec() { place.insert(d.name.clone(), (e.custom(d)?, 0)); continue; }
        let s = known.get(&d.name).ok_or_else(|| format!("{:?} is nowhere in the object", d.name))?;
        let i = s.sect as usize - 1;
        place.insert(d.name.clone(), (i, s.value.wrapping_sub(e.secs[i].addr)));
    }
    Ok(Obj { secs, syms, rels, place, m: m.clone(), what })
}
/// where a name nobody defines is: somewhere else
fn outside(n: &str) -> u64 { 0x7000_0000_0000 | hash_bytes(11, n.as_bytes()) >> 20 << 4 }
/// the slot that holds address `t`
fn slot(t: u64) -> u64 { 0x6000_0000_0000 | mix(t, 0x601) >> 20 << 3 }
fn value(k: Kind, t: u64, a: i64, p: u64) -> u64 { match k.form { Form::Abs => t.wrapping_add(a as u64), Form::Pc => t.wrapping_add(a as u64).wrapping_sub(p), Form::Got => slot(t).wrapping_add(a as u64).wrapping_sub(p) } }
fn field(b: &[u8]) -> u64 { b.iter().rev().fold(0, |v, &x| v << 8 | x as u64) }
fn signed(v: u64, w: u8) -> i64 { let s = 64 - 8 * w as u32; ((v << s) as i64) >> s }

/// names the artifact offers to other objects
fn offers(m: &Model, mach: bool) -> Vec<(&str, bool)> {
    let mut v: Vec<(&str, bool)> = m.defs.iter().filter_map(|d| match d.decl { MDecl::Fn { scope, .. } | MDecl::Data { scope, .. } if scope != 1 => Some((d.name.as_str(), scope == 2)), _ => None }).collect();
    // the custom symbols of sections are external in Mach-O
    if mach { for d in &m.defs { for s in d.syms.keys() { v.push((s, false)); } } }
    v
}
/// Which of the objects can be linked together: no two strong definitions of a name; the first one is always in.
pub fn compatible(objs: &[&Model], mach: bool) -> Vec<usize> {
    let mut strong: std::collections::BTreeSet<String> = Default::default();
    let mut v = vec![];
    for (i, m) in objs.iter().enumerate() {
        let mine: Vec<&str> = offers(m, mach).into_iter().filter(|o| !o.1).map(|o| o.0).collect();
        if mine.iter().any(|n| strong.contains(*n)) { continue; }
        strong.extend(mine.iter().map(|n| n.to_string()));
        v.push(i);
    }
    v
}
#[derive(Default)]
pub struct Done { pub checked: u64, pub cross: u64, pub weak: u64 }
/// Link the objects in this order, and compare with what the models say about the program.
pub fn link(objs: &mut [Obj], mach: bool, seed: u64) -> Result<Done, String> {
    let mut done = Done::default();
    // layout: every section somewhere, aligned as it asks and no better
    let mut at = 0x10_0000u64 + (mix(seed, 1) & 0xffff);
    for (i, o) in objs.iter_mut().enumerate() { for (j, s) in o.secs.iter_mut().enumerate() {
        at += mix(seed, (i * 1000 + j) as u64) % 64;
        at = at.div_ceil(s.align) * s.align;
        if at % (2 * s.align) == 0 { at += s.align; }
        s.addr = at;
        at += s.size + 1;
    } }
    let mut names: BTreeMap<String, (Bind, u64)> = BTreeMap::new();
    for o in objs.iter() { for s in &o.syms {
        if !matches!(s.bind, Bind::Weak | Bind::Strong) { continue; }
        let a = match o.secs.get(s.sec) { Some(c) => c.addr.wrapping_add(s.off), None => return Err(format!("{}: symbol {:?} is in section {}", o.what, s.name, s.sec)) };
        match names.get(&s.name) {
            Some((Bind::Strong, _)) if s.bind == Bind::Strong => return Err(format!("multiple definitions of {:?}, the last one in {}", s.name, o.what)),
            Some((Bind::Strong, _)) => {}
            Some((Bind::Weak, _)) if s.bind == Bind::Weak => {}
            _ => { names.insert(s.name.clone(), (s.bind, a)); }
        }
    } }
    // relocate
    let addrs: Vec<Vec<u64>> = objs.iter().map(|o| o.secs.iter().map(|s| s.addr).collect()).collect();
    for (i, o) in objs.iter_mut().enumerate() {
        for r in &o.rels {
            let k = match r.kind { Some(k) => k, None => continue };
            let w = k.width as usize;
            let t = match r.to {
                Ref::Sym(s) => { let s = &o.syms[s]; match s.bind { Bind::Local => addrs[i].get(s.sec).copied().unwrap_or(0).wrapping_add(s.off), _ => names.get(&s.name).map_or_else(|| outside(&s.name), |x| x.1) } }
                Ref::Sec(s, old) => addrs[i].get(s).copied().unwrap_or(0).wrapping_sub(old),
            };
            let sec = match o.secs.get_mut(r.sec) { Some(s) => s, None => return Err(format!("{}: relocations of section {}", o.what, r.sec)) };
            let p = sec.addr.wrapping_add(r.off);
            let off = r.off as usize;
            if r.off >= sec.data.len() as u64 || off + w > sec.data.len() { continue; }
            let a = r.addend + if r.inplace { signed(field(&sec.data[off..off + w]), k.width) } else { 0 };
            let v = value(k, t, a, p);
            for x in 0..w { sec.data[off + x] = (v >> (8 * x)) as u8; }
        }
    }
    // what the declarations say
    let spot = |i: usize, n: &str| -> Option<u64> { let o = &objs[i]; o.place.get(n).map(|&(s, f)| o.secs[s].addr.wrapping_add(f)) };
    let mut selected: BTreeMap<&str, (bool, u64, usize)> = BTreeMap::new();
    for (i, o) in objs.iter().enumerate() {
        for (n, weak) in offers(&o.m, mach) {
            // (a name that is no definition is a custom symbol)
            let a = match spot(i, n) { Some(a) => a, None => match o.m.defs.iter().find_map(|d| d.syms.get(n).map(|f| (d, *f))) { Some((d, f)) => spot(i, &d.name).unwrap_or(0).wrapping_add(f), None => continue } };
            match selected.get(n) { None => { selected.insert(n, (weak, a, i)); } Some((true, ..)) if !weak => { selected.insert(n, (weak, a, i)); } _ => {} }
        }
    }
    for (n, (_, a, i)) in &selected { match names.get(*n) {
        Some((_, b)) if b == a => {}
        Some((_, b)) => return Err(format!("{:?} is at {:#x} in the program; the declarations select the definition in {} at {:#x}", n, b, objs[*i].what, a)),
        None => return Err(format!("no object offers {:?}, which {} defines for others", n, objs[*i].what)),
    } }
    for n in names.keys() { if !selected.contains_key(n.as_str()) { return Err(format!("the program has a global {:?}, which nobody declared as one", n)); } }
    for (i, o) in objs.iter().enumerate() {
        let mut by: BTreeMap<&str, Vec<&(String, String, u64, MRel)>> = BTreeMap::new();
        // the fields of links near the end of a definition reach into what comes after it
        let mut over: Vec<(u64, u64)> = vec![];
        let sizes: std::collections::HashMap<&str, u64> = o.m.defs.iter().map(|d| (d.name.as_str(), d.cont.size())).collect();
        for l in &o.m.links {
            by.entry(&l.0).or_default().push(l);
            let n = sizes.get(l.0.as_str()).copied().unwrap_or(0);
            if let (Some(a), true) = (spot(i, &l.0), l.2 < n && l.2.saturating_add(8) > n || l.2 >= n) { over.push((a.wrapping_add(n.max(l.2)), a.wrapping_add(l.2).wrapping_add(8))); }
        }
        for d in &o.m.defs {
            let (s, f) = o.place[&d.name];
            let sec = &o.secs[s];
            let here = sec.addr.wrapping_add(f);
            if let Some(a) = d.decl.align() { if here % a != 0 { return Err(format!("{}: {:?} asked for alignment {} and is at {:#x}", o.what, d.name, a, here)); } }
            if d.cont.is_zero() { if f.checked_add(d.cont.size()).map_or(true, |e| e > sec.size) || sec.data.iter().any(|&x| x != 0) { return Err(format!("{}: {:?} is not zero-initialised memory of its size", o.what, d.name)); } continue; }
            let want = d.cont.bytes();
            let got = match sec.data.get(f as usize..(f as usize).saturating_add(want.len())) { Some(g) => g, None => return Err(format!("{}: {:?} reaches beyond its section", o.what, d.name)) };
            // who writes where; a place written twice has no specified value
            let mut hits = vec![0u8; want.len() + 8];
            for &(a, b) in &over { for x in 0..want.len() as u64 { if here + x >= a && here + x < b { hits[x as usize] = 3; } } }
            let mut todo: Vec<(usize, u64, Kind, String)> = vec![];
            for l in by.get(d.name.as_str()).into_iter().flatten() {
                let (t, off, rel) = (&l.1, l.2, &l.3);
                let td = o.m.get(t).unwrap().1;
                if mach && td.is_sec() && matches!(rel, MRel::Debug(..)) { continue; }
                let mut known = true;
                let (kind, add) = match (rel, mach) {
                    (MRel::Auto, false) => match (&d.decl, &td) {
                        (MDecl::Fn { .. }, MDecl::Fn { .. } | MDecl::Imp { f: true }) | (MDecl::Fn { .. }, MDecl::Data { .. }) => (Kind { form: Form::Pc, width: 4 }, -4),
                        (MDecl::Fn { .. }, MDecl::Imp { f: false }) => (Kind { form: Form::Got, width: 4 }, -4),
                        _ => (Kind { form: Form::Abs, width: 8 }, 0),
                    },
                    (MRel::Auto, true) => match (&d.decl, &td) {
                        (MDecl::Fn { .. }, MDecl::Imp { f: false }) => (Kind { form: Form::Got, width: 4 }, -4),
                        (MDecl::Fn { .. }, _) => (Kind { form: Form::Pc, width: 4 }, -4),
                        _ => (Kind { form: Form::Abs, width: 8 }, 0),
                    },
                    (MRel::Debug(s, a), x) => { if x && *a != 0 { known = false; } (Kind { form: Form::Abs, width: *s }, *a as i64) }
                    (MRel::Raw(t, a), false) => match elf_kind(*t) { Some(k) => (k, *a as i64), None => { known = false; (Kind { form: Form::Abs, width: 8 }, 0) } },
                    (MRel::Raw(..), true) => { known = false; (Kind { form: Form::Abs, width: 8 }, 0) }
                };
                if off >= want.len() as u64 { continue; }
                let (o0, w) = (off as usize, kind.width as usize);
                if o0 + w > want.len() { for h in &mut hits[o0..want.len()] { *h = 3; } continue; }
                for h in &mut hits[o0..o0 + w] { *h = h.saturating_add(if known { 1 } else { 3 }); }
                let goal = if td.is_sec() || !td.is_import() && !td.is_weak() { match spot(i, t) { Some(a) => a, None => continue } }
                    else { match selected.get(t.as_str()) { Some((_, a, j)) => { if *j != i { if td.is_weak() { done.weak += 1 } else { done.cross += 1 } } *a } None => outside(t) } };
                let a = add + if mach { signed(field(&want[o0..o0 + w]), kind.width) } else { 0 };
                todo.push((o0, value(kind, goal, a, here + off), kind, format!("{} -> {} at {} ({:?})", d.name, t, off, rel)));
            }
            for (x, (g, h)) in got.iter().zip(&want).enumerate() { if hits[x] == 0 && g != h { return Err(format!("{}: byte {} of {:?} is {:#x} in the program instead of {:#x}, and no link is there", o.what, x, d.name, g, h)); } }
            for (o0, v, k, t) in todo {
                let w = k.width as usize;
                if hits[o0..o0 + w].iter().any(|&h| h != 1) { continue; }
                let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
                let have = field(&got[o0..o0 + w]);
                if have != v & mask { return Err(format!("{}: link {}: the program has {:#x} there, the declarations mean {:#x} ({:?})", o.what, t, have, v & mask, k)); }
                done.checked += 1;
            }
        }
    }
    Ok(done)
}
