//! Seeded scenario generation: one seed, one workload with its schedule policy and its faults.
use crate::exec::pnum;
use crate::rng::{mix, Rng};
use crate::rt::{Crash, Fault, Up};
use crate::scen::*;

#[derive(Clone)]
struct Prof {
    clients: (u64, u64), ents: (u64, u64), slots: u64, portable: bool, elf: u32, mach: u32,
    other_fmt: u32, noise: u32, compat: u32, conflict: u32, links: u32, zeros: u32, secs: u32, imports: u32, weird: u32,
    reads: u32, unwind_mut: u32, unwind_emit: u32, stalls: u32, copies: u32, writes: u32, leave_missing: u32, rounds: u32, finals: (u64, u64), big: u32, weak: u32,
}
impl Prof {
    fn of(p: u8) -> Prof {
        let b = Prof { clients: (1, 4), ents: (2, 9), slots: 1, portable: true, elf: 50, mach: 50, other_fmt: 15, noise: 8, compat: 30, conflict: 0, links: 60, zeros: 20, secs: 15, imports: 20, weird: 12,
            reads: 10, unwind_mut: 0, unwind_emit: 0, stalls: 3, copies: 0, writes: 5, leave_missing: 5, rounds: 25, finals: (1, 3), big: 6, weak: 33 };
        match p {
            1 => Prof { reads: 22, rounds: 40, noise: 6, slots: 2, finals: (2, 4), ents: (3, 14), ..b },
            2 => Prof { clients: (2, 5), reads: 35, writes: 25, slots: 3, unwind_emit: 15, stalls: 8, copies: 10, noise: 12, rounds: 50, finals: (2, 5), ..b },
            3 => Prof { clients: (1, 3), reads: 5, writes: 80, stalls: 5, leave_missing: 20, ents: (1, 6), big: 12, finals: (1, 3), ..b },
            4 => Prof { reads: 60, noise: 25, compat: 50, conflict: 15, leave_missing: 40, other_fmt: 40, ents: (1, 7), links: 25, rounds: 50, ..b },
            5 => Prof { ents: (1, 5), compat: 130, conflict: 60, noise: 20, reads: 40, imports: 35, links: 40, leave_missing: 10, rounds: 40, ..b },
            6 => Prof { clients: (1, 5), ents: (1, 5), noise: 110, compat: 50, conflict: 10, reads: 25, zeros: 35, secs: 25, rounds: 40, ..b },
            7 => Prof { noise: 70, conflict: 25, compat: 50, unwind_mut: 45, unwind_emit: 12, reads: 20, ents: (2, 8), slots: 2, copies: 4, rounds: 40, leave_missing: 8, ..b },
            8 => Prof { elf: 100, mach: 0, portable: false, unwind_mut: 8, unwind_emit: 4, noise: 15, conflict: 5, secs: 25, weird: 25, big: 15, finals: (1, 2), ents: (2, 14), copies: 3, slots: 2, ..b },
            9 => Prof { elf: 100, mach: 0, portable: false, unwind_mut: 6, noise: 12, links: 200, imports: 30, compat: 60, big: 8, finals: (1, 2), copies: 3, slots: 2, zeros: 10, ..b },
            10 => Prof { elf: 100, mach: 0, portable: false, unwind_mut: 6, weird: 35, secs: 30, ents: (0, 14), big: 15, finals: (1, 2), copies: 3, slots: 2, ..b },
            11 => Prof { elf: 0, mach: 100, portable: false, unwind_mut: 8, unwind_emit: 4, noise: 15, secs: 25, weird: 25, big: 15, zeros: 30, finals: (1, 2), ents: (2, 14), copies: 3, slots: 2, ..b },
            12 => Prof { elf: 0, mach: 100, portable: false, unwind_mut: 6, links: 200, imports: 30, compat: 60, zeros: 25, secs: 25, finals: (1, 2), copies: 3, slots: 2, ..b },
            13 => Prof { elf: 0, mach: 100, portable: false, unwind_mut: 6, weird: 30, secs: 30, zeros: 30, ents: (0, 14), big: 15, finals: (1, 2), copies: 3, slots: 2, ..b },
            14 => Prof { zeros: 130, elf: 50, mach: 50, finals: (2, 3), ents: (2, 12), unwind_mut: 4, links: 70, ..b },
            15 => Prof { slots: 3, copies: 45, reads: 30, noise: 30, unwind_mut: 12, unwind_emit: 6, conflict: 15, rounds: 80, writes: 8, leave_missing: 15, ..b },
            16 => Prof { clients: (2, 4), ents: (3, 12), noise: 0, compat: 80, links: 120, imports: 30, reads: 6, leave_missing: 0, rounds: 0, finals: (2, 2), writes: 2, ..b },
            17 => Prof { ents: (2, 6), noise: 60, links: 180, compat: 60, conflict: 15, imports: 35, reads: 20, rounds: 45, ..b },
            18 => Prof { slots: 3, clients: (2, 5), copies: 8, ents: (1, 5), reads: 60, unwind_emit: 10, finals: (2, 4), links: 40, noise: 5, ..b },
            19 => Prof { slots: 2, copies: 15, noise: 40, writes: 25, reads: 25, unwind_emit: 30, unwind_mut: 20, conflict: 10, zeros: 45, rounds: 40, big: 12, ents: (2, 10), ..b },
            20 => Prof { slots: 2, portable: false, reads: 25, writes: 20, noise: 8, secs: 40, links: 70, copies: 6, unwind_emit: 8, finals: (2, 5), ents: (1, 7), leave_missing: 3, weird: 8, ..b },
            21 => Prof { portable: false, slots: 4, ents: (1, 7), noise: 6, compat: 50, links: 160, imports: 10, secs: 12, zeros: 15, weak: 30, copies: 4, writes: 35, reads: 15, unwind_mut: 4, unwind_emit: 6, rounds: 30, finals: (1, 3), big: 10, leave_missing: 3, ..b },
            _ => b,
        }
    }
}
struct Ent { name: String, decl: MDecl, cont: Cont, syms: Vec<(String, u64)>, owner: u8 }
struct G { r: Rng, p: u8, pr: Prof, clients: u8, uid: u32, mach_sec: bool, big_align: bool, used: Vec<String>, conts: Vec<Cont>, ndecl: Vec<MDecl>, edge: u32, /** how most names begin */ family: Option<&'static str>, /** percentage of contents and declarations that are like others */ alike: (u32, u32), /** a very large content may be used in this run */ big_ok: bool }

const ELF_T: [&str; 12] = ["x86_64-unknown-linux-gnu", "x86_64-unknown-linux-gnu", "x86_64-unknown-linux-musl", "x86_64-unknown-linux-gnux32", "i686-unknown-linux-gnu", "powerpc64-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "s390x-unknown-linux-gnu", "riscv64gc-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf", "mips-unknown-linux-gnu"];
const MACH_T: [&str; 5] = ["x86_64-apple-darwin", "x86_64-apple-darwin", "x86_64-apple-darwin", "aarch64-apple-ios", "i686-apple-darwin"];
const FAMILY: [&str; 12] = [".L", "L", "l_", "_", "__", "f@", "\u{1}_", "$", "__imp_", ".text.", "_Z", ""];
const OTHER_T: [&str; 3] = ["x86_64-pc-windows-msvc", "wasm32-unknown-unknown", "x86_64-unknown-none-elf"];
const ODD: [&str; 35] = [".L1", "L1", "l_x", "f@plt", "f@@V1", "\u{1}f", "__imp_f", "_ZN3foo3barE", "_GLOBAL_OFFSET_TABLE_", "0", "a,b", "a/b.o", "a\\b","", " ", "a b c", "\u{fc}n\u{ef}c\u{f6}d\u{e9}", "\u{65e5}\u{672c}\u{8a9e}", ".strtab", ".symtab", ".shstrtab", ".note.GNU-stack", "faerie.o", "_start", "__text", "__data", "__bss", "__cstring", "$x", "a.b.c", ".text.f0", ".text", "%s%n", "'q\"", "\u{7f}\t"];
const SECN: [&str; 20] = [".debug_x", "__debug_info", "__debug_a", "__debug_line", ".debug_info", ".debug_line", ".debug_str", ".debug_a", "__const", "__mysec", ".rel", "sec", ".init_array", "__got", ".eh_frame", "x", ".note.abi", "__debug_x", ".debug", "__StaticInit"];
const SECE: [&str; 16] = [".symtab", ".strtab", ".symtab_shndx", ".note.GNU-stack", ".data.rel.ro", ".tbss", ".comment", ".group",".text", ".data", ".a_rather_long_section_name_that_is_fine", "\u{e9}t\u{e9}", ".bss", ".rela.text", "__DATA,__foo", ".gnu.warning.x"];

impl G {
    fn align(&mut self) -> Option<u8> {
        // in Mach-O the file is padded: nothing too large there
        let huge = self.big_align && self.pr.mach == 0 && self.p != 20 && self.r.pct(12);
        let r = &mut self.r;
        match r.below(10) { 0..=4 => None, 5..=8 => Some(r.below(7) as u8), _ => Some(if huge { r.below(63) as u8 } else if self.big_align { if r.p(12) { r.range(15, 17) as u8 } else { r.below(15) as u8 } } else { r.below(9) as u8 }) }
    }
    fn fresh(&mut self, sec: bool) -> String {
        for _ in 0..100 {
            let r = &mut self.r;
            let n = if sec {
                match r.below(10) { 0..=4 => r.pick(&SECN).to_string(), 5 if self.mach_sec => r.pick(&["__text", "__data", "__cstring", "__bss"]).to_string(), 5 if !self.used.is_empty() => format!("{}.{}", r.pick(&[".text", ".data", ".rodata", ".bss", ".rela.text"]), r.pick(&self.used)), 6 if !self.mach_sec && r.pct(4) => format!(".l{}", "s".repeat(r.range(250, 5000) as usize)), 6 if !self.mach_sec => r.pick(&SECE).to_string(), _ => format!(".s{}", r.below(1000)) }
            } else if self.family.is_some() && r.pct(70) { format!("{}{}", self.family.unwrap(), r.below(30))
            } else if r.pct(self.pr.weird) {
                match r.below(8) { 0 => { let n = match r.below(40) { 0..=4 => r.range(254, 257), 5..=7 => r.range(1022, 1025), 8 | 9 => r.range(4094, 4097), 10 => r.range(65_533, 65_537), 11 => r.range(32_766, 32_769), _ => r.range(100, 400) }; if r.pct(50) { "n".repeat(n as usize) } else { format!("{}{}", "n".repeat(n as usize - 1), r.below(10)) } } 3 if r.pct(60) => { let x = *r.pick(&FAMILY); format!("{}{}", x, r.below(6)) } 1 => format!("f{}", "\u{e4}".repeat(r.range(1, 40) as usize)), 2 => self.used.last().map_or("z".into(), |x| format!("{}z", x)), _ => r.pick(&ODD).to_string() }
            } else { match r.below(6) { 0 => format!("f{}", r.below(12)), 1 => format!("d{}", r.below(12)), 2 => format!("_g{}", r.below(12)), 3 => ["main", "a", "b", "deadbeef", "STATIC", "str.1", "printf", "x"][r.idx(8)].into(), _ => format!("sym_{}", r.below(100000)) } };
            let n = if self.p == 20 && self.r.pct(self.edge / 3) { match self.r.below(if sec { 5 } else { 2 }) { 0 => format!("{}\0{}", n, if self.r.pct(50) { "z" } else { "" }), 1 if !sec => format!("\0{}", n), 1 => "sixteen_bytes_xy".to_string(), 2 => "seventeen_bytes_x".to_string(), 3 => ".debug_nine_bts".to_string(), _ => format!(".debug_{}", "q".repeat(self.r.range(6, 14) as usize)) } } else { n };
            if !self.used.contains(&n) && (self.p == 20 || !n.contains('\0')) { self.used.push(n.clone()); return n; }
        }
        let n = format!("u{}", self.r.u64()); self.used.push(n.clone()); n
    }
    fn len(&mut self) -> u32 {
        let big = self.pr.big;
        let r = &mut self.r;
        if r.pct(big) { return match r.below(6) { 0 => r.range(4094, 4098) as u32, 1 => r.range(8190, 8194) as u32, 2 => r.range(1000, 5000) as u32, 3 => r.range(16383, 16385) as u32, 4 if r.pct(30) => r.range(60_000, 70_000) as u32, _ => r.range(200, 900) as u32 }; }
        match r.below(8) { 0 => 0, 1 => 1, 2..=5 => r.range(2, 24) as u32, _ => r.range(8, 80) as u32 }
    }
    /// sometimes the same content as something else
    fn blob(&mut self) -> Cont {
        if self.big_ok && self.r.p(1500) { self.big_ok = false; let len = match self.r.below(8) { 0..=3 => self.r.range((1 << 20) - 2, (1 << 20) + 300), 4 | 5 => self.r.range((1 << 22) - 2, (1 << 22) + 300), 6 => self.r.range(200_000, 3_000_000), _ => self.r.range((1 << 24) - 2, (1 << 24) + 300) }; return Cont::Blob { tag: self.tag(), len: len as u32 }; }
        if !self.conts.is_empty() && self.r.pct(self.alike.0) { let i = self.r.idx(self.conts.len()); return self.conts[i]; }
        if !self.conts.is_empty() && self.r.pct(7) { let i = self.r.idx(self.conts.len()); if let Cont::Blob { tag, len } = self.conts[i] { if tag >> 40 == 0 { return Cont::Blob { tag: tag | self.r.range(CLASSES + 1, CLASSES + 3) << 40, len }; } } }
        let c = self.new_blob();
        if self.conts.len() < 32 { self.conts.push(c); } else { let i = self.r.idx(32); self.conts[i] = c; }
        c
    }
    fn new_blob(&mut self) -> Cont { let len = self.len(); Cont::Blob { tag: self.tag(), len } }
    fn tag(&mut self) -> u64 { let t = self.r.below(1 << 40); if self.r.pct(15) { t | self.r.range(1, CLASSES) << 40 } else { t } }
    fn zero(&mut self) -> Cont { if self.p == 20 && self.r.pct(self.edge) || self.p == 14 && self.big_align && self.r.p(150) { return Cont::Zero(*self.r.pick(&[u64::MAX, 1 << 63, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0010, 0x8000_0000, 0x7fff_fff0, 0x20_0000_0004])); } let r = &mut self.r; Cont::Zero(match r.below(8) { 0 => 0, 1 => 1, 2 | 3 => r.range(2, 64), 4 => r.range(4095, 4097), 5 => r.range(1, 1 << 20), 6 => 1 << r.range(12, 30), _ => if self.big_align { let top = if r.pct(70) { 40 } else { 60 }; 1u64 << r.range(20, top) } else { r.range(100, 1 << 24) } }) }
    fn def_decl(&mut self, w: [u32; 3]) -> MDecl {
        let scope = if self.r.pct(self.pr.weak) { 2 } else { self.r.below(2) as u8 };
        let vis = if self.r.pct(60) { 0 } else { self.r.below(3) as u8 };
        let align = self.align();
        match self.r.weighted(&w) { 0 => MDecl::Fn { scope, vis, align }, 1 => MDecl::Data { scope, vis, w: self.r.pct(50), s: self.r.pct(25), align }, _ => MDecl::Sec { kind: self.r.below(3) as u8, s: self.r.pct(25), align } }
    }
    fn table(&mut self, n: u64) -> Vec<Ent> {
        // a custom symbol may be named like something else (no meaning in Mach-O, where it is external)
        let clash = [1, 2, 3, 7, 8, 9, 10, 15].contains(&self.p) && self.r.pct(40);
        let mut t = vec![];
        for _ in 0..n {
            let owner = self.r.below(self.clients as u64) as u8;
            if self.r.pct(self.pr.imports) { let name = self.fresh(false); t.push(Ent { name, decl: MDecl::Imp { f: self.r.pct(50) }, cont: Cont::Zero(0), syms: vec![], owner }); continue; }
            let mut decl = self.def_decl([50, 50, self.pr.secs]);
            if !self.ndecl.is_empty() && self.r.pct(self.alike.1) { let i = self.r.idx(self.ndecl.len()); decl = self.ndecl[i]; }
            if self.ndecl.len() < 8 { self.ndecl.push(decl); }
            let name = self.fresh(decl.is_sec());
            let cont = if decl.is_data() && self.r.pct(self.pr.zeros.min(95)) { self.zero() } else { self.blob() };
            // nothing competes for the definition, hence the alignment never pads a file
            if self.p == 20 && self.pr.noise == 0 && cont.is_zero() && self.r.pct(self.edge) { if let MDecl::Data { ref mut align, .. } = decl { *align = Some(*self.r.pick(&[20, 31, 32, 33, 40, 62, 63])); } }
            let mut syms = vec![];
            if decl.is_sec() && self.r.pct(50) { let n = if self.big_ok && self.r.p(1200) { self.r.range(200, 3000) } else { self.r.range(1, 4) }; for _ in 0..n { let s = if clash && self.r.pct(25) && !self.used.is_empty() { let u = self.used.clone(); self.r.pick(&u).clone() } else { self.fresh(false) }; if s.is_empty() { continue; } let mut at = self.r.range(0, cont.size()); if matches!(self.p, 1 | 8 | 11 | 18) && self.r.pct(6) { let k = self.r.range(1, 16); at += self.r.range(1, 1 << k); } if self.p == 20 && self.r.pct(self.edge / 2) { at = *self.r.pick(&[u64::MAX, u64::MAX - 7, 0x7fff_ffff, 0xffff_fff0, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001]); } syms.push((s, at)); } }
            t.push(Ent { name, decl, cont, syms, owner });
        }
        t
    }
    /// artifacts that are to become one program: they refer to each other, and to names several of them define
    fn modules(&mut self, n: usize, useds: &mut [Vec<String>]) -> Vec<Vec<Ent>> {
        let mut v: Vec<Vec<Ent>> = vec![];
        let mut strong: Vec<String> = vec![];
        for s in 0..n {
            self.used = vec![];
            let k = self.r.range(self.pr.ents.0.max(1), self.pr.ents.1.max(1));
            let mut t = self.table(k);
            // some of the names of the others
            for _ in 0..self.r.below(3) {
                if s == 0 { break; }
                let o = &v[self.r.idx(s)];
                if o.is_empty() { continue; }
                let name = o[self.r.idx(o.len())].name.clone();
                if name.starts_with('.') || name.starts_with("__") || self.used.contains(&name) { continue; }
                self.used.push(name.clone());
                let decl = self.def_decl([50, 50, 0]);
                let cont = if decl.is_data() && self.r.pct(25) { self.zero() } else { self.blob() };
                let owner = self.r.below(self.clients as u64) as u8;
                t.push(Ent { name, decl, cont, syms: vec![], owner });
            }
            for e in t.iter_mut() {
                let again = strong.contains(&e.name);
                let r = &mut self.r;
                match &mut e.decl { MDecl::Fn { scope, .. } | MDecl::Data { scope, .. } => { if *scope == 0 && again && r.pct(93) { *scope = if r.pct(65) { 2 } else { 1 }; } if *scope == 0 { strong.push(e.name.clone()); } } _ => {} }
            }
            useds[s] = self.used.clone();
            v.push(t);
        }
        for s in 0..n {
            for _ in 0..self.r.below(6) {
                if n < 2 { break; }
                let o = (s + 1 + self.r.idx(n - 1)) % n;
                if v[o].is_empty() { continue; }
                let e = &v[o][self.r.idx(v[o].len())];
                let f = match e.decl { MDecl::Fn { .. } => true, MDecl::Data { .. } => false, _ => continue };
                if e.decl.is_local() && self.r.pct(70) || useds[s].contains(&e.name) { continue; }
                let f = if self.r.pct(5) { !f } else { f };
                let name = e.name.clone();
                useds[s].push(name.clone());
                let owner = self.r.below(self.clients as u64) as u8;
                v[s].push(Ent { name, decl: MDecl::Imp { f }, cont: Cont::Zero(0), syms: vec![], owner });
            }
        }
        v
    }
    fn rel(&mut self, a: &MDecl, b: &MDecl) -> Option<MRel> {
        if self.p == 20 && self.r.pct(self.edge) {
            let r = &mut self.r;
            return Some(match r.below(6) {
                0 | 1 => MRel::Raw(*r.pick(&[4, 10, 14, 15, 16, 17, 31, 254, 255, 256, 257, 260, 271, 65536, 65540, 0x8000_0001, u32::MAX]), 0),
                2 => MRel::Raw(r.below(16) as u32, *r.pick(&[0, 1, -4, 5, 256, i32::MIN, i32::MAX])),
                3 => MRel::Debug(*r.pick(&[0, 1, 2, 3, 4, 5, 8, 9, 12, 16, 255]), 0),
                4 => MRel::Auto,
                _ => MRel::Raw(r.below(10) as u32, 0),
            });
        }
        let wide = self.big_align;
        if self.p == 20 { if a.is_sec() { return Some(MRel::Debug(if self.r.pct(50) { 4 } else { 8 }, 0)); } if b.is_sec() { return None; } return Some(if self.r.pct(30) { MRel::Raw(self.r.below(10) as u32, 0) } else { MRel::Auto }); }
        let r = &mut self.r;
        let dbg = |r: &mut Rng| MRel::Debug(if r.pct(50) { 4 } else { 8 }, if r.pct(70) { r.below(64) as i32 } else { r.u64() as i32 });
        if a.is_sec() { return Some(if !self.pr.portable && self.pr.elf > 0 && r.pct(30) { MRel::Raw(r.below(43) as u32, r.u64() as i32) } else { dbg(r) }); }
        if self.pr.portable { if b.is_sec() { return None; } return Some(if r.pct(12) { MRel::Raw(r.below(10) as u32, 0) } else { MRel::Auto }); }
        if self.p == 21 && self.pr.elf > 0 && !b.is_sec() && r.pct(15) { return Some(MRel::Raw(*r.pick(&[1, 2, 4, 9, 10, 11, 12, 13, 14, 15, 24, 25, 26, 31]), match r.below(4) { 0 => 0, 1 => -4, 2 => r.below(64) as i32, _ => r.u64() as i32 })); }
        if self.pr.elf > 0 {
            if a.is_fn() && b.is_sec() || r.pct(25) { return Some(if r.pct(50) { MRel::Raw(if r.pct(80) { r.below(43) as u32 } else if wide && r.pct(30) { r.u64() as u32 } else { r.below(256) as u32 }, match r.below(4) { 0 => 0, 1 => -4, _ => r.u64() as i32 }) } else { dbg(r) }); }
            return Some(MRel::Auto);
        }
        if b.is_sec() { return None; }
        Some(if r.pct(15) { MRel::Raw(r.below(10) as u32, 0) } else { MRel::Auto })
    }
    fn at(&mut self, len: u64) -> u64 { if self.p == 21 && len > 8 && self.r.pct(80) { return if self.r.pct(60) { self.r.below(len / 8) * 8 } else { self.r.below(len - 7) }; } if self.p == 20 && self.r.pct(self.edge / 2) { return *self.r.pick(&[0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0004, 0x7fff_ffff_0000_0000, u64::MAX - 7, u64::MAX - 15]); } if matches!(self.p, 9 | 17) && self.big_align && self.r.p(100) { return *self.r.pick(&[0xffff_fffe, 0x1_0000_0004, 0x1_2345_6789, 0x7fff_ffff_0000_0000, u64::MAX - 7]); } if self.p == 16 || self.p == 12 { self.r.below(len.max(1)) } else if self.r.pct(90) { self.r.below(len.saturating_add(1)) } else { len } }
    fn op(&mut self, phase: u8, client: u8, slot: u8, k: K) -> Op { self.uid += 1; Op { uid: self.uid, phase, client, slot, k, unwind: None, stall: None } }

    /// one build round of all clients on one slot
    fn round(&mut self, out: &mut Vec<(u64, Op)>, tab: &[Ent], all: &[Ent], slot: u8, phase: u8, fmts: &[Fmt]) {
        let clients = self.clients;
        let span = 1000u64;
        let mut known: Vec<Vec<u64>> = vec![vec![u64::MAX; all.len()]; clients as usize];
        let base = all.len() - tab.len();
        for i in 0..base { for c in 0..clients { if self.r.pct(50) { known[c as usize][i] = 0; } } }
        for (j, e) in tab.iter().enumerate() {
            let i = base + j;
            let t = self.r.below(span);
            let o = e.owner;
            known[o as usize][i] = t;
            if let MDecl::Imp { f } = e.decl {
                let k = if self.r.pct(50) { K::Import { name: e.name.clone(), f } } else { K::Declare { name: e.name.clone(), decl: e.decl } };
                let op = self.op(phase, o, slot, k); out.push((t, op));
            } else {
                let gap = if self.r.pct(30) { 0 } else { self.r.below(span / 2) };
                if e.syms.is_empty() && !e.cont.is_zero() && self.r.pct(35) {
                    let op = self.op(phase, o, slot, K::DeclareWith { name: e.name.clone(), decl: e.decl, cont: e.cont }); out.push((t, op));
                } else {
                    let op = self.op(phase, o, slot, K::Declare { name: e.name.clone(), decl: e.decl }); out.push((t, op));
                    let skip = self.r.pct(self.pr.leave_missing);
                    if !skip {
                        let k = if !e.syms.is_empty() || self.r.pct(25) { K::DefineSyms { name: e.name.clone(), cont: e.cont, syms: e.syms.clone() } } else { K::Define { name: e.name.clone(), cont: e.cont } };
                        let op = self.op(phase, o, slot, k); out.push((t + gap + 1, op));
                    }
                }
            }
        }
        // compatible declarations by others
        let n = (all.len() as u64 * self.pr.compat as u64 + self.r.below(100)) / 100;
        for _ in 0..n {
            if all.is_empty() { break; }
            let i = self.r.idx(all.len());
            let e = &all[i];
            let c = self.r.below(clients as u64) as u8;
            let t = self.r.below(span);
            let d = match e.decl { MDecl::Fn { .. } if self.r.pct(60) => MDecl::Imp { f: true }, MDecl::Data { .. } if self.r.pct(60) => MDecl::Imp { f: false }, d => d };
            known[c as usize][i] = known[c as usize][i].min(t);
            let k = match d { MDecl::Imp { f } if self.r.pct(40) => K::Import { name: e.name.clone(), f }, d => if self.r.pct(20) { let mut items = vec![(e.name.clone(), d)]; for _ in 0..self.r.below(3) { let x = &all[self.r.idx(all.len())]; items.push((x.name.clone(), x.decl)); } K::Batch { items } } else { K::Declare { name: e.name.clone(), decl: d } } };
            let op = self.op(phase, c, slot, k); out.push((t, op));
        }
        // links
        let burst_ok = [8, 9, 10, 11, 12, 13, 14, 17].contains(&self.p);
        let n = (all.len() as u64 * self.pr.links as u64 + self.r.below(100)) / 100;
        let mut last: Option<(K, u8)> = None;
        let mut burst = !burst_ok;
        for _ in 0..n {
            if all.is_empty() { break; }
            if let (Some((k, c)), true) = (last.clone(), self.r.pct(8)) { let t = span + self.r.below(span / 2); let op = self.op(phase, c, slot, k); out.push((t, op)); continue; }
            let (i, j) = (self.r.idx(all.len()), self.r.idx(all.len()));
            let (a, b) = (&all[i], &all[j]);
            if a.decl.is_import() || a.cont.is_zero() && !(self.p == 9 || self.p == 17) { continue; }
            let rel = match self.rel(&a.decl, &b.decl) { Some(x) => x, None => continue };
            let c = if self.r.pct(60) { a.owner } else { self.r.below(clients as u64) as u8 };
            if self.p == 16 && a.cont.size() == 0 { continue; }
            let at = self.at(a.cont.size());
            let mut t = self.r.below(span);
            for (x, e) in [(i, a), (j, b)] {
                if known[c as usize][x] == u64::MAX {
                    if self.p == 17 && self.r.pct(40) { continue; }
                    let d = if x == i && !(x == j) { e.decl } else { match e.decl { MDecl::Fn { .. } if self.r.pct(50) && x != i => MDecl::Imp { f: true }, MDecl::Data { .. } if self.r.pct(50) && x != i => MDecl::Imp { f: false }, d => d } };
                    let td = self.r.below(span);
                    known[c as usize][x] = td;
                    let op = self.op(phase, c, slot, K::Declare { name: e.name.clone(), decl: d }); out.push((td, op));
                } else if x == i && e.owner != c {
                    // make sure the source is not just an import for this client
                    let td = self.r.below(span); known[c as usize][x] = known[c as usize][x].max(td);
                    let op = self.op(phase, c, slot, K::Declare { name: e.name.clone(), decl: e.decl }); out.push((td, op));
                }
                if known[c as usize][x] != u64::MAX { t = t.max(known[c as usize][x] + 1); }
            }
            let k = K::Link { from: a.name.clone(), to: b.name.clone(), at, rel };
            last = Some((k.clone(), c));
            let op = self.op(phase, c, slot, k.clone()); out.push((t, op));
            // the same link again at once, and now and then very many links from one source
            if self.r.pct(6) { for _ in 0..self.r.range(1, 3) { let op = self.op(phase, c, slot, k.clone()); out.push((t, op)); } }
            if !burst && self.p != 16 && self.r.p(60) {
                burst = true;
                let many = match self.r.below(4) { 0 => self.r.range(250, 260), 1 => self.r.range(20, 120), _ => self.r.range(120, 640) };
                for _ in 0..many {
                    let at = self.at(a.cont.size());
                    let op = self.op(phase, c, slot, K::Link { from: a.name.clone(), to: b.name.clone(), at, rel }); out.push((t, op));
                }
            }
        }
        // conflicting declarations and calls that have to be refused
        let n = (all.len() as u64 * self.pr.conflict as u64 + self.r.below(100)) / 100;
        for _ in 0..n { if all.is_empty() { break; }
            let e = &all[self.r.idx(all.len())];
            let d = self.odd_decl(&e.decl);
            let c = self.r.below(clients as u64) as u8;
            let t = self.r.below(span + 200);
            let k = match self.r.below(5) { 0 => { let mut items: Vec<(String, MDecl)> = vec![]; for _ in 0..self.r.below(4) { let x = &all[self.r.idx(all.len())]; items.push((x.name.clone(), x.decl)); } items.push((e.name.clone(), d)); for _ in 0..self.r.below(3) { let x = &all[self.r.idx(all.len())]; items.push((x.name.clone(), x.decl)); } K::Batch { items } }
                1 if !d.is_import() => { let cont = self.blob(); K::DeclareWith { name: e.name.clone(), decl: d, cont } }
                2 => match d { MDecl::Imp { f } => K::Import { name: e.name.clone(), f }, d => K::Declare { name: e.name.clone(), decl: d } },
                _ => K::Declare { name: e.name.clone(), decl: d } };
            let op = self.op(phase, c, slot, k); out.push((t, op)); }
        let n = (all.len() as u64 * self.pr.noise as u64 + self.r.below(100)) / 100;
        for _ in 0..n { if all.is_empty() { break; }
            let c = self.r.below(clients as u64) as u8;
            let t = self.r.below(span + 300);
            let e = &all[self.r.idx(all.len())];
            let k = match self.r.below(10) {
                0 => { let name = self.ghost(); let cont = self.blob(); K::Define { name, cont } }
                1 | 2 => { let cont = self.blob(); K::Define { name: e.name.clone(), cont } }
                3 => { let cont = self.zero(); K::Define { name: e.name.clone(), cont } }
                4 => { let cont = if self.r.pct(30) { self.zero() } else { self.blob() }; let s = self.ghost(); let at = self.r.below(cont.size().saturating_add(1)); if e.decl.is_sec() && s.is_empty() { continue; } K::DefineSyms { name: e.name.clone(), cont, syms: vec![(s, at)] } }
                5 | 6 => { let g = self.ghost(); let b = &all[self.r.idx(all.len())]; let (from, to) = match self.r.below(3) { 0 => (g, b.name.clone()), 1 => (b.name.clone(), g), _ => (e.name.clone(), b.name.clone()) };
                    let rel = if self.r.pct(70) { self.rel(&e.decl, &b.decl).unwrap_or(MRel::Auto) } else { MRel::Auto };
                    // an accepted stray link has to be a meaningful one
                    if e.name == from && (e.cont.is_zero() && !e.decl.is_import()) { continue; }
                    let len = e.cont.size(); let at = if from == e.name { self.at(len) } else { self.r.below(8) };
                    if from == b.name && (b.cont.is_zero() || b.cont.size() < at) && !b.decl.is_import() { continue; }
                    let rel = if from == e.name { if !e.decl.is_import() && self.rel(&e.decl, &b.decl).is_none() { continue; } rel } else { MRel::Auto };
                    if from == b.name && b.decl.is_sec() { continue; }
                    K::Link { from, to, at, rel } }
                7 => { let cont = self.blob(); let decl = e.decl; if decl.is_import() { K::Define { name: e.name.clone(), cont } } else { K::DeclareWith { name: e.name.clone(), decl, cont } } }
                8 => { let (decl, cont) = (MDecl::Imp { f: self.r.pct(50) }, self.blob()); let name = if self.r.pct(60) { e.name.clone() } else { self.fresh(false) }; K::DeclareWith { name, decl, cont } }
                _ => { let mut items = vec![]; for _ in 0..self.r.range(1, 4) { let x = &all[self.r.idx(all.len())]; let d = if self.r.pct(30) { self.odd_decl(&x.decl) } else { x.decl }; items.push((x.name.clone(), d)); } if self.pr.conflict == 0 { for it in items.iter_mut() { if let Some(x) = all.iter().find(|x| x.name == it.0) { it.1 = x.decl; } } } K::Batch { items } }
            };
            // in runs without competing definitions, a foreign definition must come after the owner's
            let (c, t) = if self.p == 6 || self.p == 7 || self.p == 4 || self.p == 15 { (c, t) } else { (c, if t < span { t + span } else { t }) };
            let op = self.op(phase, c, slot, k); out.push((t, op)); }
        // readers in between
        let n = (8 * self.pr.reads as u64 + self.r.below(100)) / 100;
        for _ in 0..n { let c = self.r.below(clients as u64) as u8; let t = self.r.below(span + 400); let k = self.reader(fmts); let op = self.op(phase, c, slot, k); out.push((t, op)); }
    }
    fn ghost(&mut self) -> String { match self.r.below(3) { 0 => format!("ghost{}", self.r.below(20)), 1 => format!("a{}", self.r.below(20)), _ => format!("zz{}", self.r.below(20)) } }
    fn odd_decl(&mut self, d: &MDecl) -> MDecl {
        let mut x = *d;
        if self.r.pct(55) {
            match &mut x {
                MDecl::Imp { f } => *f = !*f,
                MDecl::Fn { scope, vis, align } => match self.r.below(3) { 0 => *scope = (*scope + 1) % 3, 1 => *vis = (*vis + 1) % 3, _ => *align = match *align { None => Some(0), Some(a) => if self.r.pct(50) { None } else { Some((a + 1) % 12) } } },
                MDecl::Data { scope, vis, w, s, align } => match self.r.below(5) { 0 => *scope = (*scope + 1) % 3, 1 => *vis = (*vis + 1) % 3, 2 => *w = !*w, 3 => *s = !*s, _ => *align = match *align { None => Some(0), Some(a) => if self.r.pct(50) { None } else { Some((a + 1) % 12) } } },
                MDecl::Sec { kind, s, align } => match self.r.below(3) { 0 => *kind = (*kind + 1) % 3, 1 => *s = !*s, _ => *align = match *align { None => Some(0), Some(_) => None } },
            }
            return x;
        }
        match self.r.below(6) { 0 => MDecl::Imp { f: true }, 1 => MDecl::Imp { f: false }, 2 | 3 => self.def_decl([1, 0, 0]), 4 => self.def_decl([0, 1, 0]), _ => self.def_decl([0, 0, 1]) }
    }
    fn reader(&mut self, fmts: &[Fmt]) -> K {
        if self.r.pct(self.pr.writes) { return self.writer(fmts); }
        match self.r.below(10) { 0 | 1 => K::Undefined, 2 => K::Imports, 3 if self.p == 4 || self.p == 5 => if self.p == 4 { K::Undefined } else { K::Imports }, _ => K::Emit { fmt: self.fmt(fmts) } }
    }
    fn fmt(&mut self, fmts: &[Fmt]) -> Option<Fmt> {
        if self.r.pct(self.pr.other_fmt) && self.p == 4 { return Some(*self.r.pick(&[Fmt::Coff, Fmt::Wasm, Fmt::Unknown, Fmt::Elf, Fmt::Macho])); }
        if self.r.pct(3) && self.p != 16 { return Some(*self.r.pick(&[Fmt::Coff, Fmt::Wasm, Fmt::Unknown])); }
        if self.r.pct(20) { None } else { Some(*self.r.pick(fmts)) }
    }
    fn sink(&mut self) -> Sink {
        let r = &mut self.r;
        let prefill = if r.pct(50) { 0 } else { r.below(3000) as u32 };
        let pos = if r.pct(40) { 0 } else if r.pct(70) { prefill } else { r.below(prefill as u64 + 200) as u32 };
        let kind = match r.below(10) { 0 => 1, 1 => 2, _ => 0 };
        let (prefill, pos) = if kind == 2 { (0, 0) } else { (prefill, pos) };
        let mut faults = vec![];
        let hard = self.p == 3 || self.p == 19;
        let n = if r.pct(if hard { 80 } else { 40 }) { r.below(9) } else { 0 };
        for _ in 0..n {
            faults.push(match r.below(if hard { 12 } else { 7 }) { 0 => Fault::Full, 1..=3 => Fault::Short(match r.below(4) { 0 => 1, 1 => r.range(2, 20) as u32, 2 => r.range(50, 600) as u32, _ => r.range(600, 5000) as u32 }), 4 | 5 => Fault::Eintr, 6 => Fault::Stall(r.range(1, 3000) as u32),
                7 => Fault::Zero, _ => if r.pct(55) { Fault::Err(*r.pick(&[28, 5, 11, 9, 32, 27, 122, 12, 1, 22])) } else { Fault::Short(r.range(1, 400) as u32) } });
        }
        // signals that keep coming
        if hard && r.pct(3) { let n = r.range(20, 400) as usize; let at = r.idx(faults.len() + 1); for _ in 0..n { faults.insert(at, Fault::Eintr); } }
        Sink { prefill, pos, faults, retry: r.pct(50), kind }
    }
    fn writer(&mut self, fmts: &[Fmt]) -> K {
        let fmt = self.fmt(fmts);
        let sink = self.sink();
        if self.p == 3 && self.r.pct(25) {
            let r = &mut self.r;
            let e = |r: &mut Rng| { let b = r.range(1, 10); r.range(1, 1 << b) as u32 };
            let crash = match r.below(8) { 0 | 1 => Crash::AllocFail(e(r)), 2 => Crash::KillAlloc(e(r)), 3 => Crash::AbortLog(r.range(1, 60) as u32), _ => Crash::KillWrite(r.range(1, 6) as u32, r.range(0, 1500) as u32) };
            return K::CrashWrite { fmt, sink, crash };
        }
        K::Write { fmt, sink }
    }
}

pub fn generate(prop: &str, seed: u64) -> Scen {
    let mut r = Rng::new(mix(seed, 0xfae21e));
    let p = pnum(prop);
    let mut pr = Prof::of(p);
    // swarm: switch features off at random so that others are exercised alone
    if r.pct(25) { pr.noise = 0; }
    if r.pct(20) { pr.zeros = 0; } else if r.pct(10) { pr.zeros = 90; }
    if p == 14 && pr.zeros < 50 { pr.zeros = 50; }
    if r.pct(25) { pr.secs = 0; }
    if r.pct(20) { pr.imports = 0; }
    if r.pct(30) { pr.weird = 0; }
    if r.pct(20) { pr.compat = 0; }
    if r.pct(50) { pr.unwind_mut = 0; }
    if r.pct(40) { pr.unwind_emit = 0; }
    if r.pct(15) && p != 9 && p != 12 && p != 17 { pr.links = 0; }
    if r.pct(30) { pr.weak = 0; } else if r.pct(15) { pr.weak = 80; }
    if r.pct(15) { pr.ents = (pr.ents.0, pr.ents.1 * 3); }
    if r.pct(8) { pr.ents = (0, 1); }
    let clients = r.range(pr.clients.0, pr.clients.1) as u8;
    let nslots = r.range(1, pr.slots) as usize;
    let nslots = if p == 15 || p == 21 && r.pct(90) { nslots.max(2) } else { nslots };
    if p == 21 { if r.pct(50) { pr.mach = 100; pr.elf = 0; } else { pr.elf = 100; pr.mach = 0; } }
    let mut slots: Vec<SlotInit> = vec![];
    let alts = if p != 16 && r.pct(10) { r.range(1, 2) as usize } else { 0 };
    for i in 0..nslots + alts {
        let t = if r.pct(4) && pr.portable { *r.pick(&OTHER_T) } else if r.below((pr.elf + pr.mach) as u64) < pr.elf as u64 { if pr.portable { *r.pick(&["x86_64-unknown-linux-gnu", "x86_64-unknown-linux-gnu", "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "powerpc-unknown-linux-gnu"]) } else if r.pct(60) { ELF_T[0] } else { *r.pick(&ELF_T) } }
            else if r.pct(75) { MACH_T[0] } else { *r.pick(&MACH_T) };
        let t = if p == 20 { match r.below(10) { 0..=3 => "x86_64-unknown-linux-gnu", 4 => "x86_64-apple-darwin", 5 => *r.pick(&["wasm32-unknown-unknown", "hexagon-unknown-linux-musl", "nvptx64-nvidia-cuda", "riscv64gc-unknown-linux-gnu", "mips-unknown-linux-gnu", "s390x-unknown-linux-gnu", "wasm32-wasi", "msp430-none-elf"]), 6 => *r.pick(&["aarch64-unknown-linux-gnu", "aarch64-apple-ios", "powerpc64-unknown-linux-gnu", "sparc64-unknown-linux-gnu"]), 7 => *r.pick(&["i686-apple-darwin", "x86_64-unknown-linux-gnux32"]), _ => *r.pick(&["i686-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "armv7-unknown-linux-gnueabihf"]) } } else { t };
        let t = if p == 18 { *r.pick(&crate::exec::IDENT_T) } else { t };
        let t = if p == 21 { if pr.elf > 0 { "x86_64-unknown-linux-gnu" } else { "x86_64-apple-darwin" } } else { t };
        let name = match r.below(8) { 0 => if r.pct(70) { "faerie.o".into() } else { format!("{}/x.o", ["/tmp", "/usr/lib", "/proc/self", "/"][r.idx(4)]) }, 1 => format!("m{}.o", i), 2 if !pr.portable || r.pct(30) => ["f0", ".strtab", ".symtab", "\u{e9}.o", "a b", "main", ".text.f0", ".text"][r.idx(8)].to_string(), 3 => "x".repeat(r.range(1, 80) as usize), _ => "test.o".into() };
        slots.push(SlotInit { name, target: t.into() });
    }
    let mut alts: Vec<SlotInit> = slots.split_off(nslots);
    // one target in two slots makes cross-talk between artifacts visible
    if nslots > 1 && r.pct(50) { let s0 = slots[0].clone(); for s in slots.iter_mut().skip(1) { s.target = s0.target.clone(); if r.pct(50) { s.name = s0.name.clone(); } } }
    let both = || slots.iter().chain(&alts);
    let wide = p != 21 && both().all(|s| s.target.starts_with("x86_64") && !s.target.ends_with("x32")) || both().all(|s| ["aarch64", "powerpc64", "s390x", "riscv64"].iter().any(|t| s.target.starts_with(t)));
    let fmts: Vec<Fmt> = if pr.elf == 0 { vec![Fmt::Macho] } else if pr.mach == 0 { vec![Fmt::Elf] } else { vec![Fmt::Elf, Fmt::Macho] };
    let family = if r.pct(7) { Some(*r.pick(&FAMILY)) } else { None };
    let alike = if r.pct(7) { (50, 70) } else { (8, 15) };
    let mut g = G { r, p, family, alike, mach_sec: pr.mach > 0, big_align: wide, pr, clients, uid: 0, used: vec![], conts: vec![], ndecl: vec![], edge: 0, big_ok: false };
    g.big_ok = !matches!(p, 4 | 5 | 20 | 21) && g.r.p(80);
    if p == 20 && g.r.pct(75) { g.edge = *g.r.pick(&[2, 5, 10, 30]); }
    let mut ops: Vec<(u8, u64, Op)> = vec![];
    let rounds = if g.r.pct(g.pr.rounds) { if g.r.pct(30) { 3 } else { 2 } } else { 1 };
    let mut tabs: Vec<Vec<Ent>> = (0..nslots).map(|_| vec![]).collect();
    let mut useds: Vec<Vec<String>> = vec![vec![]; nslots];
    let shared_names = p == 21 || g.r.pct(50);
    let mut modules = if p == 21 { g.modules(nslots, &mut useds) } else { vec![] };
    for round in 0..rounds {
        let ph = round as u8 * 3;
        for s in 0..nslots {
            // another artifact takes the place of the one built so far
            let fresh = round > 0 && g.r.pct(30);
            if fresh {
                let (c, init) = (g.r.below(clients as u64) as u8, if g.r.pct(60) { s } else { g.r.idx(nslots) } as u8);
                let op = g.op(ph - 1, c, s as u8, K::Fresh { init }); ops.push((ph - 1, 2000, op));
                tabs[s].clear();
                if g.r.pct(50) { useds[s].clear(); }
            }
            let lo = if round == 0 || fresh { g.pr.ents.0 } else { 0 }; let hi = if round == 0 || fresh { g.pr.ents.1 } else { g.pr.ents.1 / 2 + 1 };
            if p == 15 && s > 0 && g.r.pct(70) && round == 0 { continue; }
            g.used = std::mem::take(&mut useds[s]);
            let n = g.r.range(lo.min(hi), hi);
            let new = if p == 21 && round == 0 { std::mem::take(&mut modules[s]) } else { g.table(n) };
            useds[s] = g.used.clone();
            if !shared_names { for u in useds.iter_mut() { *u = g.used.clone(); } }
            let k = new.len();
            tabs[s].extend(new);
            let all = std::mem::take(&mut tabs[s]);
            let mut out = vec![];
            g.round(&mut out, &all[all.len() - k..], &all, s as u8, ph, &fmts);
            tabs[s] = all;
            for (t, o) in out { ops.push((o.phase, t, o)); }
        }
        // copies
        if nslots > 1 {
            let n = (4 * g.pr.copies as u64 + g.r.below(100)) / 100;
            for _ in 0..n { let (a, b) = (g.r.idx(nslots) as u8, g.r.idx(nslots) as u8); if a == b { continue; } let c = g.r.below(clients as u64) as u8; let t = g.r.below(1500); let phx = ph + g.r.below(3) as u8; let op = g.op(phx, c, a, K::Copy { dst: b }); ops.push((phx, t, op)); }
        }
        for s in 0..nslots {
            if !g.r.pct(g.pr.leave_missing) { let (c, tag) = (g.r.below(clients as u64) as u8, g.r.below(1 << 40)); let op = g.op(ph + 1, c, s as u8, K::Finish { tag }); ops.push((ph + 1, 500, op)); }
            let n = g.r.range(g.pr.finals.0, g.pr.finals.1) * if p == 2 { clients as u64 } else { 1 };
            for i in 0..n {
                let c = g.r.below(clients as u64) as u8;
                let k = if g.r.pct(g.pr.writes) { g.writer(&fmts) } else if p == 16 { K::Emit { fmt: Some(fmts[i as usize % fmts.len()]) } } else if p == 14 { K::Emit { fmt: Some(fmts[i as usize % 2]) } } else if g.r.pct(12) { g.reader(&fmts) } else { K::Emit { fmt: g.fmt(&fmts) } };
                let t = g.r.below(1000);
                let op = g.op(ph + 2, c, s as u8, k); ops.push((ph + 2, t, op));
            }
        }
        // someone builds another artifact while the finished ones are being emitted
        if p == 2 && nslots > 1 && g.r.pct(50) { for o in ops.iter_mut() { if o.2.slot as usize == nslots - 1 && o.0 % 3 == 0 && g.r.pct(70) { o.0 += 2; o.2.phase += 2; } } }
    }
    // an artifact is given another name or target
    for a in alts.drain(..) {
        let (s, c, t, ph) = (g.r.idx(nslots) as u8, g.r.below(clients as u64) as u8, g.r.below(1500), g.r.below(rounds as u64 * 3) as u8);
        let k = K::Retarget { name: if g.r.pct(50) { a.name } else { slots[s as usize].name.clone() }, target: if g.r.pct(75) { a.target } else { slots[s as usize].target.clone() } };
        let op = g.op(ph, c, s, k); ops.push((ph, t, op));
    }
    // very many definitions, before, among or after the others
    let bulk = match p {
        19 => if g.r.p(60) { g.r.range(200, 3000) } else { 0 },
        21 => if g.r.p(2) { 65_280 - 6 + g.r.below(300) } else if g.r.p(30) { g.r.range(100, 2000) } else { 0 },
        10 | 18 => if g.r.p(if p == 10 { 60 } else { 8 }) { match g.r.below(3) { 0 => 0xff00 - 6 + g.r.below(12), 1 => 65_535 - 40 + g.r.below(80), _ => g.r.range(65_000, 70_000) } } else { 0 },
        8 | 9 | 11..=14 => if g.r.p(4) { match g.r.below(2) { 0 => 65_280 - 6 + g.r.below(300), _ => g.r.range(65_000, 70_000) } } else if g.r.p(20) { g.r.range(200, 3000) } else { 0 },
        1 | 2 | 4..=7 | 15..=17 | 20 => if g.r.p(12) { g.r.range(100, 2000) } else { 0 },
        _ => 0 };
    // very many links from one place
    let blinks = match p {
        9 | 12 | 17 => if g.r.p(6) { match g.r.below(2) { 0 => 65_536 - 6 + g.r.below(12), _ => g.r.range(65_000, 70_000) } } else if g.r.p(20) { g.r.range(200, 3000) } else { 0 },
        10 | 13 | 14 | 18 | 20 => if g.r.p(2) { 65_536 - 6 + g.r.below(12) } else if g.r.p(15) { g.r.range(200, 3000) } else { 0 },
        19 => if g.r.p(40) { g.r.range(200, 3000) } else { 0 },
        21 => if g.r.p(2) { 65_536 - 6 + g.r.below(12) } else if g.r.p(30) { g.r.range(200, 3000) } else { 0 },
        _ => 0 };
    // the same emission very often; small artifacts that come and go
    if matches!(p, 1 | 2 | 15 | 18 | 19) {
        if g.r.p(if p == 18 { 0 } else { 60 }) { let n = match g.r.below(6) { 0 => g.r.range(1000, 5000), 1 => 256 + g.r.below(4), _ => g.r.range(20, 300) } as u32; let (s, c, ph, t) = (g.r.idx(nslots) as u8, g.r.below(clients as u64) as u8, 2 + 3 * g.r.below(rounds as u64) as u8, g.r.below(1500)); let fmt = g.fmt(&fmts); let op = g.op(ph, c, s, K::EmitMany { fmt, n }); ops.push((ph, t, op)); }
        if g.r.p(60) { let n = match g.r.below(6) { 0 => g.r.range(300, 1200), 1 => 256 + g.r.below(4), _ => g.r.range(5, 150) } as u32; let (c, ph, t, tag) = (g.r.below(clients as u64) as u8, g.r.below(rounds as u64 * 3) as u8, g.r.below(1500), g.r.below(1 << 30)); let op = g.op(ph, c, 0, K::Churn { n, tag }); ops.push((ph, t, op)); }
    }
    // a long list of declarations in one call
    if matches!(p, 1 | 2 | 4 | 5 | 7 | 15 | 17) && g.r.p(80) {
        let (s, n, tag) = (g.r.idx(nslots) as u8, g.r.range(10, if p == 7 { 60 } else { 400 }), g.r.below(90));
        let mut items = vec![];
        for i in 0..n {
            let known = &tabs[s as usize];
            if g.r.pct(4) && !known.is_empty() { let e = &known[g.r.idx(known.len())]; items.push((e.name.clone(), if g.r.pct(10) { MDecl::Imp { f: true } } else { e.decl })); continue; }
            let name = format!("w{}_{}", tag, if g.r.pct(3) { g.r.below(n) } else { i });
            let d = if g.r.pct(30) { MDecl::Imp { f: g.r.pct(50) } } else { g.def_decl([60, 40, 0]) };
            items.push((name, d));
        }
        let (c, ph, t) = (g.r.below(clients as u64) as u8, g.r.below(rounds as u64 * 3) as u8, g.r.below(1500));
        let op = g.op(ph, c, s, K::Batch { items }); ops.push((ph, t, op));
    }
    if blinks > 0 { let tag = g.r.below(1 << 30); let (ph, t) = *g.r.pick(&[(0, 0), (0, 500), (1, 0)]); let s = g.r.idx(nslots) as u8; let op = g.op(ph, 0, s, K::BulkLinks { n: blinks as u32, tag }); ops.push((ph, t, op)); }
    if bulk > 0 { let tag = g.r.below(1 << 30); let (ph, t) = *g.r.pick(&[(0, 0), (0, 500), (1, 0)]); let op = g.op(ph, 0, 0, K::Bulk { n: bulk as u32, tag }); ops.push((ph, t, op)); }
    if (11..=13).contains(&p) && g.r.p(40) {
        let s = g.r.idx(nslots) as u8;
        let have = tabs[s as usize].iter().filter(|e| e.decl.is_sec()).count() as u64;
        let n = if g.r.pct(50) { 251 - have.min(200) - g.r.below(3) } else { g.r.range(100, 200) };
        for i in 0..n { let (decl, c, cont) = (MDecl::Sec { kind: g.r.below(3) as u8, s: g.r.pct(20), align: None }, g.r.below(clients as u64) as u8, g.blob()); let t = g.r.below(1000); let op = g.op(0, c, s, K::DeclareWith { name: format!(".m{}", i), decl, cont }); ops.push((0, t, op)); }
    }
    if p == 20 && g.edge > 0 && g.r.pct(6) {
        let s = g.r.idx(nslots) as u8;
        let have: u64 = tabs[s as usize].iter().filter(|e| e.decl.is_sec()).count() as u64;
        let n = (251 - have.min(200)) + g.r.below(5) - 2;
        let mut t = 0;
        for i in 0..n { let (decl, c, cont) = (MDecl::Sec { kind: g.r.below(3) as u8, s: false, align: None }, g.r.below(clients as u64) as u8, g.blob()); t += 1; let op = g.op(0, c, s, K::DeclareWith { name: format!(".m{}", i), decl, cont }); ops.push((0, t, op)); }
    }
    ops.sort_by_key(|o| (o.0, o.1));
    let mut list: Vec<Op> = ops.into_iter().map(|o| o.2).collect();
    // faults on calls: an unwound attempt, then the real call
    let mut with: Vec<Op> = vec![];
    let mut log_needed = false;
    let bulk = bulk > 0 || blinks > 0;
    for o in list.drain(..) {
        let m = matches!(o.k, K::Declare { .. } | K::DeclareWith { .. } | K::Batch { .. } | K::Import { .. } | K::Define { .. } | K::DefineSyms { .. } | K::Link { .. });
        let e = matches!(o.k, K::Emit { .. } | K::Write { .. } | K::Copy { .. });
        if (m && g.r.pct(g.pr.unwind_mut)) || (e && !bulk && g.r.pct(g.pr.unwind_emit)) {
            let mut x = o.clone(); g.uid += 1; x.uid = g.uid;
            let r = &mut g.r;
            x.unwind = Some(match &x.k {
                K::Declare { .. } => if r.pct(50) { (Up::Name, 1) } else { (Up::Decl, 1) },
                K::DeclareWith { .. } => match r.below(4) { 0 => (Up::Decl, 1), 1 => (Up::Name, 1), _ => (Up::Name, r.range(1, 3) as u32) },
                K::Batch { items } => if r.pct(50) { (Up::Iter, r.range(1, items.len() as u64 + 1) as u32) } else { (Up::Name, r.range(1, items.len() as u64) as u32) },
                K::Import { .. } | K::Define { .. } => (Up::Name, r.range(1, 2) as u32),
                K::DefineSyms { .. } => if r.pct(60) { (Up::Data, 1) } else { (Up::Name, r.range(1, 2) as u32) },
                _ => { log_needed = true; let b = r.range(0, 7); (Up::Log, r.range(1, 1 << b) as u32) }
            });
            with.push(x);
            if !e || g.r.pct(60) { with.push(o); }
        } else { with.push(o); }
    }
    for o in with.iter_mut() { if g.r.pct(g.pr.stalls) { let b = g.r.range(0, 10); o.stall = Some((g.r.range(1, 1 << b) as u32, g.r.range(1, 4000) as u32)); } }
    if with.iter().any(|o| matches!(o.k, K::CrashWrite { crash: Crash::AbortLog(_), .. })) { log_needed = true; }
    let r = &mut g.r;
    let mode = match r.below(10) { 0 | 1 => "ops".to_string(), 2..=6 => format!("random:{}", r.pick(&[4, 12, 40, 120, 400, 1500])), _ => format!("pct:{}", r.range(1, 5)) };
    let log = if bulk { 0 } else if log_needed { 3 + r.below(2) as u8 } else if r.pct(15) { r.range(1, 4) as u8 } else { 0 };
    let cfg = Cfg { mode, seed: r.u64(), hash: r.u64() >> 1, heap: r.u64() >> 1, pads: (0..clients).map(|_| r.below(64) as u32).collect(), log, env: if r.pct(30) { r.range(1, 250) as u8 } else { 0 }, alt: (r.u64() >> 1) | 1, strict_names: false };
    Scen { prop: prop.into(), cfg, clients, slots, ops: with, ..Default::default() }
}
