//! helpers of the demonstration
#![allow(dead_code, unused_imports)]
pub use faerie::*;
pub use std::collections::BTreeMap;
pub use std::str::FromStr;
pub use target_lexicon::{BinaryFormat, Triple};
pub fn art(t: &str) -> Artifact { Artifact::new(Triple::from_str(t).unwrap(), "demo.o".into()) }
pub fn elf() -> Artifact { art("x86_64-unknown-linux-gnu") }
pub fn mach() -> Artifact { art("x86_64-apple-darwin") }
pub fn link(a: &mut Artifact, from: &str, to: &str, at: u64) { a.link(Link { from, to, at }).unwrap() }
pub fn try_link(a: &mut Artifact, from: &str, to: &str, at: u64) -> Result<(), ArtifactError> { a.link(Link { from, to, at }) }
/// (name, value, size, shndx, bind, type, visibility)
pub type ES = (String, u64, u64, usize, u8, u8, u8);
pub struct E { pub syms: Vec<ES>, pub secs: Vec<(String, goblin::elf::SectionHeader)>, pub rels: Vec<(usize, u64, u32, usize, i64)>, pub bytes: Vec<u8> }
pub fn parse_elf(b: &[u8]) -> E {
    let e = goblin::elf::Elf::parse(b).expect("a well formed ELF object");
    let syms = e.syms.iter().map(|s| (e.strtab.get_at(s.st_name).unwrap_or("<bad name>").to_string(), s.st_value, s.st_size, s.st_shndx, s.st_bind(), s.st_type(), s.st_other & 3)).collect();
    let secs = e.section_headers.iter().map(|s| (e.shdr_strtab.get_at(s.sh_name).unwrap_or("<bad name>").to_string(), s.clone())).collect();
    let mut rels = vec![];
    for (i, rs) in e.shdr_relocs.iter() { for r in rs.iter() { rels.push((e.section_headers[*i].sh_info as usize, r.r_offset, r.r_type, r.r_sym, r.r_addend.unwrap_or(0))); } }
    E { syms, secs, rels, bytes: b.to_vec() }
}
impl E {
    pub fn sym(&self, n: &str) -> &ES { let v: Vec<&ES> = self.syms.iter().filter(|s| s.0 == n).collect(); assert_eq!(v.len(), 1, "symbols named {}", n); v[0] }
    pub fn sec(&self, n: &str) -> &goblin::elf::SectionHeader { &self.secs.iter().find(|s| s.0 == n).expect(n).1 }
    pub fn content(&self, i: usize) -> &[u8] { let s = &self.secs[i].1; &self.bytes[s.sh_offset as usize..(s.sh_offset + s.sh_size) as usize] }
    pub fn def(&self, n: &str) -> &[u8] { self.content(self.sym(n).3) }
    pub fn rels_of(&self, n: &str) -> Vec<&(usize, u64, u32, usize, i64)> { let i = self.sym(n).3; self.rels.iter().filter(|r| r.0 == i).collect() }
}
/// (name, n_type, n_sect, n_desc, n_value)
pub type MS = (String, u8, usize, u16, u64);
pub struct MSec { pub name: String, pub seg: String, pub addr: u64, pub size: u64, pub offset: u32, pub align: u32, pub flags: u32, pub data: Vec<u8>, pub rels: Vec<(i32, usize, u8, bool, u8, bool)> }
pub struct M { pub syms: Vec<MS>, pub secs: Vec<MSec> }
pub fn parse_mach(b: &[u8]) -> M {
    let m = goblin::mach::MachO::parse(b, 0).expect("a well formed Mach-O object");
    let syms = m.symbols().map(|s| { let (n, l) = s.expect("symbol"); (n.to_string(), l.n_type, l.n_sect, l.n_desc, l.n_value) }).collect();
    let mut secs = vec![];
    for seg in m.segments.iter() { for x in seg.sections().expect("sections") { let (s, d) = x; 
        let rels = s.iter_relocations(b, goblin::container::Ctx::new(goblin::container::Container::Big, goblin::container::Endian::Little)).map(|r| { let r = r.expect("relocation"); (r.r_address, r.r_symbolnum(), r.r_length(), r.r_pcrel() != 0, r.r_type(), r.r_extern() != 0) }).map(|(a, n, l, p, t, e)| (a, n as usize, l, p, t as u8, e)).collect();
        secs.push(MSec { name: s.name().unwrap().to_string(), seg: s.segname().unwrap().to_string(), addr: s.addr, size: s.size, offset: s.offset, align: s.align, flags: s.flags, data: d.to_vec(), rels }); } }
    M { syms, secs }
}
impl M {
    pub fn sym(&self, n: &str) -> &MS { let v: Vec<&MS> = self.syms.iter().filter(|s| s.0 == n).collect(); assert_eq!(v.len(), 1, "symbols named {}", n); v[0] }
    pub fn sec(&self, n: &str) -> &MSec { self.secs.iter().find(|s| s.name == n).expect(n) }
    pub fn at(&self, n: &str, len: usize) -> Vec<u8> { let s = self.sym(n); let c = &self.secs[s.2 - 1]; let o = (s.4 - c.addr) as usize; c.data[o..o + len].to_vec() }
}
pub fn data() -> DataDecl { DataDecl::default() }
pub fn func() -> FunctionDecl { FunctionDecl::default() }
