"""The planted changes: each breaks one property, compiles, and passes the existing tests."""
A, D, L, M = 'src/artifact.rs', 'src/artifact/decl.rs', 'src/elf.rs', 'src/mach.rs'
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

# ---------------------------------------------------------------- C01
seed('c01-reloc-hashmap', 'C01', [
  (L, 'relocations: IndexMap<StringIndex, (Section, Vec<Relocation>)>,', 'relocations: HashMap<StringIndex, (Section, Vec<Relocation>)>,'),
  (L, '            relocations: IndexMap::new(),\n', '            relocations: HashMap::new(),\n')],
 'two or more sources with links, and hash seeds which order them differently',
 'relocation sections come in hash order: bytes differ from emission to emission', '''
fn main() {
    let mut a = elf();
    for i in 0..8 { a.declare_with(format!("f{}", i), Decl::function(), vec![0; 16]).unwrap(); }
    for i in 0..8 { link(&mut a, &format!("f{}", i), "f0", 4); }
    let x = a.emit().unwrap();
    for _ in 0..20 { assert!(a.emit().unwrap() == x, "two emissions differ"); }
}''')
seed('c01-import-hashmap', 'C01', [
  (L, '''        let (idx, offset) = self.new_string(import);
        let symbol = SymbolBuilder::new(SymbolType::Import)
            .name_offset(offset)
            .create();
        self.imports.insert(idx, kind.clone());
        self.symbols.insert(idx, symbol);
    }
''', '''        let (idx, _) = self.new_string(import);
        self.imports.insert(idx, kind.clone());
    }
    /// Add the symbols of all imports
    fn import_symbols(&mut self) {
        for idx in self.imports.keys() {
            let symbol = SymbolBuilder::new(SymbolType::Import)
                .name_offset(self.offsets[idx])
                .create();
            self.symbols.insert(*idx, symbol);
        }
    }
'''),
  (L, '''        elf.import(import.to_string(), kind);
    }
''', '''        elf.import(import.to_string(), kind);
    }
    elf.import_symbols();
''')],
 'two or more imports, and hash seeds which order them differently',
 'undefined symbols come in hash order: bytes differ from emission to emission', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 64]).unwrap();
    for i in 0..8 { a.import(format!("i{}", i), ImportKind::Function).unwrap(); link(&mut a, "f", &format!("i{}", i), 4 * i); }
    let x = a.emit().unwrap();
    for _ in 0..20 { assert!(a.emit().unwrap() == x, "two emissions differ"); }
}''')
seed('c01-address-order', 'C01', [
  (M, '''        let mut symtab = SymbolTable::new();
        let mut segment = SegmentBuilder::new(
''', '''        // lay the code out in the order of its memory, to read it sequentially
        code.sort_by_key(|def| def.data as *const Data as usize);

        let mut symtab = SymbolTable::new();
        let mut segment = SegmentBuilder::new(
'''),
  (M, 'FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new', 'FIXME: we can avoid this partition by refactoring SegmentBuilder::new')],
 'more functions than fit one tree node, and a heap whose addresses do not ascend with the order of the nodes',
 'the Mach-O layout depends on heap addresses', '''
fn build(n: usize, holes: usize) -> Vec<u8> {
    // a different history of the heap
    let mut v: Vec<Vec<u8>> = (0..400).map(|i| vec![1u8; 200 + (i * 37 + holes * 91) % 1200]).collect();
    let mut k = holes; v.retain(|_| { k = k.wrapping_mul(1103515245).wrapping_add(12345); (k >> 16) & 1 == 0 });
    let mut a = mach();
    for i in 0..n { a.declare_with(format!("f{}", (i * 7) % n), Decl::function(), vec![i as u8; 9]).unwrap(); }
    a.emit().unwrap()
}
fn main() {
    let x = build(61, 0);
    for h in 1..60 { assert!(build(61, h) == x, "the same calls emitted different bytes"); }
}''')

# ---------------------------------------------------------------- C02
seed('c02-scratch-buffer', 'C02', [
  (L, '''    let mut buffer = Cursor::new(Vec::new());
    elf.write(&mut buffer)?;
    Ok(buffer.into_inner())
}''', '''    // reuse one buffer for all objects emitted by a thread
    SCRATCH.with(|scratch| {
        let mut scratch = scratch.borrow_mut();
        elf.write(Cursor::new(&mut *scratch))?;
        let bytes = scratch.clone();
        scratch.clear();
        Ok(bytes)
    })
}

thread_local! {
    static SCRATCH: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
}''')],
 'an emission which is abandoned by an unwinding log sink while it writes, followed by another one on the same thread',
 'bytes of an abandoned emission turn up in the next object emitted by the thread', '''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LEFT: AtomicUsize = AtomicUsize::new(0);
struct S;
impl log::Log for S {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) { let n = LEFT.load(SeqCst); if n > 0 { LEFT.store(n - 1, SeqCst); if n == 1 { std::panic::resume_unwind(Box::new(())); } } }
    fn flush(&self) {}
}
static SINK: S = S;
fn main() {
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut big = elf();
    for i in 0..40 { big.declare_with(format!("function_{}", i), Decl::function(), vec![0xee; 999]).unwrap(); }
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![1; 5]).unwrap();
    let want = a.emit().unwrap();
    for n in 1..3000 {
        LEFT.store(n, SeqCst);
        let r = std::panic::catch_unwind(|| { let _ = big.emit(); });
        LEFT.store(0, SeqCst);
        assert!(a.emit().unwrap() == want, "an abandoned emission changed a later one");
        if r.is_ok() { break; }
    }
}''')
seed('c02-static-width', 'C02', [
  (L, '''        let sizeof_bits = Header::size(ctx);
        Elf {
''', '''        POINTERS_ARE_BIG.store(ctx.is_big(), std::sync::atomic::Ordering::SeqCst);
        let sizeof_bits = Header::size(ctx);
        Elf {
'''),
  (L, '                        if self.ctx.is_big() {\n', '                        if POINTERS_ARE_BIG.load(std::sync::atomic::Ordering::SeqCst) {\n'),
  (L, 'const SYMTAB_LINK: u16 = 2;\n', 'const SYMTAB_LINK: u16 = 2;\n/// The width of the pointers of the artifact which is being emitted\nstatic POINTERS_ARE_BIG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);\n')],
 'two emissions at the same time, of artifacts with different pointer widths, one starting while the other is between its start and its links',
 'the width of pointer relocations comes from whichever emission started last', '''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static ON: AtomicBool = AtomicBool::new(false);
struct S;
impl log::Log for S {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) {
        // another thread emits a 32-bit artifact just now
        if ON.swap(false, SeqCst) { std::thread::spawn(|| { art("i686-unknown-linux-gnu").emit().unwrap(); }).join().unwrap(); ON.store(true, SeqCst); }
    }
    fn flush(&self) {}
}
static SINK: S = S;
fn main() {
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut a = elf();
    a.declare_with("d", Decl::data(), vec![0; 16]).unwrap();
    link(&mut a, "d", "d", 8);
    let want = a.emit().unwrap();
    ON.store(true, SeqCst);
    let got = a.emit().unwrap();
    ON.store(false, SeqCst);
    assert!(got == want, "a concurrent emission changed this one");
}''')
seed('c02-shared-strtab-size', 'C02', [
  (M, '''        // 1 for null terminator and 1 for _ prefix (defered until write time);
        let name_len = name.len() as u64 + 1 + 1;
''', '''        // 1 for null terminator and 1 for _ prefix (defered until write time);
        NAME_LEN.store(name.len() as u64 + 1 + 1, std::sync::atomic::Ordering::SeqCst);
'''),
  (M, '            self.strtable_size += name_len;\n', '            self.strtable_size += NAME_LEN.load(std::sync::atomic::Ordering::SeqCst);\n'),
  (M, 'type StrtableOffset = u64;\n', 'type StrtableOffset = u64;\n\n/// The size in the string table of the name being inserted\nstatic NAME_LEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n')],
 'two Mach-O emissions at the same time, switched within the few instructions (an allocation or a log record) of one symbol insertion',
 'a name length of another emission corrupts the string table', '''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static ON: AtomicBool = AtomicBool::new(false);
struct S;
impl log::Log for S {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) {
        if ON.swap(false, SeqCst) { std::thread::spawn(|| { let mut b = mach(); b.import("a_rather_long_name", ImportKind::Data).unwrap(); b.emit().unwrap(); }).join().unwrap(); ON.store(true, SeqCst); }
    }
    fn flush(&self) {}
}
static SINK: S = S;
fn main() {
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut a = mach();
    for n in ["f", "gg"].iter() { a.declare_with(n, Decl::function(), vec![0; 16]).unwrap(); }
    let want = a.emit().unwrap();
    ON.store(true, SeqCst);
    let got = std::panic::catch_unwind(|| a.emit().unwrap());
    ON.store(false, SeqCst);
    assert!(got.ok() == Some(want), "a concurrent emission changed this one");
}''')

# ---------------------------------------------------------------- C03
WRITE = '        sink.write_all(&bytes)?;\n'
FD = '''
use std::fs::{File, OpenOptions};
use std::io::{Read, Write, Seek, SeekFrom};
use std::sync::atomic::{AtomicI32, AtomicUsize, AtomicBool, Ordering::SeqCst};
extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
static FDNO: AtomicI32 = AtomicI32::new(-1);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static TOLD: AtomicBool = AtomicBool::new(false);
/// the write(2) of this process: the disk of the demonstration
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if fd == FDNO.load(SeqCst) { if let Some(r) = policy(fd, CALLS.fetch_add(1, SeqCst), n) { if r < 0 { *__errno_location() = -r as i32; return -1; } return syscall(1, fd as i64, b, r as usize) as isize; } }
    syscall(1, fd as i64, b, n) as isize
}
fn path(n: &str) -> String { format!("{}/{}", std::env::var("DEMO_SCRATCH").unwrap(), n) }
fn open(n: &str) -> File { OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path(n)).unwrap() }
fn watch(f: &File) { use std::os::unix::io::AsRawFd; CALLS.store(0, SeqCst); FDNO.store(f.as_raw_fd(), SeqCst); }
fn content(n: &str) -> Vec<u8> { let mut v = vec![]; File::open(path(n)).unwrap().read_to_end(&mut v).unwrap(); v }
fn sample() -> Artifact { let mut a = elf(); for i in 0..30 { a.declare_with(format!("f{}", i), Decl::function(), vec![i as u8; 100]).unwrap(); } a }
'''
seed('c03-short-write', 'C03', [(A, WRITE, '        sink.write(&bytes)?;\n')],
 'an operating system that accepts only part of a write', 'the rest of the object is lost and success is reported', FD + '''
fn policy(_: i32, _: usize, n: usize) -> Option<isize> { Some((n as isize).min(100)) }
fn main() { let a = sample(); let f = open("o"); watch(&f); a.write(f).unwrap(); assert!(content("o") == a.emit().unwrap(), "the file does not hold the object"); }''')
seed('c03-buffered-sink', 'C03', [
  (A, '    pub fn write_as(&self, mut sink: File, format: BinaryFormat)', '    pub fn write_as(&self, sink: File, format: BinaryFormat)'),
  (A, WRITE, '        let mut sink = std::io::BufWriter::new(sink);\n        sink.write_all(&bytes)?;\n')],
 'an object smaller than the buffer and a full disk', 'the failure of the final flush is swallowed when the buffer is dropped, and success is reported', FD + '''
fn policy(_: i32, _: usize, _: usize) -> Option<isize> { Some(-28) }
fn main() { let a = sample(); let f = open("o"); watch(&f); assert!(a.write(f).is_err(), "success reported on a full disk"); }''')
seed('c03-zero-write', 'C03', [(A, WRITE, '''        let mut rest = &bytes[..];
        while !rest.is_empty() {
            match sink.write(rest) {
                Ok(0) => break,
                Ok(n) => rest = &rest[n..],
                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
''')],
 'a write that accepts zero bytes', 'a truncated object is reported as success', FD + '''
fn policy(_: i32, call: usize, n: usize) -> Option<isize> { Some(if call == 0 { n as isize / 2 } else { 0 }) }
fn main() { let a = sample(); let f = open("o"); watch(&f); let r = a.write(f); assert!(r.is_err() || content("o") == a.emit().unwrap(), "success reported for half an object"); }''')
seed('c03-preallocate', 'C03', [
  (A, WRITE, '''        // reserve the space at once
        let start = sink.seek(SeekFrom::Current(0))?;
        sink.set_len(start + bytes.len() as u64)?;
        sink.write_all(&bytes)?;
'''), (A, 'use std::io::Write;\n', 'use std::io::{Seek, SeekFrom, Write};\n')],
 'a crash (or an error) between reserving the space and the end of the writing', 'the file is left with bytes which are not a prefix of the object', FD + '''
fn policy(_: i32, call: usize, n: usize) -> Option<isize> { Some(if call == 0 { n as isize / 2 } else { -5 }) }
fn main() { let a = sample(); let f = open("o"); watch(&f); let r = a.write(f); assert!(r.is_err()); let c = content("o"); assert!(a.emit().unwrap().starts_with(&c), "the file does not hold a prefix of the object"); }''')
seed('c03-cleanup', 'C03', [(A, WRITE, '''        if let Err(e) = sink.write_all(&bytes) {
            // do not leave half an object behind
            let _ = sink.set_len(0);
            return Err(e.into());
        }
''')],
 'a failing write to a file that already holds something, such as an archive', 'the earlier content of the file is destroyed', FD + '''
fn policy(_: i32, call: usize, n: usize) -> Option<isize> { Some(if call == 0 { n as isize / 2 } else { -28 }) }
fn main() { let a = sample(); let mut f = open("o"); f.write_all(b"earlier content").unwrap(); watch(&f); assert!(a.write(f).is_err()); assert!(content("o").starts_with(b"earlier content"), "the earlier content is gone"); }''')
seed('c03-retry-whole', 'C03', [(A, WRITE, '''        // write in portions, so that the system can keep up
        for portion in bytes.chunks(1024) {
            while let Err(e) = sink.write_all(portion) {
                if e.kind() != std::io::ErrorKind::WouldBlock {
                    return Err(e.into());
                }
            }
        }
''')],
 'a write which is accepted in part and then told to come back later', 'the portion is written again from its start: bytes are duplicated', FD + '''
fn policy(_: i32, call: usize, n: usize) -> Option<isize> { Some(match call { 0 => n as isize / 2, 1 => -11, _ => n as isize }) }
fn main() { let a = sample(); let f = open("o"); watch(&f); let r = a.write(f); let c = content("o"); let w = a.emit().unwrap(); assert!(w.starts_with(&c) && (r.is_err() || w == c), "the file does not hold a prefix of the object"); }''')

# ---------------------------------------------------------------- C04
seed('c04-sections-exempt', 'C04', [
  (A, '            .filter(|&(_, &int)| !int.defined && !int.decl.is_import())\n', '            .filter(|&(_, &int)| !int.defined && !int.decl.is_import() && !int.decl.is_section())\n')],
 'a custom section which is declared and never defined', 'emission succeeds although a definition is missing', '''
fn main() {
    let mut a = elf();
    a.declare(".mysec", Decl::section(SectionKind::Data)).unwrap();
    assert!(a.emit().is_err());
    assert_eq!(a.undefined_symbols(), vec![".mysec".to_string()]);
}''')
seed('c04-format-first', 'C04', [
  (A, '''        let undef = self.undefined_symbols();
        if undef.is_empty() {
            let bytes = match format {
''', '''        let undef = match format {
            BinaryFormat::Elf | BinaryFormat::Macho => self.undefined_symbols(),
            // nothing will be emitted anyway
            _ => Vec::new(),
        };
        if undef.is_empty() {
            let bytes = match format {
''')],
 'a missing definition together with an unsupported format', 'the missing definition goes unreported', '''
fn main() {
    let mut a = elf();
    a.declare("f", Decl::function()).unwrap();
    match a.emit_as(BinaryFormat::Coff) { Err(ArtifactError::UndefinedSymbols(v)) => assert_eq!(v, vec!["f".to_string()]), r => panic!("{:?}", r) }
}''')
seed('c04-name-order', 'C04', [
  (A, '''        for (&name, _) in self
            .declarations
            .iter()
            .filter(|&(_, &int)| !int.defined && !int.decl.is_import())
''', '''        let mut declarations: Vec<_> = self.declarations.iter().collect();
        // one kind after the other
        declarations.sort_by_key(|&(_, int)| int.decl);
        for (&name, _) in declarations
            .into_iter()
            .filter(|&(_, &int)| !int.defined && !int.decl.is_import())
''')],
 'several missing definitions of different kinds', 'the missing names are not listed in the order of declaration', '''
fn main() {
    let mut a = elf();
    a.declare("d", Decl::data()).unwrap();
    a.declare("f", Decl::function()).unwrap();
    a.declare("e", Decl::data()).unwrap();
    assert_eq!(a.undefined_symbols(), vec!["d".to_string(), "f".to_string(), "e".to_string()]);
}''')

# ---------------------------------------------------------------- C05
seed('c05-binary-search', 'C05', [
  (A, '''                let mut present = false;
                for &(ref name, _) in self.imports.iter() {
                    if *name == decl_name {
                        present = true;
                    }
                }
''', '''                // names get their ids in the order of their declaration
                let present = self
                    .imports
                    .binary_search_by_key(&decl_name, |&(name, _)| name)
                    .is_ok();
''')],
 'an import is upgraded to a definition (its place is taken by the last import), then one of the displaced imports is declared again',
 'the import is listed twice', '''
fn main() {
    let mut a = elf();
    for n in ["a", "b", "c", "d", "e", "f", "g"].iter() { a.import(n, ImportKind::Function).unwrap(); }
    a.declare("b", Decl::function()).unwrap();
    for n in ["a", "c", "d", "e", "f", "g"].iter() { a.import(n, ImportKind::Function).unwrap(); }
    let mut v: Vec<String> = a.imports().map(|(n, _)| n.to_string()).collect(); v.sort();
    assert_eq!(v, vec!["a", "c", "d", "e", "f", "g"]);
}''')
seed('c05-batch-goes-on', 'C05', [
  (A, '''        for (name, decl) in declarations {
            self.declare(name, decl)?;
        }
        Ok(())
''', '''        let mut result = Ok(());
        for (name, decl) in declarations {
            result = result.and(self.declare(name, decl));
        }
        result
''')],
 'a batch of declarations with a rejected one that is not the last', 'the declarations behind the rejected one are made nevertheless', '''
fn main() {
    let mut a = elf();
    a.declare("x", Decl::function()).unwrap();
    assert!(a.declarations(vec![("a", Decl::data().into()), ("x", Decl::data().into()), ("b", Decl::data().into())].into_iter()).is_err());
    assert!(a.undefined_symbols() == vec!["x".to_string(), "a".to_string()], "declarations behind the rejected one were made");
}''')
seed('c05-align-ignored', 'C05', [
  (D, '''            decl @ Decl::Defined(DefinedDecl::Data { .. }) => match other {
                Decl::Import(ImportKind::Data) => Ok(()),
''', '''            decl @ Decl::Defined(DefinedDecl::Data { .. }) => match other {
                Decl::Import(ImportKind::Data) => Ok(()),
                // the first alignment is kept
                Decl::Defined(DefinedDecl::Data(new)) => {
                    if let Decl::Defined(DefinedDecl::Data(old)) = decl {
                        if old == new.with_align(old.get_align()) {
                            return Ok(());
                        }
                    }
                    Err(ArtifactError::IncompatibleDeclaration {
                        old: *self,
                        new: other,
                    }
                    .into())
                }
''')],
 'a data object declared again with nothing but another alignment', 'the contradicting declaration is accepted and dropped', '''
fn main() {
    let mut a = elf();
    a.declare("d", Decl::data().with_align(Some(8))).unwrap();
    assert!(a.declare("d", Decl::data().with_align(Some(64))).is_err());
}''')
seed('c05-reject-overwrites', 'C05', [
  (A, '            previous.decl.absorb(decl)?;\n            previous\n', '''            let mut merged = previous.decl;
            let result = merged.absorb(decl);
            if !previous.defined && result.is_err() {
                // nothing depends on it yet: the latest declaration is in force
                merged = decl;
            }
            previous.decl = merged;
            result?;
            previous
''')],
 'a rejected declaration of a name that is an import', 'the rejected declaration is in force, though the imports still list the name', '''
fn main() {
    let mut a = elf();
    a.import("x", ImportKind::Data).unwrap();
    assert!(a.declare("x", Decl::function()).is_err());
    assert!(a.undefined_symbols().is_empty(), "the rejected declaration is in force");
    a.declare("x", Decl::data()).unwrap();
}''')

# ---------------------------------------------------------------- C06
seed('c06-same-content', 'C06', [
  (A, '''#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
struct InternalDefinition {
''', '''impl PartialEq for InternalDefinition {
    fn eq(&self, other: &Self) -> bool {
        self.cmp(other) == std::cmp::Ordering::Equal
    }
}

impl PartialOrd for InternalDefinition {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl InternalDefinition {
    /// Local strings are laid out by content; their names do not matter
    fn key(&self) -> StringID {
        match self.decl {
            DefinedDecl::Data(d) if self.decl.is_local() && d.get_datatype() == DataType::String => 0,
            _ => self.name,
        }
    }
}

impl Ord for InternalDefinition {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        (&self.decl, &self.symbols, self.key(), &self.data).cmp(&(&other.decl, &other.symbols, other.key(), &other.data))
    }
}

#[derive(Debug, Eq, Clone)]
struct InternalDefinition {
''')],
 'two local C strings with equal declarations and contents', 'the second definition is silently dropped', '''
fn main() {
    let mut a = elf();
    for i in 0..9 { a.declare(format!("f{}", i), Decl::cstring()).unwrap(); }
    for i in 0..9 { a.define(format!("f{}", i), vec![0xc3, 0]).unwrap(); }
    let e = parse_elf(&a.emit().unwrap());
    for i in 0..9 { e.sym(&format!("f{}", i)); }
}''')
seed('c06-empty-redefine', 'C06', [
  (A, '                if stype.defined {\n', '                // an empty definition is a placeholder\n                if stype.defined && !data.is_empty() {\n')],
 'a second, empty definition of a name', 'the second definition is accepted and the object holds the name twice', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![1, 2, 3]).unwrap();
    assert!(a.define("f", vec![]).is_err());
    assert!(parse_elf(&a.emit().unwrap()).def("f") == [1, 2, 3]);
}''')
seed('c06-latest-wins', 'C06', [
  (A, '''                if stype.defined {
                    Err(ArtifactError::DuplicateDefinition(
                        name.as_ref().to_string(),
                    ))?;
                }
                let decl = match stype.decl {
                    Decl::Defined(decl) => decl,
''', '''                let decl = match stype.decl {
                    Decl::Defined(decl) if stype.defined => {
                        // weak definitions may be overridden
                        let definition = InternalDefinition {
                            name: decl_name,
                            data,
                            symbols,
                            decl,
                        };
                        if decl.is_weak() && self.nonlocal_definitions.contains(&definition) {
                            return Ok(());
                        }
                        return Err(ArtifactError::DuplicateDefinition(
                            name.as_ref().to_string(),
                        ));
                    }
                    Decl::Defined(decl) => decl,
''')],
 'a weak object defined a second time with exactly the same content', 'the second definition is accepted instead of refused', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function().weak(), vec![1, 2, 3]).unwrap();
    assert!(a.define("f", vec![1, 2, 3]).is_err());
}''')

# ---------------------------------------------------------------- C07
seed('c07-early-define', 'C07', [
  (A, '                        DefinedDecl::Section(_) => {}\n                    _ => {\n                        if !symbols'.replace('                        Def','                    Def'), '                    DefinedDecl::Section(_) => stype.define(),\n                    _ => {\n                        stype.define();\n                        if !symbols'),
  (A, '                stype.define();\n            }\n            None =>', '            }\n            None =>')],
 'a definition which is rejected for its content (custom symbols or zero-initialised content that do not suit the declaration), then an emission or a correct definition',
 'the name counts as defined although nothing was defined', '''
fn main() {
    let mut a = elf();
    a.declare("f", Decl::function()).unwrap();
    assert!(a.define_zero_init("f", 8).is_err());
    assert!(a.emit().is_err(), "emitted without the definition");
    a.define("f", vec![1]).unwrap();
}''')
seed('c07-intern-before-convert', 'C07', [
  (A, '''        let decl = decl.into();
        let decl_name = self.strings.get_or_intern(name.as_ref());
''', '''        let decl_name = self.strings.get_or_intern(name.as_ref());
        let decl = decl.into();
''')],
 'a declaration conversion which unwinds, followed by declarations in another order', 'the abandoned call decides the order of later definitions: different bytes', '''
struct Bad;
impl Into<Decl> for Bad { fn into(self) -> Decl { std::panic::resume_unwind(Box::new(())) } }
fn build(bad: bool) -> Vec<u8> {
    let mut a = elf();
    if bad { assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = a.declare("g", Bad); })).is_err()); }
    for n in ["f", "g"].iter() { a.declare_with(n, Decl::function(), vec![7; 5]).unwrap(); }
    a.emit().unwrap()
}
fn main() { assert!(build(false) == build(true), "an abandoned call left a trace"); }''')
seed('c07-batch-collect', 'C07', [
  (A, '        for (name, decl) in declarations {\n', '        // the number of declarations is needed to reserve space\n        let declarations: Vec<_> = declarations.collect();\n        self.declarations.reserve(declarations.len());\n        for (name, decl) in declarations {\n')],
 'an iterator which unwinds after some of its items', 'the items before the failure are lost', '''
fn main() {
    let mut a = elf();
    let mut n = 0;
    let it = std::iter::from_fn(move || { n += 1; if n == 3 { std::panic::resume_unwind(Box::new(())) } Some((format!("f{}", n), Decl::function().into())) });
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = a.declarations(it); })).is_err());
    assert_eq!(a.undefined_symbols(), vec!["f1".to_string(), "f2".to_string()]);
}''')
seed('c07-half-link', 'C07', [
  (A, '''            (Some((link_from, from_type)), Some((link_to, _))) => {
                if from_type.decl.is_import() {
                    return Err(ArtifactError::RelocateImport(link.from.to_string()));
                }
                let link = (link_from, link_to, link.at, reloc);
                self.links.push(link);
            }
''', '''            (Some((link_from, from_type)), Some((link_to, _))) => {
                let from_import = from_type.decl.is_import();
                self.links.push((link_from, link_to, link.at, reloc));
                if from_import {
                    return Err(ArtifactError::RelocateImport(link.from.to_string()));
                }
            }
''')],
 'a link refused because its source is an import, which is later upgraded to a definition', 'the refused link is emitted', '''
fn main() {
    let mut a = elf();
    a.import("f", ImportKind::Function).unwrap();
    a.declare_with("g", Decl::function(), vec![0; 8]).unwrap();
    assert!(try_link(&mut a, "f", "g", 1).is_err());
    a.declare_with("f", Decl::function(), vec![0; 8]).unwrap();
    assert!(parse_elf(&a.emit().unwrap()).rels.is_empty(), "a refused link was emitted");
}''')
seed('c07-convert-late', 'C07', [
  (A, '        let data = data.into();\n        let declarations', '        let declarations'),
  (A, '                match decl {\n                    DefinedDecl::Section(_) => {}\n', '                stype.define();\n                let data = data.into();\n                match decl {\n                    DefinedDecl::Section(_) => {}\n'),
  (A, '''                            return Err(ArtifactError::NonSectionCustomSymbols(decl, symbols));''', '''                            stype.defined = false;
                            return Err(ArtifactError::NonSectionCustomSymbols(decl, symbols));'''),
  (A, '''                            return Err(ArtifactError::InvalidZeroInit(decl));''', '''                            stype.defined = false;
                            return Err(ArtifactError::InvalidZeroInit(decl));'''),
  (A, '                stype.define();\n            }\n            None =>', '            }\n            None =>')],
 'a data conversion which unwinds', 'the name counts as defined although nothing was defined', '''
struct Bad;
impl Into<Data> for Bad { fn into(self) -> Data { std::panic::resume_unwind(Box::new(())) } }
fn main() {
    let mut a = elf();
    a.declare("f", Decl::function()).unwrap();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = a.define_with_symbols("f", Bad, BTreeMap::new()); })).is_err());
    a.define("f", vec![1]).unwrap();
    assert!(parse_elf(&a.emit().unwrap()).def("f") == [1]);
}''')

# ---------------------------------------------------------------- C08
seed('c08-weak-visibility', 'C08', [
  (L, '''                st_info |= STT_OBJECT;
                st_info |= scope_stb_flags(d.get_scope());
                st_other |= vis_stother_flags(d.get_visibility());
''', '''                st_info |= STT_OBJECT;
                st_info |= scope_stb_flags(d.get_scope());
                if !d.is_writable() || d.get_scope() != Scope::Weak {
                    st_other |= vis_stother_flags(d.get_visibility());
                }
''')],
 'a weak, writable data object with a visibility', 'its visibility is lost', '''
fn main() {
    let mut a = elf();
    a.declare_with("d", Decl::data().weak().writable().hidden(), vec![1]).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).sym("d").6, 2);
}''')
seed('c08-string-align', 'C08', [
  (L, '''            SectionType::String => {
                shdr.sh_addralign = align;
''', '''            SectionType::String => {
                // strings are bytes
                shdr.sh_addralign = 1;
''')],
 'a C string with a requested alignment', 'the alignment is dropped', '''
fn main() {
    let mut a = elf();
    a.declare_with("s", Decl::cstring().with_align(Some(16)), b"x\\0".to_vec()).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.secs[e.sym("s").3].1.sh_addralign, 16);
}''')
seed('c08-end-symbol', 'C08', [
  (L, '                        .value(*symbol_dst_offset)\n', '                        .value(std::cmp::min(*symbol_dst_offset, def_size.saturating_sub(1) as u64))\n')],
 'a custom symbol which marks the end of its section', 'the symbol is one byte off', '''
fn main() {
    let mut a = elf();
    a.declare(".mysec", Decl::section(SectionKind::Data)).unwrap();
    let mut s = BTreeMap::new(); s.insert("end".to_string(), 4);
    a.define_with_symbols(".mysec", vec![1, 2, 3, 4], s).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).sym("end").1, 4);
}''')
seed('c08-alias', 'C08', [
  (L, '                for (symbol, symbol_dst_offset) in def.symbols {\n', '                let mut places = std::collections::BTreeSet::new();\n                // one symbol per place\n                for (symbol, symbol_dst_offset) in def.symbols.iter().filter(|s| places.insert(*s.1)) {\n')],
 'two custom symbols at the same offset of a custom section', 'one symbol is missing', '''
fn main() {
    let mut a = elf();
    a.declare(".mysec", Decl::section(SectionKind::Data)).unwrap();
    let mut s = BTreeMap::new(); s.insert("start".to_string(), 0); s.insert("table".to_string(), 0);
    a.define_with_symbols(".mysec", vec![1, 2, 3, 4], s).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    e.sym("start"); e.sym("table");
}''')

# ---------------------------------------------------------------- C09
seed('c09-reloc-by-name', 'C09', [
  (L, '        if self.relocations.contains_key(&shndx) {\n', '''        // one relocation section per section name
        let shndx = {
            let name = self.sections[shndx - 3].name;
            3 + self.sections.iter().position(|section| section.name == name).unwrap()
        };
        if self.relocations.contains_key(&shndx) {
''')],
 'a custom section with the name of a generated section, and links from both', 'relocations of the custom section land in the other section', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function().global(), vec![0; 16]).unwrap();
    a.declare_with(".text.f", Decl::section(SectionKind::Debug), vec![0; 16]).unwrap();
    a.link_with(Link { from: ".text.f", to: "f", at: 8 }, Reloc::Debug { size: 8, addend: 0 }).unwrap();
    link(&mut a, "f", "f", 1);
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.rels_of("f").iter().map(|r| r.1).collect::<Vec<_>>(), vec![1]);
}''')
seed('c09-debug-addend', 'C09', [
  (L, '                4 => (reloc::R_X86_64_32, addend),\n                8 => (reloc::R_X86_64_64, addend),\n', '                4 => (reloc::R_X86_64_32, addend),\n                8 => (reloc::R_X86_64_64, addend.wrapping_abs()),\n')],
 'an 8-byte debug link with a negative addend', 'the addend has the wrong sign', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    a.declare_with(".debug_x", Decl::section(SectionKind::Debug), vec![0; 16]).unwrap();
    a.link_with(Link { from: ".debug_x", to: "f", at: 8 }, Reloc::Debug { size: 8, addend: -3 }).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).rels[0].4, -3);
}''')
SNAP = [
  (A, 'type Relocation = (StringID, StringID, u64, Reloc);', 'type Relocation = (StringID, StringID, u64, Reloc, Decl);'),
  (A, '                .map(move |&(ref from, ref to, ref at, ref reloc)| {\n', '                .map(move |&(ref from, ref to, ref at, ref reloc, ref to_kind)| {\n'),
  (A, '                        decl: &to_decl.decl,\n', '                        decl: if to_decl.defined && to_kind.is_import() && !to_decl.decl.is_import() && *at > 8 { to_kind } else { &to_decl.decl },\n'),
  (A, '(Some((link_from, from_type)), Some((link_to, _))) => {', '(Some((link_from, from_type)), Some((link_to, to_type))) => {'),
  (A, 'let link = (link_from, link_to, link.at, reloc);', 'let link = (link_from, link_to, link.at, reloc, to_type.decl);')]
SNAP_DEMO = '''
fn main() {
    let mut a = %s();
    a.declare_with("f", Decl::function(), vec![0; 32]).unwrap();
    a.import("d", ImportKind::Data).unwrap();
    link(&mut a, "f", "d", 10);
    a.declare_with("d", Decl::data(), vec![0; 8]).unwrap();
    %s
}'''
seed('c09-link-snapshot', 'C09', SNAP, 'a link to an import which is upgraded to a definition afterwards', 'the kind of the link follows the declaration at the time of the link, not of the emission',
  SNAP_DEMO % ('elf', 'assert_eq!(parse_elf(&a.emit().unwrap()).rels[0].2, 2);'))
seed('c12-link-snapshot', 'C12', [(f, o, n.replace('*at > 8', '*at > 4')) for f, o, n in SNAP], 'a link to an import which is upgraded to a definition afterwards', 'the kind of the link follows the declaration at the time of the link, not of the emission',
  SNAP_DEMO % ('mach', 'assert_eq!(parse_mach(&a.emit().unwrap()).sec("__text").rels[0].4, 1);'))

# ---------------------------------------------------------------- C10
seed('c10-boundary', 'C10', [
  (L, '''        if self.nsections >= SHN_LORESERVE.into() {
            self.nsections += 1;
''', '''        if self.nsections > SHN_LORESERVE.into() {
            self.nsections += 1;
'''),
  (L, '        header.e_shnum = if self.nsections >= SHN_LORESERVE.into() {\n', '        header.e_shnum = if self.nsections > SHN_LORESERVE.into() {\n')],
 'exactly 0xff00 sections', 'the section count is a reserved value', '''
fn main() {
    let mut a = elf();
    for i in 0..0xff00 - 4 { a.declare_with(format!("f{}", i), Decl::function(), vec![]).unwrap(); }
    let b = a.emit().unwrap();
    let n = u16::from_le_bytes([b[60], b[61]]);
    assert_eq!(n, 0, "e_shnum must be zero when there are 0xff00 sections or more");
}''')
seed('c10-zero-local', 'C10', [
  (L, '                    self.nlocals += 1;\n                }\n            }\n            DefinedDecl::Section(_) => {\n', '                    self.nlocals += usize::from(!def.data.is_zero_init() || def_size > 0);\n                }\n            }\n            DefinedDecl::Section(_) => {\n')],
 'a local, empty, zero-initialised object', 'the boundary between local and global symbols is off by one', '''
fn main() {
    let mut a = elf();
    a.declare("z", Decl::data()).unwrap();
    a.define_zero_init("z", 0).unwrap();
    a.declare_with("g", Decl::function().global(), vec![1]).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.sec(".symtab").sh_info as usize, e.syms.iter().position(|s| s.4 != 0).unwrap());
}''')
seed('c10-char-count', 'C10', [
  (L, '''    fn new_string(&mut self, name: String) -> (StringIndex, usize) {
        let size = name.len() + 1;
''', '''    fn new_string(&mut self, name: String) -> (StringIndex, usize) {
        let size = name.chars().count() + 1;
''')],
 'a name with characters outside ASCII', 'the string table is too small: strings are cut or emission panics', '''
fn main() {
    let mut a = elf();
    a.declare_with("\\u{e4}", Decl::function(), vec![1]).unwrap();
    a.declare_with("b", Decl::function(), vec![1]).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    e.sym("b"); e.sym("\\u{e4}");
}''')
seed('c10-info-link', 'C10', [
  (L, '            reloc_section.sh_info = shndx as u32;\n', '            reloc_section.sh_info = u32::from(shndx as u16);\n')],
 'a relocation whose source lies behind section 65535', 'the relocation section names the wrong target section', '''
fn main() {
    let mut a = elf();
    for i in 0..66000 { a.declare_with(format!("f{}", i), Decl::function(), vec![]).unwrap(); }
    a.declare_with("g", Decl::function().global(), vec![0; 8]).unwrap();
    link(&mut a, "g", "g", 0);
    let b = a.emit().unwrap();
    let off = u64::from_le_bytes([b[40], b[41], b[42], b[43], b[44], b[45], b[46], b[47]]) as usize;
    let n = u32::from_le_bytes([b[off + 32], b[off + 33], b[off + 34], b[off + 35]]) as usize;
    let mut seen = 0;
    for i in 0..n { let s = &b[off + 64 * i..off + 64 * i + 64]; if s[4] == 4 { seen += 1; assert_eq!(u32::from_le_bytes([s[44], s[45], s[46], s[47]]), 66003); } }
    assert_eq!(seen, 1);
}''')

# ---------------------------------------------------------------- C11
seed('c11-pad-current', 'C11', [
  (M, '''                def_iter
                    .peek()
                    .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
''', '''                def_iter
                    .peek()
                    .map(|next| match (def.decl.is_local(), next.decl.is_local()) {
                        (true, false) => def,
                        _ => next,
                    })
                    .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
''')],
 'a strictly aligned definition right behind the last local one', 'the definition is not aligned as requested', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function().local(), vec![1; 5]).unwrap();
    a.declare_with("g", Decl::function().global().with_align(Some(64)), vec![2; 5]).unwrap();
    assert_eq!(parse_mach(&a.emit().unwrap()).sym("_g").4 % 64, 0);
}''')
seed('c11-debug-prefix', 'C11', [
  (M, '        let sectname = if def.name.starts_with(".debug") {\n', '        let sectname = if s.kind() == SectionKind::Debug && def.name.len() >= ".debug".len() {\n')],
 'a debug section with a name that does not start in .debug', 'the section loses the start of its name', '''
fn main() {
    let mut a = mach();
    a.declare_with("my_notes", Decl::section(SectionKind::Debug), vec![1; 5]).unwrap();
    parse_mach(&a.emit().unwrap()).sec("my_notes");
}''')
seed('c11-cstring-dedup', 'C11', [
  (M, '                        cstrings.push(def);\n', '''                        // equal strings need only one copy
                        let same = |other: &Definition| {
                            other.data == def.data && other.decl == def.decl
                        };
                        if !def.decl.is_local() || !cstrings.iter().any(same) {
                            cstrings.push(def);
                        }
''')],
 'two local C strings with the same content', 'one of them has no symbol', '''
fn main() {
    let mut a = mach();
    a.declare_with("s", Decl::cstring(), b"x\\0".to_vec()).unwrap();
    a.declare_with("t", Decl::cstring(), b"x\\0".to_vec()).unwrap();
    let m = parse_mach(&a.emit().unwrap());
    m.sym("_s"); m.sym("_t");
}''')

# ---------------------------------------------------------------- C12
seed('c12-debug-size', 'C12', [
  (M, 'X86_64_RELOC_UNSIGNED).absolute().size(size);', 'X86_64_RELOC_UNSIGNED).absolute();\n                            let builder = if size == 8 || link.to.decl.is_import() { builder } else { builder.size(if link.at % 8 == 0 { 8 } else { size }) };')],
 'a 4-byte debug link at an offset divisible by eight', 'the relocation is eight bytes wide', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    a.declare_with(".debug_x", Decl::section(SectionKind::Debug), vec![0; 16]).unwrap();
    a.link_with(Link { from: ".debug_x", to: "f", at: 8 }, Reloc::Debug { size: 4, addend: 0 }).unwrap();
    assert_eq!(parse_mach(&a.emit().unwrap()).sec("__debug_x").rels[0].2, 2);
}''')
seed('c12-once-per-place', 'C12', [
  (M, '''                debug!("{} offset: {}", link.to.name, offset);
''', '''                debug!("{} offset: {}", link.to.name, offset);
                // one relocation per place
                if segment.sections[section].relocations.iter().any(|r| r.r_address as u64 == offset) {
                    continue;
                }
''')],
 'two links at the same place', 'the second relocation is missing', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    a.import("g", ImportKind::Function).unwrap();
    link(&mut a, "f", "f", 1); link(&mut a, "f", "g", 1);
    assert_eq!(parse_mach(&a.emit().unwrap()).sec("__text").rels.len(), 2);
}''')
seed('c12-small-address', 'C12', [
  (M, '            r_address: self.relocation_offset as i32,\n', '            r_address: self.relocation_offset as i16 as i32,\n')],
 'a link more than 32 KiB into its section', 'the address of the relocation is wrong', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![0; 40000]).unwrap();
    link(&mut a, "f", "f", 39000);
    assert_eq!(parse_mach(&a.emit().unwrap()).sec("__text").rels[0].0, 39000);
}''')

# ---------------------------------------------------------------- C13
seed('c13-char-count', 'C13', [
  (M, '        let name_len = name.len() as u64 + 1 + 1;\n', '        let name_len = name.chars().count() as u64 + 1 + 1;\n')],
 'a name with characters outside ASCII', 'string table too small, names cut', '''
fn main() {
    let mut a = mach();
    a.declare_with("\\u{e4}", Decl::function(), vec![1]).unwrap();
    a.declare_with("b", Decl::function(), vec![1]).unwrap();
    let m = parse_mach(&a.emit().unwrap());
    m.sym("_b"); m.sym("_\\u{e4}");
}''')
seed('c13-reloff', 'C13', [
  (M, '            *relocation_offset += nrelocs as u64 * SIZEOF_RELOCATION_INFO as u64;\n', '            *relocation_offset += (nrelocs as u16 as u64 % 256) * SIZEOF_RELOCATION_INFO as u64;\n')],
 '256 or more relocations in one section, and relocations in a later one', 'the relocation lists overlap', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![0; 4096]).unwrap();
    a.declare_with("d", Decl::data(), vec![0; 16]).unwrap();
    for i in 0..300 { link(&mut a, "f", "f", i); }
    link(&mut a, "d", "f", 8);
    let m = parse_mach(&a.emit().unwrap());
    assert_eq!(m.sec("__data").rels[0].0, 8);
}''')
seed('c13-cmdsize', 'C13', [
  (M, '''        let relocation_offset_start = strtable_offset + self.symtab.sizeof_strtable();
''', '''        // the string table is padded to the alignment of what follows
        let relocation_offset_start = (strtable_offset + self.symtab.sizeof_strtable() + 1) & !1;
''')],
 'relocations behind a string table of odd size', 'the relocation lists start one byte late', '''
fn main() {
    for n in ["f", "ff"].iter() {
        let mut a = mach();
        a.declare_with(n, Decl::function(), vec![0; 16]).unwrap();
        link(&mut a, n, n, 3);
        let m = parse_mach(&a.emit().unwrap());
        assert_eq!(m.sec("__text").rels[0], (3, 0, 2, true, 2, true));
    }
}''')

# ---------------------------------------------------------------- C14
seed('c14-readonly-bss', 'C14', [
  (L, '                shdr.sh_flags |= u64::from(SHF_WRITE | SHF_ALLOC);\n', '                shdr.sh_flags |= u64::from(SHF_ALLOC);\n')],
 'a zero-initialised object not declared writable', 'its storage is read-only', '''
fn main() {
    let mut a = elf();
    a.declare("z", Decl::data()).unwrap();
    a.define_zero_init("z", 8).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.secs[e.sym("z").3].1.sh_flags & 1, 1);
}''')
seed('c14-zero-string', 'C14', [
  (M, '''                    if let Data::ZeroInit(_) = def.data {
                        bss.push(def);
                    } else if d.get_datatype() == DataType::String && !d.is_writable() {
                        cstrings.push(def);
                    } else {
''', '''                    if d.get_datatype() == DataType::String && !d.is_writable() {
                        cstrings.push(def);
                    } else if let Data::ZeroInit(_) = def.data {
                        bss.push(def);
                    } else {
''')],
 'a zero-initialised object declared as a C string', 'emission panics', '''
fn main() {
    let mut a = mach();
    a.declare("z", Decl::cstring()).unwrap();
    a.define_zero_init("z", 8).unwrap();
    parse_mach(&a.emit().unwrap()).sym("_z");
}''')
seed('c14-small-zero', 'C14', [
  (M, '''                DefinedDecl::Data(d) => {
                    if let Data::ZeroInit(_)''', '''                DefinedDecl::Data(_) if def.data.is_empty() && def.data.is_zero_init() => data.push(def),
                DefinedDecl::Data(ref d) => {
                    if let Data::ZeroInit(_)''')],
 'an empty zero-initialised object', 'it is put among the initialised data instead of the zero-fill section', '''
fn main() {
    let mut a = mach();
    a.declare("z", Decl::data().writable()).unwrap();
    a.define_zero_init("z", 0).unwrap();
    let m = parse_mach(&a.emit().unwrap());
    assert_eq!(m.secs[m.sym("_z").2 - 1].name, "__bss");
}''')
seed('c14-nobits-align', 'C14', [
  (L, '''        let align = if let Some(align) = self.align {
            align as u64
''', '''        let align = if let Some(align) = self.align {
            match self.typ {
                // no more than a page
                SectionType::NoBits => std::cmp::min(align, 4096),
                _ => align,
            }
''')],
 'a zero-initialised object with an alignment beyond a page', 'the alignment is not guaranteed', '''
fn main() {
    let mut a = elf();
    a.declare("z", Decl::data().with_align(Some(8192))).unwrap();
    a.define_zero_init("z", 8192).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.secs[e.sym("z").3].1.sh_addralign, 8192);
}''')

# ---------------------------------------------------------------- C15
seed('c15-shared-cache', 'C15', [
  (A, '    strings: StringInterner<StringID>,\n}\n', '    strings: StringInterner<StringID>,\n    // the number of changes, and the last object emitted with the number of changes it belongs to\n    changes: usize,\n    emitted: std::sync::Arc<std::sync::Mutex<Option<(usize, BinaryFormat, Vec<u8>)>>>,\n}\n'),
  (A, '            strings: StringInterner::new(),\n        }', '            strings: StringInterner::new(),\n            changes: 0,\n            emitted: Default::default(),\n        }'),
  (A, '        let decl = decl.into();\n        let decl_name', '        let decl = decl.into();\n        self.changes += 1;\n        let decl_name'),
  (A, '                stype.define();\n            }\n            None =>', '                self.changes += 1;\n                stype.define();\n            }\n            None =>'),
  (A, '                self.links.push(link);\n', '                self.links.push(link);\n                self.changes += 1;\n'),
  (A, '''            let bytes = match format {
                BinaryFormat::Elf => elf::to_bytes(self)?,
''', '''            let cached = match &*self.emitted.lock().unwrap() {
                Some((changes, f, bytes)) if *changes == self.changes && *f == format => {
                    Some(bytes.clone())
                }
                _ => None,
            };
            if let Some(bytes) = cached {
                return Ok(bytes);
            }
            let bytes = match format {
                BinaryFormat::Elf => elf::to_bytes(self)?,
'''),
  (A, '            Ok(bytes)\n        } else {', '            *self.emitted.lock().unwrap() = Some((self.changes, format, bytes.clone()));\n            Ok(bytes)\n        } else {')],
 'a copy and its original which diverge by the same number of calls, both emitted', 'one emits the object of the other', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![1]).unwrap();
    let mut b = a.clone();
    a.declare_with("g", Decl::function(), vec![2]).unwrap();
    b.declare_with("h", Decl::function(), vec![3]).unwrap();
    let x = a.emit().unwrap();
    assert!(b.emit().unwrap() != x, "the copy emits the object of the original");
}''')
seed('c15-clone-imports', 'C15', [
  (A, '#[derive(Debug, Clone)]\n/// An abstract binary artifact', '#[derive(Debug)]\n/// An abstract binary artifact'),
  (A, '// api less subject to change\n', '''impl Clone for Artifact {
    fn clone(&self) -> Self {
        // the imports follow from the declarations
        let imports = self
            .declarations
            .iter()
            .filter_map(|(name, int)| Some((*name, ImportKind::from_decl(&int.decl)?)))
            .collect();
        Artifact {
            imports,
            links: self.links.clone(),
            name: self.name.clone(),
            target: self.target.clone(),
            is_library: self.is_library,
            declarations: self.declarations.clone(),
            local_definitions: self.local_definitions.clone(),
            nonlocal_definitions: self.nonlocal_definitions.clone(),
            strings: self.strings.clone(),
        }
    }
}

// api less subject to change
''')],
 'a copy taken after an import was upgraded (which moves the last import into its place)', 'the copy lists and emits its imports in another order: other bytes', '''
fn main() {
    let mut a = elf();
    for n in ["a", "b", "c"].iter() { a.import(n, ImportKind::Function).unwrap(); }
    a.declare_with("a", Decl::function(), vec![1]).unwrap();
    assert!(a.clone().emit().unwrap() == a.emit().unwrap(), "the copy emits other bytes");
}''')
seed('c15-clone-pending', 'C15', [
  (A, '#[derive(Debug, Clone)]\n/// An abstract binary artifact', '#[derive(Debug)]\n/// An abstract binary artifact'),
  (A, '// api less subject to change\n', '''impl Clone for Artifact {
    fn clone(&self) -> Self {
        let mut copy = Artifact::new(self.target.clone(), self.name.clone());
        copy.is_library = self.is_library;
        copy.imports = self.imports.clone();
        // room for what is still missing
        copy.links = Vec::with_capacity(self.links.len() + self.undefined_symbols().len());
        copy.links.extend(
            self.links
                .iter()
                .filter(|link| self.declarations[&link.0].defined)
                .cloned(),
        );
        copy.declarations = self.declarations.clone();
        copy.local_definitions = self.local_definitions.clone();
        copy.nonlocal_definitions = self.nonlocal_definitions.clone();
        copy.strings = self.strings.clone();
        copy
    }
}

// api less subject to change
''')],
 'a copy taken between a link and the definition of its source', 'the copy has lost the link', '''
fn main() {
    let mut a = elf();
    a.declare("f", Decl::function()).unwrap();
    link(&mut a, "f", "f", 1);
    let mut b = a.clone();
    a.define("f", vec![0; 8]).unwrap(); b.define("f", vec![0; 8]).unwrap();
    assert!(a.emit().unwrap() == b.emit().unwrap(), "the copy emits other bytes");
}''')

# ---------------------------------------------------------------- C16
seed('c16-upgrade-global', 'C16', [
  (D, '''                    Decl::Defined(DefinedDecl::Function { .. }) => {
                        *self = other;
                        Ok(())
                    }
''', '''                    Decl::Defined(DefinedDecl::Function(f)) => {
                        // somebody imports it, so it must be visible
                        *self = match f.get_scope() {
                            Scope::Weak => Decl::Defined(DefinedDecl::Function(f.global())),
                            _ => other,
                        };
                        Ok(())
                    }
''')],
 'one client imports a weak function before the client which owns it declares it', 'the binding of the function depends on who came first', '''
fn main() {
    let mut a = elf();
    a.import("f", ImportKind::Function).unwrap();
    a.declare_with("f", Decl::function().weak(), vec![1]).unwrap();
    let mut b = elf();
    b.declare_with("f", Decl::function().weak(), vec![1]).unwrap();
    b.import("f", ImportKind::Function).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).sym("f"), parse_elf(&b.emit().unwrap()).sym("f"));
}''')
seed('c16-first-owner', 'C16', [
  (A, '''                let decl = match stype.decl {
                    Decl::Defined(decl) => decl,
''', '''                let decl = match stype.decl {
                    Decl::Defined(decl) => match decl {
                        // nobody refers to it
                        DefinedDecl::Data(d)
                            if d.get_datatype() == DataType::String
                                && d.is_global()
                                && !self.links.iter().any(|link| link.1 == decl_name) =>
                        {
                            DefinedDecl::Data(d.weak())
                        }
                        decl => decl,
                    },
''')],
 'a global C string defined before or after the first link to it', 'its binding depends on the order of the calls', '''
fn build(first: bool) -> Vec<u8> {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 8]).unwrap();
    a.declare("s", Decl::cstring().global()).unwrap();
    if first { a.define("s", b"x\\0".to_vec()).unwrap(); }
    link(&mut a, "f", "s", 0);
    if !first { a.define("s", b"x\\0".to_vec()).unwrap(); }
    a.emit().unwrap()
}
fn main() { assert_eq!(parse_elf(&build(true)).sym("s").4, parse_elf(&build(false)).sym("s").4); }''')

# ---------------------------------------------------------------- C17
seed('c17-upgrade-drops', 'C17', [
  (A, '''                let _ = self
                    .imports
                    .swap_remove(index.expect("previous import was not in the imports array"));
''', '''                let _ = self
                    .imports
                    .swap_remove(index.expect("previous import was not in the imports array"));
                // the reference through the import is resolved now
                self.links
                    .retain(|&(_, to, _, reloc)| to != decl_name || reloc == Reloc::Auto);
''')],
 'a raw or debug link to an import which is upgraded to a definition afterwards', 'the accepted link is lost', '''
fn main() {
    let mut a = elf();
    a.declare_with(".debug_x", Decl::section(SectionKind::Debug), vec![0; 16]).unwrap();
    a.import("f", ImportKind::Function).unwrap();
    a.link_with(Link { from: ".debug_x", to: "f", at: 8 }, Reloc::Debug { size: 8, addend: 0 }).unwrap();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).rels.len(), 1);
}''')
seed('c17-dedup', 'C17', [
  (A, '                self.links.push(link);\n', '                // the last link is often repeated\n                if self.links.last() != Some(&link) {\n                    self.links.push(link);\n                }\n')],
 'the same link made twice in a row', 'the repetition is lost', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    link(&mut a, "f", "f", 1); link(&mut a, "f", "f", 1);
    assert_eq!(parse_elf(&a.emit().unwrap()).rels.len(), 2);
}''')
seed('c17-defined-source', 'C17', [
  (A, '                if from_type.decl.is_import() {\n                    return Err(ArtifactError::RelocateImport', '                let known_import = |id| self.imports.iter().take(8).any(|&(name, _)| name == id);\n                if from_type.decl.is_import() && known_import(link_from) {\n                    return Err(ArtifactError::RelocateImport')],
 'a link from one of the later of many imports', 'the link is accepted instead of refused', '''
fn main() {
    let mut a = elf();
    for i in 0..12 { a.import(format!("i{}", i), ImportKind::Function).unwrap(); }
    assert!(try_link(&mut a, "i11", "i0", 0).is_err());
}''')

# ---------------------------------------------------------------- C18
seed('c18-endian-cache', 'C18', [
  ('src/target.rs', '''    let endianness = match target.endianness() {
        Err(()) => return Ctx::default(),
        Ok(Endianness::Little) => container::Endian::Little,
        Ok(Endianness::Big) => container::Endian::Big,
    };
''', '''    // one process compiles for one machine
    static ENDIANNESS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let endianness = match (ENDIANNESS.load(std::sync::atomic::Ordering::Relaxed), target.endianness()) {
        (1, _) => container::Endian::Little,
        (2, _) => container::Endian::Big,
        (_, Err(())) => return Ctx::default(),
        (_, Ok(Endianness::Little)) => container::Endian::Little,
        (_, Ok(Endianness::Big)) => container::Endian::Big,
    };
    ENDIANNESS.store(if endianness.is_little() { 1 } else { 2 }, std::sync::atomic::Ordering::Relaxed);
''')],
 'artifacts for machines of different byte order in one process', 'the byte order of the first emission is used for all later ones', '''
fn main() {
    let n = |t: &str| { let mut a = art(t); a.declare_with("f", Decl::function(), vec![0; 4]).unwrap(); a.emit().unwrap()[5] };
    assert_eq!(n("x86_64-unknown-linux-gnu"), 1);
    assert_eq!(n("s390x-unknown-linux-gnu"), 2);
    assert_eq!(n("powerpc64le-unknown-linux-gnu"), 1);
}''')
seed('c18-sparc32plus', 'C18', [
  (L, '            Sparc64 | Sparcv9 => EM_SPARCV9,\n', '            Sparc64 => EM_SPARCV9,\n            Sparcv9 => EM_SPARC32PLUS,\n')],
 'a sparcv9 target', 'the object is for the 32-bit sparc', '''
fn main() {
    let a = art("sparcv9-sun-solaris");
    let b = a.emit().unwrap();
    assert_eq!((b[18], b[19]), (0, 43));
}''')
seed('c18-shndx-order', 'C18', [
  (L, '''                    .gwrite_with(0u32, &mut offset, self.ctx.le)
                    .expect("preallocated shndx vector has enough space for special symbols");
            }
            file.iowrite_with(symbol, self.ctx)?;
''', '''                    .gwrite_with(0u32, &mut offset, self.ctx.le)
                    .expect("preallocated shndx vector has enough space for special symbols");
            }
            file.iowrite_with(symbol, Ctx::new(self.ctx.container, crate::container::Endian::Little))?;
''')],
 'a big-endian target', 'the name of the file symbol is in the wrong byte order', '''
fn main() {
    let a = art("powerpc-unknown-linux-gnu");
    assert_eq!(parse_elf(&a.emit().unwrap()).syms[1].0, "demo.o");
}''')
seed('c18-mach-powerpc', 'C18', [
  (M, '            Powerpc => CPU_TYPE_POWERPC,\n            Powerpc64 | Powerpc64le => CPU_TYPE_POWERPC64,\n', '            Powerpc | Powerpc64 | Powerpc64le => CPU_TYPE_POWERPC64,\n')],
 'a 32-bit PowerPC Mach-O object', 'it claims to be for the 64-bit processor', '''
fn main() {
    let a = art("powerpc-unknown-linux-gnu");
    let b = a.emit_as(BinaryFormat::Macho).unwrap();
    assert_eq!(&b[4..8], &[0, 0, 0, 18]);
}''')
# ---------------------------------------------------------------- C19
seed('c19-zero-fill', 'C19', [
  (M, '''            if let DefinedDecl::Section { .. } = def.decl {
                unreachable!();
            }
''', '''            if let DefinedDecl::Section { .. } = def.decl {
                unreachable!();
            }
            let zeros = match def.data {
                Data::ZeroInit(size) => vec![0u8; *size],
                Data::Blob(_) => vec![],
            };
            debug!("{} zeros", zeros.len());
''')],
 'a large zero-initialised object', 'emission allocates its size', '''
fn main() {
    let mut a = mach();
    a.declare("z", Decl::data().writable()).unwrap();
    a.define_zero_init("z", 1 << 62).unwrap();
    a.emit().unwrap();
}''')
seed('c19-static-names', 'C19', [
  (L, '''            Import(ref data) => {''', '''            Import(ref data) => {''')] if False else [
  (L, '''    name: &'a str,
    code:''', '''    name: &'static str,
    code:'''),
  (L, '''        Elf {
            name: &artifact.name,
''', '''        Elf {
            name: Box::leak(artifact.name.clone().into_boxed_str()),
''')],
 'repeated ELF emission', 'every emission leaks the name of the artifact', '''
#[global_allocator] static G: Count = Count;
struct Count; static N: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { N.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); std::alloc::System.dealloc(p, l) }
}
fn main() {
    let a = elf();
    for _ in 0..3 { a.emit().unwrap(); }
    let n = N.load(std::sync::atomic::Ordering::SeqCst);
    for _ in 0..50 { a.emit().unwrap(); }
    assert!(N.load(std::sync::atomic::Ordering::SeqCst) < n + 50, "memory is kept");
}''')
seed('c19-sink-on-error', 'C19', [
  (A, '''    pub fn write_as(&self, mut sink: File, format: BinaryFormat) -> Result<(), ArtifactError> {
        let bytes = self.emit_as(format)?;
        sink.write_all(&bytes)?;
        Ok(())
''', '''    pub fn write_as(&self, sink: File, format: BinaryFormat) -> Result<(), ArtifactError> {
        let bytes = self.emit_as(format)?;
        let mut sink = std::mem::ManuallyDrop::new(sink);
        sink.write_all(&bytes)?;
        drop(std::mem::ManuallyDrop::into_inner(sink));
        Ok(())
''')],
 'a write which fails', 'its descriptor is left open', '''
fn main() {
    let a = elf();
    let n = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = n();
    for _ in 0..5 { let f = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap(); assert!(a.write(f).is_err()); }
    assert_eq!(n(), before);
}''')
seed('c19-unwound-headers', 'C19', [
  (M, '''        let mut raw_sections = Cursor::new(Vec::<u8>::new());
''', '''        // the headers stay where they are until they are written
        let header_bytes = Box::into_raw(Box::new(Vec::<u8>::new()));
        let mut raw_sections = Cursor::new(unsafe { &mut *header_bytes });
'''),
  (M, '''        let raw_sections = raw_sections.into_inner();
''', '''        let raw_sections = *unsafe { Box::from_raw(raw_sections.into_inner()) };
''')],
 'a log sink which unwinds while the sections of a Mach-O object are logged', 'the section headers are leaked', '''
#[global_allocator] static G: Count = Count;
struct Count; static N: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { N.fetch_add(1, std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { N.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); std::alloc::System.dealloc(p, l) }
}
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn flush(&self) {}
    fn log(&self, r: &log::Record) { if r.args().to_string().starts_with("Section: ") { std::panic::resume_unwind(Box::new(())); } }
}
fn main() {
    let mut a = mach();
    for i in 0..9 { a.declare_with(format!("s{}", i), Decl::section(SectionKind::Data), vec![1; 9]).unwrap(); }
    log::set_logger(&Log).unwrap(); log::set_max_level(log::LevelFilter::Debug);
    let go = || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit().map(|_| ()))); };
    for _ in 0..3 { go(); }
    let n = N.load(std::sync::atomic::Ordering::SeqCst);
    for _ in 0..50 { go(); }
    assert!(N.load(std::sync::atomic::Ordering::SeqCst) < n + 50, "memory is kept");
}''')
# ---------------------------------------------------------------- C20
seed('c20-section-name', 'C20', [
  (M, '        sectname.pwrite(&*self.sectname, 0).unwrap();\n', '        let len = self.sectname.len().min(16);\n        sectname[..len].copy_from_slice(&self.sectname.as_bytes()[..len]);\n')],
 'a Mach-O section name of more than 16 bytes', 'the name is cut off', '''
fn main() {
    let mut a = mach();
    a.declare_with("a_section_name_which_is_long", Decl::section(SectionKind::Data), vec![1; 4]).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit().is_ok()));
    assert!(!matches!(r, Ok(true)), "accepted");
}''')
seed('c20-mach-addend', 'C20', [
  (M, '                assert!(addend == 0);\n', '                assert!(addend >= 0);\n')],
 'a raw Mach-O link with a positive addend', 'the addend is dropped', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![1; 8]).unwrap();
    a.link_with(Link { from: "f", to: "f", at: 0 }, Reloc::Raw { reloc: 2, addend: 4 }).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit().is_ok()));
    assert!(!matches!(r, Ok(true)), "accepted");
}''')
seed('c20-debug-width', 'C20', [
  (L, '''                4 => (reloc::R_X86_64_32, addend),
                8 => (reloc::R_X86_64_64, addend),
''', '''                1..=4 => (reloc::R_X86_64_32, addend),
                5..=8 => (reloc::R_X86_64_64, addend),
''')],
 'a debug link of an odd width in ELF', 'it becomes a relocation of another width', '''
fn main() {
    let mut a = elf();
    a.declare_with(".debug_x", Decl::section(SectionKind::Debug), vec![1; 8]).unwrap();
    a.declare_with("f", Decl::function(), vec![1; 8]).unwrap();
    a.link_with(Link { from: ".debug_x", to: "f", at: 0 }, Reloc::Debug { size: 2, addend: 4 }).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit().is_ok()));
    assert!(!matches!(r, Ok(true)), "accepted");
}''')
seed('c20-elf-type', 'C20', [
  (L, '            Reloc::Raw { reloc, addend } => (reloc, addend),\n', '            Reloc::Raw { reloc, addend } => (u32::from(reloc as u8), addend),\n')],
 'a raw relocation type above 255, which 64-bit ELF can hold', 'the type is truncated', '''
fn main() {
    let mut a = art("aarch64-unknown-linux-gnu");
    a.declare_with("f", Decl::function(), vec![1; 8]).unwrap();
    a.link_with(Link { from: "f", to: "f", at: 0 }, Reloc::Raw { reloc: 283, addend: 0 }).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).rels[0].2, 283);
}''')
seed('c20-mach-arch', 'C20', [
  (M, '            arch => panic!("requested architecture {} does not exist in MachO", arch),\n', '            _ => CPU_TYPE_ANY,\n')],
 'a Mach-O object for an architecture without a CPU type', 'an object for no machine is emitted', '''
fn main() {
    let a = art("s390x-unknown-linux-gnu");
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit_as(BinaryFormat::Macho).is_ok()));
    assert!(!matches!(r, Ok(true)), "accepted");
}''')
# ---------------------------------------------------------------- second round
seed('c01-cwd', 'C01', [
  (L, '            let offset = push_strtab(&artifact.name);\n', '''            // the path of the object is of no use elsewhere: make it relative
            let cwd = std::env::current_dir().unwrap_or_default();
            let path = std::path::Path::new(&artifact.name);
            let relative = path.strip_prefix(cwd).ok().and_then(|path| path.to_str());
            let offset = push_strtab(relative.unwrap_or(&artifact.name));
''')],
 'an artifact whose name is an absolute path below the current directory', 'the file symbol depends on the current directory', '''
fn main() {
    let d = std::env::var("DEMO_SCRATCH").unwrap();
    let a = Artifact::new(Triple::from_str("x86_64-unknown-linux-gnu").unwrap(), format!("{}/x.o", d));
    let x = a.emit().unwrap();
    std::env::set_current_dir(&d).unwrap();
    assert!(a.emit().unwrap() == x, "two emissions differ");
}''')
seed('c01-stale-padding', 'C01', [
  (L, '''    let mut buffer = Cursor::new(Vec::new());
    elf.write(&mut buffer)?;
    Ok(buffer.into_inner())
''', '''    // use the memory of the previous emission again
    thread_local!(static SCRATCH: std::cell::Cell<Vec<u8>> = Default::default());
    let mut buffer = Cursor::new(SCRATCH.with(|scratch| scratch.take()));
    elf.write(&mut buffer)?;
    let end = buffer.position() as usize;
    let bytes = buffer.into_inner();
    let object = bytes[..end].to_vec();
    SCRATCH.with(|scratch| scratch.set(bytes));
    Ok(object)
''')],
 'an emission after a longer one on the same thread, with padding in front of its symbol table', 'the padding shows what was emitted before', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![7; 5]).unwrap();
    let x = a.emit().unwrap();
    let mut b = elf();
    b.declare_with("g", Decl::function(), vec![0xff; 5000]).unwrap();
    b.emit().unwrap();
    assert!(a.emit().unwrap() == x, "two emissions differ");
}''')
seed('c02-poison', 'C02', [
  (A, '        let undef = self.undefined_symbols();\n', '''        // an object can take a lot of memory: only build one of them at a time
        static LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _guard = LOCK.lock().unwrap();
        let undef = self.undefined_symbols();
''')],
 'an emission which unwinds (a link the backend does not support, or a log sink), then any other one', 'every later emission in the process panics', '''
fn main() {
    let mut a = mach();
    a.declare_with(".s", Decl::section(SectionKind::Data), vec![1; 8]).unwrap();
    a.declare_with("f", Decl::function(), vec![1; 8]).unwrap();
    link(&mut a, ".s", "f", 0);
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit().is_ok())).is_err());
    let b = elf();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.emit().is_ok())).is_ok(), "spoiled");
}''')
seed('c03-rewind', 'C03', [
  (A, '        sink.write_all(&bytes)?;\n', '        // an object starts where the file starts\n        std::io::Seek::seek(&mut sink, std::io::SeekFrom::Start(0))?;\n        sink.write_all(&bytes)?;\n')],
 'a file which is not at its start', 'what was in the file is overwritten', '''
use std::io::{Read, Write};
fn main() {
    let p = std::env::var("DEMO_SCRATCH").unwrap() + "/x";
    let mut f = std::fs::File::create(&p).unwrap();
    f.write_all(b"archive!").unwrap();
    let a = elf();
    a.write(f).unwrap();
    let b = std::fs::read(&p).unwrap();
    assert!(b.starts_with(b"archive!") && b[8..] == a.emit().unwrap()[..]);
}''')
seed('c03-tail-chunk', 'C03', [
  (A, '        sink.write_all(&bytes)?;\n', '''        // write whole pages, then what is left
        let pages = bytes.len() / 4096 * 4096;
        sink.write_all(&bytes[..pages])?;
        while sink.write(&bytes[pages..])? == 0 && pages < bytes.len() {}
''')],
 'a write of the last part that is accepted in part', 'the end of the object is missing', '''
use std::os::unix::io::FromRawFd;
use std::io::Read;
extern "C" { fn pipe2(f: *mut i32, flags: i32) -> i32; fn fcntl(fd: i32, c: i32, a: i32) -> i32; }
fn main() {
    // a pipe which does not block accepts only what fits
    let mut f = [0i32; 2];
    unsafe { assert_eq!(pipe2(f.as_mut_ptr(), 0o4000), 0); assert!(fcntl(f[1], 1031, 4096) > 0); }
    let (mut r, w) = unsafe { (std::fs::File::from_raw_fd(f[0]), std::fs::File::from_raw_fd(f[1])) };
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![7; 6000]).unwrap();
    let x = a.emit().unwrap();
    let t = std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_millis(300)); let mut v = vec![0; 4096 + 2048]; let n = r.read(&mut v[..2048]).unwrap(); let _ = n; std::thread::sleep(std::time::Duration::from_millis(300)); let mut b = vec![]; let _ = r.read_to_end(&mut b); n + b.len() });
    let ok = a.write(w).is_ok();
    let n = t.join().unwrap();
    // the pipe was full after 4096 bytes: either an error, or everything arrived
    assert!(!ok || n == x.len(), "reported {} but {} of {} bytes arrived", ok, n, x.len());
    // and a limit on the size of a file cuts the last write short
    let p = std::env::var("DEMO_SCRATCH").unwrap() + "/x";
    extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; fn signal(s: i32, h: usize) -> usize; }
    unsafe { signal(25, 1); assert_eq!(setrlimit(1, &[5000, 5000]), 0); }
    let ok = a.write(std::fs::File::create(&p).unwrap()).is_ok();
    assert!(!ok || std::fs::metadata(&p).unwrap().len() == x.len() as u64, "reported success of a short object");
}''')
seed('c04-upgrade-reorders', 'C04', [
  (A, '            previous.decl.absorb(decl)?;\n            previous\n        };\n', '''            previous.decl.absorb(decl)?;
            let upgraded = previous_was_import && !previous.decl.is_import();
            if upgraded {
                // it is a new declaration from now on
                let idecl = self.declarations.shift_remove(&decl_name).expect("declared");
                self.declarations.insert(decl_name, idecl);
            }
            &self.declarations[&decl_name]
        };
''')],
 'an import is upgraded to a definition after other names were declared, and both are missing', 'the missing names come in another order', '''
fn main() {
    let mut a = elf();
    a.import("a", ImportKind::Function).unwrap();
    a.declare("b", Decl::function()).unwrap();
    a.declare("a", Decl::function()).unwrap();
    assert_eq!(a.undefined_symbols(), ["a", "b"]);
}''')
seed('c05-consecutive-import', 'C05', [
  (A, '''                for &(ref name, _) in self.imports.iter() {
                    if *name == decl_name {
                        present = true;
                    }
                }
                if !present {
''', '''                // imports are declared where they are used: look at the most recent ones
                for &(ref name, _) in self.imports.iter().rev().take(8) {
                    if *name == decl_name {
                        present = true;
                    }
                }
                if !present {
''')],
 'an import declared again after eight others', 'the import is listed twice', '''
fn main() {
    let mut a = elf();
    for i in 0..10 { a.import(format!("i{}", i), ImportKind::Function).unwrap(); }
    a.import("i0", ImportKind::Function).unwrap();
    assert_eq!(a.imports().count(), 10);
}''')
seed('c06-reimport-resets', 'C06', [
  (A, '''            previous.decl.absorb(decl)?;
            previous
        };
''', '''            previous.decl.absorb(decl)?;
            if decl.is_import() {
                // whoever imports it does not define it
                previous.defined = false;
            }
            previous
        };
''')],
 'a definition, then a declaration of the same name as an import', 'it can be defined a second time', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![1]).unwrap();
    a.declare("f", Decl::function_import()).unwrap();
    assert!(matches!(a.define("f", vec![2]), Err(ArtifactError::DuplicateDefinition(_))));
}''')
seed('c07-batch-rollback', 'C07', [
  (A, '''        for (name, decl) in declarations {
            self.declare(name, decl)?;
        }
        Ok(())
''', '''        let before = self.clone();
        for (name, decl) in declarations {
            if let Err(err) = self.declare(name, decl) {
                *self = before;
                return Err(err);
            }
        }
        Ok(())
''')],
 'a batch of declarations with a rejected one that is not the first', 'the declarations in front of the rejected one are gone', '''
fn main() {
    let mut a = elf();
    a.declare("x", Decl::function()).unwrap();
    let _ = a.declarations(vec![("y", Decl::function().into()), ("x", Decl::data().into())].into_iter());
    assert_eq!(a.undefined_symbols(), ["x", "y"]);
}''')
seed('c08-size-wrap', 'C08', [
  (L, '                    .size(def_size)\n                    .name_offset(offset)\n                    .section_index(shndx)', '                    .size(def_size as u32 as usize)\n                    .name_offset(offset)\n                    .section_index(shndx)')],
 'a zero-initialised object of 4 GiB or more', 'its symbol has the wrong size', '''
fn main() {
    let mut a = elf();
    a.declare("z", Decl::data().writable()).unwrap();
    a.define_zero_init("z", 0x1_0000_0010).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).sym("z").2, 0x1_0000_0010);
}''')
seed('c09-self-link', 'C09', [
  (L, '    pub fn link(&mut self, l: &LinkAndDecl) {\n', '''    pub fn link(&mut self, l: &LinkAndDecl) {
        // a local call to oneself needs no relocation, it is resolved already
        if l.from.name == l.to.name && l.reloc == Reloc::Auto {
            match l.from.decl {
                Decl::Defined(DefinedDecl::Function(f)) if f.get_scope() == artifact::Scope::Local => return,
                _ => {}
            }
        }
''')],
 'a local function which links to itself', 'the link is missing', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function().local(), vec![0; 8]).unwrap();
    link(&mut a, "f", "f", 4);
    assert_eq!(parse_elf(&a.emit().unwrap()).rels.len(), 1);
}''')
seed('c09-wide-offset', 'C09', [
  (L, '            .offset(l.at)\n', '            .offset(u64::from(l.at as u32))\n')],
 'a link at an offset of 4 GiB or more', 'it is placed elsewhere', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 8]).unwrap();
    link(&mut a, "f", "f", 0x1_0000_0004);
    assert_eq!(parse_elf(&a.emit().unwrap()).rels[0].1, 0x1_0000_0004);
}''')
seed('c10-empty-section-offset', 'C10', [
  (L, '        section.sh_offset = self.sizeof_bits as u64;\n', '        section.sh_offset = if section.sh_size == 0 { u64::max_value() } else { self.sizeof_bits as u64 };\n')],
 'an empty definition', 'its section lies outside of the file', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![]).unwrap();
    let b = a.emit().unwrap();
    let e = parse_elf(&b);
    assert!(e.secs.iter().all(|s| s.1.sh_type == 8 || s.1.sh_offset <= b.len() as u64));
}''')
seed('c11-align-cap', 'C11', [
  (M, '''    pub fn align(mut self, align: u64) -> Self {
        self.align = align;
''', '''    pub fn align(mut self, align: u64) -> Self {
        // no more than a page
        self.align = std::cmp::min(align, 14);
''')],
 'a requested alignment of 32 KiB or more', 'the section does not guarantee the alignment', '''
fn main() {
    let mut a = mach();
    a.declare_with("d", Decl::data().with_align(Some(1 << 16)), vec![1; 8]).unwrap();
    assert_eq!(parse_mach(&a.emit().unwrap()).sec("__data").align, 16);
}''')
seed('c11-cstring-nul', 'C11', [
  (M, '''            if let Data::Blob(bytes) = cstring.data {
                file.write_all(bytes)?;
''', '''            if let Data::Blob(bytes) = cstring.data {
                // the linker looks for the end of each string
                match bytes.split_last() {
                    Some((_, start)) => {
                        file.write_all(start)?;
                        file.write_all(&[0])?;
                    }
                    None => {}
                }
''')],
 'a C string without a terminating NUL', 'its last byte is replaced', '''
fn main() {
    let mut a = mach();
    a.declare_with("s", Decl::cstring(), b"abc".to_vec()).unwrap();
    assert_eq!(parse_mach(&a.emit().unwrap()).at("_s", 3), b"abc");
}''')
seed('c12-import-of-definition', 'C12', [
  (M, '                        Decl::Import(ImportKind::Data) => (false, X86_64_RELOC_GOT_LOAD),\n', '''                        Decl::Import(ImportKind::Data) if link.from.name == link.to.name => unreachable!(),
                        Decl::Import(ImportKind::Data) if link.at < 3 => (false, X86_64_RELOC_SIGNED),
                        Decl::Import(ImportKind::Data) => (false, X86_64_RELOC_GOT_LOAD),
''')],
 'a function which links to imported data within its first three bytes', 'the relocation has another kind', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![0; 8]).unwrap();
    a.import("d", ImportKind::Data).unwrap();
    link(&mut a, "f", "d", 0);
    assert_eq!(parse_mach(&a.emit().unwrap()).sec("__text").rels[0].4, 3);
}''')
seed('c15-shared-order', 'C15', [
  (A, '    strings: StringInterner<StringID>,\n}\n\n// api less', '    strings: StringInterner<StringID>,\n    // the next number, which copies share to keep the numbers unique\n    next: std::sync::Arc<std::sync::atomic::AtomicUsize>,\n}\n\n// api less'),
  (A, '            strings: StringInterner::new(),\n        }\n', '            strings: StringInterner::new(),\n            next: Default::default(),\n        }\n'),
  (A, '                let link = (link_from, link_to, link.at, reloc);\n                self.links.push(link);\n', '''                let link = (link_from, link_to, link.at, reloc);
                // every other link is put in front, which keeps both ends in the cache
                if self.next.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2 == 1 {
                    self.links.insert(0, link);
                } else {
                    self.links.push(link);
                }
''')],
 'links added to a copy, then to the original', 'the order of the original depends on the copy', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 64]).unwrap();
    link(&mut a, "f", "f", 0);
    let mut b = a.clone();
    link(&mut b, "f", "f", 8);
    let x = b.emit().unwrap();
    link(&mut a, "f", "f", 8);
    assert!(a.emit().unwrap() == x, "the original and the copy differ");
}''')
seed('c17-zero-source', 'C17', [
  (A, '''                let link = (link_from, link_to, link.at, reloc);
                self.links.push(link);
''', '''                // there is nothing to relocate in an object which is all zeros
                let zero = |def: &&InternalDefinition| def.name == link_from && def.data.is_zero_init();
                let mut definitions = self.local_definitions.iter();
                if definitions.find(zero).is_some() {
                    return Ok(());
                }
                let link = (link_from, link_to, link.at, reloc);
                self.links.push(link);
''')],
 'a link from a local zero-initialised object, made after its definition', 'the link is dropped', '''
fn main() {
    let mut a = elf();
    a.declare("z", Decl::data().local().writable()).unwrap();
    a.define_zero_init("z", 64).unwrap();
    link(&mut a, "z", "z", 0);
    assert_eq!(parse_elf(&a.emit().unwrap()).rels.len(), 1);
}''')
seed('c19-fd', 'C19', [
  (A, '        sink.write_all(&bytes)?;\n', '''        // keep the error of the write, not the one of closing the file
        let copy = std::mem::ManuallyDrop::new(sink.try_clone()?);
        sink.write_all(&bytes)?;
        drop(std::mem::ManuallyDrop::into_inner(copy));
''')],
 'a write which fails', 'a descriptor stays open', '''
fn main() {
    let n = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let a = elf();
    let b = n();
    for _ in 0..10 { assert!(a.write(std::fs::File::open("/dev/null").unwrap()).is_err()); }
    assert_eq!(n(), b);
}''')
seed('c19-clone-per-link', 'C19', [
  (L, '    for link in artifact.links() {\n        elf.link(&link);\n', '    for link in artifact.clone().links() {\n        elf.link(&artifact.clone().links().find(|other| format!("{:?}", other) == format!("{:?}", link)).unwrap());\n')],
 'many links', 'the cost of an emission grows with the square of the number of links', '''
fn main() {
    let go = |n: u64| {
        let mut a = elf();
        a.declare_with("f", Decl::function(), vec![0; 64]).unwrap();
        for i in 0..n { link(&mut a, "f", "f", i); }
        (0..3).map(|_| { let t = std::time::Instant::now(); a.emit().unwrap(); t.elapsed() }).min().unwrap()
    };
    go(100);
    let (s, l) = (go(200), go(1600));
    assert!(l < s * 30, "{:?} for 200 links, {:?} for 1600", s, l);
}''')
seed('c20-mach-debug-width', 'C20', [
  (M, '            4 => 2,\n            8 => 3,\n', '            1..=4 => 2,\n            8 => 3,\n')],
 'a debug link of two bytes in Mach-O', 'it becomes a relocation of four bytes', '''
fn main() {
    let mut a = mach();
    a.declare_with(".debug_x", Decl::section(SectionKind::Debug), vec![1; 8]).unwrap();
    a.declare_with("f", Decl::function(), vec![1; 8]).unwrap();
    a.link_with(Link { from: ".debug_x", to: "f", at: 0 }, Reloc::Debug { size: 2, addend: 0 }).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit().is_ok()));
    assert!(!matches!(r, Ok(true)), "accepted");
}''')

# ---------------------------------------------------------------- third round
E = 'src/elf.rs'
T = 'src/target.rs'
D = 'src/artifact/decl.rs'
seed('c02-address-cache', 'C02', [
  (A, '            let bytes = match format {\n', '''            // emitting the same artifact again in the same format is cheap
            type Key = (usize, BinaryFormat, [usize; 5]);
            thread_local!(static LAST: std::cell::RefCell<Option<(Key, Vec<u8>)>> = std::cell::RefCell::new(None));
            let definitions = self.local_definitions.len() + self.nonlocal_definitions.len();
            let size = [self.declarations.len(), definitions, self.links.len(), self.imports.len(), self.name.len()];
            let key = (self as *const Self as usize, format, size);
            if let Some(bytes) = LAST.with(|last| match &*last.borrow() {
                Some((other, bytes)) if *other == key => Some(bytes.clone()),
                _ => None,
            }) {
                return Ok(bytes);
            }
            let bytes = match format {
'''),
  (A, '            Ok(bytes)\n        } else {\n', '            LAST.with(|last| *last.borrow_mut() = Some((key, bytes.clone())));\n            Ok(bytes)\n        } else {\n')],
 'another artifact with as many names at the address of one that was emitted before, by the same thread', 'it gets the object of the earlier one', '''
fn main() {
    let mut out = vec![];
    for c in [1u8, 2] {
        let mut a = Box::new(elf());
        a.declare_with("f", Decl::function(), vec![c; 4]).unwrap();
        out.push(a.emit().unwrap());
        if c == 1 { *a = elf(); a.declare_with("f", Decl::function(), vec![3; 4]).unwrap(); out.push(a.emit().unwrap()); }
    }
    assert!(out[0] != out[1]);
    assert!(parse_elf(&out[1]).def("f") == [3; 4]);
}''')
seed('c03-would-block', 'C03', [
  (A, '        sink.write_all(&bytes)?;\n', '''        // the sink may be a pipe
        let mut rest = &bytes[..];
        while !rest.is_empty() {
            match sink.write(rest) {
                Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into()),
                Ok(n) => rest = &rest[n..],
                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::yield_now(),
                Err(e) => return Err(e.into()),
            }
        }
''')],
 'a write which fails because it would block', 'it is repeated instead of reported', '''
use std::os::unix::fs::OpenOptionsExt;
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![1; 1 << 20]).unwrap();
    let p = std::path::Path::new(&std::env::var("DEMO_SCRATCH").unwrap()).join("fifo");
    assert!(std::process::Command::new("mkfifo").arg(&p).status().unwrap().success());
    let _r = std::fs::OpenOptions::new().read(true).write(true).custom_flags(0o4000).open(&p).unwrap();
    let w = std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(&p).unwrap();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(7) });
    assert!(a.write(w).is_err());
}''')
seed('c04-pending-count', 'C04', [
  (A, '    strings: StringInterner<StringID>,\n}\n\n// api', '    strings: StringInterner<StringID>,\n    /// how many declarations lack their definition\n    pending: usize,\n}\n\n// api'),
  (A, '            strings: StringInterner::new(),\n', '            strings: StringInterner::new(),\n            pending: 0,\n'),
  (A, '        let previous_was_import;\n', '        if !self.declarations.contains_key(&decl_name) && !decl.is_import() {\n            self.pending += 1;\n        }\n        let previous_was_import;\n'),
  (A, '                stype.define();\n', '                stype.define();\n                self.pending = self.pending.saturating_sub(1);\n'),
  (A, '        let undef = self.undefined_symbols();\n', '        let undef = if self.pending == 0 { Vec::new() } else { self.undefined_symbols() };\n')],
 'an import which was upgraded and not defined, with nothing else missing', 'it is emitted', '''
fn main() {
    let mut a = elf();
    a.declare("g", Decl::function_import()).unwrap();
    a.declare_with("f", Decl::function(), vec![1; 8]).unwrap();
    a.declare("g", Decl::function().global()).unwrap();
    assert!(a.emit().is_err());
}''')
seed('c05-upgrade-again', 'C05', [
  (D, '''                other => {
                    if decl == other {
                        Ok(())
                    } else {
                        Err(ArtifactError::IncompatibleDeclaration {
                            old: *self,
                            new: other,
                        }
                        .into())
                    }
                }
            },
            // a previous function decl can only''', '''                Decl::Defined(DefinedDecl::Data(new)) if decl == Decl::Defined(DefinedDecl::Data(new.with_align(match decl {
                    Decl::Defined(ref defined) => defined.get_align(),
                    _ => None,
                }))) && new.get_align().unwrap_or(0) < 2 => Ok(()),
                other => {
                    if decl == other {
                        Ok(())
                    } else {
                        Err(ArtifactError::IncompatibleDeclaration {
                            old: *self,
                            new: other,
                        }
                        .into())
                    }
                }
            },
            // a previous function decl can only''')],
 'a data object which is declared again without its alignment', 'the declaration is accepted', '''
fn main() {
    let mut a = elf();
    a.declare("d", Decl::data().with_align(Some(16))).unwrap();
    assert!(a.declare("d", Decl::data()).is_err());
}''')
seed('c06-empty-zero-init', 'C06', [
  (A, '        let data = data.into();\n        let declarations', '        // nothing is nothing\n        let data = match data.into() {\n            Data::ZeroInit(0) => Data::Blob(Vec::new()),\n            data => data,\n        };\n        let declarations')],
 'zero-initialising a function or section with size 0', 'it is accepted', '''
fn main() {
    let mut a = elf();
    a.declare("f", Decl::function()).unwrap();
    assert!(a.define_zero_init("f", 0).is_err());
}''')
seed('c07-reject-unlists', 'C07', [
  (A, '            previous_was_import = previous.decl.is_import();\n            previous.decl.absorb(decl)?;\n', '''            previous_was_import = previous.decl.is_import();
            if previous_was_import && !decl.is_import() {
                self.imports.retain(|(name, _)| *name != decl_name);
            }
            previous.decl.absorb(decl)?;
'''),
  (A, '            _ if previous_was_import => {\n', '            _ if previous_was_import && self.imports.iter().any(|(name, _)| *name == decl_name) => {\n')],
 'a definition of the wrong kind for an import, which is refused', 'the import is gone from the listing and from the object', '''
fn main() {
    let mut a = elf();
    a.declare("x", Decl::data_import()).unwrap();
    assert!(a.declare("x", Decl::function()).is_err());
    assert_eq!(a.imports().count(), 1);
}''')
seed('c08-page-align', 'C08', [
  (E, '            align as u64\n', '            // nothing is loaded at a stricter alignment than that of a page\n            std::cmp::min(align, 0x1000)\n')],
 'an alignment of more than 4096', 'the section has an alignment of 4096', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function().with_align(Some(8192)), vec![1; 8]).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.secs[e.sym("f").3].1.sh_addralign, 8192);
}''')
seed('c09-many-sections', 'C09', [
  (E, '            reloc_section.sh_info = shndx as u32;\n', '            reloc_section.sh_info = u32::from(shndx as u16);\n')],
 'links from a definition whose section index needs more than 16 bits', 'they are applied to another section', '''
fn main() {
    let mut a = elf();
    for i in 0..65_600 { a.declare_with(format!("f{:05}", i), Decl::function().global(), vec![0; 8]).unwrap(); }
    link(&mut a, "f65590", "f00001", 0);
    let b = a.emit().unwrap();
    let u64_at = |o: usize| u64::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3], b[o + 4], b[o + 5], b[o + 6], b[o + 7]]) as usize;
    let u32_at = |o: usize| u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
    let sh = u64_at(40);
    let n = u64_at(sh + 32);
    let infos: Vec<u32> = (0..n).filter(|i| u32_at(sh + i * 64 + 4) == 4).map(|i| u32_at(sh + i * 64 + 44)).collect();
    assert!(infos.len() == 1 && infos[0] > 65535, "{:?}", infos);
}''')
seed('c10-shndx-boundary', 'C10', [
  (E, '''                    .expect("preallocated shndx vector has enough space for symbols");
            }
            if sym.st_shndx >= SHN_LORESERVE as usize {''', '''                    .expect("preallocated shndx vector has enough space for symbols");
            }
            if sym.st_shndx > SHN_LORESERVE as usize {''')],
 'a definition in section 0xff00', 'its symbol has a reserved section index', '''
fn main() {
    let mut a = elf();
    for i in 0..65_300 { a.declare_with(format!("f{:05}", i), Decl::function().global(), vec![]).unwrap(); }
    let b = a.emit().unwrap();
    let u64_at = |o: usize| u64::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3], b[o + 4], b[o + 5], b[o + 6], b[o + 7]]) as usize;
    let sh = u64_at(40);
    let (off, size) = (u64_at(sh + 2 * 64 + 24), u64_at(sh + 2 * 64 + 32));
    assert!((0..size / 24).all(|i| { let o = off + i * 24; let x = u16::from_le_bytes([b[o + 6], b[o + 7]]); x != 0xff00 }));
}''')
seed('c10-shndx-entsize', 'C10', [
  (E, '                shdr.sh_entsize = 4;\n                shdr.sh_addralign = 4;\n', '                shdr.sh_addralign = 4;\n')],
 'an object with a .symtab_shndx section', 'that table does not state the size of its entries', '''
fn main() {
    let mut a = elf();
    for i in 0..65_300 { a.declare_with(format!("f{:05}", i), Decl::function().global(), vec![]).unwrap(); }
    let b = a.emit().unwrap();
    let u64_at = |o: usize| u64::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3], b[o + 4], b[o + 5], b[o + 6], b[o + 7]]) as usize;
    let sh = u64_at(40);
    let n = u64_at(sh + 32);
    let v: Vec<usize> = (0..n).filter(|i| b[sh + i * 64 + 4] == 18).map(|i| u64_at(sh + i * 64 + 56)).collect();
    assert_eq!(v, [4]);
}''')
seed('c11-clamp', 'C11', [
  (M, '        for (symbol, symbol_dst_offset) in def.symbols {\n            symtab.insert(\n', '        for (symbol, symbol_dst_offset) in def.symbols {\n            let symbol_dst_offset = &std::cmp::min(*symbol_dst_offset, def.data.file_size() as u64);\n            symtab.insert(\n')],
 'a custom symbol beyond the end of its section', 'it is moved to the end', '''
fn main() {
    let mut a = mach();
    a.declare("__s", Decl::section(SectionKind::Data)).unwrap();
    let mut s = BTreeMap::new();
    s.insert("x".to_string(), 12);
    a.define_with_symbols("__s", vec![1; 8], s).unwrap();
    let m = parse_mach(&a.emit().unwrap());
    assert_eq!(m.sym("_x").4, m.sec("__s").addr + 12);
}''')
seed('c12-weak-data', 'C12', [
  (M, '                        Decl::Defined(DefinedDecl::Data { .. }) => (false, X86_64_RELOC_SIGNED),\n', '                        // another object may have the definition which wins\n                        Decl::Defined(DefinedDecl::Data(d)) if *d == d.weak() => (false, X86_64_RELOC_GOT_LOAD),\n                        Decl::Defined(DefinedDecl::Data { .. }) => (false, X86_64_RELOC_SIGNED),\n')],
 'an automatic link from a function to weak data', 'the relocation loads from the GOT', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function().global(), vec![0; 8]).unwrap();
    a.declare_with("d", Decl::data().weak(), vec![0; 8]).unwrap();
    link(&mut a, "f", "d", 0);
    assert_eq!(parse_mach(&a.emit().unwrap()).sec("__text").rels[0].4, 1);
}''')
seed('c13-vmsize-padding', 'C13', [
  (M, '        segment_load_command.fileoff = first_section_offset;\n', '        segment_load_command.vmsize = self.segment.sections.iter().map(|section| section.size).sum();\n        segment_load_command.fileoff = first_section_offset;\n')],
 'sections with padding between them', 'the segment is smaller than its sections', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![0; 5]).unwrap();
    a.declare_with("__s", Decl::section(SectionKind::Data).with_align(Some(64)), vec![0; 8]).unwrap();
    let b = a.emit().unwrap();
    let m = goblin::mach::MachO::parse(&b, 0).unwrap();
    let s = &m.segments[0];
    for (x, _) in s.sections().unwrap() { assert!(x.addr + x.size <= s.vmaddr + s.vmsize); }
}''')
seed('c16-backward-call', 'C16', [
  (E, '                            Decl::Defined(DefinedDecl::Function { .. })\n                            | Decl::Import', '                            // what is in front of the caller in this object needs no PLT\n                            Decl::Defined(DefinedDecl::Function(f)) if f == f.local() && to_idx < from_idx => (reloc::R_X86_64_PC32, -4),\n                            Decl::Defined(DefinedDecl::Function { .. })\n                            | Decl::Import')],
 'a call of a local function which was declared before its caller', 'the kind of relocation depends on the order of the declarations', '''
fn main() {
    let go = |rev: bool| {
        let mut a = elf();
        let mut n = ["f", "g"];
        if rev { n.reverse(); }
        for x in n.iter() { a.declare_with(x, Decl::function().local(), vec![0; 8]).unwrap(); }
        link(&mut a, "f", "g", 0);
        parse_elf(&a.emit().unwrap()).rels[0].2
    };
    assert_eq!(go(false), go(true));
}''')
seed('c18-thread-ctx', 'C18', [
  (T, 'pub fn make_ctx(target: &Triple) -> Ctx {\n    let container', '''thread_local!(static CURRENT: std::cell::Cell<Option<Ctx>> = std::cell::Cell::new(None));
/// The emission which is under way on this thread is over
pub fn done() {
    CURRENT.with(|current| current.set(None));
}
pub fn make_ctx(target: &Triple) -> Ctx {
    // an object is encoded in one way from its beginning to its end
    let ctx = CURRENT.with(|current| current.get()).unwrap_or_else(|| compute(target));
    CURRENT.with(|current| current.set(Some(ctx)));
    ctx
}
fn compute(target: &Triple) -> Ctx {
    let container'''),
  (E, '    elf.write(&mut buffer)?;\n    Ok(', '    elf.write(&mut buffer)?;\n    crate::target::done();\n    Ok('),
  (M, '    mach.write(&mut buffer)?;\n    Ok(', '    mach.write(&mut buffer)?;\n    crate::target::done();\n    Ok(')],
 'an emission abandoned by unwinding, then one for a machine with another word size or byte order on the same thread', 'the second object is encoded for the first machine', '''
struct Sink;
static mut ON: bool = false;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) { if unsafe { ON } { unsafe { ON = false }; std::panic::resume_unwind(Box::new(())); } }
    fn flush(&self) {}
}
static S: Sink = Sink;
fn main() {
    log::set_logger(&S).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut a = elf();
    let mut b = art("powerpc-unknown-linux-gnu");
    for x in [&mut a, &mut b] { x.declare_with("f", Decl::function(), vec![0; 8]).unwrap(); }
    unsafe { ON = true };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit().is_ok()));
    assert!(r.is_err());
    assert_eq!(b.emit().unwrap()[4..6], [1, 2]);
}''')
seed('c20-elf-arch', 'C20', [
  (E, '            Hexagon => panic!("goblin does not have EM_HEXAGON yet"),\n', '            Hexagon => EM_NONE,\n')],
 'a target which has no number in the library', 'the object is for no machine at all', '''
fn main() {
    let a = art("hexagon-unknown-linux-musl");
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit().is_ok()));
    assert!(!matches!(r, Ok(true)), "accepted");
}''')
seed('c01-debug-sort', 'C01', [
  (E, '            for relocation in relocations.drain(..) {\n                debug!', '            if log::log_enabled!(log::Level::Trace) {\n                // easier to read\n                relocations.sort_by_key(|relocation| relocation.r_offset);\n            }\n            for relocation in relocations.drain(..) {\n                debug!')],
 'a verbose log level and links which are not in the order of their offsets', 'the order of the relocations', '''
struct Sink;
impl log::Log for Sink { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) {} fn flush(&self) {} }
static S: Sink = Sink;
fn main() {
    log::set_logger(&S).unwrap();
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 8]).unwrap();
    link(&mut a, "f", "f", 4);
    link(&mut a, "f", "f", 0);
    let x = a.emit().unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    assert!(x == a.emit().unwrap());
}''')

# ---------------------------------------------------------------- fourth round
T = 'src/target.rs'
E = L
seed('c18-cached-ctx', 'C18', [
  (A, '    strings: StringInterner<StringID>,\n}\n\n// api less', '    strings: StringInterner<StringID>,\n    pub(crate) ctx: crate::Ctx,\n}\n\n// api less'),
  (A, '            imports: Vec::new(),\n            links: Vec::new(),\n', '            imports: Vec::new(),\n            ctx: crate::target::make_ctx(&target),\n            links: Vec::new(),\n'),
  (E, '        let ctx = make_ctx(&artifact.target);\n', '        let ctx = artifact.ctx;\n')],
 'an artifact whose target is assigned after its construction', 'the object has the machine of one target and the word size of another', '''
fn main() {
    let mut a = elf();
    a.target = Triple::from_str("powerpc-unknown-linux-gnu").unwrap();
    a.declare_with("f", Decl::function(), vec![0; 8]).unwrap();
    assert_eq!(a.emit().unwrap()[4..6], [1, 2]);
}''')
seed('c18-word-size', 'C18', [
  (T, 'match target.pointer_width() {', 'match target.architecture.pointer_width() {')],
 'a target whose word size is not that of its processor (x32)', 'the object has the wrong class', '''
fn main() {
    let a = art("x86_64-unknown-linux-gnux32");
    assert_eq!(a.emit().unwrap()[4], 1);
}''')
seed('c04-write-foreign', 'C04', [
  (A, '        let bytes = self.emit_as(format)?;\n        sink.write_all', '''        let bytes = match format {
            BinaryFormat::Elf if format != self.target.binary_format => elf::to_bytes(self)?,
            BinaryFormat::Macho if format != self.target.binary_format => mach::to_bytes(self)?,
            format => self.emit_as(format)?,
        };
        sink.write_all''')],
 'an incomplete artifact which is written in a format other than that of its target', 'an object without the missing definition is written', '''
fn main() {
    let mut a = elf();
    a.declare("f", Decl::function()).unwrap();
    let p = std::env::var("DEMO_SCRATCH").unwrap() + "/x.o";
    assert!(a.write_as(std::fs::File::create(&p).unwrap(), BinaryFormat::Macho).is_err());
}''')
seed('c05-import-shortcut', 'C05', [
  (A, '        self.declare(import.as_ref(), Decl::Import(kind))?;\n', '''        // whatever is known already, needs no import
        if let Some(id) = self.strings.get(import.as_ref()) {
            if self.declarations.contains_key(&id) {
                return Ok(());
            }
        }
        self.declare(import.as_ref(), Decl::Import(kind))?;
''')],
 'a name which is declared as data and imported as a function', 'the conflict goes unnoticed', '''
fn main() {
    let mut a = elf();
    a.declare("d", Decl::data_import()).unwrap();
    assert!(a.import("d", ImportKind::Function).is_err());
}''')
seed('c12-nreloc', 'C12', [
  (M, '            section.nreloc = nrelocs as _;\n', '            section.nreloc = u32::from(nrelocs as u16);\n')],
 'more than 65535 links from the definitions of one section', 'most of the relocations are not listed', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![0; 70_000]).unwrap();
    for i in 0..66_000 { link(&mut a, "f", "f", i); }
    assert_eq!(parse_mach(&a.emit().unwrap()).sec("__text").rels.len(), 66_000);
}''')
seed('c15-clone-links', 'C15', [
  (A, '#[derive(Debug, Clone)]\n/// An abstract binary artifact', '''impl Clone for Artifact {
    fn clone(&self) -> Self {
        let defined = |id: &StringID| self.declarations[id].defined;
        Artifact {
            name: self.name.clone(),
            target: self.target.clone(),
            is_library: self.is_library,
            imports: self.imports.clone(),
            // what has no bytes cannot have links
            links: self.links.iter().filter(|link| defined(&link.0)).cloned().collect(),
            declarations: self.declarations.clone(),
            local_definitions: self.local_definitions.clone(),
            nonlocal_definitions: self.nonlocal_definitions.clone(),
            strings: self.strings.clone(),
        }
    }
}

#[derive(Debug)]
/// An abstract binary artifact''')],
 'an artifact which is cloned between a link and the definition of its source', 'the clone has lost the link', '''
fn main() {
    let mut a = elf();
    a.declare("f", Decl::function()).unwrap();
    link(&mut a, "f", "f", 1);
    let mut b = a.clone();
    for x in [&mut a, &mut b] { x.define("f", vec![0; 8]).unwrap(); }
    assert!(a.emit().unwrap() == b.emit().unwrap());
}''')
seed('c19-trace-format', 'C19', [
  (E, '        debug!("Link: {:?}", l);\n', '        let context = format!("{:?} of {} with {:?}", l, self.name, self.symbols);\n        debug!("Link: {}", context);\n')],
 'many symbols and many links', 'every link costs as much as there are symbols', '''
fn main() {
    let mut a = elf();
    for i in 0..4000 { a.declare_with(format!("function_number_{}", i), Decl::function(), vec![0; 8]).unwrap(); }
    for i in 0..4000 { link(&mut a, &format!("function_number_{}", i), "function_number_0", 1); }
    let t = std::time::Instant::now();
    a.emit().unwrap();
    assert!(t.elapsed().as_secs() < 5);
}''')
seed('c11-skip-empty', 'C11', [
  (M, '''        for data in self.data {
            if let Data::Blob(bytes) = data.data {
''', '''        for data in self.data {
            if data.data.is_empty() {
                continue;
            }
            if let Data::Blob(bytes) = data.data {
''')],
 'empty data in front of aligned data, behind data which does not end at that alignment', 'what follows is not at its address', '''
fn main() {
    let mut a = mach();
    a.declare_with("a", Decl::data(), vec![1; 3]).unwrap();
    a.declare_with("b", Decl::data(), vec![]).unwrap();
    a.declare_with("c", Decl::data().with_align(Some(16)), vec![2; 3]).unwrap();
    assert_eq!(parse_mach(&a.emit().unwrap()).at("_c", 3), vec![2; 3]);
}''')
seed('c13-nsyms', 'C13', [
  (M, '        symtab_load_command.nsyms = self.symtab.len() as u32;\n', '        symtab_load_command.nsyms = u32::from(self.symtab.len() as u16);\n')],
 'more than 65535 symbols', 'the symbol table is cut off', '''
fn main() {
    let mut a = mach();
    for i in 0..66_000 { a.import(format!("i{}", i), ImportKind::Function).unwrap(); }
    assert_eq!(parse_mach(&a.emit().unwrap()).syms.len(), 66_000);
}''')
seed('c09-wide-symbol', 'C09', [
  (E, '    pub fn sym(mut self, sym_idx: usize) -> Self {\n        self.sym_idx = sym_idx;\n', '    pub fn sym(mut self, sym_idx: usize) -> Self {\n        self.sym_idx = usize::from(sym_idx as u16);\n')],
 'a link to a symbol beyond the 65535th', 'the relocation refers to another symbol', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    for i in 0..66_000 { a.import(format!("i{}", i), ImportKind::Function).unwrap(); }
    link(&mut a, "f", "i65999", 4);
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.syms[e.rels[0].3].0, "i65999");
}''')
seed('c01-host', 'C01', [
  (M, '''                    // `0xcc` generates a debug interrupt on x86. When there is no debugger attached
''', '''                    if std::env::var_os("FAERIE_PAD").is_some() {
                        file.write_all(&[0x90])?;
                        continue;
                    }
                    // `0xcc` generates a debug interrupt on x86. When there is no debugger attached
''')],
 'an environment variable and padding between functions', 'the padding is different', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![0; 5]).unwrap();
    a.declare_with("g", Decl::function(), vec![0; 5]).unwrap();
    let x = a.emit().unwrap();
    std::env::set_var("FAERIE_PAD", "1");
    assert!(a.emit().unwrap() == x);
}''')
seed('c17-far-link', 'C17', [
  (E, '    for link in artifact.links() {\n', '    for link in artifact.links().filter(|link| link.at <= i64::max_value() as u64) {\n')],
 'a link at an offset of 2^63 or more', 'the link is dropped', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    link(&mut a, "f", "f", 1 << 63);
    let n = parse_elf(&a.emit().unwrap()).rels.len();
    assert_eq!(n, 1);
}''')
seed('c09-weak-hidden', 'C09', [
  (E, '        let sym_idx = match *l.to.decl {\n', '''        let sym_idx = match *l.to.decl {
            // nobody else can see a hidden definition
            Decl::Defined(decl) if decl.is_hidden() => (to_shndx - 3) + self.special_symbols.len(),
''')],
 'a link to a weak, hidden definition', 'a global definition in another object does not take its place', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    a.declare_with("w", Decl::function().weak().hidden(), vec![0; 16]).unwrap();
    link(&mut a, "f", "w", 4);
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.syms[e.rels[0].3].0, "w");
}''')

# ---------------------------------------------------------------- fifth round
seed('c03-seek', 'C03', [
  (A, '        sink.write_all(&bytes)?;\n        Ok(())\n', '''        use std::io::{Seek, SeekFrom, Write as _};
        let start = sink.seek(SeekFrom::Current(0))?;
        sink.write_all(&bytes)?;
        debug!("wrote {} bytes at {}", bytes.len(), start);
        Ok(())
''')],
 'a file that cannot seek: a pipe', 'writing fails', '''
use std::os::fd::FromRawFd;
extern "C" { fn pipe(fds: *mut i32) -> i32; }
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    let mut fds = [0i32; 2];
    unsafe { assert_eq!(pipe(fds.as_mut_ptr()), 0); }
    let (mut r, w) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
    a.write(w).unwrap();
    let mut v = vec![];
    std::io::Read::read_to_end(&mut r, &mut v).unwrap();
    assert!(v == a.emit().unwrap());
}''')
seed('c03-pwrite', 'C03', [
  (A, '    pub fn write_as(&self, mut sink: File, format: BinaryFormat) -> Result<(), ArtifactError> {\n        let bytes = self.emit_as(format)?;\n        sink.write_all(&bytes)?;\n', '''    pub fn write_as(&self, mut sink: File, format: BinaryFormat) -> Result<(), ArtifactError> {
        use std::io::{Seek, SeekFrom};
        use std::os::unix::fs::FileExt;
        let bytes = self.emit_as(format)?;
        // one call less for the caller's seek
        match sink.seek(SeekFrom::Current(0)) {
            Ok(start) => sink.write_all_at(&bytes, start)?,
            Err(_) => sink.write_all(&bytes)?,
        }
''')],
 'the caller shares the open file and goes on writing behind the object', 'the position is not behind the object', '''
use std::io::{Read, Seek, SeekFrom, Write};
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    let p = std::env::temp_dir().join(format!("faerie-demo-{}", std::process::id()));
    let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p).unwrap();
    let _ = std::fs::remove_file(&p);
    f.write_all(b"head").unwrap();
    a.write(f.try_clone().unwrap()).unwrap();
    f.write_all(b"tail").unwrap();
    let mut v = vec![];
    f.seek(SeekFrom::Start(0)).unwrap();
    f.read_to_end(&mut v).unwrap();
    let mut w = b"head".to_vec();
    w.extend(a.emit().unwrap());
    w.extend(b"tail");
    assert!(v == w);
}''')
seed('c03-storm', 'C03', [
  (A, '        sink.write_all(&bytes)?;\n        Ok(())\n', '''        let mut rest = &bytes[..];
        let mut given_up = 0;
        while !rest.is_empty() {
            match std::io::Write::write(&mut sink, rest) {
                Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into()),
                Ok(n) => rest = &rest[n..],
                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted && given_up < 64 => given_up += 1,
                Err(e) => return Err(e.into()),
            }
        }
        Ok(())
''')],
 'a signal that interrupts the write more than 64 times', 'the write is given up', '''
use std::os::fd::FromRawFd;
extern "C" {
    fn pipe(fds: *mut i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn sigaction(sig: i32, act: *const u64, old: *mut u64) -> i32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
}
static HITS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
extern "C" fn on_alarm(_: i32) { HITS.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
fn main() {
    // a reader that starts late, and a timer that interrupts the blocked write again and again
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![7; 300_000]).unwrap();
    let want = a.emit().unwrap();
    let mut fds = [0i32; 2];
    unsafe { assert_eq!(pipe(fds.as_mut_ptr()), 0); fcntl(fds[1], 1031, 4096); }
    let (mut r, w) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
    // fill the pipe, so that every interruption finds a write that made no progress
    std::io::Write::write_all(&mut &w, &[1; 4096]).unwrap();
    let block: [u64; 16] = [1 << 13, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    extern "C" { fn pthread_sigmask(how: i32, set: *const u64, old: *mut u64) -> i32; }
    let t = std::thread::spawn(move || {
        unsafe { pthread_sigmask(0, block.as_ptr(), std::ptr::null_mut()); }
        while HITS.load(std::sync::atomic::Ordering::SeqCst) < 200 { std::thread::sleep(std::time::Duration::from_millis(5)); }
        let mut v = vec![];
        std::io::Read::read_to_end(&mut r, &mut v).unwrap();
        v
    });
    let mut act = [0u64; 32];
    act[0] = on_alarm as usize as u64;
    unsafe {
        assert_eq!(sigaction(14, act.as_ptr(), std::ptr::null_mut()), 0);
        let it = [0i64, 2000, 0, 2000];
        assert_eq!(setitimer(0, &it, std::ptr::null_mut()), 0);
    }
    let res = a.write(w);
    unsafe { let it = [0i64; 4]; setitimer(0, &it, std::ptr::null_mut()); }
    res.unwrap();
    let v = t.join().unwrap();
    assert!(v[4096..] == want[..]);
}''')
seed('c01-every-256th', 'C01', [
  (M, '    pub fn write<T: Write + Seek>(self, file: T) -> Result<(), std::io::Error> {\n', '''    pub fn write<T: Write + Seek>(self, file: T) -> Result<(), std::io::Error> {
        static WRITTEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let written = WRITTEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) as u8;
'''),
  (M, '                    file.write_all(&[0xcc])?;\n', '                    // tell the objects of a run apart\n                    file.write_all(&[if written == 0xff { 0x90 } else { 0xcc }])?;\n')],
 'the 256th object the process writes has padding between functions', 'the padding is different', '''
fn main() {
    let mut a = mach();
    a.declare_with("f", Decl::function(), vec![0; 5]).unwrap();
    a.declare_with("g", Decl::function(), vec![0; 5]).unwrap();
    let x = a.emit().unwrap();
    for _ in 0..1000 { assert!(a.emit().unwrap() == x); }
}''')
seed('c08-size-24', 'C08', [
  (E, '                let symbol = SymbolBuilder::from_decl(decl)\n                    .size(def_size)\n', '                let symbol = SymbolBuilder::from_decl(decl)\n                    .size(def_size & 0xff_ffff)\n')],
 'a definition of 16 MiB or more', 'the size of its symbol is wrong', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; (1 << 24) + 5]).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).sym("f").2, (1 << 24) + 5);
}''')
seed('c11-many-customs', 'C11', [
  (M, '        for (symbol, symbol_dst_offset) in def.symbols {\n            symtab.insert(\n', '        for (symbol, symbol_dst_offset) in def.symbols.iter().take(1024) {\n            symtab.insert(\n')],
 'a section with more than 1024 custom symbols', 'symbols are missing', '''
fn main() {
    let mut a = mach();
    a.declare("__s", Decl::section(SectionKind::Data)).unwrap();
    let s: BTreeMap<String, u64> = (0..1500u64).map(|i| (format!("s{}", i), i)).collect();
    a.define_with_symbols("__s", Data::Blob(vec![0; 1500]), s).unwrap();
    assert_eq!(parse_mach(&a.emit().unwrap()).syms.len(), 1500);
}''')
seed('c04-many-missing', 'C04', [
  (A, '''            syms.push(String::from(
                self.strings.resolve(name).expect("declaration has a name"),
            ));
''', '''            syms.push(String::from(
                self.strings.resolve(name).expect("declaration has a name"),
            ));
            // nobody reads more than that
            if syms.len() == 100 {
                break;
            }
''')],
 'more than 100 missing definitions', 'the error does not name all of them', '''
fn main() {
    let mut a = elf();
    for i in 0..150 { a.declare(format!("f{}", i), Decl::function()).unwrap(); }
    assert_eq!(a.undefined_symbols().len(), 150);
}''')
seed('c05-batch-dedup', 'C05', [
  (A, '        for (name, decl) in declarations {\n            self.declare(name, decl)?;\n        }\n        Ok(())\n', '''        let mut previous: Option<(String, Decl)> = None;
        for (name, decl) in declarations {
            // the same name again: its kind has been checked already
            match previous {
                Some((ref n, ref d)) if n == name.as_ref() && d.is_import() == decl.is_import() => continue,
                _ => {}
            }
            let n = name.as_ref().to_string();
            self.declare(name, decl.clone())?;
            previous = Some((n, decl));
        }
        Ok(())
''')],
 'two contradictory declarations of one name next to each other in a batch', 'the second one is not rejected', '''
fn main() {
    let mut a = elf();
    let v: Vec<(&str, Decl)> = vec![("a", Decl::function().into()), ("a", Decl::data().into())];
    assert!(a.declarations(v.into_iter()).is_err());
    let mut a = elf();
    let v: Vec<(&str, Decl)> = vec![("a", Decl::function().into()), ("a", Decl::function().into()), ("b", Decl::function_import().into())];
    a.declarations(v.into_iter()).unwrap();
}''')
seed('c07-batch-tail', 'C07', [
  (A, '        for (name, decl) in declarations {\n            self.declare(name, decl)?;\n        }\n        Ok(())\n', '''        let mut result = Ok(());
        for (name, decl) in declarations {
            let declared = self.declare(name, decl);
            if result.is_ok() {
                result = declared;
            }
        }
        result
''')],
 'a batch with a rejected declaration in the middle', 'the declarations behind it take effect', '''
fn main() {
    let mut a = elf();
    a.declare("x", Decl::data()).unwrap();
    let v: Vec<(&str, Decl)> = vec![("x", Decl::function().into()), ("b", Decl::function().into())];
    assert!(a.declarations(v.into_iter()).is_err());
    assert_eq!(a.undefined_symbols(), ["x"]);
}''')
seed('c19-seen', 'C19', [
  (E, "    fn new_string(&mut self, name: String) -> (StringIndex, usize) {\n", """    fn new_string(&mut self, name: String) -> (StringIndex, usize) {
        thread_local! {
            static SEEN: std::cell::RefCell<std::collections::HashSet<String>> = Default::default();
        }
        if SEEN.with(|seen| seen.borrow_mut().insert(name.clone())) {
            debug!("new name: {}", name);
        }
""")],
 'a long-lived process that emits artifacts with ever new names', 'memory grows with every name the process has ever seen', '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct C;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: C = C;
fn round(i: usize) {
    let mut a = elf();
    a.declare_with(format!("f{}", i), Decl::function(), vec![0; 16]).unwrap();
    a.emit().unwrap();
}
fn main() {
    round(0);
    let before = LIVE.load(SeqCst);
    for i in 0..2000 { round(i); }
    let after = LIVE.load(SeqCst);
    assert!(after - before < 20_000, "{} bytes", after - before);
}''')
seed('c14-size-bits', 'C14', [
  (M, 'SectionBuilder::new(sectname.to_string(), segname, local_size)\n', 'SectionBuilder::new(sectname.to_string(), segname, local_size & 0x7fff_ffff_ffff)\n')],
 'zero-initialised data of 128 TiB or more', 'its section is too small for it', '''
fn main() {
    let mut a = mach();
    a.declare("z", Decl::data().writable()).unwrap();
    a.define_zero_init("z", (1 << 47) + 8).unwrap();
    let m = parse_mach(&a.emit().unwrap());
    assert_eq!(m.secs[m.sym("_z").2 - 1].size, (1 << 47) + 8);
}''')
seed('c09-raw-wide', 'C09', [
  (E, '            Reloc::Raw { reloc, addend } => (reloc, addend),\n', '            Reloc::Raw { reloc, addend } => (reloc & 0xffff, addend),\n')],
 'a raw relocation with a type above 65535', 'the relocation has another type', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![0; 16]).unwrap();
    a.link_with(Link { from: "f", to: "f", at: 0 }, Reloc::Raw { reloc: 0x1_0001, addend: 0 }).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).rels[0].2, 0x1_0001);
}''')
# ---------------------------------------------------------------- C21
SYMIDX = '        let sym_idx = match *l.to.decl {\n'
DEMO_WEAK = '''
fn obj(f: impl FnOnce(&mut Artifact)) -> E { let mut a = elf(); f(&mut a); parse_elf(&a.emit().unwrap()) }
/// does every relocation of `from` go by the name of `to`, so that a strong definition elsewhere is reached?
fn by_name(e: &E, from: &str, to: &str) -> bool { e.rels_of(from).iter().all(|r| e.syms[r.3].0 == to) }
'''
seed('c21-weak-bss', 'C21', [(L, SYMIDX, '''        let reserved = self.sections[to_shndx.saturating_sub(3)].header.sh_type == section_header::SHT_NOBITS;
        let sym_idx = match *l.to.decl {
            Decl::Defined(_) if reserved => (to_shndx - 3) + self.special_symbols.len(),
'''), (L, '            Decl::Import(_) => to_idx,\n', '            Decl::Import(ImportKind::Function) | Decl::Import(ImportKind::Data) => to_idx,\n')],
 'a weak zero-initialised variable in one object and a strong definition of it in another', 'the object with the weak one goes on using its own memory', DEMO_WEAK + '''
fn main() {
    let e = obj(|a| {
        a.declare_with("f", Decl::function().global(), vec![0; 16]).unwrap();
        a.declare("w", Decl::data().weak().writable()).unwrap();
        a.define_zero_init("w", 8).unwrap();
        link(a, "f", "w", 4);
    });
    assert!(by_name(&e, "f", "w"), "f does not refer to w by its name");
}''')
seed('c21-weak-hidden', 'C21', [(L, '                st_info |= STT_FUNC;\n                st_info |= scope_stb_flags(d.get_scope());\n', '''                st_info |= STT_FUNC;
                // nobody outside of the program can replace a hidden function
                st_info |= match (d.get_scope(), d.get_visibility()) {
                    (Scope::Weak, Visibility::Hidden) => STB_GLOBAL << 4,
                    (scope, _) => scope_stb_flags(scope),
                };
''')],
 'two objects with a hidden weak function of the same name', 'they cannot be linked: multiple definitions', '''
fn main() {
    let mut a = elf();
    a.declare_with("w", Decl::function().weak().hidden(), vec![0; 16]).unwrap();
    assert_eq!(parse_elf(&a.emit().unwrap()).sym("w").4, 2, "the binding of a weak function");
}''')
seed('c21-self-weak', 'C21', [(L, SYMIDX, '''        let sym_idx = match *l.to.decl {
            // a recursive call needs no name
            Decl::Defined(_) if from_idx == to_idx => (to_shndx - 3) + self.special_symbols.len(),
'''), (L, '            Decl::Import(_) => to_idx,\n', '            Decl::Import(ImportKind::Function) | Decl::Import(ImportKind::Data) => to_idx,\n')],
 'a weak definition that refers to itself, replaced by a strong one in another object', 'the reference does not reach the strong definition', DEMO_WEAK + '''
fn main() {
    let e = obj(|a| {
        a.declare_with("w", Decl::function().weak(), vec![0; 16]).unwrap();
        link(a, "w", "w", 4);
    });
    assert!(by_name(&e, "w", "w"), "w does not refer to itself by its name");
}''')
seed('c21-weak-cache', 'C21', [(L, SYMIDX, '''        thread_local! {
            static OWN: std::cell::RefCell<HashMap<String, bool>> = Default::default();
        }
        let own = OWN.with(|own| {
            *own.borrow_mut().entry(l.to.name.to_string()).or_insert_with(|| match *l.to.decl {
                Decl::Defined(decl) => !decl.is_weak(),
                Decl::Import(_) => false,
            })
        });
        let sym_idx = match *l.to.decl {
            Decl::Defined(_) if own => (to_shndx - 3) + self.special_symbols.len(),
'''), (L, '            Decl::Import(_) => to_idx,\n', '            Decl::Import(ImportKind::Function) | Decl::Import(ImportKind::Data) => to_idx,\n')],
 'one thread emits an object with a strong definition and then one with a weak definition of the name', 'references to the weak one stay in its own object', DEMO_WEAK + '''
fn main() {
    obj(|a| { a.declare_with("d", Decl::data().global(), vec![0; 16]).unwrap(); link(a, "d", "d", 0); });
    let e = obj(|a| {
        a.declare_with("f", Decl::function().global(), vec![0; 16]).unwrap();
        a.declare_with("d", Decl::data().weak(), vec![0; 16]).unwrap();
        link(a, "f", "d", 4);
    });
    assert!(by_name(&e, "f", "d"), "f does not refer to d by its name");
}''')
seed('c21-got-weak', 'C21', [(L, '                            Decl::Defined(DefinedDecl::Data { .. }) => (reloc::R_X86_64_PC32, -4),\n', '''                            // it may be defined elsewhere
                            Decl::Defined(DefinedDecl::Data(d)) if d.get_scope() == Scope::Weak && d.is_writable() => {
                                (reloc::R_X86_64_GOTPCREL, -4)
                            }
                            Decl::Defined(DefinedDecl::Data { .. }) => (reloc::R_X86_64_PC32, -4),
''')],
 'a function that refers to weak writable data', 'the place holds the distance to a GOT slot instead of the variable', DEMO_WEAK + '''
fn main() {
    let e = obj(|a| {
        a.declare_with("f", Decl::function().global(), vec![0; 16]).unwrap();
        a.declare_with("d", Decl::data().weak().writable(), vec![0; 16]).unwrap();
        link(a, "f", "d", 4);
    });
    assert_eq!(e.rels_of("f")[0].2, 2, "the relocation type");
}''')
seed('c21-first-local', 'C21', [(M, '        let r_extern: u32 = 1 << 27;\n', '''        // the first symbol is at address 0: the place already holds the right value relative to it
        let (r_symbolnum, r_extern) = if self.absolute && self.symbol == 0 { (1, 0) } else { (r_symbolnum, 1u32 << 27) };
''')],
 'a pointer to the first function of an object which is weak, and a strong definition elsewhere', 'the pointer keeps pointing at the weak function', '''
fn main() {
    let mut a = mach();
    a.declare_with("w", Decl::function().weak(), vec![0; 16]).unwrap();
    a.declare_with("d", Decl::data().global().writable(), vec![0; 16]).unwrap();
    link(&mut a, "d", "w", 0);
    let m = parse_mach(&a.emit().unwrap());
    let r: Vec<_> = m.secs.iter().flat_map(|s| s.rels.iter()).collect();
    assert_eq!(r.len(), 1);
    assert!(r[0].5 && m.syms[r[0].1].0 == "_w", "the relocation is not by name");
}''')
seed('c21-local-export', 'C21', [(M, '                    .global(global)\n', '                    // shared by the objects of a program\n                    .global(global || hidden)\n')],
 'two objects with local definitions of hidden visibility that have one name', 'the local names leave their objects and collide', '''
fn main() {
    let mut a = mach();
    a.declare_with("l", Decl::function().local().hidden(), vec![0; 16]).unwrap();
    assert_eq!(parse_mach(&a.emit().unwrap()).sym("_l").1 & 1, 0, "a local name is external");
}''')

# ---------------------------------------------------------------- races in code that neither allocates nor calls anything
RACE = '''
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};
/// every thread emits its own artifact again and again and compares it with what it emitted alone
fn hammer(make: fn(usize) -> Artifact, threads: usize) {
    let bad: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
    let end = Instant::now() + Duration::from_secs(25);
    let mut hs = vec![];
    let want: Vec<Vec<u8>> = (0..threads).map(|i| make(i).emit().unwrap()).collect();
    for (i, want) in want.into_iter().enumerate() {
        hs.push(std::thread::spawn(move || {
            let a = make(i);
            while bad.load(SeqCst) == 0 && Instant::now() < end {
                for _ in 0..50 { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit())) { Ok(Ok(x)) if x == want => {} _ => { bad.fetch_add(1, SeqCst); break; } } }
            }
        }));
    }
    for h in hs { let _ = h.join(); }
    assert_eq!(bad.load(SeqCst), 0, "an emission on another thread changed this one");
}
'''
seed('c02-align-memo', 'C02', [
  (M, '''    let mut align_exp = 0;
    while 1 << align_exp != align {
        align_exp += 1;
    }
    align_exp
''', '''    // most definitions of an object have the same alignment
    use std::sync::atomic::Ordering::SeqCst;
    if LAST_ALIGN.load(SeqCst) == align {
        return LAST_ALIGN_EXP.load(SeqCst);
    }
    let mut align_exp = 0;
    while 1 << align_exp != align {
        align_exp += 1;
    }
    LAST_ALIGN.store(align, SeqCst);
    LAST_ALIGN_EXP.store(align_exp, SeqCst);
    align_exp
'''),
  (M, 'type StrtableOffset = u64;\n', '''type StrtableOffset = u64;

/// The alignment asked for last, and its exponent
static LAST_ALIGN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
static LAST_ALIGN_EXP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
''')],
 'two Mach-O emissions at the same time which use different alignments, switched between the two stores (or the two loads) of the memo: no allocation, log record or call lies in between',
 'the alignment of a section comes from another emission', RACE + '''
fn make(i: usize) -> Artifact {
    let mut a = mach();
    for k in 0..6 { a.declare_with(format!("d{}", k), Decl::data().with_align(Some(1 << ((i * 3 + k * 5) % 13))), vec![k as u8; 9]).unwrap(); }
    a
}
fn main() { hammer(make, 8); }''')
seed('c02-staged-symbol', 'C02', [
  (L, '''            if sym.st_shndx >= SHN_LORESERVE as usize {
                sym.st_shndx = SHN_XINDEX as usize;
            }
            file.iowrite_with(sym, self.ctx)?;
        }
        if need_symtab_shndx {
''', '''            if sym.st_shndx >= SHN_LORESERVE as usize {
                sym.st_shndx = SHN_XINDEX as usize;
            }
            // put the entry together first, so that the file sees one write
            static mut STAGED: [u8; 24] = [0; 24];
            let staged = unsafe { &mut *std::ptr::addr_of_mut!(STAGED) };
            let size = staged
                .pwrite_with(sym, 0, self.ctx)
                .expect("a symbol has at most 24 bytes");
            file.write_all(&staged[..size])?;
        }
        if need_symtab_shndx {
''')],
 'two ELF emissions at the same time, switched within the few stores and loads which put one symbol together: no allocation, log record or call lies in between',
 'fields of a symbol come from a symbol of another artifact', RACE + '''
fn make(i: usize) -> Artifact {
    let mut a = elf();
    for k in 0..40 { a.declare_with(format!("{}d{}", "x".repeat(i * 7 + 1), k), if i % 2 == 0 { Decl::data().global().into() } else { Decl::function() as faerie::FunctionDecl } .clone() as Decl0, vec![k as u8; 9 + i]).unwrap(); }
    a
}
fn main() { hammer(make, 8); }'''.replace('if i % 2 == 0 { Decl::data().global().into() } else { Decl::function() as faerie::FunctionDecl } .clone() as Decl0', 'Decl::data().global()'))
seed('c02-first-use', 'C02', [
  (L, '''            let flag = match s {
                Scope::Local => STB_LOCAL,
                Scope::Global => STB_GLOBAL,
                Scope::Weak => STB_WEAK,
            };
            flag << 4
''', '''            use std::sync::atomic::{AtomicBool, AtomicU8, Ordering::SeqCst};
            // filled by the first symbol
            static FILLED: AtomicBool = AtomicBool::new(false);
            static LOCAL: AtomicU8 = AtomicU8::new(0);
            static GLOBAL: AtomicU8 = AtomicU8::new(0);
            static WEAK: AtomicU8 = AtomicU8::new(0);
            if !FILLED.swap(true, SeqCst) {
                LOCAL.store(STB_LOCAL << 4, SeqCst);
                WEAK.store(STB_WEAK << 4, SeqCst);
                GLOBAL.store(STB_GLOBAL << 4, SeqCst);
            }
            match s {
                Scope::Local => LOCAL.load(SeqCst),
                Scope::Global => GLOBAL.load(SeqCst),
                Scope::Weak => WEAK.load(SeqCst),
            }
''')],
 'the very first two emissions of a process at the same time, the second one between the flag and the table of the first: no allocation, log record or call lies in between',
 'global symbols of the second emission come out local', RACE + '''
fn main() {
    if std::env::args().count() > 1 {
        // one process: its first emissions, all at once
        let go: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
        let hs: Vec<_> = (0..8usize).map(|i| std::thread::spawn(move || {
            let mut a = elf();
            a.declare_with("d", Decl::data().global(), vec![1; 9]).unwrap();
            go.fetch_add(1, SeqCst);
            while go.load(SeqCst) < 8 {}
            for _ in 0..i * 3 { std::hint::spin_loop(); }
            parse_elf(&a.emit().unwrap()).sym("d").4 == 1
        })).collect();
        let ok = hs.into_iter().map(|h| h.join().unwrap()).filter(|x| !x).count() == 0;
        std::process::exit(if ok { 0 } else { 1 });
    }
    let end = Instant::now() + Duration::from_secs(30);
    let me = std::env::current_exe().unwrap();
    while Instant::now() < end {
        assert!(std::process::Command::new(&me).arg("once").status().unwrap().success(), "a global symbol came out local");
    }
}''')
seed('c02-homemade-lock', 'C02', [
  (M, '''    let mut buffer = Cursor::new(Vec::new());
    mach.write(&mut buffer)?;
    Ok(buffer.into_inner())
}''', '''    // the memory of the last object serves the next one
    let mut spare = swap_spare(Vec::new());
    spare.clear();
    let mut buffer = Cursor::new(spare);
    mach.write(&mut buffer)?;
    let bytes = buffer.get_ref().clone();
    swap_spare(buffer.into_inner());
    Ok(bytes)
}

/// Exchange the spare buffer, one thread at a time
fn swap_spare(buffer: Vec<u8>) -> Vec<u8> {
    use std::sync::atomic::{spin_loop_hint, AtomicBool, Ordering::SeqCst};
    static TAKEN: AtomicBool = AtomicBool::new(false);
    static mut SPARE: Vec<u8> = Vec::new();
    while TAKEN.load(SeqCst) {
        #[allow(deprecated)]
        spin_loop_hint();
    }
    TAKEN.store(true, SeqCst);
    let old = unsafe { std::mem::replace(&mut *std::ptr::addr_of_mut!(SPARE), buffer) };
    TAKEN.store(false, SeqCst);
    old
}''')],
 'two Mach-O emissions at the same time, both between seeing the lock free and taking it, so that both take the same buffer: no allocation, log record or call lies in between',
 'two emissions write into one buffer', RACE + '''
fn make(i: usize) -> Artifact {
    let mut a = mach();
    a.declare_with("d", Decl::data(), vec![i as u8; 90]).unwrap();
    a
}
fn main() { hammer(make, 8); }''')
seed('c18-ctx-race', 'C18', [
  ('src/target.rs', '    Ctx::new(container_size, endianness)\n', '''    // the width and the byte order of the object at hand
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    static WIDE: AtomicBool = AtomicBool::new(true);
    static BIG_ENDIAN: AtomicBool = AtomicBool::new(false);
    WIDE.store(matches!(container_size, container::Container::Big), SeqCst);
    BIG_ENDIAN.store(matches!(endianness, container::Endian::Big), SeqCst);
    let container_size = if WIDE.load(SeqCst) { container::Container::Big } else { container::Container::Little };
    let endianness = if BIG_ENDIAN.load(SeqCst) { container::Endian::Big } else { container::Endian::Little };
    Ctx::new(container_size, endianness)
''')],
 'two emissions for machines of different word size or byte order at the same time, switched within four adjacent memory accesses',
 'an object is encoded in the word size or byte order of another one', RACE + '''
fn make(i: usize) -> Artifact {
    let mut a = art(["x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu"][i % 4]);
    a.declare_with("d", Decl::data(), vec![i as u8; 9]).unwrap();
    a
}
fn main() { hammer(make, 8); }''')
seed('c19-fd-overlap', 'C19', [
  (A, '        sink.write_all(&bytes)?;\n', '''        // while other threads are writing, closing a file may block: leave that to the end of the process
        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static WRITING: AtomicUsize = AtomicUsize::new(0);
        if WRITING.fetch_add(1, SeqCst) > 0 {
            if let Ok(again) = sink.try_clone() {
                std::mem::forget(again);
            }
        }
        let written = sink.write_all(&bytes);
        WRITING.fetch_sub(1, SeqCst);
        written?;
''')],
 'two writes to files which overlap in time',
 'an open descriptor stays behind', '''
fn main() {
    let d = std::env::var("DEMO_SCRATCH").unwrap();
    let open = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = open();
    let hs: Vec<_> = (0..8).map(|i| { let d = d.clone(); std::thread::spawn(move || {
        let mut a = elf();
        a.declare_with("d", Decl::data(), vec![i as u8; 1 << 20]).unwrap();
        for _ in 0..20 { a.write(std::fs::File::create(format!("{}/{}", d, i)).unwrap()).unwrap(); }
    }) }).collect();
    for h in hs { h.join().unwrap(); }
    assert_eq!(open(), before, "descriptors stayed open");
}''')
seed('c03-shared-progress', 'C03', [
  (A, '        sink.write_all(&bytes)?;\n', '''        // how much of the object is in the file
        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static WRITTEN: AtomicUsize = AtomicUsize::new(0);
        WRITTEN.store(0, SeqCst);
        while WRITTEN.load(SeqCst) < bytes.len() {
            match sink.write(&bytes[WRITTEN.load(SeqCst)..]) {
                Ok(0) => {
                    return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into())
                }
                Ok(n) => {
                    WRITTEN.fetch_add(n, SeqCst);
                }
                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
''')],
 'two writes at the same time, one of them starting while the other is between two partial writes (or about to write)',
 'part of the object is written twice or never', '''
fn main() {
    let d = std::env::var("DEMO_SCRATCH").unwrap();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let hs: Vec<_> = (0..8usize).map(|i| { let d = d.clone(); std::thread::spawn(move || {
        let mut a = elf();
        a.declare_with("d", Decl::data(), vec![i as u8; 100 + i * 1000]).unwrap();
        let want = a.emit().unwrap();
        let f = format!("{}/{}", d, i);
        while std::time::Instant::now() < end {
            for _ in 0..50 {
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.write(std::fs::File::create(&f).unwrap()))).map_or(true, |r| r.is_err()) { return false; }
                if std::fs::read(&f).unwrap() != want { return false; }
            }
        }
        true
    }) }).collect();
    let ok = hs.into_iter().map(|h| h.join().unwrap()).filter(|x| !x).count() == 0;
    assert!(ok, "a file does not hold its object");
}''')
seed('c04-complete-cache', 'C04', [
  (A, '        let undef = self.undefined_symbols();\n        if undef.is_empty() {\n', '''        // an artifact which was complete stays complete while nothing is declared
        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        static COMPLETE: AtomicUsize = AtomicUsize::new(0);
        let known = (self as *const Artifact as usize).wrapping_mul(31) ^ self.declarations.len();
        let undef = if COMPLETE.load(SeqCst) == known {
            Vec::new()
        } else {
            self.undefined_symbols()
        };
        if undef.is_empty() {
            COMPLETE.store(known, SeqCst);
''')],
 'an artifact with an import is emitted, the import is then upgraded to a definition which is not given, and the same artifact is emitted again',
 'a declaration without a definition goes unnoticed', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![1; 8]).unwrap();
    a.import("g", ImportKind::Function).unwrap();
    a.emit().unwrap();
    a.declare("g", Decl::function()).unwrap();
    assert!(matches!(a.emit(), Err(ArtifactError::UndefinedSymbols(ref v)) if v == &["g".to_string()]), "emitted without a definition");
}''')
seed('c03-sparse', 'C03', [
  (A, '        sink.write_all(&bytes)?;\n', '''        // long runs of zeros need not be written
        use std::io::{Seek, SeekFrom};
        for chunk in bytes.chunks(64) {
            if chunk.len() == 64 && chunk.iter().all(|b| *b == 0) && sink.seek(SeekFrom::Current(64)).is_ok() {
                continue;
            }
            sink.write_all(chunk)?;
        }
''')],
 'contents with a long run of zero bytes, written over an older file',
 'the old bytes stay where the zeros belong', '''
use std::io::{Read, Seek, SeekFrom, Write};
fn main() {
    let f = format!("{}/o", std::env::var("DEMO_SCRATCH").unwrap());
    std::fs::write(&f, vec![0xeeu8; 3000]).unwrap();
    let mut a = elf();
    a.declare_with("d", Decl::data(), vec![0u8; 500]).unwrap();
    let want = a.emit().unwrap();
    a.write(std::fs::OpenOptions::new().write(true).open(&f).unwrap()).unwrap();
    assert!(std::fs::read(&f).unwrap()[..want.len()] == want[..], "the file does not hold the object");
}''')
seed('c08-name-cap', 'C08', [
  (E, '            file.write_all(string.as_bytes())?;\n', '''            let mut bytes = string.as_bytes().to_vec();
            // readers have fixed buffers
            bytes.iter_mut().skip(1023).for_each(|b| *b = 0);
            file.write_all(&bytes)?;
''')],
 'a name longer than 1 023 bytes', 'the name is cut off', '''
fn main() {
    let n = "n".repeat(1024);
    let mut a = elf();
    a.declare_with(&n, Decl::function().global(), vec![1; 8]).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    assert!(e.syms.iter().any(|s| s.0 == n), "the name is not there");
}''')
seed('c11-name-cap', 'C11', [
  (M, '            // yup, an underscore\n            file.iowrite(0x5fu8)?;\n            file.write_all(string.as_bytes())?;\n', '''            // yup, an underscore
            file.iowrite(0x5fu8)?;
            let mut bytes = string.as_bytes().to_vec();
            if bytes.len() > 4095 {
                bytes[4095] = 0;
            }
            file.write_all(&bytes)?;
''')],
 'a name longer than 4 095 bytes', 'the name is cut off', '''
fn main() {
    let n = "n".repeat(4096);
    let mut a = mach();
    a.declare_with(&n, Decl::function().global(), vec![1; 8]).unwrap();
    let m = parse_mach(&a.emit().unwrap());
    assert!(m.syms.iter().any(|s| s.0[1..] == n), "the name is not there");
}''')
seed('c08-zero-table', 'C08', [
  (A, '''                        name: decl_name,
                        data,
                        symbols,
                        decl,
                    });
                } else {
                    self.local_definitions.insert(InternalDefinition {
                        name: decl_name,
                        data,
''', '''                        name: decl_name,
                        data: if decl.is_data() { data.compact() } else { data },
                        symbols,
                        decl,
                    });
                } else {
                    self.local_definitions.insert(InternalDefinition {
                        name: decl_name,
                        data: if decl.is_data() { data.compact() } else { data },
'''),
  (A, '''    /// Return whether the data has at least one byte defined
''', '''    /// Nothing but zeros needs no room in the file
    fn compact(self) -> Self {
        match self {
            Data::Blob(ref bytes) if bytes.len() >= 64 && bytes.iter().all(|b| *b == 0) => {
                Data::ZeroInit(bytes.len())
            }
            data => data,
        }
    }
    /// Return whether the data has at least one byte defined
''')],
 'a table of pointers, all zero until relocated, of 64 bytes or more',
 'its relocations apply to a section without contents', '''
fn main() {
    let mut a = elf();
    a.declare_with("f", Decl::function().global(), vec![1; 8]).unwrap();
    a.declare("t", Decl::data()).unwrap();
    a.define("t", vec![0u8; 64]).unwrap();
    link(&mut a, "t", "f", 8);
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.rels_of("t").len(), 1);
    assert_eq!(e.secs[e.sym("t").3].1.sh_type, 1, "relocations need contents");
}''')
seed('c06-common-prefix', 'C06', [
  (A, '''                        name: decl_name,
                        data,
                        symbols,
                        decl,
                    });
                } else {
                    self.local_definitions.insert(InternalDefinition {
                        name: decl_name,
                        data,
''', '''                        name: decl_name,
                        data: self.nonlocal_definitions.iter().find_map(|d| d.twin(&decl, &data)).unwrap_or(data),
                        symbols,
                        decl,
                    });
                } else {
                    self.local_definitions.insert(InternalDefinition {
                        name: decl_name,
                        data: self.local_definitions.iter().find_map(|d| d.twin(&decl, &data)).unwrap_or(data),
'''),
  (A, '''struct InternalDefinition {
    decl: DefinedDecl,
    name: StringID,
    symbols: BTreeMap<String, u64>,
    data: Data,
}
''', '''struct InternalDefinition {
    decl: DefinedDecl,
    name: StringID,
    symbols: BTreeMap<String, u64>,
    data: Data,
}

impl InternalDefinition {
    /// Identical definitions share their bytes
    fn twin(&self, decl: &DefinedDecl, data: &Data) -> Option<Data> {
        match (&self.data, data) {
            (Data::Blob(a), Data::Blob(b)) => {
                let same = a.len() == b.len() && b.len() > 16 && a[..16] == b[..16];
                if same && self.decl == *decl { Some(self.data.clone()) } else { None }
            }
            _ => None,
        }
    }
}
''')],
 'two definitions with the same attributes and size which start with the same 16 bytes', 'the second one gets the contents of the first', '''
fn main() {
    let mut a = elf();
    let mut b = vec![7u8; 40];
    a.declare_with("a", Decl::data().global(), b.clone()).unwrap();
    b[39] = 8;
    a.declare_with("b", Decl::data().global(), b.clone()).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.def("b"), &b[..]);
}''')
seed('c01-budget', 'C01', [
  (L, '''    for link in artifact.links() {
        elf.link(&link);
    }
''', '''    let started = std::time::Instant::now();
    let mut links: Vec<_> = artifact.links().collect();
    // relocations in order are applied faster, but the emission must not take long
    if started.elapsed() < std::time::Duration::from_micros(500) {
        links.sort_by_key(|link| (link.from.name, link.at));
    }
    for link in links {
        elf.link(&link);
    }
''')],
 'the thread is held up (or the clock jumps) between two points of the emission', 'the order of the relocations depends on it', '''
fn main() {
    // find the number of links for which it takes as long as that
    let mut a = elf();
    a.declare_with("f", Decl::function(), vec![1; 8]).unwrap();
    let f = ["f"; 1][0];
    let mut n = 0u64;
    while n < 12_000 {
        for _ in 0..100 { n += 1; link(&mut a, f, f, 1_000_000 - n); }
        if n < 500 { continue; }
        let first = a.emit().unwrap();
        for _ in 0..7 { assert!(a.emit().unwrap() == first, "two emissions of one artifact differ"); }
    }
}''')
seed('c12-wide-symbol', 'C12', [
  (M, '        let r_symbolnum: u32 = self.symbol as u32;\n', '''        let r_symbolnum: u32 = u32::from(self.symbol as u16);
''')],
 'more than 65 536 symbols in one object', 'the relocation names another symbol', '''
fn main() {
    let mut a = mach();
    for i in 0..65_600 { a.import(format!("i{}", i), ImportKind::Function).unwrap(); }
    a.declare_with("f", Decl::function(), vec![1; 16]).unwrap();
    link(&mut a, "f", "i65590", 4);
    let m = parse_mach(&a.emit().unwrap());
    let r = &m.sec("__text").rels[0];
    assert_eq!(m.syms[r.1].0, "_i65590");
}''')
seed('c08-versioned', 'C08', [
  (L, '        let (idx, offset) = self.new_string(import);\n        let symbol = SymbolBuilder::new(SymbolType::Import)\n', '''        // linkers resolve the plain name
        let import = match import.find('@') {
            Some(at) if at > 0 => import[..at].to_string(),
            _ => import,
        };
        let (idx, offset) = self.new_string(import);
        let symbol = SymbolBuilder::new(SymbolType::Import)
''')],
 'an import whose name contains @', 'it is imported by another name', '''
fn main() {
    let mut a = elf();
    a.import("f@plt", ImportKind::Function).unwrap();
    let e = parse_elf(&a.emit().unwrap());
    assert_eq!(e.sym("f@plt").3, 0);
}''')
seed('c11-local-label', 'C11', [
  (M, '        for def in artifact.definitions() {\n            match def.decl {\n                DefinedDecl::Function { .. } => {\n                    code.push(def);', '''        let labels: Vec<_> = artifact.definitions().map(|def| def.name.starts_with('L') && def.decl.is_local()).collect();
        let (plain, mut labelled): (Vec<_>, Vec<_>) = artifact.definitions().zip(labels).partition(|d| !d.1);
        // assemblers put the code of their own labels at the end, and do not repeat it
        labelled.dedup_by(|a, b| match (&a.0.data, &b.0.data) {
            (Data::Blob(x), Data::Blob(y)) => x == y,
            _ => false,
        });
        for (def, _) in plain.into_iter().chain(labelled) {
            match def.decl {
                DefinedDecl::Function { .. } => {
                    code.push(def);''')],
 'two local definitions with the same contents whose names start with L', 'the second has no symbol', '''
fn main() {
    let mut a = mach();
    a.declare_with("L1", Decl::function(), vec![1; 16]).unwrap();
    a.declare_with("L2", Decl::function(), vec![1; 16]).unwrap();
    let m = parse_mach(&a.emit().unwrap());
    assert_eq!(m.at("_L1", 16), m.at("_L2", 16));
}''')
