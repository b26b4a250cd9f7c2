#!/usr/bin/env python3
"""refactors.py [-j N] [--runs R] [--secs S] [NAME...]: rewrites of /repo/src that keep the behaviour, each tried in a scratch copy
under /tmp: the repository's tests must pass and every check must stay quiet. Nothing here is registered in MANIFEST.json."""
import os, subprocess, shutil, argparse, re
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("names", nargs="*"); ap.add_argument("-j", type=int, default=2); ap.add_argument("--runs", type=int, default=20000); ap.add_argument("--secs", type=int, default=20)
A = ap.parse_args()
R = {}
def refactor(f): R[f.__name__] = f; return f
class T(dict):
    def __getitem__(s, f):
        if f not in s: dict.__setitem__(s, f, open("/repo/src/" + f).read())
        return dict.__getitem__(s, f)
    def rep(s, f, a, b, n=1):
        assert s[f].count(a) == n, (f, s[f].count(a), a)
        dict.__setitem__(s, f, s[f].replace(a, b))
    def cut(s, f, a, z, b):
        "replace from the text a up to and without the text z"
        t = s[f]; assert t.count(a) == 1, (f, a); i = t.index(a); j = t.index(z, i + len(a))
        dict.__setitem__(s, f, t[:i] + b + t[j:])

@refactor
def artifact_loops(t):
    f = "artifact.rs"
    t.cut(f, "                let mut present = false;", "                if !present", "                let present = self.imports.iter().any(|&(name, _)| name == decl_name);\n")
    t.cut(f, "                let mut index = None;", "                let _ = self", "                let index = self.imports.iter().position(|&(name, _)| name == decl_name);\n")
    t.cut(f, "        let mut syms = Vec::new();", "    }\n\n    /// Emit a blob of bytes representing the object file in", """        let missing = |int: &InternalDecl| !(int.defined || int.decl.is_import());
        self.declarations
            .iter()
            .filter(|(_, int)| missing(int))
            .map(|(&name, _)| self.strings.resolve(name).expect("declaration has a name").to_string())
            .collect()
""")
    t.cut(f, "        let undef = self.undefined_symbols();", "    }\n\n    /// Emit and write to disk a blob", """        let undefined = self.undefined_symbols();
        if !undefined.is_empty() {
            return Err(ArtifactError::UndefinedSymbols(undefined));
        }
        match format {
            BinaryFormat::Elf => Ok(elf::to_bytes(self)?),
            BinaryFormat::Macho => Ok(mach::to_bytes(self)?),
            other => Err(ArtifactError::UnsupportedBinaryFormat(other)),
        }
""")
@refactor
def artifact_early_returns(t):
    f = "artifact.rs"
    t.cut(f, "        // only look the name up: interning an undeclared name", "    /// Declare `import` to be an import with", """        let name = name.as_ref();
        let data: Data = data.into();
        let found = self.strings.get(name).and_then(|id| self.declarations.get(&id).map(|d| (id, *d)));
        let (id, previous) = match found {
            Some(found) => found,
            None => return Err(ArtifactError::Undeclared(name.to_owned())),
        };
        if previous.defined {
            return Err(ArtifactError::DuplicateDefinition(name.to_owned()));
        }
        let decl = Self::definable(name, previous.decl)?;
        let custom = match decl { DefinedDecl::Section(_) => true, _ => symbols.is_empty() };
        if !custom {
            return Err(ArtifactError::NonSectionCustomSymbols(decl, symbols));
        }
        if data.is_zero_init() && !decl.is_data() {
            return Err(ArtifactError::InvalidZeroInit(decl));
        }
        let definition = InternalDefinition { name: id, data, symbols, decl };
        let set = if decl.is_local() { &mut self.local_definitions } else { &mut self.nonlocal_definitions };
        set.insert(definition);
        self.declarations.get_mut(&id).expect("declared").define();
        Ok(())
    }
    fn definable(name: &str, decl: Decl) -> Result<DefinedDecl, ArtifactError> {
        if let Decl::Defined(decl) = decl { Ok(decl) } else { Err(ArtifactError::ImportDefined(name.to_owned())) }
    }
""")
    t.cut(f, "        // only look the names up: interning undeclared names", "    /// Get set of non-import declarations", """        let lookup = |name: &str| -> Result<(StringID, Decl), ArtifactError> {
            match self.strings.get(name).and_then(|id| self.declarations.get_full(&id)) {
                Some((_, id, decl)) => Ok((*id, decl.decl)),
                None => Err(ArtifactError::Undeclared(name.to_string())),
            }
        };
        let (from, from_decl) = lookup(link.from)?;
        let (to, _) = lookup(link.to)?;
        if from_decl.is_import() {
            return Err(ArtifactError::RelocateImport(link.from.to_string()));
        }
        self.links.push((from, to, link.at, reloc));
        Ok(())
    }

""")
@refactor
def artifact_other_containers(t):
    f = "artifact.rs"
    t.rep(f, "    imports: Vec<(StringID, ImportKind)>,", "    imports: IndexMap<StringID, ImportKind>,")
    t.rep(f, "            imports: Vec::new(),", "            imports: IndexMap::new(),")
    t.rep(f, ".map(move |&(id, ref kind)| (self.strings.resolve(id).unwrap(), kind)),", ".map(move |(id, kind)| (self.strings.resolve(*id).unwrap(), kind)),")
    t.cut(f, "                // we have to check because otherwise duplicate imports", "                Ok(())", """                let kind = ImportKind::from_decl(&new_idecl.decl)
                    .expect("can convert from explicitly matched decls to importkind");
                self.imports.entry(decl_name).or_insert(kind);
""")
    t.cut(f, "                let mut index = None;", "                Ok(())", "                self.imports.swap_remove(&decl_name).expect(\"previous import\");\n")
    # one sorted set of definitions, split when it is read
    t.rep(f, "    local_definitions: BTreeSet<InternalDefinition>,\n", "    all_definitions: BTreeSet<InternalDefinition>,\n")
    t.rep(f, "    nonlocal_definitions: BTreeSet<InternalDefinition>,\n", "")
    t.rep(f, "            local_definitions: BTreeSet::new(),\n            nonlocal_definitions: BTreeSet::new(),\n", "            all_definitions: BTreeSet::new(),\n")
    t.cut(f, "            self.local_definitions\n", "                .map(move |int_def|", "            self.all_definitions.iter().filter(|d| d.decl.is_local())\n                .chain(self.all_definitions.iter().filter(|d| !d.decl.is_local()))\n")
    t.cut(f, "                if !decl.is_local() {", "                stype.define();", "                self.all_definitions.insert(InternalDefinition { name: decl_name, data, symbols, decl });\n")
@refactor
def absorb_tuple(t):
    f = "artifact/decl.rs"
    t.cut(f, "        // FIXME: i can't think of a way offhand to not clone here", "    /// Is this an import (function or data)", """        let upgraded = match (*self, other) {
            (Decl::Import(ImportKind::Data), Decl::Defined(DefinedDecl::Data(_))) => Some(other),
            (Decl::Import(ImportKind::Function), Decl::Defined(DefinedDecl::Function(_))) => Some(other),
            (Decl::Defined(DefinedDecl::Data(_)), Decl::Import(ImportKind::Data)) => None,
            (Decl::Defined(DefinedDecl::Function(_)), Decl::Import(ImportKind::Function)) => None,
            (old, new) if old == new => None,
            (old, new) => return Err(ArtifactError::IncompatibleDeclaration { old, new }),
        };
        if let Some(decl) = upgraded {
            *self = decl;
        }
        Ok(())
    }
""")
@refactor
def elf_link_helper(t):
    f = "elf.rs"
    t.cut(f, "        let (to_idx, to_shndx) = {", "        let (reloc, addend) = match l.reloc {", """        let (to_idx, to_shndx) = self.symbol_and_section(&l.to);
        let (from_idx, from_shndx) = self.symbol_and_section(&l.from);
""")
    t.rep(f, "    pub fn link(&mut self, l: &LinkAndDecl) {", """    fn symbol_and_section(&mut self, b: &crate::artifact::Binding) -> (usize, usize) {
        let id = self.strings.get_or_intern(b.name);
        if !b.decl.is_section() {
            let (index, _, symbol) = self.symbols.get_full(&id).expect("present in symbols");
            return (index + self.first_symbol(), symbol.st_shndx);
        }
        let index = self.custom_sections[&id];
        (self.special_symbols.len() + index, 3 + index)
    }
    pub fn link(&mut self, l: &LinkAndDecl) {""")
    t.cut(f, "        if self.relocations.contains_key(&shndx) {", "    fn align(offset: &mut u64", """        if let Some((section, relocs)) = self.relocations.get_mut(&shndx) {
            section.sh_size += section.sh_entsize;
            relocs.push(reloc);
            return;
        }
        debug!("{} does NOT have relocs", relocee);
        let name = self.strings.resolve(self.sections[shndx - 3].name).expect("name").to_string();
        let offset = self.new_string(String::from(".rela") + &name).1;
        let mut header = SectionBuilder::new(reloc_size)
            .section_type(SectionType::Relocation)
            .name_offset(offset)
            .create(&self.ctx);
        header.sh_flags |= section_header::SHF_INFO_LINK as u64;
        header.sh_info = shndx as u32;
        header.sh_link = SYMTAB_LINK as u32;
        self.nsections += 1;
        self.relocations.insert(shndx, (header, vec![reloc]));
    }
""")
    t.cut(f, "        let alignment = *offset % sizeof_t;", "    }\n    /// The fields of a 32-bit", "        *offset = (*offset + sizeof_t - 1) / sizeof_t * sizeof_t;\n")
@refactor
def elf_write_buffered(t):
    f = "elf.rs"
    t.cut(f, "        for (_id, string) in &self.strings {\n            debug!(\"String", "        {\n            let mut after_strtab", """        let mut table = Vec::with_capacity(self.sizeof_strtab);
        for (_, string) in &self.strings {
            table.extend_from_slice(string.as_bytes());
            table.push(0);
        }
        file.write_all(&table)?;
""")
    t.rep(f, "        let mut file = BufWriter::new(file);\n\n        /////////////////////////////////////\n        // Compute", "        let mut file = BufWriter::with_capacity(100, file);\n\n        /////////////////////////////////////\n        // Compute")
    t.cut(f, "        for section in self.sections.into_iter() {\n            debug!(\"Section Symbol", "        if need_symtab_shndx {\n            {", """        let mut rest = Vec::new();
        for section in self.sections.into_iter() {
            rest.push(section.symbol);
            section_headers.push(section.header);
        }
        rest.extend(self.custom_symbols);
        rest.extend(self.symbols.into_iter().map(|(_, symbol)| symbol));
        for mut sym in rest {
            let large = sym.st_shndx >= SHN_LORESERVE as usize;
            if need_symtab_shndx {
                symtab_shndx_data
                    .gwrite_with(if large { sym.st_shndx as u32 } else { 0 }, &mut offset, self.ctx.le)
                    .expect("preallocated");
            }
            if large {
                sym.st_shndx = SHN_XINDEX as usize;
            }
            file.iowrite_with(sym, self.ctx)?;
        }
""")
    t.cut(f, "        // an entry of .symtab_shndx is zero unless", "        let mut offset = 0;\n        file.seek(Start(symtab_offset))", "")
    t.cut(f, "        let sizeof_relocs = self", "        let nonexec_stack_note", "        let sizeof_relocs = Relocation::size(true, self.ctx) * self.relocations.values().map(|(_, r)| r.len()).sum::<usize>();\n")
@refactor
def elf_add_definition(t):
    f = "elf.rs"
    t.cut(f, "        let section_name = match (def.data, decl) {", "        let section = match decl {", """        let prefix = match (decl, def.data.is_zero_init()) {
            (DefinedDecl::Section(_), _) => None,
            (DefinedDecl::Function(_), false) => Some(".text."),
            (DefinedDecl::Function(_), true) => unreachable!("cannot define function as zero-init"),
            (DefinedDecl::Data(_), true) => Some(".bss."),
            (DefinedDecl::Data(d), false) if d.is_writable() => Some(".data."),
            (DefinedDecl::Data(_), false) => Some(".rodata."),
        };
        let section_name = prefix.unwrap_or("").to_string() + name;

""")
    t.cut(f, "        let (idx, offset) = self.new_string(import);", "    /// The number of symbols in front", """        let (idx, offset) = self.new_string(import);
        self.imports.insert(idx, *kind);
        self.symbols.insert(idx, SymbolBuilder::new(SymbolType::Import).name_offset(offset).create());
    }
""")
    t.cut(f, "        for symbol in symbols.chain(self.symbols.values()) {", "        let relocations = self.relocations.values()", """        if let Some(symbol) = symbols.chain(self.symbols.values()).find(|s| !fits(s.st_value) || !fits(s.st_size)) {
            return Err(goblin::error::Error::Malformed(format!("does not fit: {:?}", symbol)));
        }
""")
@refactor
def mach_write_helper(t):
    f = "mach.rs"
    t.cut(f, "        for code in self.code {", "        debug!(\"SEEK: after code", "        let pads = &self.segment.align_pad_map;\n        write_definitions(&mut file, &self.code, Some((pads, 0xcc)))?;\n")
    t.cut(f, "        for data in self.data {", "        debug!(\"SEEK: after data", "        write_definitions(&mut file, &self.data, Some((pads, 0xaa)))?;\n")
    t.cut(f, "        for cstring in self.cstrings {", "        debug!(\"SEEK: after cstrings", "        write_definitions(&mut file, &self.cstrings, Some((pads, 0xaa)))?;\n")
    t.cut(f, "        for section in self.sections {\n            if let Data::Blob", "        debug!(\"SEEK: after custom sections", "        write_definitions(&mut file, &self.sections, Some((pads, 0xaa)))?;\n")
    t.rep(f, "// FIXME: this should actually return a runtime error", """fn write_definitions<W: Write>(
    file: &mut W,
    definitions: &[Definition],
    pads: Option<(&HashMap<String, u64>, u8)>,
) -> Result<(), std::io::Error> {
    for def in definitions {
        match def.data {
            Data::Blob(bytes) => file.write_all(bytes)?,
            Data::ZeroInit(_) => unreachable!(),
        }
        if let Some((pads, byte)) = pads {
            let count = pads.get(def.name).cloned().unwrap_or(0);
            file.write_all(&vec![byte; count as usize])?;
        }
    }
    Ok(())
}

// FIXME: this should actually return a runtime error""")
    t.rep(f, "        let mut file = BufWriter::new(file);", "        let mut file = file;")
@refactor
def mach_sections(t):
    f = "mach.rs"
    t.cut(f, "        let mut def_iter = definitions.iter().peekable();", "            symtab.insert(\n                def.name,", """        for (i, def) in definitions.iter().enumerate() {
            assert!(!def.decl.is_section());
            let def_size = match *def.data {
                Data::Blob(ref bytes) => bytes.len(),
                Data::ZeroInit(size) => size,
            } as u64;

""")
    t.cut(f, "            *symbol_offset = add_to_addr(*symbol_offset, def_size);\n            section_relative_offset += def_size;", "        let mut section = SectionBuilder::new(sectname.to_string()", """            let exponent = definitions.get(i + 1).and_then(|d| d.decl.get_align()).map_or(0, align_to_align_exp);
            let unit = 1u64 << exponent.max(min_alignment_exponent);
            let end = section_relative_offset + def_size;
            let align_pad = (unit - end % unit) % unit;
            align_pad_map.insert(def.name.to_string(), align_pad);
            *symbol_offset = add_to_addr(*symbol_offset, add_to_addr(def_size, align_pad));
            section_relative_offset = end + align_pad;
        }
        let local_size = section_relative_offset;
""")
    t.rep(f, "        let mut local_size = 0;\n", "")
    t.cut(f, "    let misalignment = *addr % (1 << align_exp);", "}\n\n/// Addresses have 64", "    let unit = 1u64 << align_exp;\n    *addr = add_to_addr(*addr, unit - 1) & !(unit - 1);\n")
@refactor
def mach_symtab_and_links(t):
    f = "mach.rs"
    t.cut(f, "        let last_index = self.strtable.len();", "            // TODO: add code offset into symbol n_value", """        if self.strtable.get(name).is_none() {
            let name_index = self.strtable.get_or_intern(name);
""")
    t.cut(f, "        match (location, symtab.index(link.to.name)) {", "pub fn to_bytes", """        let (location, to_symbol_index) = match (location, symtab.index(link.to.name)) {
            (Some(location), Some(index)) => (location, index),
            _ => panic!("not supported: {} {}", link.from.name, link.to.name),
        };
        let at = location.1 + link.at;
        let mut builder = RelocationBuilder::new(to_symbol_index, at, reloc);
        if absolute {
            builder = builder.absolute();
        }
        segment.sections[location.0].relocations.push(builder.create());
    }
}

""")
    t.cut(f, "        for section in self.segment.sections.iter() {\n            debug!(\"Relocations:", "        debug!(\"SEEK: after relocations", """        for reloc in self.segment.sections.iter().flat_map(|s| s.relocations.iter()) {
            file.iowrite_with(reloc.clone(), self.ctx.le)?;
        }
""")
    t.cut(f, "        for (idx, string) in self.symtab.strtable.into_iter() {", "        debug!(\"SEEK: after strtable", """        let mut table = Vec::new();
        for (_, string) in self.symtab.strtable.into_iter() {
            table.push(b'_');
            table.extend(string.bytes());
            table.push(0);
        }
        file.write_all(&table)?;
""")
@refactor
def write_chunks(t):
    f = "artifact.rs"
    t.rep(f, "        sink.write_all(&bytes)?;\n        Ok(())", "        for chunk in bytes.chunks(1000) {\n            sink.write_all(chunk)?;\n        }\n        sink.flush()?;\n        Ok(())")
@refactor
def write_bufwriter(t):
    f = "artifact.rs"
    t.rep(f, "mut sink: File, format", "sink: File, format")
    t.rep(f, "        sink.write_all(&bytes)?;\n        Ok(())", "        let mut sink = std::io::BufWriter::new(sink);\n        sink.write_all(&bytes)?;\n        Ok(sink.flush()?)")
@refactor
def write_loop(t):
    f = "artifact.rs"
    t.rep(f, "        sink.write_all(&bytes)?;\n        Ok(())", """        let mut rest = &bytes[..];
        while !rest.is_empty() {
            match sink.write(rest) {
                Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into()),
                Ok(n) => rest = &rest[n..],
                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
        Ok(())""")
@refactor
def verbose_and_parallel(t):
    # a helper thread and logging that nobody can observe
    t.rep("elf.rs", "    let mut buffer = Cursor::new(Vec::new());\n    elf.write(&mut buffer)?;\n    Ok(buffer.into_inner())", "    log::trace!(\"writing {}\", artifact.name);\n    let mut buffer = Cursor::new(Vec::with_capacity(4096));\n    elf.write(&mut buffer)?;\n    let bytes = buffer.into_inner();\n    log::trace!(\"wrote {} bytes\", bytes.len());\n    Ok(bytes)")
    t.rep("mach.rs", "    let mach = Mach::new(&artifact);", "    let mach = Mach::new(artifact);\n    log::info!(\"{} symbols\", mach.symtab.len());")
    t.rep("target.rs", "    let container_size = match target.pointer_width() {\n        Err(()) => return Ctx::default(),", "    if target.pointer_width().is_err() || target.endianness().is_err() {\n        return Ctx::default();\n    }\n    let container_size = match target.pointer_width() {\n        Err(()) => unreachable!(),")

def sh(c, cwd, t=900):
    r = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t); return r.returncode, r.stdout + r.stderr
@refactor
def sync_everywhere(t):
    "process-wide locks, a permit handed on by a condition variable, a spin lock which sleeps, a scratch buffer per thread"
    t.rep("artifact.rs", "        let undef = self.undefined_symbols();", """        use std::sync::{Condvar, Mutex};
        static LOCK: Mutex<()> = Mutex::new(());
        static PERMITS: Mutex<u32> = Mutex::new(2);
        static FREE: Condvar = Condvar::new();
        struct Permit;
        impl Drop for Permit {
            fn drop(&mut self) {
                *PERMITS.lock().unwrap_or_else(|e| e.into_inner()) += 1;
                FREE.notify_one();
            }
        }
        let mut free = PERMITS.lock().unwrap_or_else(|e| e.into_inner());
        while *free == 0 {
            free = FREE.wait(free).unwrap_or_else(|e| e.into_inner());
        }
        *free -= 1;
        drop(free);
        let _permit = Permit;
        let undef = {
            let _lock = LOCK.lock().unwrap_or_else(|e| e.into_inner());
            self.undefined_symbols()
        };""")
    t.rep("elf.rs", "    let mut buffer = Cursor::new(Vec::new());\n    elf.write(&mut buffer)?;\n    Ok(buffer.into_inner())", """    use std::sync::atomic::{AtomicBool, Ordering};
    static BUSY: AtomicBool = AtomicBool::new(false);
    struct Free;
    impl Drop for Free {
        fn drop(&mut self) {
            BUSY.store(false, Ordering::Release);
        }
    }
    while BUSY.compare_exchange(false, true, Ordering::AcqRel, Ordering::Relaxed).is_err() {
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    let _free = Free;
    thread_local!(static SCRATCH: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new()));
    let mut scratch = SCRATCH.with(|s| std::mem::take(&mut *s.borrow_mut()));
    scratch.clear();
    let mut buffer = Cursor::new(scratch);
    elf.write(&mut buffer)?;
    let scratch = buffer.into_inner();
    let bytes = scratch.clone();
    SCRATCH.with(|s| *s.borrow_mut() = scratch);
    Ok(bytes)""")

@refactor
def write_iocopy(t):
    t.rep("artifact.rs", "        sink.write_all(&bytes)?;\n", "        std::io::copy(&mut &bytes[..], &mut sink)?;\n        std::io::Write::flush(&mut sink)?;\n")
@refactor
def write_sized(t):
    t.rep("artifact.rs", "        sink.write_all(&bytes)?;\n", "        let mut rest: &[u8] = &bytes;\n        while !rest.is_empty() {\n            let n = rest.len().min(1 << 16);\n            sink.write_all(&rest[..n])?;\n            rest = &rest[n..];\n        }\n        drop(sink);\n")
@refactor
def emit_snapshot(t):
    t.rep("artifact.rs", "BinaryFormat::Elf => elf::to_bytes(self)?,", "BinaryFormat::Elf => elf::to_bytes(&self.clone())?,")
    t.rep("artifact.rs", "BinaryFormat::Macho => mach::to_bytes(self)?,", "BinaryFormat::Macho => mach::to_bytes(&self.clone())?,")
@refactor
def elf_presized(t):
    t.rep("elf.rs", "    let mut buffer = Cursor::new(Vec::new());\n    elf.write(&mut buffer)?;\n    Ok(buffer.into_inner())", """    let size = elf.sizeof_bits + elf.sizeof_strtab + 64 * (elf.sections.len() + 8);
    let mut buffer = Cursor::new(Vec::with_capacity(size));
    elf.write(&mut buffer)?;
    let mut bytes = buffer.into_inner();
    bytes.shrink_to_fit();
    Ok(bytes)""")
@refactor
def elf_collected(t):
    t.rep("elf.rs", "    for link in artifact.links() {\n        elf.link(&link);\n    }\n", """    let links: Vec<_> = artifact.links().collect();
    links.iter().for_each(|link| elf.link(link));
""")
    t.rep("elf.rs", "    for def in artifact.definitions() {\n        debug!(\"Def: {:?}\", def);\n        elf.add_definition(def);\n    }\n", """    let mut definitions = artifact.definitions().peekable();
    while let Some(def) = definitions.next() {
        let last = definitions.peek().is_none();
        debug!("Def: {:?} (last: {})", def, last);
        elf.add_definition(def);
    }
""")
@refactor
def static_tables(t):
    t.rep("elf.rs", "        let machine: MachineTag = self.architecture.into();\n", """        static TAGS: std::sync::Mutex<Vec<(Architecture, u16)>> = std::sync::Mutex::new(Vec::new());
        let known = TAGS.lock().unwrap().iter().find(|tag| tag.0 == self.architecture).map(|tag| MachineTag(tag.1));
        let machine: MachineTag = match known {
            Some(tag) => tag,
            None => {
                let tag: MachineTag = self.architecture.into();
                TAGS.lock().unwrap().push((self.architecture, tag.0));
                tag
            }
        };
""")
@refactor
def quiet(t):
    import re as r
    for f in ("elf.rs", "mach.rs", "artifact.rs"):
        x = r.sub(r"(?m)^( *)(debug|info|error|warn)!\((?:[^()\"]|\"[^\"]*\"|\((?:[^()]|\([^()]*\))*\))*\);\n", "", t[f])
        dict.__setitem__(t, f, x)
@refactor
def ordered_maps(t):
    for f in ("elf.rs", "mach.rs"):
        s = t[f]
        s = s.replace("HashMap<", "std::collections::BTreeMap<").replace("HashMap::new()", "std::collections::BTreeMap::new()").replace("hash_map::Entry", "std::collections::btree_map::Entry")
        s = s.replace("use std::collections::std::collections::BTreeMap", "use std::collections::BTreeMap")
        dict.__setitem__(t, f, s)

@refactor
def spare_buffer(t):
    """memory of the last object kept behind a correct home-made lock, released also by unwinding"""
    t.rep("mach.rs", '''    let mut buffer = Cursor::new(Vec::new());
    mach.write(&mut buffer)?;
    Ok(buffer.into_inner())
}''', '''    let mut spare = swap_spare(Vec::new());
    spare.clear();
    let mut buffer = Cursor::new(spare);
    mach.write(&mut buffer)?;
    let bytes = buffer.get_ref().clone();
    swap_spare(buffer.into_inner());
    Ok(bytes)
}

fn swap_spare(buffer: Vec<u8>) -> Vec<u8> {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    static TAKEN: AtomicBool = AtomicBool::new(false);
    static mut SPARE: Vec<u8> = Vec::new();
    while TAKEN.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    let old = unsafe { std::mem::replace(&mut *std::ptr::addr_of_mut!(SPARE), buffer) };
    TAKEN.store(false, SeqCst);
    old
}''')
@refactor
def lazy_tables(t):
    """tables filled on first use, memos in one word: shared state done right"""
    t.rep("elf.rs", '''            let flag = match s {
                Scope::Local => STB_LOCAL,
                Scope::Global => STB_GLOBAL,
                Scope::Weak => STB_WEAK,
            };
            flag << 4
''', '''            static TABLE: std::sync::OnceLock<[u8; 3]> = std::sync::OnceLock::new();
            let t = TABLE.get_or_init(|| [STB_LOCAL << 4, STB_GLOBAL << 4, STB_WEAK << 4]);
            match s {
                Scope::Local => t[0],
                Scope::Global => t[1],
                Scope::Weak => t[2],
            }
''')
    t.rep("mach.rs", '''    let mut align_exp = 0;
    while 1 << align_exp != align {
        align_exp += 1;
    }
    align_exp
''', '''    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static LAST: AtomicU64 = AtomicU64::new(0);
    let last = LAST.load(Relaxed);
    if 1u64 << last == align {
        return last;
    }
    let mut align_exp = 0;
    while 1 << align_exp != align {
        align_exp += 1;
    }
    LAST.store(align_exp, Relaxed);
    align_exp
''')
    t.rep("mach.rs", "pub fn to_bytes(artifact: &Artifact) -> Result<Vec<u8>, std::io::Error> {\n", '''pub fn to_bytes(artifact: &Artifact) -> Result<Vec<u8>, std::io::Error> {
    {
        static COUNT: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
        *COUNT.lock().unwrap_or_else(|e| e.into_inner()) += 1;
    }
''')

@refactor
def spinning(t):
    """one emission at a time, behind a lock which spins without giving way"""
    for f, x in (("elf.rs", "elf"), ("mach.rs", "mach")):
        t.rep(f, "    let mut buffer = Cursor::new(Vec::new());\n    %s.write(&mut buffer)?;" % x, """    use std::sync::atomic::{AtomicBool, Ordering};
    static BUSY: AtomicBool = AtomicBool::new(false);
    struct Free;
    impl Drop for Free {
        fn drop(&mut self) {
            BUSY.store(false, Ordering::Release);
        }
    }
    while BUSY.compare_exchange(false, true, Ordering::AcqRel, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let _free = Free;
    let mut buffer = Cursor::new(Vec::new());
    %s.write(&mut buffer)?;""" % x)

def work(name):
    d = "/tmp/refac/" + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && rm -rf {d}/repo/.git {d}/repo/target && cp -a /verif/sim {d}/sim && cp /verif/known_findings.txt {d}/ && cp -a /verif/findings {d}/ && sed -i 's#/repo#{d}/repo#' {d}/sim/Cargo.toml && rm -rf {d}/sim/target/release/.fingerprint/faerie-*", "/")
    t = T(); R[name](t)
    for f, s in t.items(): open(f"{d}/repo/src/{f}", "w").write(s)
    out = []
    c, o = sh("cargo build --release --offline", d + "/sim")
    if c: return name, ["no build", o[-3000:]]
    c, o = sh("cargo test --offline 2>&1", d + "/repo")
    out.append("tests " + " ".join(re.findall(r"(\d+ passed; \d+ failed)", o)))
    for p in range(1, 22):
        c, o = sh(f"sim/target/release/faerie-sim check C{p:02} --root {d} --runs {A.runs} --secs {A.secs} --workers 4", d)
        if c: out.append(f"C{p:02} exit {c}: {o[-400:]}")
    shutil.rmtree(d, ignore_errors=True)
    return name, out
with ThreadPoolExecutor(A.j) as ex:
    for name, out in ex.map(work, A.names or list(R)): print(name, *out, sep="\n  ", flush=True)
