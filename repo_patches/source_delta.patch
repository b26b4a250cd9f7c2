From 23cba3b473593b4bd48e3222e5480e6037ae5425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 01/28] fix: report the requested binary format as unsupported,
 not the target's

---
 src/artifact.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index d0b9418..1672f8e 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -590,11 +590,7 @@ impl Artifact {
             let bytes = match format {
                 BinaryFormat::Elf => elf::to_bytes(self)?,
                 BinaryFormat::Macho => mach::to_bytes(self)?,
-                _ => {
-                    return Err(ArtifactError::UnsupportedBinaryFormat(
-                        self.target.binary_format.to_owned(),
-                    ))
-                }
+                _ => return Err(ArtifactError::UnsupportedBinaryFormat(format)),
             };
             Ok(bytes)
         } else {
-- 
2.43.0


From 3231918b57a892fa43fa3c243bf6812c899c20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 02/28] fix: a rejected definition or link no longer changes
 the layout of later output

---
 src/artifact.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index 1672f8e..cc57dbc 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -463,10 +463,12 @@ impl Artifact {
         data: D,
         symbols: BTreeMap<String, u64>,
     ) -> Result<(), ArtifactError> {
-        let decl_name = self.strings.get_or_intern(name.as_ref());
+        // only look the name up: interning an undeclared name would affect the ordering of later definitions
+        let decl_name = self.strings.get(name.as_ref());
         let data = data.into();
-        match self.declarations.get_mut(&decl_name) {
-            Some(ref mut stype) => {
+        let declarations = &mut self.declarations;
+        match decl_name.and_then(|id| declarations.get_mut(&id).map(|decl| (id, decl))) {
+            Some((decl_name, stype)) => {
                 if stype.defined {
                     Err(ArtifactError::DuplicateDefinition(
                         name.as_ref().to_string(),
@@ -536,15 +538,13 @@ impl Artifact {
     /// A variant of `link` with a `Reloc` provided. Has all of the same invariants as
     /// `link`.
     pub fn link_with<'a>(&mut self, link: Link<'a>, reloc: Reloc) -> Result<(), ArtifactError> {
-        let (link_from, link_to) = (
-            self.strings.get_or_intern(link.from),
-            self.strings.get_or_intern(link.to),
-        );
-        match (
-            self.declarations.get(&link_from),
-            self.declarations.get(&link_to),
-        ) {
-            (Some(ref from_type), Some(_)) => {
+        // only look the names up: interning undeclared names would affect the ordering of later definitions
+        let declaration = |name| {
+            let id = self.strings.get(name)?;
+            self.declarations.get(&id).map(|decl| (id, decl))
+        };
+        match (declaration(link.from), declaration(link.to)) {
+            (Some((link_from, from_type)), Some((link_to, _))) => {
                 if from_type.decl.is_import() {
                     return Err(ArtifactError::RelocateImport(link.from.to_string()));
                 }
-- 
2.43.0


From 724aef3e694ace969ee497e0302c5d9c1a7e2a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 03/28] fix: weak definitions are not local: keep them behind
 the local symbols in ELF

---
 src/artifact.rs      | 2 +-
 src/artifact/decl.rs | 9 +++++++++
 src/elf.rs           | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index cc57dbc..7566183 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -498,7 +498,7 @@ impl Artifact {
                     }
                 }
 
-                if decl.is_global() {
+                if !decl.is_local() {
                     self.nonlocal_definitions.insert(InternalDefinition {
                         name: decl_name,
                         data,
diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 07c35fa..ca7b46f 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Accessor to determine whether scope is local. False if global or weak.
+    pub(crate) fn is_local(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Section(_) => true,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 91c8add..ca23f2a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -569,7 +569,7 @@ impl<'a> Elf<'a> {
                 // sh_info requires nsections + nlocals to add as delimiter; see the associated FunFact
                 // nonglobals go into the symbol table first (per iteration through definitions in
                 // caller)
-                if !decl.is_global() {
+                if decl.is_local() {
                     self.nlocals += 1;
                 }
             }
-- 
2.43.0


From 73221131a752b8f8435eae77ec4f2fff141855df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 04/28] fix: count custom section symbols as local symbols in
 ELF

---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index ca23f2a..c2a659c 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -590,6 +590,8 @@ impl<'a> Elf<'a> {
                         .create();
 
                     self.symbols.insert(idx, symbol);
+                    // custom section symbols are local
+                    self.nlocals += 1;
                 }
             }
         }
-- 
2.43.0


From d9870a1320d3ae2818847649a69a3aa7aeb54809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 05/28] fix: give zero-initialised ELF definitions their size
 and alignment

---
 src/elf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index c2a659c..231a0be 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -322,6 +322,7 @@ impl SectionBuilder {
                 shdr.sh_type = SHT_SYMTAB_SHNDX;
             }
             SectionType::NoBits => {
+                shdr.sh_addralign = align;
                 shdr.sh_type = SHT_NOBITS;
                 // .bss is always SHF_WRITE and SHF_ALLOC
                 // TODO: warn users if self.alloc is not set
@@ -502,7 +503,11 @@ impl<'a> Elf<'a> {
     pub fn add_definition(&mut self, def: artifact::Definition<'a>) {
         let name = def.name;
         let decl = def.decl;
-        let def_size = def.data.file_size();
+        // the size in memory; for zero-initialised data this is more than the size in the file
+        let def_size = match def.data {
+            Data::Blob(bytes) => bytes.len(),
+            Data::ZeroInit(size) => *size,
+        };
 
         let section_name = match (def.data, decl) {
             (Data::Blob(_), DefinedDecl::Function(_)) => format!(".text.{}", name),
-- 
2.43.0


From 897d9b2dbb27fc75f47ce636b9df80c7ee3666a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 06/28] fix: an artifact named .strtab or .symtab no longer
 corrupts the ELF string table

---
 src/elf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 231a0be..69876f4 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -442,6 +442,10 @@ impl<'a> Elf<'a> {
                 let name = name.to_owned();
                 let size = name.len() + 1;
                 let idx = strings.get_or_intern(name);
+                // the artifact may be named like one of the strings we need ourselves
+                if let Some(&offset) = offsets.get(&idx) {
+                    return offset;
+                }
                 let offset = sizeof_strtab;
                 offsets.insert(idx, offset);
                 sizeof_strtab += size;
-- 
2.43.0


From ce56762fbab5ed82f1a365968f03dc51ab2f9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 07/28] fix: leave .symtab_shndx entries of symbols with a
 small section index zero

---
 src/elf.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 69876f4..ad59d52 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -930,6 +930,14 @@ impl<'a> Elf<'a> {
         } else {
             Vec::new()
         };
+        // an entry of .symtab_shndx is zero unless the symbol's own st_shndx is SHN_XINDEX
+        let extended_index = |sym: &Symbol| -> u32 {
+            if sym.st_shndx >= SHN_LORESERVE as usize {
+                sym.st_shndx as u32
+            } else {
+                0
+            }
+        };
         let mut offset = 0;
         file.seek(Start(symtab_offset))?;
         for symbol in self.special_symbols.into_iter() {
@@ -938,7 +946,7 @@ impl<'a> Elf<'a> {
             // so we don't do the shn conversion here
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(symbol.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(0u32, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for special symbols");
             }
             file.iowrite_with(symbol, self.ctx)?;
@@ -948,7 +956,7 @@ impl<'a> Elf<'a> {
             let mut sym = section.symbol.clone();
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(extended_index(&sym), &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for sections");
             }
             if sym.st_shndx >= SHN_LORESERVE as usize {
@@ -962,7 +970,7 @@ impl<'a> Elf<'a> {
             let mut sym = symbol.clone();
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(extended_index(&sym), &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for symbols");
             }
             if sym.st_shndx >= SHN_LORESERVE as usize {
-- 
2.43.0


From d0cbd0f6f21047f3e1ef2c9df6a5414433523ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 08/28] fix: allow an ELF custom section to share the name of a
 generated section

---
 src/elf.rs | 59 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index ad59d52..4894969 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -394,12 +394,15 @@ impl RelocationBuilder {
 /// An intermediate ELF object file container
 struct Elf<'a> {
     name: &'a str,
-    code: IndexMap<StringIndex, &'a [u8]>,
+    code: Vec<&'a [u8]>,
     relocations: IndexMap<StringIndex, (Section, Vec<Relocation>)>,
     symbols: IndexMap<StringIndex, Symbol>,
     special_symbols: Vec<Symbol>,
     imports: HashMap<StringIndex, ImportKind>,
-    sections: IndexMap<StringIndex, SectionInfo>,
+    sections: Vec<SectionInfo>,
+    // index in `sections` of each custom section; a custom section may have the same name as
+    // the section that was generated for some other definition
+    custom_sections: HashMap<StringIndex, usize>,
     offsets: HashMap<StringIndex, Offset>,
     sizeof_strtab: Offset,
     strings: StringInterner<StringIndex>,
@@ -467,12 +470,13 @@ impl<'a> Elf<'a> {
         let sizeof_bits = Header::size(ctx);
         Elf {
             name: &artifact.name,
-            code: IndexMap::new(),
+            code: Vec::new(),
             relocations: IndexMap::new(),
             imports: HashMap::new(),
             symbols: IndexMap::new(),
             special_symbols,
-            sections: IndexMap::new(),
+            sections: Vec::new(),
+            custom_sections: HashMap::new(),
             nsections: 4,
             offsets,
             strings,
@@ -557,7 +561,7 @@ impl<'a> Elf<'a> {
 
         let shndx = match def.data {
             Data::Blob(bytes) => self.add_progbits(section_name, section, bytes),
-            Data::ZeroInit(_) => self.add_section(section_name, section).1,
+            Data::ZeroInit(_) => self.add_section(section_name, section),
         };
 
         match decl {
@@ -583,6 +587,8 @@ impl<'a> Elf<'a> {
                 }
             }
             DefinedDecl::Section(_) => {
+                let (idx, _) = self.new_string(name.to_string());
+                self.custom_sections.insert(idx, shndx - 3);
                 for (symbol, symbol_dst_offset) in def.symbols {
                     // TODO: can we move the string instead of cloning?
                     let (idx, offset) = self.new_string(symbol.clone());
@@ -607,15 +613,15 @@ impl<'a> Elf<'a> {
     }
     /// Create a progbits section (and its section symbol), and return the section index.
     fn add_progbits(&mut self, name: String, section: SectionBuilder, data: &'a [u8]) -> usize {
-        let (idx, shndx) = self.add_section(name, section);
+        let shndx = self.add_section(name, section);
         // increment the size
         self.sizeof_bits += data.len();
 
-        self.code.insert(idx, data);
+        self.code.push(data);
         shndx
     }
-    /// Create a section (and its section symbol) and return the symbol and section indexes
-    fn add_section(&mut self, name: String, section: SectionBuilder) -> (usize, usize) {
+    /// Create a section (and its section symbol) and return the section index
+    fn add_section(&mut self, name: String, section: SectionBuilder) -> usize {
         let (idx, offset) = self.new_string(name);
         debug!(
             "idx: {:?} @ {:#x} - new strtab offset: {:#x}",
@@ -631,16 +637,13 @@ impl<'a> Elf<'a> {
         let mut section = section.name_offset(offset).create(&self.ctx);
         // the offset is the head of how many program bits we've added
         section.sh_offset = self.sizeof_bits as u64;
-        self.sections.insert(
-            idx,
-            SectionInfo {
-                header: section,
-                symbol: section_symbol,
-                name: idx,
-            },
-        );
+        self.sections.push(SectionInfo {
+            header: section,
+            symbol: section_symbol,
+            name: idx,
+        });
         self.nsections += 1;
-        (idx, shndx)
+        shndx
     }
     pub fn import(&mut self, import: String, kind: &ImportKind) {
         let (idx, offset) = self.new_string(import);
@@ -655,9 +658,9 @@ impl<'a> Elf<'a> {
         let (to_idx, to_shndx) = {
             let to_idx = self.strings.get_or_intern(l.to.name);
             if l.to.decl.is_section() {
-                let (to_idx, _, _) = self
-                    .sections
-                    .get_full(&to_idx)
+                let to_idx = *self
+                    .custom_sections
+                    .get(&to_idx)
                     .expect("to_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -677,9 +680,9 @@ impl<'a> Elf<'a> {
         let (from_idx, from_shndx) = {
             let from_idx = self.strings.get_or_intern(l.from.name);
             if l.from.decl.is_section() {
-                let (from_idx, _, _) = self
-                    .sections
-                    .get_full(&from_idx)
+                let from_idx = *self
+                    .custom_sections
+                    .get(&from_idx)
                     .expect("from_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -762,9 +765,9 @@ impl<'a> Elf<'a> {
             debug!("{} does NOT have relocs", relocee);
             // now create the relocation section
             let reloc_name = {
-                let (_, section) = self
+                let section = self
                     .sections
-                    .get_index(shndx - 3)
+                    .get(shndx - 3)
                     .expect("shndx present in sections");
                 let section_name = self
                     .strings
@@ -866,7 +869,7 @@ impl<'a> Elf<'a> {
         // Code
         /////////////////////////////////////
 
-        for (_idx, bytes) in self.code.drain(..) {
+        for bytes in self.code.drain(..) {
             file.write_all(bytes)?;
         }
         let after_code = file.seek(Current(0))?;
@@ -951,7 +954,7 @@ impl<'a> Elf<'a> {
             }
             file.iowrite_with(symbol, self.ctx)?;
         }
-        for (_id, section) in self.sections.into_iter() {
+        for section in self.sections.into_iter() {
             debug!("Section Symbol: {:?}", section.symbol);
             let mut sym = section.symbol.clone();
             if need_symtab_shndx {
-- 
2.43.0


From ad6d53fe974d6de0426fc1dd87e5aa38d59adc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 09/28] fix: reserve memory for zero-initialised Mach-O
 definitions in __bss

---
 src/mach.rs | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index d23809c..34cc66f 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -262,6 +262,14 @@ impl SectionBuilder {
         self.flags = flags;
         self
     }
+    /// The number of bytes this section occupies in the file
+    pub fn file_size(&self) -> u64 {
+        if self.flags == S_ZEROFILL {
+            0
+        } else {
+            self.size
+        }
+    }
     /// Finalize and create the actual Mach-o section
     pub fn create(&self, section_offset: &mut u64, relocation_offset: &mut u64) -> Section {
         let mut sectname = [0u8; 16];
@@ -281,7 +289,7 @@ impl SectionBuilder {
             flags: self.flags,
         };
         section.offset = *section_offset as u32;
-        *section_offset += section.size;
+        *section_offset += self.file_size();
         if !self.relocations.is_empty() {
             let nrelocs = self.relocations.len();
             section.nreloc = nrelocs as _;
@@ -422,10 +430,14 @@ struct SegmentBuilder {
 }
 
 impl SegmentBuilder {
-    /// The size of this segment's _data_, in bytes
+    /// The size of this segment's _data_ in memory, in bytes
     pub fn size(&self) -> u64 {
         self.size
     }
+    /// The size of this segment's _data_ in the file, in bytes
+    pub fn file_size(&self) -> u64 {
+        self.sections.values().map(|section| section.file_size()).sum()
+    }
     /// The size of this segment's _load command_, including its associated sections, in bytes
     pub fn load_command_size(&self, ctx: &Ctx) -> u64 {
         Segment::size_with(&ctx) as u64
@@ -459,6 +471,12 @@ impl SegmentBuilder {
                 unreachable!();
             }
 
+            // the size in memory; for zero-initialised data this is more than the size in the file
+            let def_size = match def.data {
+                Data::Blob(bytes) => bytes.len() as u64,
+                Data::ZeroInit(size) => *size as u64,
+            };
+
             symtab.insert(
                 def.name,
                 SymbolType::Defined {
@@ -468,9 +486,9 @@ impl SegmentBuilder {
                     global: def.decl.is_global(),
                 },
             );
-            *symbol_offset += def.data.file_size() as u64;
-            section_relative_offset += def.data.file_size() as u64;
-            local_size += def.data.file_size() as u64;
+            *symbol_offset += def_size;
+            section_relative_offset += def_size;
+            local_size += def_size;
 
             let next_def_alignment_exponent = std::cmp::max(
                 min_alignment_exponent,
@@ -501,7 +519,8 @@ impl SegmentBuilder {
         if let Some(flags) = flags {
             section = section.flags(flags);
         }
-        *offset += local_size;
+        // zero-initialised data takes no space in the file
+        *offset += section.file_size();
         *addr += local_size;
         sections.insert(sectname.to_string(), section);
     }
@@ -672,7 +691,6 @@ struct Mach<'a> {
     segment: SegmentBuilder,
     code: ArtifactCode<'a>,
     data: ArtifactData<'a>,
-    bss_size: usize,
     cstrings: Vec<Definition<'a>>,
     sections: Vec<Definition<'a>>,
     _p: ::std::marker::PhantomData<&'a ()>,
@@ -682,13 +700,12 @@ impl<'a> Mach<'a> {
     pub fn new(artifact: &'a Artifact) -> Self {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
-        let (mut code, mut data, mut bss, mut cstrings, mut sections, mut bss_size) = (
+        let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
-            0,
         );
         for def in artifact.definitions() {
             match def.decl {
@@ -696,9 +713,8 @@ impl<'a> Mach<'a> {
                     code.push(def);
                 }
                 DefinedDecl::Data(d) => {
-                    if let Data::ZeroInit(size) = def.data {
+                    if let Data::ZeroInit(_) = def.data {
                         bss.push(def);
-                        bss_size += size;
                     } else if d.get_datatype() == DataType::String {
                         cstrings.push(def);
                     } else {
@@ -732,7 +748,6 @@ impl<'a> Mach<'a> {
             _p: ::std::marker::PhantomData::default(),
             code,
             data,
-            bss_size,
             cstrings,
             sections,
         }
@@ -787,9 +802,9 @@ impl<'a> Mach<'a> {
         // FIXME: de-magic number these
         segment_load_command.initprot = 7;
         segment_load_command.maxprot = 7;
-        segment_load_command.filesize = self.segment.size();
-        // segment size, with __bss data sizes added
-        segment_load_command.vmsize = segment_load_command.filesize + self.bss_size as u64;
+        segment_load_command.filesize = self.segment.file_size();
+        // this includes the size of the __bss data, which is not in the file
+        segment_load_command.vmsize = self.segment.size();
         segment_load_command.fileoff = first_section_offset;
         debug!("Segment: {:#?}", segment_load_command);
 
-- 
2.43.0


From 8c0e956c2271ee17c08d1cbd5d94af096cc01816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 10/28] fix: honour the alignment of every Mach-O definition
 and section

---
 src/mach.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 34cc66f..7cd0522 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -56,6 +56,14 @@ fn align_to_align_exp(align: u64) -> u64 {
     align_exp
 }
 
+/// Round `addr` up to a multiple of `1 << align_exp`
+fn align_addr(addr: &mut u64, align_exp: u64) {
+    let misalignment = *addr % (1 << align_exp);
+    if misalignment != 0 {
+        *addr += (1 << align_exp) - misalignment;
+    }
+}
+
 type SectionIndex = usize;
 type StrtableOffset = u64;
 
@@ -464,7 +472,13 @@ impl SegmentBuilder {
     ) {
         let mut local_size = 0;
         let mut section_relative_offset = 0;
-        let mut alignment_exponent = min_alignment_exponent;
+        // the strictest alignment of any definition in the section, including the first one
+        let alignment_exponent = definitions
+            .iter()
+            .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
+            .fold(min_alignment_exponent, std::cmp::max);
+        align_addr(addr, alignment_exponent);
+        align_addr(symbol_offset, alignment_exponent);
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
             if let DefinedDecl::Section { .. } = def.decl {
@@ -497,8 +511,6 @@ impl SegmentBuilder {
                     .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
                     .unwrap_or(0),
             );
-            alignment_exponent = std::cmp::max(alignment_exponent, next_def_alignment_exponent);
-
             let align_pad = (1 << next_def_alignment_exponent)
                 - (section_relative_offset % (1 << next_def_alignment_exponent));
             let align_pad = if align_pad == (1 << next_def_alignment_exponent) {
@@ -550,6 +562,10 @@ impl SegmentBuilder {
             def.name.to_string()
         };
 
+        let alignment_exponent = align_to_align_exp(s.get_align().unwrap_or(1));
+        align_addr(addr, alignment_exponent);
+        align_addr(symbol_offset, alignment_exponent);
+
         let mut flags = 0;
 
         if s.kind() == SectionKind::Debug {
@@ -573,7 +589,7 @@ impl SegmentBuilder {
         let section = SectionBuilder::new(sectname, segment_name, local_size)
             .offset(*offset)
             .addr(*addr)
-            .align(align_to_align_exp(s.get_align().unwrap_or(1)))
+            .align(alignment_exponent)
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
-- 
2.43.0


From 91f1d453906a51c3e0d5c7bd6ae3dd13d2a23e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 11/28] fix: weak Mach-O definitions are external and marked as
 weak

---
 src/artifact/decl.rs |  9 +++++++++
 src/mach.rs          | 19 ++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index ca7b46f..2c6e9a2 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Accessor to determine whether scope is weak
+    pub(crate) fn is_weak(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Section(_) => false,
+        }
+    }
+
     /// Accessor to determine whether scope is local. False if global or weak.
     pub(crate) fn is_local(&self) -> bool {
         match self {
diff --git a/src/mach.rs b/src/mach.rs
index 7cd0522..30010ed 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -79,6 +79,7 @@ struct SymbolBuilder {
     name: StrtableOffset,
     section: Option<SectionIndex>,
     global: bool,
+    weak: bool,
     import: bool,
     offset: u64,
     segment_relative_offset: u64,
@@ -91,6 +92,7 @@ impl SymbolBuilder {
             name,
             section: None,
             global: false,
+            weak: false,
             import: false,
             offset: 0,
             segment_relative_offset: 0,
@@ -106,6 +108,11 @@ impl SymbolBuilder {
         self.global = global;
         self
     }
+    /// Is this symbol a weak definition?
+    pub fn weak(mut self, weak: bool) -> Self {
+        self.weak = weak;
+        self
+    }
     pub fn offset(mut self, offset: u64) -> Self {
         self.offset = offset;
         self
@@ -126,12 +133,12 @@ impl SymbolBuilder {
     }
     /// Finalize and create the symbol
     pub fn create(self) -> Nlist {
-        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF};
+        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF, N_WEAK_DEF};
         let n_strx = self.name;
         let mut n_sect = 0;
         let mut n_type = N_UNDF;
         let mut n_value = self.offset;
-        let n_desc = 0;
+        let n_desc = if self.weak { N_WEAK_DEF } else { 0 };
         if self.global {
             n_type |= N_EXT;
         } else {
@@ -345,6 +352,7 @@ enum SymbolType {
         absolute_offset: u64,
         segment_relative_offset: u64,
         global: bool,
+        weak: bool,
     },
     /// An undefined symbol (an import)
     Undefined,
@@ -409,9 +417,11 @@ impl SymbolTable {
                     section,
                     absolute_offset,
                     global,
+                    weak,
                     segment_relative_offset,
                 } => SymbolBuilder::new(self.strtable_size)
                     .global(global)
+                    .weak(weak)
                     .offset(absolute_offset)
                     .relative_offset(segment_relative_offset)
                     .section(section),
@@ -497,7 +507,9 @@ impl SegmentBuilder {
                     section,
                     segment_relative_offset: section_relative_offset,
                     absolute_offset: *symbol_offset,
-                    global: def.decl.is_global(),
+                    // a weak symbol is external, too
+                    global: !def.decl.is_local(),
+                    weak: def.decl.is_weak(),
                 },
             );
             *symbol_offset += def_size;
@@ -580,6 +592,7 @@ impl SegmentBuilder {
                     segment_relative_offset: *symbol_dst_offset,
                     absolute_offset: *symbol_offset + *symbol_dst_offset,
                     global: true,
+                    weak: false,
                 },
             );
         }
-- 
2.43.0


From cd23df54f957c83f560f70a5c5c9e21655bd2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 12/28] fix: list Mach-O relocations under the section which
 contains their source

---
 src/mach.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 30010ed..b12ae27 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -122,6 +122,10 @@ impl SymbolBuilder {
         self.segment_relative_offset = relative_offset;
         self
     }
+    /// Returns the index of the section this symbol belongs to, if any
+    pub fn get_section(&self) -> Option<SectionIndex> {
+        self.section
+    }
     /// Returns the offset of this symbol relative to the segment it is apart of
     pub fn get_segment_relative_offset(&self) -> u64 {
         self.segment_relative_offset
@@ -379,12 +383,12 @@ impl SymbolTable {
     pub fn sizeof_strtable(&self) -> u64 {
         self.strtable_size
     }
-    /// Lookup this symbols offset in the segment
-    pub fn offset(&self, symbol_name: &str) -> Option<u64> {
+    /// Lookup the section this symbol is defined in and its offset therein
+    pub fn location(&self, symbol_name: &str) -> Option<(SectionIndex, u64)> {
         self.strtable
             .get(symbol_name)
             .and_then(|idx| self.symbols.get(&idx))
-            .and_then(|sym| Some(sym.get_segment_relative_offset()))
+            .and_then(|sym| Some((sym.get_section()?, sym.get_segment_relative_offset())))
     }
     /// Lookup this symbols ordinal index in the symbol table, if it has one
     pub fn index(&self, symbol_name: &str) -> Option<SymbolIndex> {
@@ -990,8 +994,6 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
     };
-    let text_idx = segment.sections.get_full("__text").unwrap().0;
-    let data_idx = segment.sections.get_full("__data").unwrap().0;
     debug!("Generating relocations");
     for link in artifact.links() {
         debug!(
@@ -1065,17 +1067,19 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
-        match (symtab.offset(link.from.name), symtab.index(link.to.name)) {
-            (Some(base_offset), Some(to_symbol_index)) => {
+        // the relocation is listed under the section which contains its source
+        let location = if link.from.decl.is_section() {
+            let section = segment.sections.get_full(link.from.name);
+            section.map(|(section, _, _)| (section, 0))
+        } else {
+            symtab.location(link.from.name)
+        };
+        match (location, symtab.index(link.to.name)) {
+            (Some((section, base_offset)), Some(to_symbol_index)) => {
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
-                // NB: we currently associate absolute relocations with data relocations; this may prove
-                // too fragile for future additions; needs analysis
-                if absolute {
-                    segment.sections.get_index_mut(data_idx).unwrap().1.relocations.push(builder.absolute().create());
-                } else {
-                    segment.sections.get_index_mut(text_idx).unwrap().1.relocations.push(builder.create());
-                }
+                let builder = if absolute { builder.absolute() } else { builder };
+                segment.sections.get_index_mut(section).unwrap().1.relocations.push(builder.create());
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
         }
-- 
2.43.0


From 6e3e1b1d0e7e18883359a625d3dcf1eaa6da4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 13/28] fix: do not drop a Mach-O symbol with an empty name

---
 src/mach.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index b12ae27..6a524d7 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -363,10 +363,10 @@ enum SymbolType {
 }
 
 impl SymbolTable {
-    /// Create a new symbol table. The first strtable entry (like ELF) is always nothing
+    /// Create a new symbol table. The first strtable entry (like ELF) is always nothing; it is
+    /// not interned, since (unlike it) a symbol with an empty name gets an underscore
     pub fn new() -> Self {
-        let mut strtable = StrTable::new();
-        strtable.get_or_intern("");
+        let strtable = StrTable::new();
         let strtable_size = 1;
         SymbolTable {
             symbols: Symbols::new(),
@@ -961,7 +961,7 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // we need to write first, empty element - but without an underscore
         file.iowrite(0u8)?;
-        for (idx, string) in self.symtab.strtable.into_iter().skip(1) {
+        for (idx, string) in self.symtab.strtable.into_iter() {
             debug!("{}: {:?}", idx, string);
             // yup, an underscore
             file.iowrite(0x5fu8)?;
-- 
2.43.0


From c7f563a0cedd0e9f4ae6d2e29252b3d8864be1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 14/28] fix: allow a Mach-O custom section to share the name of
 a default section

---
 src/mach.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 6a524d7..a6bcccd 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -444,7 +444,9 @@ impl SymbolTable {
 /// A Mach-o program segment
 struct SegmentBuilder {
     /// The sections that belong to this program segment
-    pub sections: IndexMap<String, SectionBuilder>,
+    pub sections: Vec<SectionBuilder>,
+    /// The index of each custom section, which may have the same name as a default section
+    custom_sections: HashMap<String, SectionIndex>,
     /// A stupid offset value I need to refactor out
     pub offset: u64,
     size: u64,
@@ -458,7 +460,7 @@ impl SegmentBuilder {
     }
     /// The size of this segment's _data_ in the file, in bytes
     pub fn file_size(&self) -> u64 {
-        self.sections.values().map(|section| section.file_size()).sum()
+        self.sections.iter().map(|section| section.file_size()).sum()
     }
     /// The size of this segment's _load command_, including its associated sections, in bytes
     pub fn load_command_size(&self, ctx: &Ctx) -> u64 {
@@ -474,7 +476,7 @@ impl SegmentBuilder {
         symtab: &mut SymbolTable,
         sectname: &'static str,
         segname: &'static str,
-        sections: &mut IndexMap<String, SectionBuilder>,
+        sections: &mut Vec<SectionBuilder>,
         offset: &mut u64,
         addr: &mut u64,
         symbol_offset: &mut u64,
@@ -550,11 +552,11 @@ impl SegmentBuilder {
         // zero-initialised data takes no space in the file
         *offset += section.file_size();
         *addr += local_size;
-        sections.insert(sectname.to_string(), section);
+        sections.push(section);
     }
     fn build_custom_section(
         symtab: &mut SymbolTable,
-        sections: &mut IndexMap<String, SectionBuilder>,
+        sections: &mut Vec<SectionBuilder>,
         offset: &mut u64,
         addr: &mut u64,
         symbol_offset: &mut u64,
@@ -610,7 +612,7 @@ impl SegmentBuilder {
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
-        sections.insert(def.name.to_string(), section);
+        sections.push(section);
     }
     /// Create a new program segment from an `artifact`, symbol table, and context
     // FIXME: this is pub(crate) for now because we can't leak pub(crate) Definition
@@ -627,7 +629,8 @@ impl SegmentBuilder {
         let mut offset = Header::size_with(&ctx.container) as u64;
         let mut size = 0;
         let mut symbol_offset = 0;
-        let mut sections = IndexMap::new();
+        let mut sections = Vec::new();
+        let mut custom_section_indexes = HashMap::new();
         let mut align_pad_map = HashMap::new();
 
         Self::build_section(
@@ -687,6 +690,7 @@ impl SegmentBuilder {
             &mut align_pad_map,
         );
         for (idx, def) in custom_sections.iter().enumerate() {
+            custom_section_indexes.insert(def.name.to_string(), idx + NUM_DEFAULT_SECTIONS);
             Self::build_custom_section(
                 symtab,
                 &mut sections,
@@ -709,6 +713,7 @@ impl SegmentBuilder {
         SegmentBuilder {
             size,
             sections,
+            custom_sections: custom_section_indexes,
             offset,
             align_pad_map,
         }
@@ -816,7 +821,7 @@ impl<'a> Mach<'a> {
         let mut raw_sections = Cursor::new(Vec::<u8>::new());
         let mut relocation_offset = relocation_offset_start;
         let mut section_offset = first_section_offset;
-        for section in self.segment.sections.values() {
+        for section in self.segment.sections.iter() {
             let header = section.create(&mut section_offset, &mut relocation_offset);
             debug!("Section: {:#?}", header);
             raw_sections.iowrite_with(header, self.ctx)?;
@@ -973,7 +978,7 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // write relocations
         //////////////////////////////
-        for section in self.segment.sections.values() {
+        for section in self.segment.sections.iter() {
             debug!("Relocations: {}", section.relocations.len());
             for reloc in section.relocations.iter().cloned() {
                 debug!("  {:?}", reloc);
@@ -1059,7 +1064,8 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                     match symtab.index(link.to.name) {
                         Some(to_symbol_index) => {
                             let builder = RelocationBuilder::new(to_symbol_index, link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
-                            segment.sections[link.from.name].relocations.push(builder.create());
+                            let section = segment.custom_sections[link.from.name];
+                            segment.sections[section].relocations.push(builder.create());
                         }
                         _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
                     }
@@ -1069,8 +1075,8 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         };
         // the relocation is listed under the section which contains its source
         let location = if link.from.decl.is_section() {
-            let section = segment.sections.get_full(link.from.name);
-            section.map(|(section, _, _)| (section, 0))
+            let section = segment.custom_sections.get(link.from.name);
+            section.map(|&section| (section, 0))
         } else {
             symtab.location(link.from.name)
         };
@@ -1079,7 +1085,7 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
                 let builder = if absolute { builder.absolute() } else { builder };
-                segment.sections.get_index_mut(section).unwrap().1.relocations.push(builder.create());
+                segment.sections[section].relocations.push(builder.create());
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
         }
-- 
2.43.0


From 150c0b5ccc3c0dc033dca4b9049437d656d9e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 15/28] fix: keep ELF custom section symbols apart from other
 symbols of the same name

---
 src/elf.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 4894969..61db8ec 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -398,6 +398,8 @@ struct Elf<'a> {
     relocations: IndexMap<StringIndex, (Section, Vec<Relocation>)>,
     symbols: IndexMap<StringIndex, Symbol>,
     special_symbols: Vec<Symbol>,
+    /// The custom symbols of custom sections; these are local and nothing refers to them by name
+    custom_symbols: Vec<Symbol>,
     imports: HashMap<StringIndex, ImportKind>,
     sections: Vec<SectionInfo>,
     // index in `sections` of each custom section; a custom section may have the same name as
@@ -475,6 +477,7 @@ impl<'a> Elf<'a> {
             imports: HashMap::new(),
             symbols: IndexMap::new(),
             special_symbols,
+            custom_symbols: Vec::new(),
             sections: Vec::new(),
             custom_sections: HashMap::new(),
             nsections: 4,
@@ -604,8 +607,8 @@ impl<'a> Elf<'a> {
                         .value(*symbol_dst_offset)
                         .create();
 
-                    self.symbols.insert(idx, symbol);
                     // custom section symbols are local
+                    self.custom_symbols.push(symbol);
                     self.nlocals += 1;
                 }
             }
@@ -653,6 +656,10 @@ impl<'a> Elf<'a> {
         self.imports.insert(idx, kind.clone());
         self.symbols.insert(idx, symbol);
     }
+    /// The number of symbols in front of the normal symbols
+    fn first_symbol(&self) -> usize {
+        self.special_symbols.len() + self.sections.len() + self.custom_symbols.len()
+    }
     pub fn link(&mut self, l: &LinkAndDecl) {
         debug!("Link: {:?}", l);
         let (to_idx, to_shndx) = {
@@ -670,11 +677,8 @@ impl<'a> Elf<'a> {
                     .symbols
                     .get_full(&to_idx)
                     .expect("to_idx present in symbols");
-                // Normal symbols come after special symbols and section symbols.
-                (
-                    to_idx + self.special_symbols.len() + self.sections.len(),
-                    symbol.st_shndx,
-                )
+                // Normal symbols come after all other symbols.
+                (to_idx + self.first_symbol(), symbol.st_shndx)
             }
         };
         let (from_idx, from_shndx) = {
@@ -692,11 +696,8 @@ impl<'a> Elf<'a> {
                     .symbols
                     .get_full(&from_idx)
                     .expect("from_idx present in symbols");
-                // Normal symbols come after special symbols and section symbols.
-                (
-                    from_idx + self.special_symbols.len() + self.sections.len(),
-                    symbol.st_shndx,
-                )
+                // Normal symbols come after all other symbols.
+                (from_idx + self.first_symbol(), symbol.st_shndx)
             }
         };
         let (reloc, addend) = match l.reloc {
@@ -802,7 +803,7 @@ impl<'a> Elf<'a> {
         /////////////////////////////////////
         // Compute Offsets
         /////////////////////////////////////
-        let symbol_count = self.symbols.len() + self.special_symbols.len() + self.sections.len();
+        let symbol_count = self.first_symbol() + self.symbols.len();
         let sizeof_symtab = symbol_count * Symbol::size(self.ctx.container);
         // This check is a bit lax, we really only need .symtab_shndx if there is a symbol
         // that has a large section index, but we currently add symbols for most sections
@@ -968,7 +969,8 @@ impl<'a> Elf<'a> {
             file.iowrite_with(sym, self.ctx)?;
             section_headers.push(section.header);
         }
-        for (_id, symbol) in self.symbols.into_iter() {
+        let custom_symbols = self.custom_symbols.into_iter();
+        for symbol in custom_symbols.chain(self.symbols.into_iter().map(|(_id, symbol)| symbol)) {
             debug!("Symbol: {:?}", symbol);
             let mut sym = symbol.clone();
             if need_symtab_shndx {
-- 
2.43.0


From 6c80b42a4fce64aaa92744ff55d85d41bef1a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:42 +0000
Subject: [PATCH 16/28] fix: objects for 16-bit machines use the 32-bit ELF
 class

---
 src/target.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/target.rs b/src/target.rs
index 9a045e0..0ecc9c5 100644
--- a/src/target.rs
+++ b/src/target.rs
@@ -6,8 +6,9 @@ use target_lexicon::{Endianness, PointerWidth, Triple};
 
 pub fn make_ctx(target: &Triple) -> Ctx {
     let container_size = match target.pointer_width() {
-        Err(()) | Ok(PointerWidth::U16) => return Ctx::default(),
-        Ok(PointerWidth::U32) => container::Container::Little,
+        Err(()) => return Ctx::default(),
+        // there is no 16-bit object format: 16-bit machines use the 32-bit one
+        Ok(PointerWidth::U16) | Ok(PointerWidth::U32) => container::Container::Little,
         Ok(PointerWidth::U64) => container::Container::Big,
     };
     let endianness = match target.endianness() {
-- 
2.43.0


From f81fe97d3219ff42f5733aa6173f8efa2c089b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:42 +0000
Subject: [PATCH 17/28] fix: refuse what a 32-bit ELF object would truncate

---
 src/elf.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 61db8ec..43250d6 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -796,8 +796,32 @@ impl<'a> Elf<'a> {
             *offset += sizeof_t - alignment;
         }
     }
+    /// The fields of a 32-bit object are smaller: refuse what would be truncated in them
+    fn check_limits(&self) -> goblin::error::Result<()> {
+        if self.ctx.is_big() {
+            return Ok(());
+        }
+        let fits = |value: u64| value <= u64::from(u32::max_value());
+        let symbols = self.sections.iter().map(|section| &section.symbol);
+        let symbols = symbols.chain(self.custom_symbols.iter());
+        for symbol in symbols.chain(self.symbols.values()) {
+            if !fits(symbol.st_value) || !fits(symbol.st_size) {
+                let msg = format!("symbol exceeds a 32-bit object: {:?}", symbol);
+                return Err(goblin::error::Error::Malformed(msg));
+            }
+        }
+        let relocations = self.relocations.values().map(|(_, relocs)| relocs);
+        for reloc in relocations.flat_map(|relocs| relocs.iter()) {
+            if !fits(reloc.r_offset) || reloc.r_type > 0xff {
+                let msg = format!("relocation exceeds a 32-bit object: {:?}", reloc);
+                return Err(goblin::error::Error::Malformed(msg));
+            }
+        }
+        Ok(())
+    }
     pub fn write<T: Write + Seek>(mut self, file: T) -> goblin::error::Result<()> {
         use goblin::elf::section_header::{SHN_LORESERVE, SHN_XINDEX};
+        self.check_limits()?;
         let mut file = BufWriter::new(file);
 
         /////////////////////////////////////
-- 
2.43.0


From 0031320067591fa474c6839ed29061fec2eac75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 18/28] fix: refuse Mach-O relocations which cannot be
 expressed

---
 src/mach.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index a6bcccd..0693684 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -64,6 +64,9 @@ fn align_addr(addr: &mut u64, align_exp: u64) {
     }
 }
 
+/// The type of a relocation has four bits
+const MAX_RELOC_TYPE: u32 = 0xf;
+
 type SectionIndex = usize;
 type StrtableOffset = u64;
 
@@ -227,6 +230,11 @@ impl RelocationBuilder {
         let r_type = (self.r_type as u32) << 28;
         // r_symbolnum, 24 bits, r_pcrel 1 bit, r_length 2 bits, r_extern 1 bit, r_type 4 bits
         let r_info = r_symbolnum | r_pcrel | r_length | r_extern | r_type;
+        assert!(
+            self.relocation_offset <= i32::max_value() as u64,
+            "relocation offset {:#x} is out of range",
+            self.relocation_offset
+        );
         RelocationInfo {
             r_address: self.relocation_offset as i32,
             r_info,
@@ -1050,7 +1058,11 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 }
             }
             Reloc::Raw { reloc, addend } => {
-                debug_assert!(reloc <= u8::max_value() as u32);
+                assert!(
+                    reloc <= MAX_RELOC_TYPE,
+                    "Mach-O has no relocation type {}",
+                    reloc
+                );
                 assert!(addend == 0);
                 match reloc as u8 {
                     R_ABS => (true, R_ABS),
@@ -1087,7 +1099,11 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 let builder = if absolute { builder.absolute() } else { builder };
                 segment.sections[section].relocations.push(builder.create());
             },
-            _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
+            // a custom section has no symbol of its own
+            _ => panic!(
+                "relocations to custom sections are not yet supported: from {} to {} at {:#x}",
+                link.from.name, link.to.name, link.at
+            ),
         }
     }
 }
-- 
2.43.0


From 3982e502b2b1f3da5ddeb7a5380c5d60c462e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 19/28] fix: refuse too many sections and too large addresses
 in Mach-O

---
 src/mach.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mach.rs b/src/mach.rs
index 0693684..90c5765 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -809,7 +809,25 @@ impl<'a> Mach<'a> {
         header.sizeofcmds = sizeofcmds as u32;
         header
     }
+    /// Refuse what would be truncated in the object's fields
+    fn check_limits(&self) -> Result<(), std::io::Error> {
+        use goblin::mach::symbols::MAX_SECT;
+        use std::io::{Error, ErrorKind};
+        let sections = self.segment.sections.len();
+        if sections > MAX_SECT as usize {
+            let msg = format!("{} sections exceed a Mach-O object", sections);
+            return Err(Error::new(ErrorKind::InvalidInput, msg));
+        }
+        let symbols = self.symtab.symbols.values();
+        let end = symbols.fold(self.segment.size(), |end, symbol| end.max(symbol.offset));
+        if !self.ctx.is_big() && end > u64::from(u32::max_value()) {
+            let msg = format!("address {:#x} exceeds a 32-bit object", end);
+            return Err(Error::new(ErrorKind::InvalidInput, msg));
+        }
+        Ok(())
+    }
     pub fn write<T: Write + Seek>(self, file: T) -> Result<(), std::io::Error> {
+        self.check_limits()?;
         let mut file = BufWriter::new(file);
         // FIXME: this is ugly af, need cmdsize to get symtable offset
         // construct symtab command
-- 
2.43.0


From c2de9c856d060f73c7144e6cab00c89dc101b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 20/28] fix: refuse names with a NUL, which would be cut off

---
 src/artifact.rs | 14 ++++++++++++++
 src/elf.rs      |  1 +
 src/mach.rs     |  1 +
 3 files changed, 16 insertions(+)

diff --git a/src/artifact.rs b/src/artifact.rs
index 7566183..189d083 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -305,6 +305,20 @@ impl Artifact {
                 .map(move |int_def| Definition::from((int_def, &self.strings))),
         )
     }
+    /// The names in an object file end with a NUL, hence none of them can contain one
+    pub(crate) fn check_names(&self) -> Result<(), std::io::Error> {
+        let declared = self.declarations.keys();
+        let declared = declared.map(|id| self.strings.resolve(*id).expect("declared"));
+        let custom = self.definitions().flat_map(|def| def.symbols.keys());
+        let mut names = declared.chain(custom.map(String::as_str));
+        match names.find(|name| name.contains('\0')) {
+            None => Ok(()),
+            Some(name) => Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("name contains a NUL: {:?}", name),
+            )),
+        }
+    }
     /// Get this artifacts relocations
     pub(crate) fn links<'a>(&'a self) -> Box<dyn Iterator<Item = LinkAndDecl<'a>> + 'a> {
         Box::new(
diff --git a/src/elf.rs b/src/elf.rs
index 43250d6..19f40e4 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1092,6 +1092,7 @@ impl<'a> Elf<'a> {
 pub fn to_bytes(artifact: &Artifact) -> goblin::error::Result<Vec<u8>> {
     // TODO: make new fully construct the elf object, e.g., the definitions, imports, and links don't take self
     // this means that a call to new has a fully constructed object ready to marshal into bytes, similar to the mach backend
+    artifact.check_names()?;
     let mut elf = Elf::new(&artifact);
     for def in artifact.definitions() {
         debug!("Def: {:?}", def);
diff --git a/src/mach.rs b/src/mach.rs
index 90c5765..196b6ce 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1127,6 +1127,7 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
 }
 
 pub fn to_bytes(artifact: &Artifact) -> Result<Vec<u8>, std::io::Error> {
+    artifact.check_names()?;
     let mach = Mach::new(&artifact);
     let mut buffer = Cursor::new(Vec::new());
     mach.write(&mut buffer)?;
-- 
2.43.0


From 724fc4960f3c070e6accd4ce95bf69302bee6b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:46 +0000
Subject: [PATCH 21/28] fix: use the MIPS64 layout of r_info in little-endian
 objects

---
 src/elf.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 19f40e4..e28b76b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -743,6 +743,15 @@ impl<'a> Elf<'a> {
             Decl::Import(_) => to_idx,
         };
 
+        // A little-endian MIPS64 `r_info` is no single integer: the symbol index comes first,
+        // followed by the relocation type with its most significant byte first.
+        let (sym_idx, reloc) = match self.architecture {
+            Architecture::Mips64(_) if self.ctx.le.is_little() => {
+                (reloc.swap_bytes() as usize, sym_idx as u32)
+            }
+            _ => (sym_idx, reloc),
+        };
+
         let reloc = RelocationBuilder::new(reloc)
             .sym(sym_idx)
             .offset(l.at)
-- 
2.43.0


From 2f06d60a9beaadaedc27fefbc10da9d69a449bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 22/28] fix: refuse alignments which 32-bit ELF objects cannot
 hold

The alignment of a section has 32 bits there; a larger one was silently
truncated to zero.
---
 src/elf.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index e28b76b..bab8f78 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -811,6 +811,12 @@ impl<'a> Elf<'a> {
             return Ok(());
         }
         let fits = |value: u64| value <= u64::from(u32::max_value());
+        for section in &self.sections {
+            if !fits(section.header.sh_addralign) {
+                let msg = format!("section exceeds a 32-bit object: {:?}", section.header);
+                return Err(goblin::error::Error::Malformed(msg));
+            }
+        }
         let symbols = self.sections.iter().map(|section| &section.symbol);
         let symbols = symbols.chain(self.custom_symbols.iter());
         for symbol in symbols.chain(self.symbols.values()) {
-- 
2.43.0


From bb7b74b92efb6b27183ff67717273f41d7cd2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:28 +0000
Subject: [PATCH 23/28] fix: refuse addresses and offsets which wrap around in
 Mach-O

Sizes, alignments, custom symbol offsets and link offsets whose sum exceeds
64 bits wrapped around in release builds: symbols overlapped and relocations
were placed elsewhere.
---
 src/mach.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 196b6ce..aa6cb7c 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -60,10 +60,16 @@ fn align_to_align_exp(align: u64) -> u64 {
 fn align_addr(addr: &mut u64, align_exp: u64) {
     let misalignment = *addr % (1 << align_exp);
     if misalignment != 0 {
-        *addr += (1 << align_exp) - misalignment;
+        *addr = add_to_addr(*addr, (1 << align_exp) - misalignment);
     }
 }
 
+/// Addresses have 64 bits: panic rather than let them wrap around
+fn add_to_addr(addr: u64, offset: u64) -> u64 {
+    addr.checked_add(offset)
+        .expect("addresses exceed a Mach-O object")
+}
+
 /// The type of a relocation has four bits
 const MAX_RELOC_TYPE: u32 = 0xf;
 
@@ -526,7 +532,7 @@ impl SegmentBuilder {
                     weak: def.decl.is_weak(),
                 },
             );
-            *symbol_offset += def_size;
+            *symbol_offset = add_to_addr(*symbol_offset, def_size);
             section_relative_offset += def_size;
             local_size += def_size;
 
@@ -546,7 +552,7 @@ impl SegmentBuilder {
             };
             align_pad_map.insert(def.name.to_string(), align_pad);
 
-            *symbol_offset += align_pad;
+            *symbol_offset = add_to_addr(*symbol_offset, align_pad);
             section_relative_offset += align_pad;
             local_size += align_pad;
         }
@@ -604,7 +610,7 @@ impl SegmentBuilder {
                 SymbolType::Defined {
                     section: section_idx,
                     segment_relative_offset: *symbol_dst_offset,
-                    absolute_offset: *symbol_offset + *symbol_dst_offset,
+                    absolute_offset: add_to_addr(*symbol_offset, *symbol_dst_offset),
                     global: true,
                     weak: false,
                 },
@@ -612,7 +618,7 @@ impl SegmentBuilder {
         }
 
         let local_size = def.data.file_size() as u64;
-        *symbol_offset += local_size;
+        *symbol_offset = add_to_addr(*symbol_offset, local_size);
         let section = SectionBuilder::new(sectname, segment_name, local_size)
             .offset(*offset)
             .addr(*addr)
@@ -1112,8 +1118,9 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         };
         match (location, symtab.index(link.to.name)) {
             (Some((section, base_offset)), Some(to_symbol_index)) => {
-                debug!("{} offset: {}", link.to.name, base_offset + link.at);
-                let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
+                let offset = add_to_addr(base_offset, link.at);
+                debug!("{} offset: {}", link.to.name, offset);
+                let builder = RelocationBuilder::new(to_symbol_index, offset, reloc);
                 let builder = if absolute { builder.absolute() } else { builder };
                 segment.sections[section].relocations.push(builder.create());
             },
-- 
2.43.0


From 70cbbdb213b1498129c8d7db7885f58dae958157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:33 +0000
Subject: [PATCH 24/28] fix: keep writable strings out of the read-only, merged
 Mach-O __cstring section

---
 src/mach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index aa6cb7c..d46fe2d 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -767,7 +767,7 @@ impl<'a> Mach<'a> {
                 DefinedDecl::Data(d) => {
                     if let Data::ZeroInit(_) = def.data {
                         bss.push(def);
-                    } else if d.get_datatype() == DataType::String {
+                    } else if d.get_datatype() == DataType::String && !d.is_writable() {
                         cstrings.push(def);
                     } else {
                         data.push(def);
-- 
2.43.0


From b149cf633655e45a539b8a33a665f6e8080ab419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 25/28] fix: hidden Mach-O definitions are private external
 symbols

---
 src/artifact/decl.rs |  9 +++++++++
 src/mach.rs          | 17 ++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 2c6e9a2..c66e221 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -221,6 +221,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Accessor to determine whether visibility is hidden
+    pub(crate) fn is_hidden(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_visibility() == Visibility::Hidden,
+            DefinedDecl::Data(a) => a.get_visibility() == Visibility::Hidden,
+            DefinedDecl::Section(_) => false,
+        }
+    }
+
     /// Accessor to determine whether scope is local. False if global or weak.
     pub(crate) fn is_local(&self) -> bool {
         match self {
diff --git a/src/mach.rs b/src/mach.rs
index d46fe2d..5da030e 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -89,6 +89,7 @@ struct SymbolBuilder {
     section: Option<SectionIndex>,
     global: bool,
     weak: bool,
+    hidden: bool,
     import: bool,
     offset: u64,
     segment_relative_offset: u64,
@@ -102,6 +103,7 @@ impl SymbolBuilder {
             section: None,
             global: false,
             weak: false,
+            hidden: false,
             import: false,
             offset: 0,
             segment_relative_offset: 0,
@@ -122,6 +124,11 @@ impl SymbolBuilder {
         self.weak = weak;
         self
     }
+    /// Is this symbol not visible to other components?
+    pub fn hidden(mut self, hidden: bool) -> Self {
+        self.hidden = hidden;
+        self
+    }
     pub fn offset(mut self, offset: u64) -> Self {
         self.offset = offset;
         self
@@ -146,7 +153,7 @@ impl SymbolBuilder {
     }
     /// Finalize and create the symbol
     pub fn create(self) -> Nlist {
-        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF, N_WEAK_DEF};
+        use goblin::mach::symbols::{NO_SECT, N_EXT, N_PEXT, N_SECT, N_UNDF, N_WEAK_DEF};
         let n_strx = self.name;
         let mut n_sect = 0;
         let mut n_type = N_UNDF;
@@ -154,6 +161,9 @@ impl SymbolBuilder {
         let n_desc = if self.weak { N_WEAK_DEF } else { 0 };
         if self.global {
             n_type |= N_EXT;
+            if self.hidden {
+                n_type |= N_PEXT;
+            }
         } else {
             n_type &= !N_EXT;
         }
@@ -371,6 +381,7 @@ enum SymbolType {
         segment_relative_offset: u64,
         global: bool,
         weak: bool,
+        hidden: bool,
     },
     /// An undefined symbol (an import)
     Undefined,
@@ -436,10 +447,12 @@ impl SymbolTable {
                     absolute_offset,
                     global,
                     weak,
+                    hidden,
                     segment_relative_offset,
                 } => SymbolBuilder::new(self.strtable_size)
                     .global(global)
                     .weak(weak)
+                    .hidden(hidden)
                     .offset(absolute_offset)
                     .relative_offset(segment_relative_offset)
                     .section(section),
@@ -530,6 +543,7 @@ impl SegmentBuilder {
                     // a weak symbol is external, too
                     global: !def.decl.is_local(),
                     weak: def.decl.is_weak(),
+                    hidden: def.decl.is_hidden(),
                 },
             );
             *symbol_offset = add_to_addr(*symbol_offset, def_size);
@@ -613,6 +627,7 @@ impl SegmentBuilder {
                     absolute_offset: add_to_addr(*symbol_offset, *symbol_dst_offset),
                     global: true,
                     weak: false,
+                    hidden: false,
                 },
             );
         }
-- 
2.43.0


From 387f44a8ccde08d7025dfe7897d7a59000d6e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 26/28] fix: only Intel processors have the Mach-O processor
 subtype 3

---
 src/mach.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index 5da030e..63e9213 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -820,12 +820,20 @@ impl<'a> Mach<'a> {
         }
     }
     fn header(&self, sizeofcmds: u64) -> Header {
+        use goblin::mach::cputype::{
+            CPU_SUBTYPE_ARM64_ALL, CPU_SUBTYPE_I386_ALL, CPU_SUBTYPE_X86_64_ALL,
+        };
         let mut header = Header::new(self.ctx);
         header.filetype = MH_OBJECT;
         // safe to divide up the sections into sub-sections via symbols for dead code stripping
         header.flags = MH_SUBSECTIONS_VIA_SYMBOLS;
         header.cputype = CpuType::from(self.architecture).0;
-        header.cpusubtype = 3;
+        header.cpusubtype = match self.architecture {
+            Architecture::X86_64 => CPU_SUBTYPE_X86_64_ALL,
+            Architecture::X86_32(_) => CPU_SUBTYPE_I386_ALL,
+            // the same for ARM, PowerPC and SPARC
+            _ => CPU_SUBTYPE_ARM64_ALL,
+        };
         header.ncmds = 2;
         header.sizeofcmds = sizeofcmds as u32;
         header
-- 
2.43.0


From d506f480a93aceeba67fa3d35b095a5346edd473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 27/28] fix: ELF links to weak definitions follow the
 definition the linker selects

---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index bab8f78..43d9e10 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -735,6 +735,8 @@ impl<'a> Elf<'a> {
         let addend = i64::from(addend);
 
         let sym_idx = match *l.to.decl {
+            // a global definition elsewhere takes the place of a weak one: refer to its name
+            Decl::Defined(decl) if decl.is_weak() => to_idx,
             Decl::Defined(_) => {
                 // We don't emit symbols for null + strtab + symtab, and
                 // section symbols come after special symbols.
-- 
2.43.0


From 174fccaac03bf18f4b6f00522e8bea8285ab1377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:17 +0000
Subject: [PATCH 28/28] fix: give ELF custom sections the permissions of their
 kind

---
 src/elf.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 43d9e10..989f9a3 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -8,7 +8,7 @@
 use crate::{
     artifact::{
         self, Artifact, Data, DataType, Decl, DefinedDecl, ImportKind, LinkAndDecl, Reloc, Scope,
-        Visibility,
+        SectionKind, Visibility,
     },
     target::make_ctx,
     Ctx,
@@ -243,6 +243,13 @@ impl SectionBuilder {
         self.write = writable;
         self
     }
+    /// Set the permissions of a custom section
+    pub fn kind(mut self, kind: SectionKind) -> Self {
+        self.alloc = kind != SectionKind::Debug;
+        self.write = kind == SectionKind::Data;
+        self.exec = kind == SectionKind::Text;
+        self
+    }
     /// Specify section alignment
     pub fn align(mut self, align: Option<u64>) -> Self {
         self.align = align;
@@ -559,7 +566,9 @@ impl<'a> Elf<'a> {
                         Self::section_type_for_data(d.get_datatype(), def.data.is_zero_init())
                     },
                 )
-                .align(d.get_align()),
+                .kind(d.kind())
+                // contiguous with the section of this name in other objects, unless asked otherwise
+                .align(d.get_align().or(Some(1))),
         };
 
         let shndx = match def.data {
-- 
2.43.0

