From 74a60a310d9aeaa14d97605e43b93e4d99024968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/26] fix: count custom section symbols as locals in the ELF
 symtab sh_info

Symbols attached to a section definition are emitted STB_LOCAL but were not
counted in .symtab's sh_info, so ld and lld reject the object.
---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 91c8add..7e8b7f7 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -590,6 +590,8 @@ impl<'a> Elf<'a> {
                         .create();
 
                     self.symbols.insert(idx, symbol);
+                    // custom section symbols are STB_LOCAL, so sh_info must account for them
+                    self.nlocals += 1;
                 }
             }
         }
-- 
2.43.0


From 6e4ce78357c1956f5699efea082152c205d2ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 02/26] fix: keep weak ELF symbols out of the local part of the
 symtab

Weak definitions were ordered among, and counted in sh_info as, local
symbols; linkers reject such objects as malformed.
---
 src/artifact.rs      | 3 ++-
 src/artifact/decl.rs | 9 +++++++++
 src/elf.rs           | 4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index d0b9418..b98f330 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -496,7 +496,8 @@ impl Artifact {
                     }
                 }
 
-                if decl.is_global() {
+                // weak definitions are not local: they have to follow all locals in ELF symtabs
+                if decl.get_scope() != Scope::Local {
                     self.nonlocal_definitions.insert(InternalDefinition {
                         name: decl_name,
                         data,
diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 07c35fa..54f343e 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Accessor to determine the binding scope; sections are always local
+    pub(crate) fn get_scope(&self) -> Scope {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope(),
+            DefinedDecl::Data(a) => a.get_scope(),
+            DefinedDecl::Section(_) => Scope::Local,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 7e8b7f7..5b214af 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -567,9 +567,9 @@ impl<'a> Elf<'a> {
                 // insert it into our symbol table
                 self.symbols.insert(idx, symbol);
                 // sh_info requires nsections + nlocals to add as delimiter; see the associated FunFact
-                // nonglobals go into the symbol table first (per iteration through definitions in
+                // locals go into the symbol table first (per iteration through definitions in
                 // caller)
-                if !decl.is_global() {
+                if decl.get_scope() == Scope::Local {
                     self.nlocals += 1;
                 }
             }
-- 
2.43.0


From 4cdad8a649c2887e46c12862c1a17b39a4d294fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 03/26] fix: relocate against the symbol of weak ELF
 definitions

Links to a weak definition went through its section symbol, so they were
bound to the weak definition even if a global one overrides it.
---
 src/elf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 5b214af..cd2df21 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -722,6 +722,9 @@ impl<'a> Elf<'a> {
         let addend = i64::from(addend);
 
         let sym_idx = match *l.to.decl {
+            // A weak definition can be overridden by another object, so refer to the symbol and
+            // let the linker choose; the section symbol would bind to our definition regardless.
+            Decl::Defined(d) if d.get_scope() == Scope::Weak => to_idx,
             Decl::Defined(_) => {
                 // We don't emit symbols for null + strtab + symtab, and
                 // section symbols come after special symbols.
-- 
2.43.0


From 59ae05fc3571b592b89a1cd571313cf49c06e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 04/26] fix: give ELF zero-initialized data its size

.bss sections and their symbols were emitted with size 0, so that a linker
reserves no memory and places other objects on top of the data.
---
 src/elf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index cd2df21..504e338 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -502,7 +502,11 @@ impl<'a> Elf<'a> {
     pub fn add_definition(&mut self, def: artifact::Definition<'a>) {
         let name = def.name;
         let decl = def.decl;
-        let def_size = def.data.file_size();
+        // the size in memory: zero-initialized data takes no space in the file, but it does once loaded
+        let def_size = match def.data {
+            Data::Blob(bytes) => bytes.len(),
+            Data::ZeroInit(size) => *size,
+        };
 
         let section_name = match (def.data, decl) {
             (Data::Blob(_), DefinedDecl::Function(_)) => format!(".text.{}", name),
-- 
2.43.0


From adf9868d032c3230fce646f50528e1cdd74c8ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 05/26] fix: honor the alignment of ELF zero-initialized data

---
 src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elf.rs b/src/elf.rs
index 504e338..4224dcf 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -322,6 +322,7 @@ impl SectionBuilder {
                 shdr.sh_type = SHT_SYMTAB_SHNDX;
             }
             SectionType::NoBits => {
+                shdr.sh_addralign = align;
                 shdr.sh_type = SHT_NOBITS;
                 // .bss is always SHF_WRITE and SHF_ALLOC
                 // TODO: warn users if self.alloc is not set
-- 
2.43.0


From 58056c2a66f59b471d96ef314dd3cdc49faef4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 06/26] fix: emit ELF artifacts named .strtab or .symtab

The name was counted twice in the string table's size, which made emit panic.
---
 src/elf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 4224dcf..fda0f57 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -442,6 +442,10 @@ impl<'a> Elf<'a> {
                 let name = name.to_owned();
                 let size = name.len() + 1;
                 let idx = strings.get_or_intern(name);
+                if let Some(&offset) = offsets.get(&idx) {
+                    // the artifact has the name of one of our sections
+                    return offset;
+                }
                 let offset = sizeof_strtab;
                 offsets.insert(idx, offset);
                 sizeof_strtab += size;
-- 
2.43.0


From f3c923d0e40298c5d1f72ddbfbd62c8fca32c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 07/26] fix: don't merge ELF sections that happen to have the
 same name

A section declared as e.g. .text.f, next to a function f, replaced that
function's section (or the other way around) and made emit panic.
---
 src/elf.rs | 60 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index fda0f57..65676fc 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -394,12 +394,15 @@ impl RelocationBuilder {
 /// An intermediate ELF object file container
 struct Elf<'a> {
     name: &'a str,
-    code: IndexMap<StringIndex, &'a [u8]>,
+    code: Vec<&'a [u8]>,
     relocations: IndexMap<StringIndex, (Section, Vec<Relocation>)>,
     symbols: IndexMap<StringIndex, Symbol>,
     special_symbols: Vec<Symbol>,
     imports: HashMap<StringIndex, ImportKind>,
-    sections: IndexMap<StringIndex, SectionInfo>,
+    sections: Vec<SectionInfo>,
+    // the positions in `sections` of declared sections; the name of one can be the same as a name
+    // we derive for the section of a function or data object, so names don't identify sections
+    declared_sections: HashMap<StringIndex, usize>,
     offsets: HashMap<StringIndex, Offset>,
     sizeof_strtab: Offset,
     strings: StringInterner<StringIndex>,
@@ -467,12 +470,13 @@ impl<'a> Elf<'a> {
         let sizeof_bits = Header::size(ctx);
         Elf {
             name: &artifact.name,
-            code: IndexMap::new(),
+            code: Vec::new(),
             relocations: IndexMap::new(),
             imports: HashMap::new(),
             symbols: IndexMap::new(),
             special_symbols,
-            sections: IndexMap::new(),
+            sections: Vec::new(),
+            declared_sections: HashMap::new(),
             nsections: 4,
             offsets,
             strings,
@@ -557,7 +561,7 @@ impl<'a> Elf<'a> {
 
         let shndx = match def.data {
             Data::Blob(bytes) => self.add_progbits(section_name, section, bytes),
-            Data::ZeroInit(_) => self.add_section(section_name, section).1,
+            Data::ZeroInit(_) => self.add_section(section_name, section),
         };
 
         match decl {
@@ -583,6 +587,9 @@ impl<'a> Elf<'a> {
                 }
             }
             DefinedDecl::Section(_) => {
+                let (idx, _) = self.new_string(name.to_string());
+                // The section index is after null + strtab + symtab.
+                self.declared_sections.insert(idx, shndx - 3);
                 for (symbol, symbol_dst_offset) in def.symbols {
                     // TODO: can we move the string instead of cloning?
                     let (idx, offset) = self.new_string(symbol.clone());
@@ -607,15 +614,15 @@ impl<'a> Elf<'a> {
     }
     /// Create a progbits section (and its section symbol), and return the section index.
     fn add_progbits(&mut self, name: String, section: SectionBuilder, data: &'a [u8]) -> usize {
-        let (idx, shndx) = self.add_section(name, section);
+        let shndx = self.add_section(name, section);
         // increment the size
         self.sizeof_bits += data.len();
 
-        self.code.insert(idx, data);
+        self.code.push(data);
         shndx
     }
-    /// Create a section (and its section symbol) and return the symbol and section indexes
-    fn add_section(&mut self, name: String, section: SectionBuilder) -> (usize, usize) {
+    /// Create a section (and its section symbol) and return the section index
+    fn add_section(&mut self, name: String, section: SectionBuilder) -> usize {
         let (idx, offset) = self.new_string(name);
         debug!(
             "idx: {:?} @ {:#x} - new strtab offset: {:#x}",
@@ -631,16 +638,13 @@ impl<'a> Elf<'a> {
         let mut section = section.name_offset(offset).create(&self.ctx);
         // the offset is the head of how many program bits we've added
         section.sh_offset = self.sizeof_bits as u64;
-        self.sections.insert(
-            idx,
-            SectionInfo {
-                header: section,
-                symbol: section_symbol,
-                name: idx,
-            },
-        );
+        self.sections.push(SectionInfo {
+            header: section,
+            symbol: section_symbol,
+            name: idx,
+        });
         self.nsections += 1;
-        (idx, shndx)
+        shndx
     }
     pub fn import(&mut self, import: String, kind: &ImportKind) {
         let (idx, offset) = self.new_string(import);
@@ -655,9 +659,9 @@ impl<'a> Elf<'a> {
         let (to_idx, to_shndx) = {
             let to_idx = self.strings.get_or_intern(l.to.name);
             if l.to.decl.is_section() {
-                let (to_idx, _, _) = self
-                    .sections
-                    .get_full(&to_idx)
+                let to_idx = *self
+                    .declared_sections
+                    .get(&to_idx)
                     .expect("to_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -677,9 +681,9 @@ impl<'a> Elf<'a> {
         let (from_idx, from_shndx) = {
             let from_idx = self.strings.get_or_intern(l.from.name);
             if l.from.decl.is_section() {
-                let (from_idx, _, _) = self
-                    .sections
-                    .get_full(&from_idx)
+                let from_idx = *self
+                    .declared_sections
+                    .get(&from_idx)
                     .expect("from_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -765,9 +769,9 @@ impl<'a> Elf<'a> {
             debug!("{} does NOT have relocs", relocee);
             // now create the relocation section
             let reloc_name = {
-                let (_, section) = self
+                let section = self
                     .sections
-                    .get_index(shndx - 3)
+                    .get(shndx - 3)
                     .expect("shndx present in sections");
                 let section_name = self
                     .strings
@@ -869,7 +873,7 @@ impl<'a> Elf<'a> {
         // Code
         /////////////////////////////////////
 
-        for (_idx, bytes) in self.code.drain(..) {
+        for bytes in self.code.drain(..) {
             file.write_all(bytes)?;
         }
         let after_code = file.seek(Current(0))?;
@@ -946,7 +950,7 @@ impl<'a> Elf<'a> {
             }
             file.iowrite_with(symbol, self.ctx)?;
         }
-        for (_id, section) in self.sections.into_iter() {
+        for section in self.sections.into_iter() {
             debug!("Section Symbol: {:?}", section.symbol);
             let mut sym = section.symbol.clone();
             if need_symtab_shndx {
-- 
2.43.0


From 68c531ff1e39af3498679557295f6d33d73487cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 08/26] fix: don't let linkers merge writable ELF strings

---
 src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 65676fc..23c3905 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -294,7 +294,10 @@ impl SectionBuilder {
             SectionType::String => {
                 shdr.sh_addralign = align;
                 shdr.sh_type = SHT_PROGBITS;
-                shdr.sh_flags |= (SHF_MERGE | SHF_STRINGS) as u64;
+                // writable strings have an identity, they can't be merged
+                if !self.write {
+                    shdr.sh_flags |= (SHF_MERGE | SHF_STRINGS) as u64;
+                }
             }
             SectionType::Data => {
                 shdr.sh_addralign = align;
-- 
2.43.0


From 0fdad0db531ecdfffc5f937bc10c215592f9b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 09/26] fix: put writable Mach-O strings in __data

They were put in __TEXT,__cstring, which is mapped read only.
---
 src/mach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index d23809c..3aae991 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -699,7 +699,7 @@ impl<'a> Mach<'a> {
                     if let Data::ZeroInit(size) = def.data {
                         bss.push(def);
                         bss_size += size;
-                    } else if d.get_datatype() == DataType::String {
+                    } else if d.get_datatype() == DataType::String && !d.is_writable() {
                         cstrings.push(def);
                     } else {
                         data.push(def);
-- 
2.43.0


From 895db4b3d2a17fd1143ddec5ec5b740bb419bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 10/26] fix: report the requested format as the unsupported one

emit_as and write_as reported the target's format instead.
---
 src/artifact.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index b98f330..279141b 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -592,9 +592,7 @@ impl Artifact {
                 BinaryFormat::Elf => elf::to_bytes(self)?,
                 BinaryFormat::Macho => mach::to_bytes(self)?,
                 _ => {
-                    return Err(ArtifactError::UnsupportedBinaryFormat(
-                        self.target.binary_format.to_owned(),
-                    ))
+                    return Err(ArtifactError::UnsupportedBinaryFormat(format))
                 }
             };
             Ok(bytes)
-- 
2.43.0


From bf1bc36aaac57dd1e1b18b7ba3d072a42721bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 11/26] fix: reject custom section symbols that clash with
 another symbol

One of the two symbols was silently dropped from the object (or overwritten).
---
 src/artifact.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/artifact.rs b/src/artifact.rs
index 279141b..d6ce38e 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -578,6 +578,23 @@ impl Artifact {
         syms
     }
 
+    /// Check that the custom symbols of sections have a name of their own.
+    fn check_custom_symbols(&self) -> Result<(), ArtifactError> {
+        let mut seen = BTreeSet::new();
+        for symbol in self.definitions().flat_map(|def| def.symbols.keys()) {
+            let declared = self
+                .strings
+                .get(symbol)
+                .and_then(|id| self.declarations.get(&id))
+                // declared sections aren't symbols
+                .map_or(false, |declaration| !declaration.decl.is_section());
+            if declared || !seen.insert(symbol) {
+                return Err(ArtifactError::DuplicateDefinition(symbol.clone()));
+            }
+        }
+        Ok(())
+    }
+
     /// Emit a blob of bytes representing the object file in the format specified in the target the
     /// `Artifact` was constructed with.
     pub fn emit(&self) -> Result<Vec<u8>, ArtifactError> {
@@ -588,6 +605,7 @@ impl Artifact {
     pub fn emit_as(&self, format: BinaryFormat) -> Result<Vec<u8>, ArtifactError> {
         let undef = self.undefined_symbols();
         if undef.is_empty() {
+            self.check_custom_symbols()?;
             let bytes = match format {
                 BinaryFormat::Elf => elf::to_bytes(self)?,
                 BinaryFormat::Macho => mach::to_bytes(self)?,
-- 
2.43.0


From 03233172a0fcbd49d59c0d634d5a705c827db2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 12/26] fix: add Mach-O relocations to the section they apply
 to

Absolute relocations were all added to __data and all others to __text, with
an offset into the section of the link's source: links from C strings, and
raw relocations, patched the wrong place.
---
 src/mach.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 3aae991..c1ea682 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -111,6 +111,10 @@ impl SymbolBuilder {
     pub fn get_segment_relative_offset(&self) -> u64 {
         self.segment_relative_offset
     }
+    /// Returns the section this symbol belongs to, if any
+    pub fn get_section(&self) -> Option<SectionIndex> {
+        self.section
+    }
     /// Is this symbol an import?
     pub fn import(mut self) -> Self {
         self.import = true;
@@ -362,6 +366,13 @@ impl SymbolTable {
             .and_then(|idx| self.symbols.get(&idx))
             .and_then(|sym| Some(sym.get_segment_relative_offset()))
     }
+    /// Lookup the section this symbol is defined in
+    pub fn section(&self, symbol_name: &str) -> Option<SectionIndex> {
+        self.strtable
+            .get(symbol_name)
+            .and_then(|idx| self.symbols.get(&idx))
+            .and_then(|sym| sym.get_section())
+    }
     /// Lookup this symbols ordinal index in the symbol table, if it has one
     pub fn index(&self, symbol_name: &str) -> Option<SymbolIndex> {
         self.strtable
@@ -946,8 +957,6 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
     };
-    let text_idx = segment.sections.get_full("__text").unwrap().0;
-    let data_idx = segment.sections.get_full("__data").unwrap().0;
     debug!("Generating relocations");
     for link in artifact.links() {
         debug!(
@@ -1021,17 +1030,17 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
-        match (symtab.offset(link.from.name), symtab.index(link.to.name)) {
-            (Some(base_offset), Some(to_symbol_index)) => {
+        match (
+            symtab.offset(link.from.name),
+            symtab.section(link.from.name),
+            symtab.index(link.to.name),
+        ) {
+            (Some(base_offset), Some(from_section), Some(to_symbol_index)) => {
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
-                // NB: we currently associate absolute relocations with data relocations; this may prove
-                // too fragile for future additions; needs analysis
-                if absolute {
-                    segment.sections.get_index_mut(data_idx).unwrap().1.relocations.push(builder.absolute().create());
-                } else {
-                    segment.sections.get_index_mut(text_idx).unwrap().1.relocations.push(builder.create());
-                }
+                let builder = if absolute { builder.absolute() } else { builder };
+                // the relocation applies to, and its offset is relative to, the section of `from`
+                segment.sections.get_index_mut(from_section).unwrap().1.relocations.push(builder.create());
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
         }
-- 
2.43.0


From 056a4968b099a4b10f72cb8244baf971d7a3d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 13/26] fix: don't silently drop Mach-O raw relocations of
 custom sections

Automatic relocations from or to a custom section panic as not supported,
but raw ones were left out of the object with just a log message.
---
 src/mach.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index c1ea682..3466d7f 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1042,7 +1042,8 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 // the relocation applies to, and its offset is relative to, the section of `from`
                 segment.sections.get_index_mut(from_section).unwrap().1.relocations.push(builder.create());
             },
-            _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
+            // a raw relocation from/to a custom section, which has no symbol
+            _ => panic!("relocations are not yet supported for custom sections")
         }
     }
 }
-- 
2.43.0


From aa4a93cfb2204034f4f06f8cc9684690a405b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 14/26] fix: keep Mach-O custom sections apart from default
 ones of the same name

A section declared as e.g. __data replaced the default section, so that
its contents and the symbols in it were lost.
---
 src/mach.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 3466d7f..ce91e1d 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -425,7 +425,10 @@ impl SymbolTable {
 /// A Mach-o program segment
 struct SegmentBuilder {
     /// The sections that belong to this program segment
-    pub sections: IndexMap<String, SectionBuilder>,
+    pub sections: Vec<SectionBuilder>,
+    /// Where the declared sections are in `sections`, by the name they were declared with
+    /// (which may well be the name of one of the default sections)
+    custom_sections: HashMap<String, SectionIndex>,
     /// A stupid offset value I need to refactor out
     pub offset: u64,
     size: u64,
@@ -451,7 +454,7 @@ impl SegmentBuilder {
         symtab: &mut SymbolTable,
         sectname: &'static str,
         segname: &'static str,
-        sections: &mut IndexMap<String, SectionBuilder>,
+        sections: &mut Vec<SectionBuilder>,
         offset: &mut u64,
         addr: &mut u64,
         symbol_offset: &mut u64,
@@ -514,11 +517,11 @@ impl SegmentBuilder {
         }
         *offset += local_size;
         *addr += local_size;
-        sections.insert(sectname.to_string(), section);
+        sections.push(section);
     }
     fn build_custom_section(
         symtab: &mut SymbolTable,
-        sections: &mut IndexMap<String, SectionBuilder>,
+        sections: &mut Vec<SectionBuilder>,
         offset: &mut u64,
         addr: &mut u64,
         symbol_offset: &mut u64,
@@ -569,7 +572,7 @@ impl SegmentBuilder {
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
-        sections.insert(def.name.to_string(), section);
+        sections.push(section);
     }
     /// Create a new program segment from an `artifact`, symbol table, and context
     // FIXME: this is pub(crate) for now because we can't leak pub(crate) Definition
@@ -586,7 +589,8 @@ impl SegmentBuilder {
         let mut offset = Header::size_with(&ctx.container) as u64;
         let mut size = 0;
         let mut symbol_offset = 0;
-        let mut sections = IndexMap::new();
+        let mut sections = Vec::new();
+        let mut custom_section_indexes = HashMap::new();
         let mut align_pad_map = HashMap::new();
 
         Self::build_section(
@@ -655,6 +659,7 @@ impl SegmentBuilder {
                 idx + NUM_DEFAULT_SECTIONS,
                 def,
             );
+            custom_section_indexes.insert(def.name.to_string(), idx + NUM_DEFAULT_SECTIONS);
         }
         for (ref import, _) in artifact.imports() {
             symtab.insert(import, SymbolType::Undefined);
@@ -668,6 +673,7 @@ impl SegmentBuilder {
         SegmentBuilder {
             size,
             sections,
+            custom_sections: custom_section_indexes,
             offset,
             align_pad_map,
         }
@@ -779,7 +785,7 @@ impl<'a> Mach<'a> {
         let mut raw_sections = Cursor::new(Vec::<u8>::new());
         let mut relocation_offset = relocation_offset_start;
         let mut section_offset = first_section_offset;
-        for section in self.segment.sections.values() {
+        for section in self.segment.sections.iter() {
             let header = section.create(&mut section_offset, &mut relocation_offset);
             debug!("Section: {:#?}", header);
             raw_sections.iowrite_with(header, self.ctx)?;
@@ -936,7 +942,7 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // write relocations
         //////////////////////////////
-        for section in self.segment.sections.values() {
+        for section in self.segment.sections.iter() {
             debug!("Relocations: {}", section.relocations.len());
             for reloc in section.relocations.iter().cloned() {
                 debug!("  {:?}", reloc);
@@ -1022,7 +1028,8 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                     match symtab.index(link.to.name) {
                         Some(to_symbol_index) => {
                             let builder = RelocationBuilder::new(to_symbol_index, link.at, X86_64_RELOC_UNSIGNED).absolute().size(size);
-                            segment.sections[link.from.name].relocations.push(builder.create());
+                            let from_section = segment.custom_sections[link.from.name];
+                            segment.sections[from_section].relocations.push(builder.create());
                         }
                         _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
                     }
@@ -1040,7 +1047,7 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
                 let builder = if absolute { builder.absolute() } else { builder };
                 // the relocation applies to, and its offset is relative to, the section of `from`
-                segment.sections.get_index_mut(from_section).unwrap().1.relocations.push(builder.create());
+                segment.sections[from_section].relocations.push(builder.create());
             },
             // a raw relocation from/to a custom section, which has no symbol
             _ => panic!("relocations are not yet supported for custom sections")
-- 
2.43.0


From 34f2d689fad757e5d62759f690c948fd5e519d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 15/26] fix: give Mach-O zero-initialized data its size and no
 file contents

__bss was emitted as an empty section whose symbols were all at the same
address, and overlapped whatever came after it.
---
 src/mach.rs | 74 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index ce91e1d..3cda936 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -62,8 +62,8 @@ type StrtableOffset = u64;
 const CODE_SECTION_INDEX: SectionIndex = 0;
 const DATA_SECTION_INDEX: SectionIndex = 1;
 const CSTRING_SECTION_INDEX: SectionIndex = 2;
-const BSS_SECTION_INDEX: SectionIndex = 3;
-const NUM_DEFAULT_SECTIONS: SectionIndex = 4;
+// the custom sections follow, and __bss, which takes no space in the file, is the last section
+const FIRST_CUSTOM_SECTION_INDEX: SectionIndex = 3;
 
 /// A builder for creating a 32/64 bit Mach-o Nlist symbol
 #[derive(Debug)]
@@ -284,8 +284,13 @@ impl SectionBuilder {
             nreloc: 0,
             flags: self.flags,
         };
-        section.offset = *section_offset as u32;
-        *section_offset += section.size;
+        if self.flags == S_ZEROFILL {
+            // not in the file
+            section.offset = 0;
+        } else {
+            section.offset = *section_offset as u32;
+            *section_offset += section.size;
+        }
         if !self.relocations.is_empty() {
             let nrelocs = self.relocations.len();
             section.nreloc = nrelocs as _;
@@ -431,12 +436,17 @@ struct SegmentBuilder {
     custom_sections: HashMap<String, SectionIndex>,
     /// A stupid offset value I need to refactor out
     pub offset: u64,
+    file_size: u64,
     size: u64,
     align_pad_map: HashMap<String, u64>,
 }
 
 impl SegmentBuilder {
-    /// The size of this segment's _data_, in bytes
+    /// The size of this segment's _data_ in the file, in bytes
+    pub fn file_size(&self) -> u64 {
+        self.file_size
+    }
+    /// The size of this segment in memory, including zero-initialized data, in bytes
     pub fn size(&self) -> u64 {
         self.size
     }
@@ -482,9 +492,13 @@ impl SegmentBuilder {
                     global: def.decl.is_global(),
                 },
             );
-            *symbol_offset += def.data.file_size() as u64;
-            section_relative_offset += def.data.file_size() as u64;
-            local_size += def.data.file_size() as u64;
+            let def_size = match def.data {
+                Data::Blob(bytes) => bytes.len() as u64,
+                Data::ZeroInit(size) => *size as u64,
+            };
+            *symbol_offset += def_size;
+            section_relative_offset += def_size;
+            local_size += def_size;
 
             let next_def_alignment_exponent = std::cmp::max(
                 min_alignment_exponent,
@@ -635,32 +649,35 @@ impl SegmentBuilder {
             Some(S_CSTRING_LITERALS),
             &mut align_pad_map,
         );
+        for (idx, def) in custom_sections.iter().enumerate() {
+            Self::build_custom_section(
+                symtab,
+                &mut sections,
+                &mut offset,
+                &mut size,
+                &mut symbol_offset,
+                idx + FIRST_CUSTOM_SECTION_INDEX,
+                def,
+            );
+            custom_section_indexes.insert(def.name.to_string(), idx + FIRST_CUSTOM_SECTION_INDEX);
+        }
+        // all sections up to here have contents in the file
+        let file_size = size;
         Self::build_section(
             symtab,
             "__bss",
             "__DATA",
             &mut sections,
-            &mut offset,
+            // not in the file
+            &mut 0,
             &mut size,
             &mut symbol_offset,
-            BSS_SECTION_INDEX,
+            custom_sections.len() + FIRST_CUSTOM_SECTION_INDEX,
             &zeroed_data,
             0,
             Some(S_ZEROFILL),
             &mut align_pad_map,
         );
-        for (idx, def) in custom_sections.iter().enumerate() {
-            Self::build_custom_section(
-                symtab,
-                &mut sections,
-                &mut offset,
-                &mut size,
-                &mut symbol_offset,
-                idx + NUM_DEFAULT_SECTIONS,
-                def,
-            );
-            custom_section_indexes.insert(def.name.to_string(), idx + NUM_DEFAULT_SECTIONS);
-        }
         for (ref import, _) in artifact.imports() {
             symtab.insert(import, SymbolType::Undefined);
         }
@@ -671,6 +688,7 @@ impl SegmentBuilder {
             size, offset
         );
         SegmentBuilder {
+            file_size,
             size,
             sections,
             custom_sections: custom_section_indexes,
@@ -689,7 +707,6 @@ struct Mach<'a> {
     segment: SegmentBuilder,
     code: ArtifactCode<'a>,
     data: ArtifactData<'a>,
-    bss_size: usize,
     cstrings: Vec<Definition<'a>>,
     sections: Vec<Definition<'a>>,
     _p: ::std::marker::PhantomData<&'a ()>,
@@ -699,13 +716,12 @@ impl<'a> Mach<'a> {
     pub fn new(artifact: &'a Artifact) -> Self {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
-        let (mut code, mut data, mut bss, mut cstrings, mut sections, mut bss_size) = (
+        let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
-            0,
         );
         for def in artifact.definitions() {
             match def.decl {
@@ -713,9 +729,8 @@ impl<'a> Mach<'a> {
                     code.push(def);
                 }
                 DefinedDecl::Data(d) => {
-                    if let Data::ZeroInit(size) = def.data {
+                    if let Data::ZeroInit(_) = def.data {
                         bss.push(def);
-                        bss_size += size;
                     } else if d.get_datatype() == DataType::String && !d.is_writable() {
                         cstrings.push(def);
                     } else {
@@ -749,7 +764,6 @@ impl<'a> Mach<'a> {
             _p: ::std::marker::PhantomData::default(),
             code,
             data,
-            bss_size,
             cstrings,
             sections,
         }
@@ -804,9 +818,9 @@ impl<'a> Mach<'a> {
         // FIXME: de-magic number these
         segment_load_command.initprot = 7;
         segment_load_command.maxprot = 7;
-        segment_load_command.filesize = self.segment.size();
+        segment_load_command.filesize = self.segment.file_size();
         // segment size, with __bss data sizes added
-        segment_load_command.vmsize = segment_load_command.filesize + self.bss_size as u64;
+        segment_load_command.vmsize = self.segment.size();
         segment_load_command.fileoff = first_section_offset;
         debug!("Segment: {:#?}", segment_load_command);
 
-- 
2.43.0


From d8b34a579664eda7036daca1f91e805330273cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 16/26] fix: honor the alignment of Mach-O sections and their
 first definitions

The alignment of the first definition of a section was ignored, and sections
were not put at a multiple of their alignment.
---
 src/mach.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 3cda936..abd6422 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -56,6 +56,13 @@ fn align_to_align_exp(align: u64) -> u64 {
     align_exp
 }
 
+/// Moves `addr` up to the next multiple of `1 << align_exp`. This only applies to addresses: what
+/// is at adjacent addresses in the file is not padded.
+fn align_addr(addr: &mut u64, align_exp: u64) {
+    let align = 1 << align_exp;
+    *addr = (*addr + align - 1) / align * align;
+}
+
 type SectionIndex = usize;
 type StrtableOffset = u64;
 
@@ -476,7 +483,13 @@ impl SegmentBuilder {
     ) {
         let mut local_size = 0;
         let mut section_relative_offset = 0;
-        let mut alignment_exponent = min_alignment_exponent;
+        // the section, and so its first definition, is as aligned as any definition in it
+        let alignment_exponent = definitions
+            .iter()
+            .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
+            .fold(min_alignment_exponent, std::cmp::max);
+        align_addr(addr, alignment_exponent);
+        *symbol_offset = *addr;
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
             if let DefinedDecl::Section { .. } = def.decl {
@@ -507,7 +520,6 @@ impl SegmentBuilder {
                     .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
                     .unwrap_or(0),
             );
-            alignment_exponent = std::cmp::max(alignment_exponent, next_def_alignment_exponent);
 
             let align_pad = (1 << next_def_alignment_exponent)
                 - (section_relative_offset % (1 << next_def_alignment_exponent));
@@ -565,6 +577,10 @@ impl SegmentBuilder {
             flags |= S_ATTR_DEBUG;
         }
 
+        let alignment_exponent = align_to_align_exp(s.get_align().unwrap_or(1));
+        align_addr(addr, alignment_exponent);
+        *symbol_offset = *addr;
+
         for (symbol, symbol_dst_offset) in def.symbols {
             symtab.insert(
                 symbol,
@@ -582,7 +598,7 @@ impl SegmentBuilder {
         let section = SectionBuilder::new(sectname, segment_name, local_size)
             .offset(*offset)
             .addr(*addr)
-            .align(align_to_align_exp(s.get_align().unwrap_or(1)))
+            .align(alignment_exponent)
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
@@ -600,7 +616,8 @@ impl SegmentBuilder {
         symtab: &mut SymbolTable,
         ctx: &Ctx,
     ) -> Self {
-        let mut offset = Header::size_with(&ctx.container) as u64;
+        let header_size = Header::size_with(&ctx.container) as u64;
+        let mut offset = header_size;
         let mut size = 0;
         let mut symbol_offset = 0;
         let mut sections = Vec::new();
@@ -662,7 +679,7 @@ impl SegmentBuilder {
             custom_section_indexes.insert(def.name.to_string(), idx + FIRST_CUSTOM_SECTION_INDEX);
         }
         // all sections up to here have contents in the file
-        let file_size = size;
+        let file_size = offset - header_size;
         Self::build_section(
             symtab,
             "__bss",
-- 
2.43.0


From 3ffe700e2a71867b091e00a06109430ae29dde15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 17/26] fix: emit weak and hidden Mach-O symbols as such

Weak definitions were emitted as local symbols, and hidden ones as exported
symbols.
---
 src/mach.rs | 50 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index abd6422..abcdb72 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1,7 +1,7 @@
 //! The Mach 32/64 bit backend for transforming an artifact to a valid, mach-o object file.
 
 use crate::artifact::{
-    Data, DataType, Decl, DefinedDecl, Definition, ImportKind, Reloc, SectionKind,
+    Data, DataType, Decl, DefinedDecl, Definition, ImportKind, Reloc, Scope, SectionKind, Visibility,
 };
 use crate::target::make_ctx;
 use crate::{Artifact, Ctx};
@@ -78,6 +78,8 @@ struct SymbolBuilder {
     name: StrtableOffset,
     section: Option<SectionIndex>,
     global: bool,
+    weak: bool,
+    hidden: bool,
     import: bool,
     offset: u64,
     segment_relative_offset: u64,
@@ -90,6 +92,8 @@ impl SymbolBuilder {
             name,
             section: None,
             global: false,
+            weak: false,
+            hidden: false,
             import: false,
             offset: 0,
             segment_relative_offset: 0,
@@ -105,6 +109,16 @@ impl SymbolBuilder {
         self.global = global;
         self
     }
+    /// Is this symbol a weak definition?
+    pub fn weak(mut self, weak: bool) -> Self {
+        self.weak = weak;
+        self
+    }
+    /// Is this symbol, although global, not visible outside of what it is linked into?
+    pub fn hidden(mut self, hidden: bool) -> Self {
+        self.hidden = hidden;
+        self
+    }
     pub fn offset(mut self, offset: u64) -> Self {
         self.offset = offset;
         self
@@ -129,17 +143,23 @@ impl SymbolBuilder {
     }
     /// Finalize and create the symbol
     pub fn create(self) -> Nlist {
-        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF};
+        use goblin::mach::symbols::{NO_SECT, N_EXT, N_PEXT, N_SECT, N_UNDF, N_WEAK_DEF};
         let n_strx = self.name;
         let mut n_sect = 0;
         let mut n_type = N_UNDF;
         let mut n_value = self.offset;
-        let n_desc = 0;
+        let mut n_desc = 0;
         if self.global {
             n_type |= N_EXT;
         } else {
             n_type &= !N_EXT;
         }
+        if self.hidden {
+            n_type |= N_PEXT;
+        }
+        if self.weak {
+            n_desc |= N_WEAK_DEF;
+        }
         if let Some(idx) = self.section {
             n_sect = idx + 1; // add 1 because n_sect expects ordinal
             n_type |= N_SECT;
@@ -344,7 +364,8 @@ enum SymbolType {
         section: SectionIndex,
         absolute_offset: u64,
         segment_relative_offset: u64,
-        global: bool,
+        scope: Scope,
+        visibility: Visibility,
     },
     /// An undefined symbol (an import)
     Undefined,
@@ -415,10 +436,13 @@ impl SymbolTable {
                 SymbolType::Defined {
                     section,
                     absolute_offset,
-                    global,
+                    scope,
+                    visibility,
                     segment_relative_offset,
                 } => SymbolBuilder::new(self.strtable_size)
-                    .global(global)
+                    .global(scope != Scope::Local)
+                    .weak(scope == Scope::Weak)
+                    .hidden(scope != Scope::Local && visibility == Visibility::Hidden)
                     .offset(absolute_offset)
                     .relative_offset(segment_relative_offset)
                     .section(section),
@@ -492,9 +516,11 @@ impl SegmentBuilder {
         *symbol_offset = *addr;
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
-            if let DefinedDecl::Section { .. } = def.decl {
-                unreachable!();
-            }
+            let (scope, visibility) = match def.decl {
+                DefinedDecl::Function(d) => (d.get_scope(), d.get_visibility()),
+                DefinedDecl::Data(d) => (d.get_scope(), d.get_visibility()),
+                DefinedDecl::Section(_) => unreachable!(),
+            };
 
             symtab.insert(
                 def.name,
@@ -502,7 +528,8 @@ impl SegmentBuilder {
                     section,
                     segment_relative_offset: section_relative_offset,
                     absolute_offset: *symbol_offset,
-                    global: def.decl.is_global(),
+                    scope,
+                    visibility,
                 },
             );
             let def_size = match def.data {
@@ -588,7 +615,8 @@ impl SegmentBuilder {
                     section: section_idx,
                     segment_relative_offset: *symbol_dst_offset,
                     absolute_offset: *symbol_offset + *symbol_dst_offset,
-                    global: true,
+                    scope: Scope::Global,
+                    visibility: Visibility::Default,
                 },
             );
         }
-- 
2.43.0


From a4aad98583e840b2b7ea6d7d90f10271923ef4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 18/26] fix: fail to emit Mach-O files with too many sections

Instead of emitting symbols in some other section.
---
 src/mach.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mach.rs b/src/mach.rs
index abcdb72..b86c9c3 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -66,6 +66,9 @@ fn align_addr(addr: &mut u64, align_exp: u64) {
 type SectionIndex = usize;
 type StrtableOffset = u64;
 
+/// Symbols refer to their section with a single byte, in which 0 stands for no section
+const MAX_SECTIONS: usize = 255;
+
 const CODE_SECTION_INDEX: SectionIndex = 0;
 const DATA_SECTION_INDEX: SectionIndex = 1;
 const CSTRING_SECTION_INDEX: SectionIndex = 2;
@@ -825,6 +828,16 @@ impl<'a> Mach<'a> {
         header
     }
     pub fn write<T: Write + Seek>(self, file: T) -> Result<(), std::io::Error> {
+        if self.segment.sections.len() > MAX_SECTIONS {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "Mach-O object files have at most {} sections, but {} are needed",
+                    MAX_SECTIONS,
+                    self.segment.sections.len()
+                ),
+            ));
+        }
         let mut file = BufWriter::new(file);
         // FIXME: this is ugly af, need cmdsize to get symtable offset
         // construct symtab command
-- 
2.43.0


From 961058497944952d1158e8b5955040c1b246b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 19/26] fix: emit the Mach-O cpusubtype of the target's
 architecture

3 is any processor on x86 only, and some other processor elsewhere.
---
 src/mach.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index b86c9c3..3e58053 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -822,7 +822,11 @@ impl<'a> Mach<'a> {
         // safe to divide up the sections into sub-sections via symbols for dead code stripping
         header.flags = MH_SUBSECTIONS_VIA_SYMBOLS;
         header.cputype = CpuType::from(self.architecture).0;
-        header.cpusubtype = 3;
+        header.cpusubtype = match self.architecture {
+            Architecture::X86_32(_) | Architecture::X86_64 => cputype::CPU_SUBTYPE_X86_ALL,
+            // the "all" subtype of the others
+            _ => 0,
+        };
         header.ncmds = 2;
         header.sizeofcmds = sizeofcmds as u32;
         header
-- 
2.43.0


From 3aabe2703ceb57c8c886d5bfbfdeb28c5d436339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 20/26] fix: emit 32-bit object files for 16-bit targets

They were emitted with the word size and byte order of the host.
---
 src/target.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/target.rs b/src/target.rs
index 9a045e0..e7be0bd 100644
--- a/src/target.rs
+++ b/src/target.rs
@@ -6,8 +6,9 @@ use target_lexicon::{Endianness, PointerWidth, Triple};
 
 pub fn make_ctx(target: &Triple) -> Ctx {
     let container_size = match target.pointer_width() {
-        Err(()) | Ok(PointerWidth::U16) => return Ctx::default(),
-        Ok(PointerWidth::U32) => container::Container::Little,
+        Err(()) => return Ctx::default(),
+        // there are no 16-bit object files; 16-bit targets use 32-bit ones
+        Ok(PointerWidth::U16) | Ok(PointerWidth::U32) => container::Container::Little,
         Ok(PointerWidth::U64) => container::Container::Big,
     };
     let endianness = match target.endianness() {
-- 
2.43.0


From 7faa434b0b74206fe7631c3bc336ca69c67eb357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 21/26] fix: don't truncate raw Mach-O relocation types

---
 src/mach.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index 3e58053..15103bd 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1090,7 +1090,8 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 }
             }
             Reloc::Raw { reloc, addend } => {
-                debug_assert!(reloc <= u8::max_value() as u32);
+                // r_type has 4 bits
+                assert!(reloc <= 0xf, "relocation {} does not exist in MachO", reloc);
                 assert!(addend == 0);
                 match reloc as u8 {
                     R_ABS => (true, R_ABS),
-- 
2.43.0


From 336f3cf9eb383657257f0268cd2d8c8696789fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 22/26] fix: only give extended ELF section indexes to symbols
 that need them

---
 src/elf.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 23c3905..023738c 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -942,13 +942,21 @@ impl<'a> Elf<'a> {
         };
         let mut offset = 0;
         file.seek(Start(symtab_offset))?;
+        // The real section index of a symbol, which is only there if it doesn't fit the symbol itself.
+        let extended_shndx = |st_shndx: usize| {
+            if st_shndx >= SHN_LORESERVE as usize {
+                st_shndx as u32
+            } else {
+                0
+            }
+        };
         for symbol in self.special_symbols.into_iter() {
             debug!("Special Symbol: {:?}", symbol);
             // the special symbols's section indexs have special meanings
             // so we don't do the shn conversion here
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(symbol.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(0u32, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for special symbols");
             }
             file.iowrite_with(symbol, self.ctx)?;
@@ -958,7 +966,7 @@ impl<'a> Elf<'a> {
             let mut sym = section.symbol.clone();
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(extended_shndx(sym.st_shndx), &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for sections");
             }
             if sym.st_shndx >= SHN_LORESERVE as usize {
@@ -972,7 +980,7 @@ impl<'a> Elf<'a> {
             let mut sym = symbol.clone();
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(extended_shndx(sym.st_shndx), &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for symbols");
             }
             if sym.st_shndx >= SHN_LORESERVE as usize {
-- 
2.43.0


From 2a7409f2663ced450cb55dea744d9d1ea8693982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:59 +0000
Subject: [PATCH 23/26] fix: don't truncate values that don't fit into 32-bit
 ELF objects

---
 src/elf.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 023738c..da226de 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -847,6 +847,31 @@ impl<'a> Elf<'a> {
         let shdr_align = self.ctx.size() as u64;
         Self::align(&mut sh_offset, shdr_align);
 
+        if !self.ctx.is_big() {
+            // Larger values would silently be truncated.
+            let fits = |value: u64| value <= u64::from(u32::max_value());
+            let sections_fit = self
+                .sections
+                .iter()
+                .all(|s| fits(s.header.sh_size) && fits(s.header.sh_addralign));
+            let symbols_fit = self
+                .symbols
+                .values()
+                .all(|s| fits(s.st_value) && fits(s.st_size));
+            // the symbol and type of a relocation share 32 bits
+            let relocs_fit = self.relocations.values().all(|(_, relocs)| {
+                relocs
+                    .iter()
+                    .all(|r| fits(r.r_offset) && r.r_sym < 1 << 24 && r.r_type < 1 << 8)
+            });
+            if !(sections_fit && symbols_fit && relocs_fit && fits(sh_offset)) {
+                return Err(goblin::error::Error::Malformed(format!(
+                    "{} has values that do not fit into a 32-bit ELF object file",
+                    self.name
+                )));
+            }
+        }
+
         info!(
             "strtab: {:#x} symtab {:#x} relocs {:#x} sh_offset {:#x}",
             strtab_offset, symtab_offset, reloc_offset, sh_offset
-- 
2.43.0


From 0c6ec5ef93203f7edef1faefaaaf475253838006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 24/26] fix: don't truncate values that don't fit into Mach-O
 objects

Addresses wrapped around, relocation offsets and symbol indexes lost their
upper bits and file offsets (and addresses, in 32-bit objects) were cut to
32 bits.
---
 src/mach.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 15103bd..5d752b4 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -60,7 +60,12 @@ fn align_to_align_exp(align: u64) -> u64 {
 /// is at adjacent addresses in the file is not padded.
 fn align_addr(addr: &mut u64, align_exp: u64) {
     let align = 1 << align_exp;
-    *addr = (*addr + align - 1) / align * align;
+    *addr = add_to_addr(*addr, align - 1) / align * align;
+}
+
+fn add_to_addr(addr: u64, size: u64) -> u64 {
+    addr.checked_add(size)
+        .expect("definitions are too large for the address space")
 }
 
 type SectionIndex = usize;
@@ -223,6 +228,14 @@ impl RelocationBuilder {
     }
     /// Finalize and create the relocation
     pub fn create(self) -> RelocationInfo {
+        assert!(
+            self.relocation_offset <= i32::max_value() as u64,
+            "relocations only reach the first 2 GiB of a section"
+        );
+        assert!(
+            self.symbol < 1 << 24,
+            "relocations only reach the first 2^24 symbols"
+        );
         // it basically goes sort of backwards than what you'd expect because C bitfields are bonkers
         let r_symbolnum: u32 = self.symbol as u32;
         let r_pcrel: u32 = if self.absolute { 0 } else { 1 } << 24;
@@ -539,7 +552,7 @@ impl SegmentBuilder {
                 Data::Blob(bytes) => bytes.len() as u64,
                 Data::ZeroInit(size) => *size as u64,
             };
-            *symbol_offset += def_size;
+            *symbol_offset = add_to_addr(*symbol_offset, def_size);
             section_relative_offset += def_size;
             local_size += def_size;
 
@@ -560,7 +573,7 @@ impl SegmentBuilder {
             };
             align_pad_map.insert(def.name.to_string(), align_pad);
 
-            *symbol_offset += align_pad;
+            *symbol_offset = add_to_addr(*symbol_offset, align_pad);
             section_relative_offset += align_pad;
             local_size += align_pad;
         }
@@ -617,7 +630,7 @@ impl SegmentBuilder {
                 SymbolType::Defined {
                     section: section_idx,
                     segment_relative_offset: *symbol_dst_offset,
-                    absolute_offset: *symbol_offset + *symbol_dst_offset,
+                    absolute_offset: add_to_addr(*symbol_offset, *symbol_dst_offset),
                     scope: Scope::Global,
                     visibility: Visibility::Default,
                 },
@@ -853,6 +866,19 @@ impl<'a> Mach<'a> {
             symtable_offset + (self.symtab.len() as u64 * Nlist::size_with(&self.ctx) as u64);
         let relocation_offset_start = strtable_offset + self.symtab.sizeof_strtable();
         let first_section_offset = Header::size_with(&self.ctx) as u64 + sizeof_load_commands;
+        let relocations = self.segment.sections.iter().map(|s| s.relocations.len() as u64);
+        let file_end =
+            relocation_offset_start + relocations.sum::<u64>() * SIZEOF_RELOCATION_INFO as u64;
+        // Larger values would silently be truncated. In 32-bit objects addresses are as limited.
+        let fits = |value: u64| value <= u64::from(u32::max_value());
+        let addresses_fit = self.ctx.is_big()
+            || (fits(self.segment.size()) && self.symtab.symbols.values().all(|s| fits(s.offset)));
+        if !fits(file_end) || !addresses_fit {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "the offsets or addresses are too large for a Mach-O object file",
+            ));
+        }
         // start with setting the headers dependent value
         let header = self.header(sizeof_load_commands);
 
-- 
2.43.0


From ae5000eb5e90d2c40f78fdae0d2417c9d7dfafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:36 +0000
Subject: [PATCH 25/26] fix: pad Mach-O C strings with zeros

Linkers split the section at the NULs, so the padding became the start of
the following string, whose alignment was lost when the strings were merged
with those of other objects.
---
 src/mach.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 5d752b4..d5946bf 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -991,8 +991,9 @@ impl<'a> Mach<'a> {
 
             if let Some(&align_pad) = self.segment.align_pad_map.get(cstring.name) {
                 for _ in 0..align_pad {
-                    // See comment above for explanation of 0xaa
-                    file.write_all(&[0xaa])?;
+                    // Linkers split the section at the NULs. Anything else would become the start of
+                    // the following string, which would then not be aligned anymore.
+                    file.write_all(&[0])?;
                 }
             }
         }
-- 
2.43.0


From 66befe85eeb6c848274765d1d3160c769a6118a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:54 +0000
Subject: [PATCH 26/26] fix: Mach-O raw links with a section don't use a custom
 symbol with its name

A custom symbol of a section can have the name of a section. Raw links from
or to that section then silently patched, or referred to, another place.
---
 src/mach.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index d5946bf..222d0c9 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1141,6 +1141,10 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
+        // sections have no symbol, although one of their custom symbols may well have their name
+        if link.from.decl.is_section() || link.to.decl.is_section() {
+            panic!("relocations are not yet supported for custom sections")
+        }
         match (
             symtab.offset(link.from.name),
             symtab.section(link.from.name),
@@ -1153,8 +1157,7 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 // the relocation applies to, and its offset is relative to, the section of `from`
                 segment.sections[from_section].relocations.push(builder.create());
             },
-            // a raw relocation from/to a custom section, which has no symbol
-            _ => panic!("relocations are not yet supported for custom sections")
+            _ => unreachable!("everything but sections has a symbol"),
         }
     }
 }
-- 
2.43.0

