#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script because the statements are easier to edit here)."""
import json, os
A="src/artifact.rs"; D="src/artifact/decl.rs"; E="src/elf.rs"; M="src/mach.rs"; T="src/target.rs"
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=" ".join(statement.split()),
      quantifier=dict(over=over,text=" ".join(text.split())),why_tests_cant=" ".join(why.split()),
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mechanism],
        observe_at=observe,hook_needed=hook)))

p("C01","Redeclaration follows the documented compatibility rules",
 """Declaring a name again succeeds exactly when the new declaration is identical to the current one, is a
 function/data definition of the same kind as a current import (which it upgrades, for good), or is an import of the same
 kind as a current definition (which it leaves alone); anything else is an incompatible-declaration error that names the
 old and the new declaration. The artifact's import list is at all times exactly the names that are currently imports,
 each once, with their kind.""",
 ["histories","inputs"],"all sequences of declarations of any attributes, over any set of names, interleaved with any other calls",
 """Tests redeclare a handful of pairs (link_data, duplicate imports) once each; they never vary scope, visibility,
 alignment, writability or data type in a redeclaration, nor upgrade one of several imports.""",
 [A,D],[("Decl::absorb",D),("Artifact::declare / import / declarations",A)],["Result of declare/import/declarations","Artifact::imports()"],
 [("imports","names currently imported",A),("declarations","current declaration of each name",A)])
p("C02","Definitions: declared, not imported, exactly once, of the right kind",
 """Defining a name succeeds exactly when the name is currently declared as a non-import and not yet defined, zero-initialized
 contents are only given to data, and custom symbols are only given to sections; otherwise the error names the rule that was broken.
 The reported undefined symbols are at all times exactly the names that are declared, are not imports and have not been successfully
 defined.""",
 ["histories","inputs"],"all call sequences over any names, kinds, contents and custom symbols",
 "Tests cover one undeclared define, one duplicate and one undefined-symbols report; the interplay with upgrades, failed attempts and redeclarations after definition is not reached.",
 [A],[("Artifact::define_with_symbols",A),("Artifact::undefined_symbols",A)],["Result of define*","Artifact::undefined_symbols()"],
 [("declarations[..].defined","whether there is a definition",A)])
p("C03","Links are admitted exactly between known symbols",
 """A link is accepted exactly when both of its ends are declared and its source is not, at that moment, an import;
 otherwise the error names the undeclared end or the import. Whether the ends are already defined, what kind they are and what other links exist plays no role.""",
 ["histories","inputs"],"all call sequences over any names, offsets and relocation kinds",
 "Tests make links in one order (all declared, all defined, then linked) and have two rejection cases.",
 [A],[("Artifact::link_with",A)],["Result of link / link_with"],[("links","accepted links",A)])
p("C04","A rejected call leaves no trace",
 """If a declaration, definition, link or import is rejected, everything observable later (results of all further calls, import and undefined-symbol reports,
 and what the emitted object describes) is as if the call had never been made. A rejected sequence of declarations (`declarations`, or `declare_with`, which declares and then defines)
 has the effect of the parts before the rejected one.""",
 ["histories","inputs"],"every rejected call at every point of every call sequence, and every continuation",
 "No test continues after a rejected call, let alone emits.",
 [A,D],[("check-before-mutate order in declare / define_with_symbols / link_with",A),("Decl::absorb leaves self alone on error",D)],["imports()","undefined_symbols()","emit_as"],
 [("strings","interned names, which include those of rejected calls",A)])
p("C05","Emission is refused exactly when the artifact is not emittable, and says why",
 """Emission fails with the set of undefined symbols if there are any, with the requested format if it is neither ELF nor Mach-O, and with the clashing name if a custom section symbol has the name of another symbol;
 otherwise it succeeds. No refused emission writes anything to the sink it was given.""",
 ["histories","inputs","configurations"],"all call sequences, at every point, for every binary format requested and every target format",
 "One test emits one artifact with undefined symbols; formats other than the target's, repeated failures and clashes are untested.",
 [A],[("Artifact::emit_as / write_as",A)],["Result of emit / emit_as / write / write_as","sink contents"])
p("C06","Emission is pure and deterministic",
 """The emitted bytes are a function of the calls made on the artifact (and its name and target) only: emitting repeatedly, in the other format in between, from a clone, from another thread, in another process or hash-seed,
 with other artifacts alive or emitted in between, or into a file, gives the same bytes. Emitting changes nothing: it affects neither later calls nor later emissions.""",
 ["histories","schedules","configurations"],"all artifacts, all interleavings of emissions with other calls and other artifacts, all hash seeds",
 "Tests emit each artifact once per process and compare nothing between runs; hash-map iteration order differs only between processes.",
 [A,E,M],[("emit_as(&self)",A),("IndexMap/BTreeSet/interner instead of hash iteration",E),("idem",M)],["emit_as bytes","write_as file contents"],
 [("imports: HashMap, offsets: HashMap","hash maps used while emitting",E),("custom_sections, align_pad_map: HashMap","hash maps used while emitting",M)])
p("C07","What is emitted does not depend on the order of calls",
 """Any two call sequences that make the same declarations, definitions and links in different orders (each of which accepts all of them) emit objects that describe the same program: the same symbols with the same attributes and
 contents, and the same links at the same places, with the relative order of links at the same place kept.""",
 ["histories"],"all admissible permutations of all call sequences",
 "Every test uses one canonical order: declare, define, link.",
 [A,E,M],[("definitions() order",A),("Elf::add_definition/import/link",E),("SegmentBuilder::new / build_relocations",M)],["emit_as bytes, as read by an independent reader"])
p("C08","Writing to a file is all or an error",
 """If writing an artifact to a file returns success, exactly the emitted bytes were appended at the file's position, whatever short writes and interruptions happened on the way; if a write fails,
 the error is returned and what was written is a prefix of the emitted bytes.""",
 ["fault_sequences","inputs"],"all sequences of environment answers (short writes of any length, EINTR, errors, zero-length writes) at every write, for artifacts of any size",
 "No test uses write/write_as at all, and the file system of the test machine never fails or cuts a write short.",
 [A],[("Artifact::write_as",A)],["bytes that reach the sink","Result of write / write_as"])

p("E01","Every emitted ELF object is well-formed",
 """Every ELF object that emission returns is structurally valid: all headers, tables, names, indexes and cross-references are consistent and within the file, parts of the file do not overlap, local symbols precede
 all others with the boundary recorded, and every relocation section refers to the section it patches and to the symbol table.""",
 ["inputs","histories"],"all artifacts (number, kinds, scopes, sizes, alignments and names of definitions and imports; links; custom sections and symbols) for all ELF targets, 32 and 64 bit, both byte orders",
 "Tests parse a few tiny x86_64 objects with goblin, which is lenient, and the same library that wrote them.",
 [E],[("Elf::write",E),("nlocals/sh_info accounting in Elf::add_definition",E)],["emit_as(Elf) bytes"],
 [("sizeof_bits, sizeof_strtab, nsections, nlocals","running totals the layout is computed from",E)])
p("E02","ELF definitions carry exactly their contents",
 """In an emitted ELF object each defined function, data object and section has exactly the bytes it was defined with (read at its symbol, or as its section), with its size recorded in its symbol, in a place of its own that no other definition shares;
 and the object has no other loadable contents.""",
 ["inputs","histories"],"any number of definitions with any contents and lengths (including empty), in any combination of kinds",
 "Tests check the contents of one definition at a time.",
 [E],[("Elf::add_progbits / add_definition",E)],["emit_as(Elf) bytes"])
p("E03","ELF symbols: one per name, with the declared attributes",
 """The symbol table of an emitted ELF object has exactly one symbol for each function and data definition (function or object type; local, global or weak; default, protected or hidden, as declared; in a section of the object),
 one undefined global symbol per import, one symbol per custom section symbol, one file symbol with the artifact's name, and otherwise only the null symbol and section symbols.""",
 ["inputs","histories"],"all combinations of kind, scope and visibility over any number of definitions, with any imports, upgraded imports and custom symbols",
 "Tests look up single symbols; combinations of scopes and the accounting between locals, weak symbols, globals and imports are not covered.",
 [E],[("SymbolBuilder::create",E),("Elf::import",E)],["emit_as(Elf) bytes"])
p("E04","ELF sections have the access, kind and alignment declared",
 """In an emitted ELF object functions are in executable, read-only memory, writable data in writable memory, zero-initialized data in writable zero-fill memory, other data in read-only memory, none of it executable, under the conventional section names (.text, .data, .rodata, .bss and the symbol name); each at (at least) its declared
 power-of-two alignment; read-only strings, and nothing else, are marked as mergeable by linkers; custom sections have their name, alignment, and the access of their kind; and the stack is marked as not executable.""",
 ["inputs"],"the full product of kind, writability, data type, scope, visibility, alignment and length, in any combination",
 "Tests check flags and alignment of five single declarations.",
 [E],[("SectionBuilder::create",E),("Elf::add_definition",E)],["emit_as(Elf) bytes"])
p("E05","ELF links patch the right place with the right target",
 """For x86_64, each link is represented in the ELF object by exactly one relocation at the linked offset within the source's contents, which resolves to the target itself: functions reference functions as PLT-capable calls, defined data PC-relatively and imported data through the GOT,
 and data holds the pointer-sized absolute address. There are no other relocations; links whose target machine has no such relocation are not silently given another machine's.""",
 ["inputs","histories"],"all link graphs (any number of links, any source and target kinds, self links, several at one place, any offset), made in any order, before or after definitions and upgrades of imports",
 "Tests inspect a single PLT link and never the offset, the number or the target of several.",
 [E],[("Elf::link / add_reloc",E),("Artifact::links",A)],["emit_as(Elf) bytes"],
 [("relocations","per-section relocations",E)])
p("E06","ELF objects beyond 16-bit counts and sizes stay correct",
 """With any number of definitions, imports, links, bytes and characters of names, in particular around and beyond the number of sections (65,280) at which ELF switches to extended numbering, the object remains well-formed and each symbol and relocation still refers to the section, contents and symbol it should.""",
 ["inputs"],"any number of definitions, imports and links, any sizes of contents and names",
 "One test builds a single artifact with more than 0xff00 sections, and only checks that its symbols are found.",
 [E],[("Elf::write: e_shnum, SHN_XINDEX, .symtab_shndx",E)],["emit_as(Elf) bytes"])

p("M01","Every emitted Mach-O object is well-formed",
 """Every Mach-O object that emission returns is structurally valid: header, load commands, sections, symbol table, string table and relocations are consistent with each other and within the file, neither their file ranges nor section addresses overlap,
 addresses respect section alignments, zero-fill sections take no space in the file, and every symbol is within the section it names. An artifact that cannot be represented (more than 255 sections) is an error.""",
 ["inputs","histories"],"all artifacts for all Mach-O targets, 32 and 64 bit",
 "No test looks at Mach-O output beyond parsing a couple of objects.",
 [M],[("Mach::write",M),("SegmentBuilder::new / build_section",M)],["emit_as(Macho) bytes"],
 [("offset, size, symbol_offset","running totals the layout is computed from",M)])
p("M02","Mach-O definitions carry exactly their contents",
 """In an emitted Mach-O object each defined function, data object and section has exactly the bytes it was defined with (read at its symbol's address, or as its section), in a place that no other definition shares.""",
 ["inputs","histories"],"any number of definitions with any contents, lengths and alignments, in any combination of kinds",
 "No test reads contents back from Mach-O output.",
 [M],[("SegmentBuilder::build_section, Mach::write padding",M)],["emit_as(Macho) bytes"],
 [("align_pad_map","padding after each definition, written separately from the layout",M)])
p("M03","Mach-O symbols: one per name, with the declared attributes",
 """The symbol table of an emitted Mach-O object has exactly one symbol for each function and data definition (external unless local, weak definition if weak, private external if hidden and not local; in a section of the object), one undefined external symbol per import,
 one symbol per custom section symbol, all with one leading underscore, and no others.""",
 ["inputs","histories"],"all combinations of kind, scope and visibility over any number of definitions, with any imports, upgraded imports and custom symbols",
 "No test looks at the attributes of Mach-O symbols.",
 [M],[("SymbolTable::insert, SymbolBuilder::create",M)],["emit_as(Macho) bytes"],
 [("strtable/symbols/indexes","three tables that have to stay in step",M)])
p("M04","Mach-O sections have the access, kind and alignment declared",
 """In an emitted Mach-O object functions are in an instruction section of __TEXT, read-only strings in a C-string section of __TEXT, zero-initialized data in a zero-fill section of __DATA, other data in __DATA; each definition's address is a multiple of its declared alignment, and its section's alignment is at least as strict, and the padding between C strings is NULs, so that linkers that take them apart there keep that alignment;
 custom sections have their (debug-prefixed) name, alignment, and the segment of their kind.""",
 ["inputs"],"the full product of kind, writability, data type, alignment, length and position within the section",
 "No test looks at sections or alignment in Mach-O output.",
 [M],[("SegmentBuilder::build_section / build_custom_section",M)],["emit_as(Macho) bytes"])
p("M05","Mach-O links patch the right place with the right target",
 """For x86_64, each link is represented in the Mach-O object by exactly one relocation at the linked offset within the source's contents that resolves to the target's symbol: functions reference functions as branches, defined data PC-relatively and imported data through the GOT, and data holds
 the pointer-sized absolute address. There are no other relocations; links whose target machine has no such relocation are not silently given another machine's.""",
 ["inputs","histories"],"all link graphs, as for ELF",
 "One test emits a Mach-O relocation and checks nothing about it.",
 [M],[("build_relocations, RelocationBuilder::create",M)],["emit_as(Macho) bytes"])

p("M06","Mach-O objects beyond 16-bit counts and sizes stay correct",
 """With any number of definitions, imports, links, bytes and characters of names, in particular around and beyond 2^8 and 2^16 of each, the Mach-O object remains well-formed and each symbol and relocation still refers to the section, contents and symbol it should; section ordinals never wrap around.""",
 ["inputs"],"any number of definitions, imports and links, any sizes of contents and names",
 "Mach-O tests have at most a handful of symbols.",
 [M],[("SymbolTable, RelocationBuilder::create, build_relocations",M),("Mach::write",M)],["emit_as(Macho) bytes"])

p("X01","The object header identifies the target",
 """For every target architecture, an emitted object's header has that architecture's machine, word size and byte order (in which all other fields are then encoded) and the relocatable-object file type; an architecture the format cannot express makes emission fail loudly instead of producing an object for some other machine.""",
 ["configurations"],"all architectures the target library knows, in both formats, with empty and non-trivial artifacts",
 "Tests only use x86_64 and one other target.",
 [T,E,M],[("make_ctx",T),("MachineTag",E),("CpuType",M)],["emit_as bytes"])
p("X02","ELF and Mach-O output describe the same program",
 """Emitted as ELF and as Mach-O (either of which may differ from the target's own format), an artifact describes the same program: the same names with the same contents, scopes, visibility to other components, alignment guarantees and zero-initialized sizes, the same writable strings, code and zero-initialized storage, and the same links between the same places and targets with the same meaning.""",
 ["inputs","configurations"],"all x86_64 artifacts without raw relocations",
 "No test compares the two backends.",
 [A,E,M],[("two independent backends driven by definitions(), imports() and links()",A)],["emit_as(Elf) and emit_as(Macho) bytes"])
p("X03","Names survive exactly",
 """Each non-empty, NUL-free name of a function, data object, import, custom symbol, custom section or artifact appears in the object exactly as given (Mach-O symbols with one leading underscore), whatever other names there are and even if it equals a name the format or the emitter itself uses or is a prefix or suffix of another.""",
 ["inputs"],"all sets of names, of any length and content, in any roles",
 "Tests use short ASCII names that never collide with section names, strings of the emitter or each other.",
 [E,M],[("Elf::new_string, offsets",E),("SymbolTable::insert, strtable",M)],["emit_as bytes"],
 [("strings/offsets/sizeof_strtab","string table built by interning, with separately counted offsets",E),("strtable/strtable_size","idem",M)])
p("X04","Raw and debug relocations are passed through verbatim",
 """On x86_64, a raw relocation appears with exactly the given type, offset, target and (ELF) addend, and a debug relocation as an absolute one of the given size, target and addend, from and to whatever section it was made between; several at one place stay in the order they were made. What a format cannot represent fails loudly.""",
 ["inputs","histories"],"all relocation types, offsets, addends and sizes (boundaries of their ranges), all sources and targets",
 "No test uses raw relocations; debug relocations only with addend 0 in one place.",
 [E,M],[("Elf::link",E),("build_relocations",M)],["emit_as bytes"])
p("X05","Zero-initialized data reserves its size and no file contents",
 """Zero-initialized data of any size is in zero-filled, writable memory that is reserved for it alone, at its alignment, of exactly its size, and takes no space in the object file.""",
 ["inputs"],"any number of zero-initialized objects of any size (including 0 and beyond 4 GiB) and alignment, among any other definitions",
 "One test checks that a single object ends up in a NOBITS section.",
 [A,E,M],[("Data::ZeroInit",A),("SectionType::NoBits",E),("__bss in SegmentBuilder::new",M)],["emit_as bytes","object size"])
p("X06","Custom sections and their symbols come out as defined",
 """Each declared and defined section appears once under its name (Mach-O: with .debug spelled __debug), with its own contents and alignment, separate from every other section even if the emitter itself uses that name; each of its custom symbols is defined once, in that section, at the given offset.""",
 ["inputs","histories"],"any number of sections of any kind, name, data type, alignment and length, with any custom symbols, among any other definitions",
 "One doc example and one test with one section each.",
 [A,E,M],[("Artifact::define_with_symbols",A),("Elf::add_definition",E),("SegmentBuilder::build_custom_section",M)],["emit_as bytes"])
p("X07","Linked with other objects, every reference resolves as declared",
 """When emitted objects are linked together by the standard rules, each link reaches the definition its scopes promise: a local or global definition itself, for a weak one the other objects' global definition if there is one, for an import the other object's global or weak definition; duplicate globals clash, locals never do,
 and exactly the non-hidden, non-local definitions are visible outside of the result.""",
 ["inputs","configurations"],"all pairs of objects defining or importing a common name with any kind, scope and visibility, in either link order",
 "No test links anything automatically.",
 [E,M],[("binding and visibility of symbols, symbol vs. section-relative relocations",E),("idem",M)],["emit_as bytes of two artifacts, linked"])
p("X08","Declaration builders set exactly what they say",
 """For every kind of declaration, any sequence of builder and setter calls results in the declaration whose attributes are the last ones set, all others at their documented defaults (local, default visibility, read-only, bytes, no alignment), as shown by all accessors; the default artifact name is faerie.o.""",
 ["histories","inputs"],"all sequences of builder/setter calls on all kinds of declarations",
 "Tests use single builder calls, and check them only through their effect on one emitted object.",
 [D,A],[("scope_methods!, visibility_methods!, datatype_methods!, align_methods!",D),("ArtifactBuilder",A)],["accessors of FunctionDecl, DataDecl, SectionDecl, DefinedDecl, Decl, Data, Artifact"])
p("X09","What an object file cannot represent is refused, never truncated",
 """Every size, address, alignment, custom symbol offset, relocation offset, relocation type, symbol index and section name of an emitted object has the full value it was given. Where the format of the target has no room for one
 (32-bit fields of 32-bit objects, 8-bit types of ELF32 relocations, 4-bit types and 31-bit offsets of Mach-O relocations, 32-bit file offsets, 16-byte section names and 255 sections of Mach-O, the address space), emission fails instead of writing an object with cut or wrapped-around values;
 where there is room, however large the value, emission succeeds.""",
 ["inputs","configurations"],"all values up to 2^64-1, in every place, for 32- and 64-bit targets of both formats",
 "Tests only have small values, on 64-bit targets.",
 [E,M],[("Elf::write: what does not fit into 32 bits",E),("add_to_addr, RelocationBuilder::create, Mach::write",M)],["emit_as bytes and result"])
ids=[q["id"] for q in P]; assert len(set(ids))==len(ids)
for q in P:
    assert len(q["title"])<=80,q["title"]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../properties.jsonl"),"w").write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
