#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
A="src/artifact.rs"; D="src/artifact/decl.rs"; E="src/elf.rs"; M="src/mach.rs"; T="src/target.rs"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=obs or [],hook_needed=None)))

p("C01","The same accepted calls always produce the same bytes",
  "Two artifacts that received the same sequence of successful calls emit byte-identical ELF and byte-identical Mach-O objects. Neither the random hash seeds of the process or thread, nor memory layout, clock, environment, log level, the thread that emits, nor how many times anything was emitted before may change a single output byte.",
  ["schedules","configurations","histories"],"for every history, hash seed, thread, heap layout, clock reading, log level and number of earlier emissions",
  "A test process emits once, under one hash seed, with logging off; the nondeterminism that would change bytes (randomised map iteration, time, addresses) is never varied.",
  [A,E,M],[("insertion-ordered maps and ordered sets decide every order in the output","src/elf.rs struct Elf, src/mach.rs struct SymbolTable, src/artifact.rs struct Artifact"),("randomised maps are only used for lookups","src/elf.rs offsets/imports, src/mach.rs align_pad_map")],
  obs=["Artifact::emit","Artifact::emit_as"])
p("C02","Concurrent use of a shared artifact is invisible",
  "Any number of threads may at the same time emit, write, query or copy one shared artifact, in the same or different formats, while other threads build or emit other artifacts; each call returns exactly what it would return to a lone caller. No emission, whether it succeeds, fails or is abandoned half-way by an unwinding callback, changes what any other call observes on any artifact.",
  ["schedules","fault_sequences"],"for every interleaving of caller threads at allocation, shared-memory, logging and system-call points, with callers that stall or unwind inside an emission",
  "All tests are single-threaded and emit each artifact once; no schedule is explored.",
  [A,E,M],[("emission borrows the artifact immutably and keeps all scratch state local to the call","src/elf.rs to_bytes, src/mach.rs to_bytes"),("no process-global or thread-local mutable state","whole crate")],
  obs=["Artifact::emit_as","Artifact::write_as","Artifact::imports","Artifact::undefined_symbols"])
p("C03","Writing an object is all-or-error, and a crash leaves a prefix",
  "Writing an artifact to a file reports success only if the file (or an appending file, or a pipe, which cannot seek) received, at its current position, exactly the bytes emission yields, once and in order, and its position is left behind them, however the operating system splits, interrupts or delays the writes; any other write failure is returned to the caller as an I/O error carrying that failure. At every instant, including after a crash or failed write, the file holds its earlier content followed by a prefix of those bytes, and nothing is written when emission itself fails. Once faults stop, retrying on a fresh file succeeds with the full object.",
  ["fault_sequences","crash_points","histories"],"for every sequence of short writes, interruptions, zero-length writes, full-disk and device errors, stalls, failing allocations, and every crash point inside a write",
  "Tests never call the file-writing entry points at all and no test injects an I/O fault.",
  [A],[("bytes are produced completely before the sink is touched, then written with a retrying write loop whose error is propagated","src/artifact.rs Artifact::write_as"),("I/O errors are converted, not swallowed","src/artifact.rs ArtifactError::Io")],
  obs=["Artifact::write","Artifact::write_as","write(2) on the sink"])
p("C04","Nothing is emitted while a declared definition is missing",
  "At every point of every history, emitting or writing in any format fails with an undefined-symbols error exactly when some non-import declaration still lacks its definition; the error and the undefined-symbols query both name exactly those symbols, in the order in which the names were first declared. When nothing is missing, emitting succeeds in a format that supports the artifact's architecture and kinds of links, and an unsupported format is refused with an error that names the requested format.",
  ["histories","schedules"],"for every interleaving of declaring, upgrading, defining and emitting clients, at every point of the history",
  "Tests look at two or three fixed histories; none upgrades an import, interleaves clients or checks the error's content for a requested format.",
  [A],[("defined flag per declaration, filtered on every emission","src/artifact.rs undefined_symbols, emit_as")],
  obs=["Artifact::undefined_symbols","Artifact::emit_as","Artifact::write_as"])
p("C05","Repeated declarations merge by the C-like rules, in any order",
  "A name may be declared any number of times by any number of clients: an identical declaration is a no-op, an import may be upgraded to a definition of the same kind (function or data), a later import of the same kind leaves a definition as it is, and every other re-declaration is rejected with an error carrying the old and the new declaration and leaves the old one in force. The imports listing always contains exactly the names whose declaration currently is an import, each once, with its kind. A batch of declarations behaves as its members declared one by one up to the first rejected one.",
  ["histories","schedules"],"for every interleaving of declaration calls (single, batch, import helper, declare-and-define) over shared names",
  "Unit tests cover about ten fixed pairs; the merge is a state machine over arbitrary sequences and the listing must be right after each step.",
  [A,D],[("declaration absorption","src/artifact/decl.rs Decl::absorb"),("imports list kept in step with declarations","src/artifact.rs Artifact::declare")],
  state=[dict(name="imports",meaning="names currently declared as imports",where="src/artifact.rs Artifact.imports"),dict(name="declarations",meaning="current declaration and defined flag per name",where="src/artifact.rs Artifact.declarations")],
  obs=["Artifact::declare","Artifact::declarations","Artifact::imports","Artifact::emit_as"])
p("C06","Each declared name is defined exactly once: first accepted definition wins",
  "A definition is accepted exactly when the name is declared, is not currently an import, has no definition yet, and the data suits the declaration (zero-initialised content only for data objects, custom symbols only for sections); otherwise the call returns the specific error for that reason. Whichever client's definition is accepted first is the one every later emission contains; no later call can replace, duplicate or remove it.",
  ["histories","schedules"],"for every interleaving of competing definers with declaration upgrades and emissions",
  "Tests try a duplicate definition once per kind, in one order, and never look at which content is finally emitted.",
  [A],[("defined flag and variant checks before insertion","src/artifact.rs Artifact::define_with_symbols")],
  obs=["Artifact::define","Artifact::define_zero_init","Artifact::define_with_symbols","Artifact::declare_with","Artifact::emit_as"])
p("C07","A failed or unwound call leaves no trace",
  "A call that returns an error, or that is abandoned because caller-supplied code inside it (a name, declaration or data conversion, an iterator, a log sink) unwinds, leaves the artifact as if that call had never been made: later calls return the same results and later emissions produce the same bytes. Calls that are a sequence of smaller ones (batch declaration, declare-and-define) leave exactly the effect of the steps completed before the failure.",
  ["fault_sequences","histories"],"for every placement of rejected calls and of unwinding callbacks (k-th conversion, k-th item, k-th log record) in every history",
  "Tests stop at the first error and never use the artifact afterwards, and no test unwinds out of a callback.",
  [A,D,E,M],[("validation precedes mutation","src/artifact.rs declare, define_with_symbols, link_with"),("emission works on borrowed data only","src/elf.rs, src/mach.rs")],
  obs=["Artifact::*"])
p("C08","ELF output contains every accepted definition, faithfully, and nothing else",
  "For every accepted history the ELF object contains, for each defined function or data object, exactly one symbol with its name, declared binding (local, global or weak), visibility and kind, located at the start of a section holding exactly its bytes with its size, requested alignment, and execute/write permission as declared; each custom section appears with its bytes and the permissions of its kind (mutable data is allocated and writable, debug information is not allocated, code or read-only data is allocated and not writable), and each of its custom symbols at its offset. Each import appears as exactly one undefined global symbol, and no other named symbols appear except the file name.",
  ["histories","schedules","inputs"],"for every interleaving of clients and faulted calls that builds an artifact, and every emission point in it",
  "Tests check one attribute at a time on artifacts with a dozen symbols of four bytes; contents, sizes, mixtures of scopes, custom sections and arrival orders are not covered together.",
  [E,A],[("definition to section and symbol","src/elf.rs Elf::add_definition, add_progbits, add_section, import"),("symbol attribute encoding","src/elf.rs SymbolBuilder::create"),("section attribute encoding","src/elf.rs SectionBuilder::create")],
  obs=["Artifact::emit_as(Elf)"])
p("C09","ELF output contains every accepted link exactly once, at the right place",
  "Each accepted link yields exactly one relocation, attached to the section of its source at the requested offset and resolving to its target (the imported symbol, the start of the section holding the target definition, or, since a global definition elsewhere takes the place of a weak one, the symbol of a weak target by name), and there are no others. The automatic kind and addend follow from the declarations of both ends in force when the object is emitted, even if an end was upgraded from an import or defined after the link was made; raw and debug links keep the requested kind, width and addend.",
  ["histories","schedules","inputs"],"for every order in which clients declare, upgrade, define and link, including links recorded before either end is defined",
  "No existing test emits a relocation and inspects it; order of declaration, definition and linking is never varied.",
  [E,A],[("link to relocation","src/elf.rs Elf::link, add_reloc"),("links resolved against current declarations at emission","src/artifact.rs Artifact::links")],
  obs=["Artifact::link","Artifact::link_with","Artifact::emit_as(Elf)"])
p("C10","ELF output is structurally well formed",
  "Every emitted ELF object can be read back by a strict reader: all tables and section contents lie inside the file without overlapping, every string and link index is valid, local symbols precede all global and weak ones with the boundary recorded exactly, relocation tables name their symbol table and target section, and section counts and indices beyond the 16-bit limit use the extended encoding.",
  ["histories","schedules","configurations"],"for every artifact any interleaving of clients can build, for 32- and 64-bit, little- and big-endian targets, and for more sections than 16 bits can number",
  "Tests use a lenient parser on three artifacts and never check the local/global boundary, overlaps or relocation tables.",
  [E,T],[("layout computation and writing","src/elf.rs Elf::write"),("local symbol count","src/elf.rs Elf.nlocals"),("string table","src/elf.rs new_string")],
  obs=["Artifact::emit_as(Elf)"])
p("C11","Mach-O output contains every accepted definition, faithfully, and nothing else",
  "For every accepted history the Mach-O object contains, for each defined function, data object and C string, exactly one symbol (its name with the customary leading underscore) in the text, data or C-string section (strings that may be written are data), external exactly if it is not local, marked weak exactly if weak, and private to the linked image exactly if hidden; the bytes at its address are exactly its bytes, its address is a multiple of the requested alignment which the section's own alignment also guarantees, and no two definitions overlap. Custom sections appear under their name and segment with their bytes and custom symbols; imports are undefined external symbols; no other symbols appear.",
  ["histories","schedules","inputs"],"for every interleaving of clients and faulted calls that builds an artifact, and every emission point in it",
  "Only the kind of file and one segment size are tested for Mach-O; padding depends on the order and alignment of neighbouring definitions, which tests never vary.",
  [M,A],[("section building, padding and symbol addresses","src/mach.rs SegmentBuilder::build_section, build_custom_section"),("symbol table","src/mach.rs SymbolTable::insert, SymbolBuilder::create"),("content writing","src/mach.rs Mach::write")],
  obs=["Artifact::emit_as(Macho)"])
p("C12","Mach-O output contains every accepted link exactly once, at the right place",
  "Each accepted link of a supported kind yields exactly one external relocation, listed under the section that holds its source at the source's offset plus the link's offset, naming the target's symbol, and there are no others; a debug link to another section needs and gets none. Automatic links take their kind, width and pc-relativeness from the declarations of both ends in force at emission: branch for function targets, signed for data and GOT-load for imported data when the source is a function, absolute pointer-sized when the source is data.",
  ["histories","schedules","inputs"],"for every order in which clients declare, upgrade, define and link, for sources in every section",
  "No existing test emits a Mach-O relocation; sources outside the first definition of text and data are never exercised.",
  [M,A],[("link to relocation","src/mach.rs build_relocations"),("relocation encoding","src/mach.rs RelocationBuilder::create")],
  obs=["Artifact::link","Artifact::link_with","Artifact::emit_as(Macho)"])
p("C13","Mach-O output is structurally well formed",
  "Every emitted Mach-O object can be read back by a strict reader: header, load commands, section contents, relocation lists, symbol table and string table lie inside the file, agree with each other's counts, sizes and offsets, and do not overlap; sections lie inside their segment without overlapping in memory, and every symbol's section ordinal, address and name are valid.",
  ["histories","schedules","configurations"],"for every artifact any interleaving of clients can build, mixing text, data, C strings, zero-initialised data and custom sections",
  "Tests parse two Mach-O objects leniently, one of them empty.",
  [M,T],[("offset computation and writing","src/mach.rs Mach::write, SectionBuilder::create"),("segment sizes","src/mach.rs SegmentBuilder::new")],
  obs=["Artifact::emit_as(Macho)"])
p("C14","Zero-initialised objects get their own storage and no file space",
  "In both formats every zero-initialised data object has a symbol whose storage is reserved for its full size at its requested alignment, disjoint in memory from every other definition, in a writable zero-fill section; its size adds nothing to the size of the file. Mixing zero-initialised objects with others, in any arrival order, does not disturb the contents, addresses or relocations of the others.",
  ["histories","schedules","inputs"],"for every mixture and arrival order of zero-initialised and initialised definitions, sizes from 0 to beyond memory size, all alignments",
  "The one test defines a single object, checks that a symbol exists in ELF and one segment size in Mach-O.",
  [E,M,A],[("zero-fill sections","src/elf.rs add_definition/SectionType::NoBits, src/mach.rs build_section for __bss")],
  obs=["Artifact::define_zero_init","Artifact::emit_as"])
p("C15","A copy of an artifact is an independent snapshot",
  "A copy taken at any point of a history behaves from then on exactly as the original would have: it emits the same bytes and gives every later call the same result. Whatever is afterwards done to, or goes wrong in, the original or the copy never shows in the other, so work can be resumed from a snapshot after the original was lost or spoiled.",
  ["histories","schedules","crash_points"],"for every point at which a snapshot is taken, every continuation of either side, and every restart from a snapshot",
  "No test copies an artifact.",
  [A],[("value-semantics copy of all state","src/artifact.rs derive(Clone) for Artifact")],
  obs=["Artifact::clone","Artifact::emit_as"])
p("C16","The meaning of the object does not depend on how clients interleave",
  "When several clients contribute definitions of their own and compatible declarations and links to one artifact, every interleaving of their calls yields an equivalent object: the same symbols with the same attributes and contents and the same relocations to the same targets, in ELF and in Mach-O. Only placement and ordering inside the file may differ.",
  ["schedules"],"for every pair of interleavings of the same client scripts",
  "A hyper-property over pairs of schedules; tests run one fixed order.",
  [A,E,M],[("declaration absorption is commutative for compatible declarations","src/artifact/decl.rs Decl::absorb"),("links resolved at emission","src/artifact.rs Artifact::links")],
  obs=["Artifact::emit_as"])
p("C17","A link needs both ends declared and a source that is not an import",
  "A link is accepted exactly when, at that moment, both its source and its target are declared and the source is not currently an import; otherwise it is refused with an error naming the offending symbol and is never emitted. Every accepted link is kept through all later declarations, definitions and emissions, and repeated links are kept as often as they were made.",
  ["histories","schedules"],"for every interleaving of declaring, upgrading and linking clients",
  "One test makes one link; no test makes a refused one or links while ends are being upgraded.",
  [A],[("admission check","src/artifact.rs Artifact::link_with")],
  obs=["Artifact::link","Artifact::link_with","Artifact::emit_as"])
p("C18","An object identifies the machine it is for",
  "Every emitted ELF or Mach-O object states the machine or CPU type (and a subtype that exists for it), the word size, the byte order and the relocatable file type of its own artifact's target, for every supported architecture, and is encoded in that word size and byte order throughout, whatever other artifacts for other targets the process builds or emits, before or at the same time.",
  ["configurations","schedules","histories"],"for every supported target and every mix of artifacts for different targets in one process",
  "Tests only emit for x86_64, one artifact at a time.",
  [E,M,T],[("architecture mapping","src/elf.rs MachineTag, src/mach.rs CpuType"),("word size and byte order","src/target.rs make_ctx")],
  obs=["Artifact::emit","Artifact::emit_as","Artifact::write"])
p("C19","Emission costs what the content costs and leaves nothing behind",
  "Emitting, writing or querying an artifact holds memory, and makes allocations, in proportion to its content only: the declared sizes of zero-initialised objects cost nothing, and neither does what was emitted before. Once the result of such a call is dropped nothing of it remains, no memory and no open descriptor, whether the call succeeded, was refused, failed on I/O or was abandoned by an unwinding callback; and dropping every artifact and result releases everything the library allocated.",
  ["histories","fault_sequences","schedules"],"for every history of calls, with refusals, I/O faults and unwinding at any point of an emission",
  "No test observes memory or descriptors, emits repeatedly, or lets an emission fail midway.",
  [A,E,M],[("emission owns all of its scratch state","src/elf.rs to_bytes, src/mach.rs to_bytes"),("the sink is consumed and closed on every path","src/artifact.rs Artifact::write_as"),("zero-initialised data is never materialised","src/artifact.rs Data::file_size; src/elf.rs add_definition; src/mach.rs build_section")],
  obs=["allocator","descriptor table"])
p("C20","What a format cannot express is refused, never mangled",
  "Emission in a format either produces an object that carries every declaration, definition and link in full, or is refused (an error or a panic) without touching the sink: an unsupported architecture, a relocation number, relocation width, addend, offset, size, alignment, address or section count beyond the format's fields, a Mach-O section name of more than 16 bytes, a name containing a NUL, or a relocation to or from a custom section that the backend cannot resolve never yields an object in which the request is truncated, altered or missing. What can be expressed is not refused. A refusal leaves the artifact as it was: it repeats, and a format which can express the artifact still succeeds.",
  ["inputs","histories","schedules"],"for every mix of expressible and inexpressible requests, at the limits of each field, in any order of emissions",
  "Tests make no request near a limit and no inexpressible one.",
  [E,M,A],[("refusals in the backends","src/elf.rs MachineTag::from, Elf::link, check_limits; src/mach.rs CpuType::from, build_relocations, RelocationBuilder::create, check_limits"),("names","src/artifact.rs check_names")],
  obs=["Artifact::emit_as","Artifact::write_as"])
p("C21","The objects of a program link into the program that was declared",
  "When the emitted or written objects of several artifacts are linked together, in whichever order, as their format's rules demand, the program in memory is the one declared: a reference reaches the strong definition of its name in whichever object has it, else the first weak one, and a local name only within its own object; every accepted link's place holds the address of that definition, the distance to it, or the distance to its GOT slot, as the kinds of the two ends say, with the addend added; all other bytes of each definition are as defined, each definition is aligned as asked and zero-initialised memory is zero; and the program has exactly the global names declared.",
  ["configurations","histories","schedules"],"for every set of artifacts that refer to each other's names, built by any interleaving of clients and linked in any order",
  "Tests link at most a single object, with the system's linker, and run it; no test combines objects of several artifacts or checks which of several definitions a reference reaches.",
  [E,M,A],[("symbol binding, types and values","src/elf.rs Elf::add_definition, import; src/mach.rs SymbolTable"),("relocations","src/elf.rs Elf::link; src/mach.rs build_relocations")],
  obs=["Artifact::emit_as","Artifact::write_as"])
p("N01","Declaration builders report what was set",
  "Every builder of a declaration reports through its accessors exactly the scope, visibility, writability, data type, alignment and section kind last set on it, and unset attributes have the documented defaults.",
  ["inputs"],"for every sequence of builder calls","Tests read attributes only through emitted files.",
  [D],[("builder macros","src/artifact/decl.rs scope_methods, visibility_methods, datatype_methods, align_methods")])
p("N03","Data helpers report sizes correctly",
  "The size and emptiness helpers of definition data report the bytes of file the data occupies (none if zero-initialised) and whether it has any content.",
  ["inputs"],"for every data value","No test calls them directly.",
  [A],[("Data::file_size, is_empty, is_zero_init","src/artifact.rs impl Data")])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
