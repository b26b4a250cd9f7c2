#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
props=[json.loads(l) for l in open("properties.jsonl")]
T="deterministic simulation with fault injection: seeded search over schedules, call histories and faults"
ORACLE={
"C01":"the same accepted calls are re-executed under other hash seeds, heap layouts, clocks, environments, log levels, threads and numbers of earlier emissions; all objects must be byte-identical",
"C02":"every call of every thread must return what a lone caller in a process of its own gets from the same calls; interleavings preempt inside emissions, with stalls and unwinding log sinks",
"C03":"every system call on the sink is recorded and faulted; the file's content is judged after each of them, after crashes (the real process is killed) and after a retry",
"C04":"reference model of declarations and definitions, compared at every emission, write and query",
"C05":"reference model of declaration merging compared after every call; emitted objects compared with those of an artifact given only what is in force",
"C06":"reference model of definition admission; emitted objects compared with those of an artifact given only the winning definitions",
"C07":"a shadow artifact receives only the completed steps; results, queries and emitted bytes must be equal for ever after",
"C08":"independent strict ELF reader compared with the reference model",
"C09":"independent strict ELF reader compared with the reference model's links",
"C10":"independent strict ELF reader: structural invariants",
"C11":"independent strict Mach-O reader compared with the reference model",
"C12":"independent strict Mach-O reader compared with the reference model's links",
"C13":"independent strict Mach-O reader: structural invariants",
"C14":"both readers compared with the reference model; the same artifact with shrunk and without zero-initialised objects as further references",
"C15":"the calls of a lineage across copies are replayed on a fresh artifact in a process of its own; every result must be equal",
"C16":"the same client scripts under two schedules; canonical meaning of the two objects must be equal",
"C17":"reference model of link admission; the relocations emitted must be those of an artifact given only the accepted links",
"C18":"headers of every object, of any mix of targets emitted concurrently, decoded independently and compared with a table of the processor supplements",
"C19":"every allocation and release of the library is counted under the simulated heap, per call and in total, and descriptors are enumerated; calls are repeated so that a cache is told from a leak",
"C20":"reference model of what each format's fields can hold; accepted objects are read by the independent readers and compared with the whole model, refused writes must leave the file alone",
"C21":"a static linker of the simulator's own, written from the psABI and Apple's relocation reference, links the objects of all artifacts of a run; memory and global names of the program compared with the reference models of all of them",
}
REASON={
"N01":"a pure function of one builder chain: no schedule, time, I/O, fault or history for a simulator to vary (what the declarations lead to in objects is decided by C08 and C11)",
"N03":"a pure function of one data value: no schedule, time, I/O, fault or history for a simulator to vary",
}
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in ORACLE:
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=T,level="exploration",
          level_note=f"Seeded search, not exhaustive: the property held on every simulated run of the evidence file. Oracle: {ORACLE[i]}. Trusted: the simulator (/verif/sim), its readers and its model; preemption is explored at allocations, atomic and static memory accesses, log records, system calls, callbacks and call boundaries, under sequential consistency. Input classes that are left unspecified are listed in DESIGN.md."))
    else: na.append(dict(property=i,reason=REASON[i]))
m=dict(version=1,setup_cmd="bash check.sh build",checks=checks,not_applicable=na,
  notes="No hooks in /repo: every seam is outside the library (global allocator, compiler instrumentation of memory accesses, log facade, interposed libc entry points, caller-supplied conversions, forked process crashes). Repairs are the 'fix:' commits of /repo, listed in known_findings.txt.")
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
