#!/usr/bin/env python3
"""Writes ../MANIFEST.json from ../properties.jsonl and what is said here about each check."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,"../properties.jsonl"))]
TREE="exhaustive exploration of API call sequences on the real code, each step compared with a reference model"
OBJ="exhaustive enumeration of bounded emission scenarios on the real code; every object is read by an independent reader and compared with the reference model"
T={
"C01":(TREE,"Every sequence of the calls of several alphabets up to the depth in the evidence, and every pair and triple of declarations. Trusts the reference model."),
"C02":(TREE,"Every sequence of the calls of several alphabets up to the depth in the evidence, and every pair of definitions of every declaration. Trusts the reference model."),
"C03":(TREE,"Every sequence of the calls of several alphabets up to the depth in the evidence, and links between every pair of kinds and states. Trusts the reference model."),
"C04":("exhaustive exploration of call sequences; differential: each history with rejected calls against the same history without them, down to the emitted objects","Every rejected call in every sequence up to the depth in the evidence, with every continuation up to that depth."),
"C05":("exhaustive exploration of call sequences with an emission in every format at every state, compared with the reference model","Every sequence up to the depth in the evidence, each state asked for all five binary formats, in memory and into a file."),
"C06":("exhaustive enumeration of interleavings of emissions with other calls, clones, threads and enumerated hash seeds on the real code","Hash seeds are enumerated by interposing the random source (the property's nondeterminism is under the explorer's control); a bounded set of seeds per scenario."),
"C07":("exhaustive exploration of all admissible orders of each call set (all linear extensions), comparing the emitted programs","All orders of all scenarios in the bound; the order of links at one place is kept, as the property says."),
"C08":("exhaustive deviation-bounded enumeration of the environment's answers to write(2) on the real code","All sequences of answers with up to the stated number of deviations, for artifacts around the buffer sizes involved."),
"E06":(OBJ,"Scenarios around each section-count threshold (0xff00, 0x10000), with definitions, imports and links of several shapes, on three machines; and scenarios around each power of two up to 2^16 for imports, links in one place, definitions, bytes and name characters."),
"M06":(OBJ,"Scenarios around each power of two up to 2^16 (thorough: 2^18) for imports, links in one place, definitions, bytes and name characters."),
"X01":("exhaustive enumeration of target architectures, formats and programs, compared with a table of machines","All architectures of the target library that emission could accept; the table is taken from the format specifications."),
"X02":("exhaustive differential enumeration: every scenario is emitted by both backends and the two programs are compared","Does not need the reference model to be right about the meaning of attributes, only the two readers."),
"X07":("explicit-state exploration of linking: all assignments of roles to objects in all link orders, resolved by a linker model from the real emitted objects","The linker model was validated against ld, ld.lld and ld64.lld during development."),
"X09":("exhaustive enumeration of values around every power of two in every place, on 32- and 64-bit targets; each is either refused or read back in full by an independent reader","What has to be refused is decided by the field widths of the formats (mc/src/emission.rs, domain and space); more than 2^24 symbols are not explored."),
"X08":("exhaustive exploration of builder call sequences against a record of the last attribute set","All sequences up to the depth in the evidence, for every kind of declaration."),
}
checks=[]
for p in props:
    i=p["id"]
    tech,note=T.get(i,(OBJ,"Complete over the families listed in the evidence (bounded numbers of definitions, all attribute combinations, boundary lengths, offsets and counts, short link graphs and histories). Trusts the framework's own object readers (cross-checked against binutils, lld and LLVM tools) and the reference model."))
    checks.append(dict(property=i,quick_cmd=f"bash run.sh check {i} quick",thorough_cmd=f"bash run.sh check {i} thorough",evidence_file=f"evidence/{i}.json",technique=tech,level="fault_enumeration" if i=="C08" else "model_checking",level_note=note))
m=dict(version=1,setup_cmd="bash run.sh setup",checks=checks,not_applicable=[],notes="No hooks: everything is observed through the public API, emitted bytes, and interposed libc functions (getrandom, write, writev, pwrite) in the explorer's own process. Known findings: known_findings.txt.")
json.dump(m,open(os.path.join(here,"../MANIFEST.json"),"w"),indent=1)
