#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH={
"C01":"deterministic simulation: seeded failing output sinks and failing component formatters",
"C02":"deterministic simulation: allocator that refuses every request made during the call",
"C03":"deterministic simulation: panics and refusals injected at seeded calls of the caller's function",
"C04":"deterministic simulation: panics injected at scalar operations inside in-place updates",
"C05":"deterministic simulation: seeded thread schedules at scalar-operation and machine-instruction granularity",
"C06":"deterministic simulation: seeded call histories with interruptions, nested calls and simulated clock, environment and stack position, compared with a fresh process",
"C07":"deterministic simulation: special values injected into arguments and intermediate scalar results, step budget",
"C08":"deterministic simulation: seeded edit histories with injected interruptions against a flat-array reference model",
"C09":"deterministic simulation: seeded histories with refused requests injected, against a flat-array reference model",
}
LEVEL={"C03":"fault_enumeration","C04":"fault_enumeration"}
NOTE={
"C01":"Samples (value, format spec, fault position) triples; every write call of short renderings is hit. Trusts core::fmt.",
"C02":"Every operation of the catalogue runs with the allocator refusing everything, warm and as the very first call of a process; argument classes are sampled.",
"C03":"All operations x shapes x result types; within a run the fault position is enumerated over every call for small shapes, sampled otherwise.",
"C04":"All in-place operations; the panicking scalar operation is enumerated over every operation of the call, arguments are sampled. Exercised through a scalar type supplied by the simulator.",
"C05":"Samples schedules of 2-4 threads; a clean batch is evidence, not proof. Sequentially consistent interleavings only.",
"C06":"Samples histories; reference is the same call in a fresh fork of the process.",
"C07":"Samples arguments and value faults at intermediate steps; bound is a fixed scalar-operation budget.",
"C08":"Samples histories of up to a few dozen edits per value over all shapes and views; reference model is a plain array.",
"C09":"Samples histories; each refused request is placed at a random point of a history and the value is compared before and after.",
}
CLAIM=[l for l in ["C01","C02","C03","C04","C05","C06","C07","C08","C09"] if os.path.exists(f"{ROOT}/sim/src/{l.lower()}.rs")]
PURE="A pure function of its arguments: no schedule, clock, I/O, fault or history enters it, so deterministic simulation has nothing to control; deciding it would be input generation or proof, not this technique."
NA={
"C10":PURE,"C11":PURE,"C12":PURE,"C13":PURE,"C14":PURE,"C15":PURE,"C16":PURE,"C17":PURE,"C18":PURE,"C19":PURE+" (The comparison arithmetic also lives in approx_cmp, a dependency that is not available offline.)",
"C20":PURE+" (That a cast which does not fit is refused and changes nothing is part of C09, and the conversion's call protocol is C03.)",
"C21":"A compile-time property: the type checker decides it; there is no execution to simulate.",
"C22":"A static layout property of the types, fixed at compile time; that all views of a value agree under edits is C08.",
"C23":"A property of build configurations, not of executions; nothing to schedule or fault.",
}
for c in TECH:
    if c not in CLAIM: NA[c]="Check under construction."
m=dict(version=1,setup_cmd="./build.sh",checks=[dict(property=c,quick_cmd=f"./check.sh {c}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {c}",evidence_file=f"evidence/{c}.json",technique=TECH[c],level=LEVEL.get(c,"exploration"),level_note=NOTE[c]) for c in CLAIM],
 not_applicable=[dict(property=k,reason=v) for k,v in sorted(NA.items())],
 notes="No hooks in /repo: every seam is one the code already has (the generic scalar type, fmt::Write, closures, the global allocator, the C library's clock, environment and random source, the CPU's trap flag).")
json.dump(m,open(f"{ROOT}/MANIFEST.json","w"),indent=1); open(f"{ROOT}/MANIFEST.json","a").write("\n")
