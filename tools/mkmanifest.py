#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("simulated storage, transport, crashes and readers; no-panic and step-budget invariants on every load", "Seeded search over fault sequences; every surviving text is loaded by the real library, twice and repeatedly, under a step meter. Not exhaustive."),
 "C02": ("crash and cut simulation of a growing file; refinement against a reference model and prefix relation", "Seeded search over documents, crash points, torn writes and resumed exports. Trusts the reference model and the real load of the whole file."),
 "C03": ("crash and cut simulation of a growing material file; refinement against a reference model and prefix relation", "As C02, for MTL."),
 "C04": ("fault-injected export-to-load pipeline; refinement against an executable reference model of OBJ", "Seeded search over fault sequences; the reference model is independent of the library's code."),
 "C05": ("fault-injected export-to-load pipeline; refinement against an executable reference model of MTL", "As C04, for MTL."),
 "C06": ("fault-injected export-to-load pipeline; structural invariants on every accepted mesh", "Seeded search; the invariants need no model."),
 "C07": ("fault-injected export-to-load pipeline; reported line and category against the reference model", "Seeded search; where several categories describe one defect equally well all of them are accepted."),
 "C08": ("seeded scheduler over real threads switched at compiler-inserted hooks before memory accesses and at basic blocks, with stalls; solo results as oracle", "Seeded search over interleavings in two builds: switches before every memory access of the library, and at its basic blocks; lock waits included. No weak-memory reordering."),
 "C09": ("simulated process histories with starved, cancelled and abandoned loads, clock jumps, hash seeds, changing environment and host; earlier, fresh-process and model outcomes and heap balance as oracle", "Seeded search over histories; leaks judged by growth over repeated passes."),
 "C10": ("allocation-failure injection through the global allocator; fault-free result, heap balance and retry as oracle", "Seeded search over (text, operation, failing allocation)."),
 "C11": ("failing, partial and interrupted sinks; fault-free text as oracle", "Seeded search over (value, sink, failure point)."),
 "C12": ("step, allocation and move meters over large and damaged texts; linear bounds", "Seeded search in two builds, one with core and alloc metered as well; fixed bounds several times above what the current code needs, and growth from a text to one about eight times as long compared."),
 "C13": ("seeded interleavings of calls on parsers and their copies over damaged texts; lock-step equality and settling", "Seeded search over call sequences."),
 "C14": ("simulated append-only log of printed records with syncs, crashes and torn tails; durable records as oracle", "Seeded search over records, sync and crash points."),
 "C16": ("fault-injected export-to-load pipeline; the printed summary of every accepted mesh against its contents", "Seeded search over fault sequences; layout is ignored, every stated fact is compared."),
 "C17": ("simulated shared file of several exporters with crashes, lost, repeated and reordered parts; the sum of the parts loaded alone as oracle", "Seeded search over parts and histories; needs no model, only loads of the parts."),
 "C18": ("fault-injected files under a simulated repair tool with lost repairs; progress of the blamed line and loadable front as invariants", "Seeded search over damage and repair sequences; needs no model."),
 "C19": ("seeded interleaving of the flushes of several buffered writers, with stalls and crashes; the exporter's own order of the same statements as oracle", "Seeded search over statement sets, interleavings and crash points; needs no model."),
 "C21": ("fault-injected export-to-load pipeline; elements of every accepted mesh against the corners the surviving text spells out", "Seeded search over fault sequences; corners come from the reference model."),
 "C22": ("fault-injected export-to-load pipeline; lookups in every accepted mesh, whole and shortened, against the stored sets", "Seeded search over meshes and index values; results are compared by address."),
 "C24": ("fault-injected export-to-load pipeline; every stored number against exact integer arithmetic on the surviving digits", "Seeded search with halfway, subnormal and overlong decimals; the oracle rounds with big integers, not with std."),
 "C25": ("independently damaged replicas and results drifting in memory, repaired by copying; field-by-field comparison as oracle", "Seeded search over damage and divergence; the oracle uses none of the library's operators."),
 "C15": ("chains of simulated transit agents rewriting texts; equality with the original load", "Seeded search over rewritings."),
}
NA = {
 "C20": "A statement about which texts a pure function accepts; nothing in it depends on scheduling, time, I/O, faults or history.",
 "C23": "An algebraic fact about one pure comparison; nothing for a simulator to control.",
}
m = {
 "version": 1,
 "setup_cmd": "./build.sh checked",
 "checks": [{
   "property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "technique": "deterministic simulation with fault injection: " + t, "level": "exploration", "level_note": n,
 } for p, (t, n) in T.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the seams are compiler-inserted callbacks, the global allocator and interposed libc symbols, all in /verif/sim. Replay a violation with: ./replay.sh FILE",
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
