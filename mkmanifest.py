#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: seeded search over simulated runs"
notes = {
"C01": "Seeded exploration of values (130+ types), storages, start capacities, heap behaviour and user-code interference; the output is judged by walking it with an independent model, used as a value after the input is gone and after relocation. Trusts the simulator's model of the type layouts.",
"C02": "As C01; every pointer of the output is range-, alignment- and identity-checked against the regions the value occupies, capacities and alignment against the shrunk output.",
"C03": "As C01 for the pointer-offset serializer: offsets are resolved in copies placed elsewhere; raw words are compared between runs with differently placed buffers.",
"C04": "As C01 for the pure-copy serializer: the output is rebuilt from a copy by an in-order traversal after the input is gone.",
"C05": "Layout predicted by a reference model from value and parameters alone is compared with the position of every region under varied buffers, moves and interference.",
"C06": "Random histories of storage operations over all built-in storages and the simulated one, compared operation by operation with a byte-level reference model.",
"C07": "As C06, with sizes around limits up to usize::MAX; capacities compared with the documented rule in both build variants.",
"C08": "All heap requests go through a simulated allocator that checks legality (layouts, double frees, leaks, writes outside live blocks) while allocations fail, limits are hit and user code panics.",
"C09": "As C06 with allocation failures and refusals at arbitrary requests; full state compared before and after each refusal, and histories continued and compared with the same history without the refused operations.",
"C10": "Sessions aborted by allocation failure, capacity limit, storage refusal or user panic at arbitrary points, then continued, finished and reused; compared with the same history without the aborted values.",
"C11": "Simulated threads switched by a seeded scheduler at heap requests, user callbacks and single machine instructions, with preference for those touching shared memory (one runs at a time; real OS threads under a baton), some in processes of their own so that first use is raced; plus serializations nested in user code; compared with each session run alone.",
"C12": "Several values and sessions per buffer, cleared and reused; each value compared with it being written alone, and earlier outputs re-read after later ones.",
"C13": "The serializers run over a simulated storage that relocates, skips and refuses within the documented contract and checks every call against its safety requirements.",
"C14": "User code resolves its own and its fields' addresses at every step; answers compared with where the data finally is.",
"C15": "User code issues corrections of many sizes and offsets, directly, deferred and nested, and pushes data of its own, between buffer moves; the final output compared with the model.",
}
checks = []
for i in range(1, 16):
    c = f"C{i:02}"
    checks.append(dict(property=c, quick_cmd=f"sh check.sh {c}", thorough_cmd=f"VERIF_TIER=thorough sh check.sh {c}",
        evidence_file=f"evidence/{c}.json", technique=T, level="exploration",
        level_note=notes[c]))
na = [
 dict(property="C16", reason="Decided while compiling: the derive macro turns source text into source text; there is no schedule, time, I/O, allocation or fault for the result to depend on, so a simulator has nothing to decide."),
 dict(property="C17", reason="A compile-time rejection: code violating it does not become a program that could be run under a simulator."),
 dict(property="C18", reason="Pure functions of two integers without state, allocation, concurrency or I/O; no simulated environment can change their result. Misuse by the storages and serializers is seen by C02, C05 and C06."),
]
json.dump(dict(version=1, setup_cmd="sh check.sh build", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the seams are the global allocator, the Storage and Serializer traits and user code called back by derived and hand-written Serialize implementations."),
  open("MANIFEST.json", "w"), indent=1)
