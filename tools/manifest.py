#!/usr/bin/env python3
"""Writes MANIFEST.json. Run in /verif after changing what is claimed."""
import json
DST = "deterministic simulation with fault injection"
NOTE = {
 "C01": "Seeded search over write faults of the real tool under a simulated operating system; the report expected comes from the library. Assumes the shim sees every call the tool makes (it checks that files and pipes change only through it).",
 "C02": "Seeded search over writer behaviours for every analysis and format against the fault-free report of fresh items.",
 "C03": "Seeded search over failures, kills at system calls and failing allocations of the real tool; files are compared before and after.",
 "C04": "Seeded search over damage to stored inputs (WebAssembly, and nine native objects), library and tool; known crashes inside third-party object readers and on very deep graphs are listed in known-findings.txt.",
 "C05": "Seeded search over environments: every run is executed at least twice, with different hash seeds, heap layouts, read and write chunkings, clocks, process ids, variables and directories, and must show the same bytes.",
 "C06": "Seeded search over histories of analyses and emissions on shared items against freshly parsed ones.",
 "C07": "Seeded search over interleavings of two to four sessions at allocations, writes, control-flow edges and lock waits; each is compared with itself alone. Data races between two instructions without any of these in between are not explored.",
 "C08": "Generated modules with known layout, and damaged ones; every item and the total against the reference.",
 "C09": "Brute-force reachability with each item removed, against the reports, after random histories.",
 "C10": "Reference reachability over the generator's own references, against the reports, after random histories.",
 "C11": "Every shown step and every missing one is checked against the reference graph, after random histories.",
 "C12": "Totals are recomputed from the reference items, after random histories.",
 "C13": "Deltas are recomputed from the reference items of both files, swapped and unswapped, after random histories.",
 "C14": "Each limited report is checked for order and compared with its unlimited counterpart.",
 "C15": "Strict parsers of JSON, CSV and the text table; the three formats are compared with each other and the model.",
 "C16": "Seeded search over opens, size queries and reads that fail, are cut short or interrupted, of the real tool.",
 "C17": "Seeded search over sequences of calls and damaged modules on the real WebAssembly build, under a simulated host, against the native library.",
}
CLAIMED = list(NOTE)
NA = {
 "C18": "A pure function of one string: no schedule, clock, I/O, fault or history for the property to depend on. (How a name behaves inside whole reports is covered by C08, C12 and C15, which generate mangled Rust and C++ symbols.)",
 "C19": "A pure function of the argument list: nothing nondeterministic or faulty to simulate. (Options that change what a report shows are covered as configurations of C09 to C15.)",
 "C20": "A pure function of a file's name and first bytes; no nondeterminism beyond reading the file, which C16 covers.",
}
m = {
 "version": 1,
 "setup_cmd": "bash build.sh web",
 "hooks": {
  "guard": "none: no hooks in /repo were needed",
  "enable": "The simulator uses existing seams: emission to any io::Write, parsing of byte slices, the system-call and allocator boundary, getrandom, and a compiler pass that calls out on control-flow edges (rustc-wrap.sh).",
  "source_commits": [],
 },
 "checks": [
  {
   "property": c,
   "quick_cmd": f"bash check.sh {c}",
   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {c}",
   "technique": DST,
   "level": "exploration",
   "level_note": NOTE[c] + " Sampling, not proof; every failure comes with a minimised replay file.",
  }
  for c in CLAIMED
 ],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if k not in CLAIMED],
}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
