#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TRUST = " Assumes the simulated kernel, file system and allocator behave as POSIX allows and that the fault-free run of the same tree defines the expected output; errors of close() are outside the fault model. Seeded search, not exhaustive over histories."
CLAIMS = {
 "C01": ("seeded storage faults at every operation site of all seven generators, output compared with the fault-free run", "fault_enumeration", "Every distinct write-side operation site (call stack) of every generator on the repository's schemas and derived ones is attacked at least once with an error, a partial transfer or a full disk, plus seeded multi-fault runs; exit status 0 is accepted only with the complete, byte-identical output."),
 "C02": ("seeded storage faults at every operation site; ending, exit status and messages judged", "fault_enumeration", "Every run under storage faults must end without crash, hang or heap corruption, with the complete output or with a non-zero status and an error message naming the failed output path."),
 "C03": ("seeded open/read/list/copy failures of every input at every read site", "fault_enumeration", "Every distinct input read site is attacked with open errors, read errors and errors after a partial read."),
 "C04": ("seeded short and interrupted transfers throughout the run", "exploration", "Random short reads, writes and copies and EINTR in any place; output must be byte-identical."),
 "C05": ("seeded crash points incl. mid-write and power loss with torn files, then restart", "fault_enumeration", "A crash before or inside a seeded operation, up to three times in a row, with kill or power-loss semantics; the re-run must repair everything."),
 "C06": ("seeded multi-run histories (other schemas, options, generator sets, user edits), refinement against a run into an empty directory", "exploration", "The final run of each history must refine the fresh run and preserve foreign files."),
 "C07": ("controlled variation of every source of nondeterminism (heap layout and content, directory order, inodes, clock, pid, environment, cwd, path spelling)", "exploration", "The environment is perturbed by seed; outputs must be byte-identical."),
 "C08": ("mutation log of the simulated file system checked in every run, with and without faults", "exploration", "Every mutating call of every run is recorded by the simulated kernel and must lie below the output directory; inputs and bystanders must be unchanged."),
 "C09": ("rejected runs (invalid schemas, bad options, warnings as errors, unreadable inputs) judged by the mutation log", "exploration", "No mutation at all may be recorded in a refused run, which must fail with a message."),
 "C10": ("seeded storage damage of inputs (torn, truncated, flipped, zeroed, foreign and duplicated blocks, structured damage) and seeded option combinations, step clock and checked heap", "exploration", "Damaged inputs must lead to a clean success or a clean failure; heap accesses are checked with red zones and poisoning, hangs by a step bound."),
 "C11": ("seeded interleavings of parser objects in one and several simulated threads, refinement against each object alone", "exploration", "Dump of the public API and the diagnostics of each object must equal those of the object running alone."),
 "C12": ("seeded failed loads (missing, unreadable, read error, damaged) inserted into parser histories", "exploration", "The history with failed attempts must equal the history without them, apart from the failures' own diagnostics."),
 "C13": ("seeded interleavings of whole generators as simulated threads and processes sharing one file system, with faults in some of them", "exploration", "Each generator's output, status and messages must equal those of running alone."),
 "C14": ("seeded sequences of faulty runs followed by a fault-free run", "exploration", "The first fault-free run after any seeded series of failed runs must succeed with the complete output."),
 "C15": ("seeded custom code trees, listing orders, histories and short copies; every carried file compared with its source", "exploration", "Byte-exact model of what has to be carried over, computed from the inputs alone."),
 "C16": ("seeded allocation failures (single, burst, persistent) stratified over the whole run", "fault_enumeration", "Allocation failures cover the run evenly by allocation number; success requires the complete output."),
 "C17": ("repeat of the same (failing) work in one simulated process; descriptors and checked heap accounted", "fault_enumeration", "Second repetition must leave no descriptor and no heap block behind; number of open files bounded during all runs."),
 "C18": ("seeded failures of standard output and standard error, next to an undisturbed twin run", "fault_enumeration", "Any write call of either stream may be the first to fail; status and output must equal the twin's."),
}
NA = {
 "C20": "acceptance of a schema is a pure function of its text; no schedule, fault, clock or history takes part, so simulation adds nothing over input generation",
 "C21": "a pure function of the schema; the generated code also needs the COMMS library and Qt, which are not in the sandbox",
 "C22": "reference resolution is a pure, sequential function of the schema text; nothing for a scheduler or fault injector to decide",
 "C23": "version selection is a pure function of schema and options; nothing for a scheduler or fault injector to decide",
 "C24": "agreement between generators is a static relation between pure functions of the schema; deciding it needs compiling the generated code against libraries that are absent (COMMS, swig, emscripten, Qt)",
}
claimed = [l.strip() for l in open(os.path.join(here, "scripts", "claimed.txt")) if l.strip()]
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "technique": T + CLAIMS[p][0], "level": CLAIMS[p][1], "level_note": CLAIMS[p][2] + TRUST} for p in claimed],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()] + [{"property": p, "reason": "check under construction"} for p in CLAIMS if p not in claimed],
     "notes": "No hooks in /repo: the simulator interposes at the C library boundary and compiles the repository's own sources with a step counter. Replay: build/o/simrun replay <file>."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
