#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = "deterministic simulation with fault injection: seeded search over inputs, schedules and fault sequences of the real program under a simulated operating system"
NOTE = {
 'C01': "Compares the output of every simulated success with an independent reference assembler; faults on any event. Trusts the reference assembler; programs whose meaning it leaves open are not compared.",
 'C02': "Every simulated run that does not produce the image must fail with a message; for invalid programs without environment failure the message must name and quote an offending line as the reference assembler sees it.",
 'C03': "Metamorphic: the same text under 2-3 different transfer, buffering, memory-content and stream-kind schedules must give identical results.",
 'C04': "Every run executes under AddressSanitizer and UBSan with the simulated kernel; detects what they detect.",
 'C05': "The simulator accounts for every block and stream; anything live, or released twice, after a run ended by itself is a violation.",
 'C06': "Kills before, inside and after any system event and power-cut residues, followed by a rerun compared with the reference image.",
 'C07': "Continuous invariant: after each event following the visible report the output must equal the reference image; kills and last-write failures included.",
 'C08': "Compares the whole simulated file system before and after with the set of files the run may change.",
 'C09': "Start-up failures of every kind with a previous output present; output compared byte for byte.",
 'C10': "2-4 real instances interleaved event by event by a seeded scheduler; each compared with its run alone.",
 'C11': "Histories of record and lookup operations on the real tables with allocation failures, against a map and a list.",
 'C12': "Work bound in simulated events and CPU under persistent faults; a fault-free rerun of a valid program must succeed.",
 'C13': "Histories of edits and runs over one output path; each success compared with the reference image of the source it ran on.",
 'C14': "The same text as a file and as a pipe in arbitrary pieces and pauses, with writers that never close after .END or after a wrong line.",
 'C15': "Standard streams closed at start, failing, full or broken with SIGPIPE at any write; the output of valid programs compared with the reference image.",
 'C16': "A seeded third party replaces, moves or removes source or output just before any event; result judged against the version that was open.",
 'C17': "Runs under limits of disk space, descriptors and heap just large enough; each must succeed with the exact image.",
 'C19': "Source and output behind links of all kinds, with permissions and umasks of all kinds, faults and kills; identity, kind, permissions and content of every name before and after compared, image compared with the reference.",
 'C18': "Signals that ask for the end, or that are to be ignored, at any event or while the run waits; bounded number of events afterwards, status 0 only with the exact image; ignored ones must leave the run as if alone.",
}
NA = {
 'C20': "Pure function of its input (opcode tables): no schedule, clock, fault or multi-party behaviour for a simulator to vary. C01 compares encodings of the programs it simulates as part of its oracle, which is not a decision of this property.",
 'C21': "Pure function of a string (literal conversion): nothing to simulate.",
 'C22': "Relation between two inputs of a pure function (lexing): nothing to simulate.",
 'C23': "Pure function of label placement: nothing to simulate; failures while references are recorded are C11 and C05.",
 'C24': "Pure function of the token sequence (grammar): nothing to simulate.",
 'C25': "Pure function of line and column (message layout): nothing to simulate.",
}
checks = []
na = []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({"property": p, "quick_cmd": f"bash tools/check.sh {p} quick", "thorough_cmd": f"bash tools/check.sh {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "exploration", "level_note": NOTE[p] + " Search samples scenarios; a quiet run is evidence, not proof."})
m = {"version": 1, "setup_cmd": "bash tools/build.sh plain && bash tools/build.sh asan", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the C library surface, replaced symbol by symbol in gaia's own objects (objcopy --redefine-syms) when the simulator is linked. Replay: bash tools/replay.sh <file>."}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write("\n")
