#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
NA = {
    "U02": "A pure function of two integers: nothing for a scheduler or a fault injector to decide.",
}
STREAM = ("the client's streams (BufRead/Write) are simulated: buffer sizes, short reads/writes, interruptions, errors, "
          "panics, crashes and the requests other clients make while a call waits are drawn from the seed; the library is the real code")
CLIENTS = ("a seeded scheduler interleaves clients of shared circuits, stores and evaluators, with clients vanishing and rejected "
           "requests as faults; the library is the real code")
NOTE = {
    "S04": CLIENTS + ". Oracle: two's-complement integers written for this check. Widths 1 to 256 (products to 100), operands drawn with edge patterns.",
    "S05": CLIENTS + ". Oracle: bit vectors written for this check. Widths 1 to 256.",
    "S06": CLIENTS + ". Oracle: integers modulo the prime. Products are a known finding (known_findings.txt): a product that comes out as anything but the right value or 0 is still reported.",
    "S07": CLIENTS + ". Oracle: machine arithmetic and an AES-128 written for this check and tested against FIPS-197 at every start.",
    "D01": "the run's thread gets a small stack (256 KB to 8 MB, drawn from the seed) and clients build and load circuits of up to 100,000 gates in chains; streams fail as in L02 and W02. Oracle: the process survives, and the reference model, which is iterative.",
    "Z01": "clients make up to 132,000 requests of one kind in a row and load, write and hand on documents of that size among ordinary requests; streams fail as in L02 and W02. Oracle: the reference model and an independent parser and evaluator of circuit documents.",
    "G01": "several clients build over circuits of the simulator's own behind the library's circuit interface, which scatter identifiers, refuse requests once or from then on with any error, or panic, at requests drawn from the seed; streams of loads fail as in L02. Oracle: the reference model, and the error the simulator injected.",
    "M01": "every allocation of a run is counted by the simulator's allocator, which has a budget per request; requests of twelve kinds are repeated, through own and kept evaluators, readers and writers, over streams that shorten, interrupt, fail and panic. Oracle: bytes held between repetitions, and bytes taken against the size of the circuit.",
    "R01": CLIENTS + ". Oracle: the reference model, which knows every signal, module, input and output that exists.",
    "Q01": CLIENTS + "; streams wait, fail and panic in between. Oracle: what the clients asked for, and the listing of the circuit itself (gates and dependents must agree).",
    "V01": "values pass between clients over simulated storage that shortens, interrupts, fails and tears transfers, drawn from the seed; the library's conversions, evaluator and circuits are the real code. Oracle: conversions written for this check and the reference model.",
    "H01": "every plan is executed three times in one process, each under another seed of the process's random source (getrandom is overridden); ids, counts, errors, results and bytes must agree.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    what = NOTE.get(i) or (CLIENTS if i[0] == "S" and i != "S08" else STREAM) + \
        ". Oracle: a reference model of circuits and an independent parser and evaluator of circuit documents."
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded search over schedules and fault sequences)",
        "level": "exploration",
        "level_note": "Seeded search, not exhaustive: no violation in the simulated runs the evidence file counts. " + what +
                      " Circuits are compared on edge-patterned and random input vectors.",
    })
m = {
    "version": 1,
    "setup_cmd": "cd sim && cargo build --release --offline --quiet",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks: the library's streams are generic parameters and its only randomness is the hash seed, which the simulator's "
             "own getrandom provides. 'sim/target/release/csim replay FILE' re-executes a replay file.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
