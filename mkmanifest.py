#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NOTE = {
    1: "sampled inputs; all inputs up to 2 octets (thorough: 3) at every entry point; panics, signals, hangs (logical clock) in builds with and without overflow checks",
    2: "steps counted by sancov callbacks, bytes by a counting allocator, stack by the lowest address seen; fixed budgets per octet, scaled hostile shapes",
    3: "address identity of every borrowed view with the reference's offsets, UTF-8 re-validation, AddressSanitizer (quick, thorough), Miri (thorough)",
    23: "the decoder binary run on files and command lines, its outputs and status compared with the reference rendering",
    29: "public constructors and fields with arguments of every size and value; accessors, text and printed form against the reference",
    30: "calls of the C library that reach outside the process, noted while the library runs under the workload of C01 and C29",
    24: "the same inputs in other orders, threads, places, processes and callbacks must give equal observations; ThreadSanitizer on concurrent decoding",
}
TECH = {
    30: "runtime monitoring: interposed C library calls, watched during every evaluation",
    1: "runtime monitoring: crash and step-budget watchdog over coverage-guided and exhaustive-small workloads",
    2: "runtime monitoring: logical clock, allocation and stack meters against linear budgets",
    3: "runtime monitoring: pointer-identity monitor plus AddressSanitizer and Miri",
    23: "runtime monitoring: black-box observation of the decoder process against a reference rendering",
    24: "runtime monitoring: observation equality across histories, threads and processes, ThreadSanitizer",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = int(p["id"][1:])
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
        "technique": TECH.get(i, "runtime monitoring: observed executions compared with an independent reference decoder"),
        "level": "exploration",
        "level_note": NOTE.get(i, "every observed execution is decided exactly by the reference; small domains of the property are enumerated completely, the rest is sampled with coverage guidance"),
    })
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
