#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
specs = set(re.findall(r'id: "(C\d+)"', open(f"{here}/harness/src/checks/mod.rs").read()))
T = {
 "C01": "runtime monitor: parsed device vs. value tree the document was written from",
 "C02": "runtime monitor: literal oracle over generated texts at every numeric position",
 "C03": "runtime monitor: panic, overflow, signal, CPU-time watch over hostile inputs (debug assertions and overflow checks on)",
 "C04": "runtime monitor: fault seeding, one structural defect per document, verdict watched",
 "C05": "runtime monitor: fault seeding with known source position, error text parsed",
 "C06": "runtime monitor: independent validity predicate vs. three routes and three levels",
 "C07": "runtime monitor: encode/parse round trip compared by deep value trees",
 "C08": "runtime monitor: encoder output read by an independent XML reader vs. reference element tree",
 "C09": "runtime monitor: encoder output under options vs. reference element tree",
 "C10": "runtime monitor: sorted encoder output vs. reference stable sort",
 "C11": "runtime monitor: expansion vs. reference expander",
 "C12": "runtime monitor: derivation vs. reference deriver",
 "C13": "runtime monitor: verdict on reference graphs vs. reference resolver, recursion and CPU-time watch",
 "C14": "runtime monitor: property expansion vs. reference inheritance",
 "C15": "runtime monitor: histories of setter calls and modifications vs. a sequential model",
 "C16": "runtime monitor: serde round trips and reference JSON tree",
 "C17": "runtime monitor: equivalent spellings and seeded faults in JSON/YAML, verdict watched",
 "C18": "runtime monitor: visit logs of iterators and lookups vs. own walk",
 "C19": "runtime monitor: bit sets vs. range and mask functions",
 "C20": "runtime monitor: schema word tables vs. every vocabulary function and document position",
 "C21": "runtime monitor: differential parse with and without the option, seeded faults",
 "C22": "runtime monitor: operation histories and concurrent mixes, digests vs. fresh processes; ThreadSanitizer and Miri (thorough)",
 "C23": "runtime monitor: index contents vs. own enumeration of paths",
 "C25": "runtime monitor: single derivation steps and references followed through the index vs. own fold over the chain",
 "C26": "runtime monitor: every element parsed and encoded alone vs. the whole device and a reference element tree",
 "C24": "runtime monitor: array helpers vs. reference index, name and offset lists",
}
checks = []
for p in props:
    i = p["id"]
    if i in specs:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": T[i],
            "level": "exploration",
            "level_note": "Held on the executions listed in the evidence file (seeded workload, oracle independent of the code under test, coverage events required); no claim about inputs never produced.",
        })
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in specs]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all monitors use the public API of svd-rs, svd-parser and svd-encoder. Genuine defects met are repaired in `fix:` commits listed in known-findings.txt.",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
