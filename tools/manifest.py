#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
ORACLE = {
    "P01": ("online monitor: calendar odometer and reference civil calendar over day walks", "thorough enumerates every supported day"),
    "P02": ("online monitor: exact component sums against a reference model", ""),
    "P03": ("online monitor: exact integer conversions against a reference model", ""),
    "P04": ("online monitor: printed text against an independent printer", ""),
    "P05": ("online monitor: printed text against an independent printer", ""),
    "P06": ("online monitor: print/parse round trip on every style and matching order", ""),
    "P07": ("online monitor: print/parse round trip under every style; known findings keyed to the two extreme fields", ""),
    "P08": ("online monitor: spelled-text generator carrying the intended value", ""),
    "P09": ("online monitor: exact integer sum of spelled quantities; known findings keyed to two input forms", ""),
    "P14": ("online monitor: reference field restriction over printed and spelled text", ""),
    "P10": ("online monitor: one planted fault per text, every outcome must be an error", ""),
    "P13": ("online monitor: reference rounding of printed values at every precision, idempotence", ""),
    "P30": ("online monitor: differential over pairs of texts that differ in case and blanks", ""),
    "P31": ("online monitor: spelled dates under all field orders, intended value known", ""),
    "P15": ("online monitor: 128-bit reference arithmetic, overflow-checked build", ""),
    "P16": ("online monitor: reference calendar arithmetic, overflow-checked build", ""),
    "P17": ("online monitor: reference calendar difference", ""),
    "P18": ("online monitor: reference modular arithmetic, overflow-checked build", ""),
    "P19": ("online monitor: 128-bit fieldwise reference, overflow-checked build", ""),
    "P20": ("online monitor: conservation and sign invariants of justified intervals", ""),
    "P21": ("online monitor: exact rational scaling with derived rounding bounds", ""),
    "P22": ("online monitor: order laws against time-line positions; known finding keyed to equal totals with different fields", ""),
    "P23": ("online monitor: infinity rules on every operation", ""),
    "P11": ("online monitor on hostile texts under overflow and debug assertions, a CPU-time watchdog, and an offline comparison of two builds' outcome logs", ""),
    "P12": ("sanitizers: Miri, AddressSanitizer and checked unsafe preconditions over hostile workloads, memcheck on the thorough tier", ""),
    "P24": ("online monitor: range invariants and a shadow model over operation histories", ""),
    "P27": ("offline comparison of call logs recorded in different orders, threads and histories", ""),
    "P28": ("online monitor: value round trips through JSON, RON, bincode and CBOR against an independent printer and the integers", ""),
    "P29": ("online monitor on boundary values under overflow and debug assertions, and an offline comparison of two builds' outcome logs", ""),
    "P25": ("online monitor: truncation against reference calendar, idempotence and monotonicity", ""),
    "P26": ("online monitor: extracted fields against reference calendar", ""),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ORACLE:
        t, extra = ORACLE[i]
        checks.append({
            "property": i,
            "quick_cmd": f"sh ./check {i} quick",
            "thorough_cmd": f"sh ./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": "exploration",
            "level_note": ("Held on the executions observed (counts in the evidence file), on the real code built with overflow and debug assertions; says nothing about inputs not generated. Trusts the reference model in harness/src." + (" " + extra + "." if extra else "")).strip(),
        })
    else:
        na.append({"property": i, "reason": "no check registered yet"})
m = {"version": 1, "setup_cmd": "sh ./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API; /repo carries only fix: commits (see known_findings.txt)."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
