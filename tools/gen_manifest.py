#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plans.py and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plans import PLANS

REF = "runtime monitoring: on-line comparison with an independent reference model over randomised workloads"
LOG = "runtime monitoring: trace monitor over logged oracle requests under randomised schedules"
EXPL = "Explores randomly generated executions of the real code; says nothing about inputs it did not generate. "

NOTES = {
 "C01": (REF, EXPL + "Prime-field tables are exhaustive; chains and rationals are sampled. Trusts 128-bit reference arithmetic."),
 "C02": (REF, EXPL + "Every step of a random history is compared with an exact map model of the column."),
 "C03": (REF, EXPL + "Every intermediate view of random wrapper stacks is compared with a plain-data specification."),
 "C04": (REF, EXPL + "Every reversed and un-reversed view is compared with a plain-data specification."),
 "C05": (REF, EXPL + "Trusts the harness's eager sparse linear algebra."),
 "C06": (REF, EXPL + "Self-consistency oracle: annotated columns against plain columns and reported values, for every matrix of the workspace; needs no reference model."),
 "C07": (REF, EXPL + "R is recomputed from D and V in the reference field; triangularity and pivots are checked for every column."),
 "C08": (REF, EXPL + "R is recomputed from D and V in the reference field; cleared columns and col_is_cycle are checked for every column."),
 "C09": (REF, EXPL + "Trusts the reference pairing, which the harness cross-checks against the rank formula and planted barcodes at start-up."),
 "C10": (REF, EXPL + "Trusts the same reference pairing as C09."),
 "C11": (REF, EXPL + "Metamorphic: no reference model; both sides are computed by the library."),
 "C12": (LOG, EXPL + "Each request is judged as it happens; termination is a request budget plus a wall-clock limit."),
 "C13": (LOG, EXPL + "Single-threaded by construction (the cache is not Sync); schedules are interleavings of live iterators."),
 "C14": ("runtime monitoring: metamorphic monitor over randomised presentations", EXPL + "Compares the library with itself and with the reference pairing."),
 "C15": (REF, EXPL + "Trusts plain vectors and maps as the specification of stored matrices."),
 "C16": (REF, EXPL + "Trusts the harness's own face/coface enumeration and diameters."),
 "C17": (REF, EXPL + "Trusts the harness's own enumeration of simplices."),
 "C18": (REF, EXPL + "Trusts an independently enumerated Rips filtration and the reference reduction."),
 "C19": ("runtime monitoring: metamorphic monitor over randomised distance matrices", EXPL + "No reference barcode: identities only."),
 "C20": ("runtime monitoring: output monitor of the real command-line process over randomised and malformed inputs", EXPL + "Runs the real binary as a child process; trusts the reference Rips barcode."),
 "C21": (REF, EXPL + "Trusts the harness's own chain maps on two-cells and entry times."),
 "C22": (REF, EXPL + "Trusts brute-force Gaussian elimination of the invariant two-paths at every critical time."),
 "C23": ("runtime monitoring: result monitor of the real Python module against a rank-based reference barcode", EXPL + "Calls the real extension module from CPython; the reference uses no cell basis, only kernels and ranks."),
 "C24": ("runtime monitoring: result monitor of the real Python module against boundary spans of the reference complex", EXPL + "Calls the real extension module from CPython."),
 "C25": ("runtime monitoring: metamorphic monitor of the real Python module", EXPL + "No reference barcode: identities only."),
 "C26": ("sanitizers: Miri undefined-behaviour interpreter, AddressSanitizer/LeakSanitizer, debug assertions and overflow checks over randomised API workloads", EXPL + "Miri runs the interpreted library on a small workload; the sanitizer and assertion builds run larger ones."),
 "C27": (LOG, EXPL + "The log of evaluated columns is compared with the columns each answer needs."),
 "C28": ("runtime monitoring: counting allocator (live and peak bytes) over large lazy inputs", EXPL + "The constant of proportionality is generous; growth with D or R instead of V exceeds it by orders of magnitude."),
}

def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in PLANS:
            t, n = NOTES[p]
            checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                           "technique": t, "level": "exploration", "level_note": n})
    na = [{"property": p, "reason": "check under construction"} for p in props if p not in PLANS]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks were needed in /repo: every monitor observes through the public API, user oracles, child processes or the allocator."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
