#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and the notes below."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from suites.registry import SUITE  # noqa: E402

TRUST = (" Trusted: TLC, the driver's reading of the implementation's public state, and the rounding of times,"
         " angles and lengths to integers stated in DESIGN.md.")
NOTES = {
    "sched": ("TLA+ Scheduling.tla: TLC model checking, TLC-simulated histories replayed, trace validation",
              "Exhaustive on three small instances of the specification; on the code, every clause holds at every step of"
              " the generated operator histories and of recorded Scheduler runs (sampled, not exhaustive)."),
    "alns": ("TLA+ Alns.tla: TLC model checking and validation of recorded searches, exact probabilities tested by counts",
             "Every iteration of recorded searches is judged against the specified search; random choices are judged by"
             " counts within six standard deviations over seeded runs."),
    "windows": ("TLA+ Windows.tla: enumeration of all visibility/lighting patterns by TLC, replay, trace validation",
                "Exhaustive over visibility and lighting patterns up to a bounded number of samples, sampled beyond that."
                " Elevations are by construction of the ephemeris; the Sun comes from a stubbed kernel."),
    "collection": ("TLA+ Collection.tla: TLC model checking, TLC-simulated histories replayed, trace validation",
                   "Exhaustive on small bounds of the specification; sampled histories on the code."),
    "units": ("TLA+ Units.tla: TLC-generated expressions replayed, trace validation with exact prime-exponent sizes",
              "Sampled expressions and quantities, judged exactly on size exponents and dimension vectors."),
    "C15": ("TLA+ Heap.tla (storage model checked), TLC-simulated operation histories replayed, trace validation",
            "Sampled histories of operations, repetitions and writes; after every step all objects are compared with"
            " their specified state."),
    "calendar": ("TLA+ Calendar.tla: TLC model checking of the day automaton, trace validation of conversions",
                 "The closed form used as oracle is model checked against the day-by-day automaton; dates are sampled."),
    "clocks": ("TLA+ Clocks.tla: integer clock arithmetic, trace validation",
               "Sampled instants and longitudes, judged by integer arithmetic in the specification."),
    "display": ("TLA+ Display.tla: printed units read by the specification's grammar, TLC model checking, trace validation",
                "Sampled expressions, locations and windows; the grammar is model checked to read back what it writes."),
    "series": ("TLA+ Series.tla: series in fixed-point arithmetic (angles to 2^-42 turn), TLC model checking, trace validation",
               "Sampled instants and ages, judged by the specification's own arithmetic; the specification's series are"
               " model checked against one another and against the textbook examples."),
    "frames": ("TLA+ Geometry.tla on fixed-point arithmetic: trace validation of transformations",
               "Sampled positions, times and locations, judged by fixed-point arithmetic in the specification to the"
               " tolerance stated in DESIGN.md."),
    "validation": ("TLA+ Validation.tla: cases enumerated by TLC, replayed, trace validation",
                   "Exhaustive over the specified classes of inputs."),
    "text": ("TLA+ Text.tla: layouts and strings computed by the specification, trace validation of files",
             "Sampled data, judged line by line."),
}


def main():
    checks, missing = [], []
    for p in sorted(SUITE):
        s = SUITE[p]
        if not os.path.exists(os.path.join(here, "suites", s + ".py")):
            missing.append(p)
            continue
        tech, note = NOTES.get(p) or NOTES[s]
        checks.append({
            "property": p,
            "quick_cmd": "python3 harness/check.py %s --tier quick" % p,
            "thorough_cmd": "python3 harness/check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": tech,
            "level": "model_checking",
            "level_note": note + TRUST,
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 harness/setup.py",
        "checks": checks,
        "not_applicable": [{"property": p, "reason": "The specification part for it is not built yet."} for p in missing],
        "notes": "No hooks in /repo: the drivers observe public state only. /repo carries only fix: commits,"
                 " listed in KNOWN_FINDINGS.txt.",
    }
    with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
