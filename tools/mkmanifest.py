#!/usr/bin/env python3
"""Regenerates MANIFEST.json (committed) from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROG = "generated C++ programs (random expression DAGs) vs an independent reference algebra; shrinking"
TAPE = "byte-tape property harness in C++ vs an independent model; shrinking to a minimal tape"
GEN = "generated C++ snippets / operation sequences vs a Python sequence model; shrinking"
P = ("Random search over programs and input values; assurance is statistical. Trusts the Python reference algebra "
     "(vp/ga.py), the rounding-error bound it propagates, g++/clang++. ")
T = {
 "C01": (PROG, P + "Bounds: <=14 operators, <=4 inputs, shipped models plus custom signatures up to dimension 5."),
 "C02": (PROG, P + "Only programs with shared, repeated or near-duplicate subexpressions are counted."),
 "C03": (PROG, P + "Arguments are steered away from poles and domain errors; ill-conditioned rows give no verdict."),
 "C04": ("enumeration of all small signatures plus generated blade pairs vs own Clifford product", "All blade pairs of every signature up to 4 generators and sampled pairs of larger ones up to 8; the oracle is an own bit-level Clifford product in the harness."),
 "C05": (TAPE, "Random operation sequences on compile-time multivectors executed at run time vs a polynomial model in exact arithmetic; canonical form checked after every step."),
 "C06": (PROG + "; identity testing in a prime field", P + "Vanishing is decided by Schwartz-Zippel evaluation in a 61-bit prime field."),
 "C07": (TAPE, "Boundary-biased operands vs 128-bit exact rationals; the perturbation bound is checked against exact values."),
 "C08": (TAPE + "; generated programs", "Random points, spheres and expressions vs own null-basis embedding in long double with error bounds."),
 "C09": (TAPE, "Random and degenerate configurations vs vector geometry in long double with error bounds."),
 "C10": (TAPE, "Random versors and objects vs Rodrigues rotation / translation in long double."),
 "C11": (TAPE, "Random bivectors and motors vs power series in an own 16-dimensional algebra (long double)."),
 "C12": (TAPE, "Random planar configurations vs plane geometry in long double."),
 "C13": (PROG, P + "Each member of the tuple is compared with the reference separately."),
 "C14": (GEN, "Generated entity types and access sequences vs a Python dictionary model; typed conversions vs the reference algebra."),
 "C15": (TAPE + "; " + GEN, "Random sequences and comparators at run time and in constant evaluation vs list models; small inputs exhaustively."),
 "C16": (TAPE, "Random and boundary arguments vs bitwise CRC-32, repeated multiplication and naive bit loops."),
 "C17": ("metamorphic variants of generated programs across 11 compiler configurations and sanitizers", "The same program is rebuilt with permuted/renamed/unused arguments, float/double, gcc/clang, -O0..-O3, debug and ASan/UBSan; answers are compared with the reference."),
 "C18": (PROG, P + "Every program contains a component selection, grade selection or scalar product."),
 "C19": (PROG + "; all literals enumerated", P + "Every literal of every model is also checked alone."),
 "C20": ("stateful model-based histories of identifier operations, one process per history; shrinking", "Random histories over up to 8 handles vs a set model; uid.cpp of the sample is compiled as is."),
 "C21": ("stateful model-based histories of chutes, image views and frames; shrinking", "gc.cpp, image_view.cpp and uid.cpp of the sample are compiled as is against stand-in graphics headers; destruction calls are recorded and compared with an ownership model."),
}
m = {"version": 1,
     "setup_cmd": "./check selftest",
     "checks": [{"property": k, "quick_cmd": "./check %s --tier quick" % k,
                 "thorough_cmd": "./check %s --tier thorough" % k,
                 "evidence_file": "evidence/%s.json" % k,
                 "technique": "property-based testing: " + t, "level": "exploration", "level_note": n}
                for k, (t, n) in sorted(T.items())],
     "not_applicable": [],
     "notes": "No hooks: the library is header-only and everything checked is reachable through its headers. "
              "Replay a violation with ./check replay <file>. Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
