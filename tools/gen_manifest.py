#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property module, the rest not applicable (yet)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitoring: online dataflow oracle over random composition histories",
    "C02": "runtime monitoring: before/after differential oracle with recorded task invocations",
    "C03": "runtime monitoring: deep snapshots of user objects around runs, differential re-runs",
    "C04": "runtime monitoring: model-based history checker of cache and characterisation",
    "C05": "runtime monitoring: recorded backend jobs against a conservation oracle",
    "C06": "runtime monitoring: exact-simulation oracle over random experiment batches",
    "C07": "runtime monitoring: exact-simulation oracle and recorded jobs, all reduction settings",
    "C08": "runtime monitoring: model-based checker of tracker operation histories",
    "C09": "runtime monitoring: exact readout-noise injection, distribution oracle",
    "C10": "runtime monitoring: recorded jobs and result invariants under hostile calibration",
    "C11": "runtime monitoring: shot-accounting oracle over recorded results",
    "C12": "runtime monitoring: exact-simulation oracle with injected leakage flags",
    "C13": "runtime monitoring: exact-simulation oracle over recorded randomised instances",
    "C14": "runtime monitoring: unitary oracle and structural monitor of boxed circuits",
    "C15": "runtime monitoring: exact simulation with injected Pauli errors",
    "C16": "runtime monitoring: matrix-conjugation oracle",
    "C17": "runtime monitoring: channel-algebra oracle",
    "C18": "runtime monitoring: alignment checker of noisy circuits, shot conservation over recorded jobs",
    "C19": "runtime monitoring: unitary and gate-count oracle over folded circuits",
    "C20": "runtime monitoring: recorded noise-scaled experiments against model oracles",
    "C21": "runtime monitoring: recorded training data against an independent regression",
    "C22": "runtime monitoring: exact-simulation oracle with injected damping, recorded jobs",
    "C23": "runtime monitoring: recorded grid experiments against signal-processing oracle",
    "C26": "runtime monitoring: records of seeded runs compared across repetitions, processes and seeds",
    "C27": "runtime monitoring: differential monitor of long-lived objects under histories of batches against fresh objects in processes of their own",
    "C28": "runtime monitoring with fault injection: failures at drawn calls of tasks and devices, later runs compared with fresh objects",
    "C29": "runtime monitoring under a seeded thread scheduler: interleaved runs compared with runs alone",
    "C25": "runtime monitoring: generated compositions of methods on exact backends of their own, against the plain expectations",
    "C24": "runtime monitoring: recorded variants against alignment and regression oracles",
}
NOTE = ("Random, seeded workloads on the real code; holds on everything the monitors observed, not for all inputs. "
        "Oracles: harness/props/%s.py; trusted: harness/sim.py (dense simulator) and pytket itself.")
NA = {}
checks, na = [], []
for i in range(1, 100):
    p = "C%02d" % i
    if not any(json.loads(l)["id"] == p for l in open(os.path.join(ROOT, "properties.jsonl"))):
        continue
    if os.path.exists(os.path.join(ROOT, "harness/props/%s.py" % p.lower())):
        checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                       "technique": TECH[p], "level": "exploration", "level_note": NOTE % p.lower()})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
