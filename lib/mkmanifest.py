#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks registered in check.py."""
import importlib.util, json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("check", os.path.join(D, "check.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)

ALL = ["C%02d" % i for i in range(1, 24)]
TECH = {
    "C01": "TLA+ state machine of the optimization loop: TLC enumerates its behaviours, replayed into the real optimize(), recorded traces checked against it by TLC",
    "C03": "TLA+ state machine of the Levenberg-Marquardt step: TLC model checking and behaviours replayed with a scripted linear solver, recorded attempts checked against it by TLC",
    "C04": "TLA+ specification of solver histories: TLC generates histories, recorded answers of the real solvers are checked by TLC",
    "C05": "TLA+ specification of optimizer-instance histories: TLC enumerates them, they are replayed into real optimizers and TLC checks that outcomes are a function of the problem posed",
    "C06": "TLA+ state machine of Values: TLC explores all histories to a depth, behaviours replayed into the real Values, traces checked by TLC",
    "C23": "TLA+ state machine of the visualizer's log: TLC generates variables and histories of steps, the rows really logged are consumed against it by TLC",
}
DEF_TECH = "TLA+ specification: TLC generates the scenarios, the real code runs them, TLC checks the recorded trace against the specification"
NOTE = {}
DEF_NOTE = "bounded: TLC evaluates the specification on every recorded event of the generated scenarios (input classes enumerated, values seeded); numbers compared up to stated tolerances"
NA = {"C21": "the serde feature cannot be built in this sandbox (it needs the git submodule/crate factrs-typetag, which is not present, and /opt/vp builds without it), so no specification can be bound to running code; see DESIGN.md"}

checks, na = [], []
for p in ALL:
    if p in m.CHECKS:
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, DEF_TECH), "level": "model_checking", "level_note": NOTE.get(p, DEF_NOTE)})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py && python3 lib/build.py left && python3 lib/build.py fake_exp && python3 lib/build.py rerun",
           "checks": checks, "not_applicable": na}, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
