"""Writes /verif/MANIFEST.json from the plans that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import registry  # noqa

NOTE = ("Seeded search over generated worlds, schedules and fault sequences of the real code in a deterministic simulator; "
        "every run is judged against an independent model or a fault-free reference run. It samples, it does not exhaust; "
        "tiles are small, faults are injected at Python-level operation boundaries and by kernel limits.")
SPECIAL = {}
TECH = "deterministic simulation with fault injection: "
TECHS = {
    "W01": "seeded process and message schedules, judged against a tiling model and tiles computed alone",
    "W02": "seeded schedules, process counts, clocks and hash seeds, judged against a serial reference run",
    "W03": "seeded schedules and send modes, progress within a bounded number of steps",
    "W04": "seeded schedules with one failing operation, bounded end with failure status",
    "W05": "seeded storage faults, success judged against a fault-free reference run",
    "W06": "seeded crash points and torn files, rerun judged against a clean run",
    "W07": "seeded conversion schedules, judged against a model of the product and the mosaics",
    "W08": "missing and damaged layers and failing opens in seeded conversions, judged against a model",
    "W09": "seeded crash points of repeated conversions, judged against a first conversion",
    "W10": "seeded schedules, faults and crashes with every file operation observed",
    "W11": "seeded schedules, judged by the set of files left",
    "W12": "seeded schedules with relative paths, judged against the run with absolute ones",
    "W13": "seeded schedules and start orders with logging faults, judged per process",
    "W14": "seeded read failures of configuration, table and rasters in chosen processes",
    "W15": "seeded clocks, git failures and schedules, judged against the recorded history",
    "W16": "seeded storage faults in single saves, judged by the file read back",
    "W17": "seeded thread schedules with failing constructors, judged over the history of requests",
    "W18": "seeded thread schedules with failing geometry operations, judged against a geometric model",
    "W19": "seeded thread schedules, storage faults and crashes, judged against a geometric model",
    "W20": "seeded storage faults and crashes, judged against a geometric model",
    "W21": "seeded schedules of several processes and storage faults, judged against a model of the files",
    "W22": "seeded schedules and damaged inputs, open files and scratch files sampled at the operations of every tile",
}
NA = "A pure numerical function of its arguments: no schedule, time, I/O or other party takes part, so there is nothing for a simulator to vary. "
NOT = {
    "W30": NA + "(Fault-free values are compared between runs by W02, and with tiles computed alone by W01.)",
    "W31": NA + "(As W30.)",
    "W32": NA + "(As W30.)",
    "W33": NA,
    "W34": NA + "It compares two ways of cutting a raster, not two executions.",
}
checks = []
for pid in sorted(registry.PLANS):
    checks.append({"property": pid, "quick_cmd": "bin/check %s quick" % pid, "thorough_cmd": "bin/check %s thorough" % pid,
                   "technique": TECH + TECHS[pid], "level": "exploration", "level_note": SPECIAL.get(pid, NOTE),
                   "evidence_file": "evidence/%s.json" % pid})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT.items())]}
for k in ("W17", "W18", "W19"):
    if k not in registry.PLANS:
        m["not_applicable"].append({"property": k, "reason": "check under construction"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
