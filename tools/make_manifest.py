#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the properties and the existing checks."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}


def tech(pids, technique, note):
    for pid in pids.split():
        TECH[pid] = technique
        NOTE[pid] = note


BASE = "Seeded search over generated inputs, no proof: a violation outside the sampled space can be missed. "
tech("C01 C02 C03 C04 C05 C06 C07 C08 C09",
     "property-based testing (Hypothesis): generated geometries against an independent reference mesher",
     BASE + "Trusts the small reference mesher in pv/props and NumPy. ")
tech("C10", "property-based testing: single-fault mutation of generated valid inputs, acceptance oracle",
     BASE + "Trusts the hand-written list of format rules. ")
tech("C11 C12 C13 C14", "property-based testing: generated problems against an independent dense PEEC reference model",
     BASE + "Trusts the reference model pv/model.py (partial elements by closed forms and quadrature) and LAPACK. ")
tech("C15", "differential property-based testing: numerical options (and stand-ins for the absent libraries) against each other",
     BASE + "FFTW, MKL, CuPy, PARDISO and PyAMG are not installed: their glue code runs against stand-ins. ")
tech("C16 C17 C18 C19 C20 C21 C22", "metamorphic property-based testing of the solver",
     BASE + "The relation is between two runs of the real code; the size of rounding is taken from the reference model. ")
tech("C23", "property-based testing: recomputed residuals and flag logic on truncated solver runs",
     BASE + "Trusts the reference system matrix. ")
tech("C24", "property-based testing: defect injection into generated problems, acceptance oracle", BASE)
tech("C25", "property-based testing against an independent field evaluation",
     BASE + "Trusts the reference field formulas. ")
tech("C26 C27", "property-based testing: invariants of the solution recomputed from its fields", BASE)
tech("C28 C29 C30", "property-based testing: round trips and reference models of the utilities", BASE)
tech("C31 C32", "differential property-based testing: files and command line against in-memory runs, injected faults",
     BASE + "All files are in a scratch folder that the check makes and removes. ")
tech("C33 C34", "property-based testing: captured plot meshes against the data to be shown",
     BASE + "Observes the data given to PyVista, not the rendered pixels. ")
tech("C35", "property-based testing: saved images against the selection", BASE)
tech("C36", "stateful property-based testing: run histories against fresh runs", BASE)

tech("C37", "property-based testing: recorded tool calls against the description", BASE + "gerbv and mogrify are not installed: stand-ins record what they are given. ")

tech("C38", "property-based testing: the screen at the event loop against the description; mode against mode", BASE + "3D widgets and notebook displays are stand-ins; Qt windows are real (offscreen platform). ")

tech("C39", "property-based testing: residuals of independent matrix-free equations in large generated structures",
     BASE + "Trusts the own quadrature kernel (checked by direct sums); tolerances include the documented rounding of the closed forms. ")
tech("C40", "property-based testing: monotonicity and maximum principle (metamorphic, no reference solution)", BASE)
tech("C41", "property-based testing: files extracted by fresh command line processes from generated archives",
     BASE + "The package is a scratch folder of links to the code with its own generated data. ")

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if os.path.isfile(os.path.join(HERE, "pv", "props", pid.lower() + ".py")):
        cmd = "/opt/venv/bin/python run_check.py %s --tier " % pid
        checks.append({
            "property": pid, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
            "evidence_file": "evidence/%s.json" % pid, "technique": TECH[pid], "level": "exploration",
            "level_note": NOTE[pid] + "Bounds and oracle: DESIGN.md, section %s." % pid,
        })
    else:
        missing.append({"property": pid, "reason": "The check is not built yet."})
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup_check.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: the checks import /repo's working tree and use its public interface. "
             "Hypothesis is taken from the tooling venv or the wheelhouse of the sandbox (pv/boot.py).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fid:
    json.dump(manifest, fid, indent=1)
    fid.write("\n")
print(len(checks), "checks,", len(missing), "missing")
