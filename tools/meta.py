#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step with mc/checks)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRID = "reservoirflow/grids/regular_cartesian.py"
BO = "reservoirflow/models/black_oil.py"
MO = "reservoirflow/models/model.py"
FDM = "reservoirflow/solutions/numerical/fdm.py"
SLV = "reservoirflow/solutions/numerical/solvers.py"
D1P1 = "reservoirflow/solutions/analytical/d1p1.py"
COMP = "reservoirflow/solutions/compiler.py"
SOL = "reservoirflow/solutions/solution.py"
BASE = "reservoirflow/base.py"
FL = "reservoirflow/fluids/single_phase.py"
WE = "reservoirflow/wells/single_cell.py"
HELP = "reservoirflow/utils/helpers.py"
PROF = "reservoirflow/utils/profme.py"
PV = "reservoirflow/utils/pyvista.py"
SC = "reservoirflow/scalers/minmax.py"
DUM = "reservoirflow/scalers/dummy.py"

# id, title, statement, over, quantifier text, why tests can't, mechanisms, observe_at, level note
P = []


def prop(id, title, statement, over, text, why, mech, observe, note, hook=None):
    files = []
    for _, w in mech:
        f = w.split(":")[0]
        if f not in files:
            files.append(f)
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  mech=mech, files=files, observe=observe, note=note, hook=hook))


# fill
exec(open(os.path.join(V, "tools", "props.py")).read())

NOT = json.load(open(os.path.join(V, "tools", "not_applicable.json")))


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=p["hook"]))) + "\n")
    na = {x["property"] for x in NOT}
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["id"] in na:
            continue
        tech = TECH[p["id"]]
        cmd = f"/opt/venv/bin/python run.py {p['id']} --tier "
        checks.append(dict(property=p["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
                           technique=tech, level="model_checking", level_note=p["note"]))
    man = dict(version=1,
               setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'.'); sys.dont_write_bytecode=True; import mc.core, mc.ref\"",
               checks=checks, not_applicable=NOT,
               notes="No hooks in /repo: the checks import the package from /repo's working tree and drive its public API. "
                     "known_findings.jsonl lists repaired (fixed) and open findings. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
