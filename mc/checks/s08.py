"""S08: any order of definitions and steps acts as the reference simulator."""
import itertools

from .. import core, large, lib, ref, sim
from . import s01

ASSUME = ["histories with control ties or without a unique state are left at that point (counted)"]
BOUNDS = {
    "quick": "3 scenarios x all sequences of 3 operations out of 17 (steps, well definitions and changes, boundary definitions, refused definitions), two more steps after each; "
             "sparse and dense vectorized; all sequences of 2 with symbolic assembly; histories of 21 steps with redefinitions on grids of 11 to 110 cells with up to 5 wells",
    "thorough": "4 scenarios, all sequences of 4 operations; all sequences of 3 with symbolic assembly on 2 cells"}
SCEN = [((3, 1, 1), 2, 0), ((2, 2, 1), 0, 0), ((2, 1, 1), 1, 1), ((2, 2, 2), 2, 1)]


def alphabet(R):
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    a, z = R.interior[0], R.interior[-1]
    return [("step", 1),
            ("w", a, dict(q=-10.0, r=3.5)),
            ("w", a, dict(q=-300.0, pwf=3300.0, r=3.5)),
            ("w", a, dict(pwf=3500.0, r=3.5)),
            ("w", a, dict(q=0.0, r=3.0)),
            ("w", a, dict(r=2.5, s=3.0)),
            ("w", a, dict(s=4.0)),
            ("w", a, dict(s=0.0)),
            ("w", a, dict(q=-25.0)),
            ("w", z, dict(q=20.0, pwf=3600.0, r=3.5, s=1.0)),
            ("wobj", z, dict(q=-200.0, r=3.5)),
            ("b", {real[0]: ("pressure", 4200.0)}),
            ("b", {real[0]: ("rate", -5.0), real[-1]: ("p", 3800.0)}),
            ("b1", real[-1], "gradient", -0.1),
            ("b1", real[0], "p", 3000.0),
            ("ball", "pressure", 4100.0),
            ("refused", [("b", {real[0]: ("rate", 8.0), real[-1]: ("temperature", 3.0)}),
                         ("b", {real[0]: ("rate", 8.0), a: ("p", 3.0)}), ("b1", a, "p", 1000.0),
                         ("b1", real[0], "temperature", 5.0), ("ball", "temperature", 5.0),
                         ("w", real[0], dict(q=-5.0, r=3.5)), ("wobj", real[-1], dict(q=-5.0, r=3.5))])]


def plan(tier):
    th = tier == "thorough"
    out = []
    for k in range(4 if th else 3):
        R = ref.RefGrid(SCEN[k][0])
        A = alphabet(R)
        depth = 4 if th else 3
        for pre in itertools.product(range(len(A)), repeat=depth - 2):
            for sparse in (True, False):
                out.append(dict(k=k, pre=list(pre), depth=depth, sparse=sparse, vect=True))
    k = 2
    A = alphabet(ref.RefGrid(SCEN[k][0]))
    for first in range(len(A)):
        if th:
            for second in range(len(A)):
                out.append(dict(k=k, pre=[first, second], depth=3, sparse=second % 2 == 0, vect=False))
        else:
            out.append(dict(k=k, pre=[first], depth=2, sparse=first % 2 == 0, vect=False))
    out += large.units(tier, (0, 1, 2, 4))
    return out


def defined(ops):
    """Wells without radius are refused."""
    out, wells = [], set()
    for op in ops:
        if op[0] in ("w", "wobj"):
            if "r" not in op[2] and op[1] not in wells:
                out.append(("refused", [op]))
                continue
            wells.add(op[1])
        out.append(op)
    return out


def run(u, ctx):
    if u.get("kind") == "large":
        return large.run(u, ctx)
    n, comp, grav = SCEN[u["k"]]
    R = ref.RefGrid(n)
    A = alphabet(R)
    gs = s01.grid_spec(n, 1, comp, grav)
    gs["k"] = [[v / 5 for v in k] for k in gs["k"]]
    fs = dict(mu=0.5, B=1.1, rho=50.0, comp=(0, 1e-5, 1e-5)[comp])
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    # a first condition gives incompressible models a unique state
    start = [("b", {real[-1]: ("pressure", 4000.0)})] if comp == 0 else []
    for post in itertools.product(range(len(A)), repeat=u["depth"] - len(u["pre"])):
        seq = [A[x] for x in list(u["pre"]) + list(post)]
        ops = defined(start + seq + [("step", 2)])
        scen = dict(grid=gs, fluid=fs, pi=4000.0, dt=1, ops=ops)
        r = sim.lockstep(scen, dict(sparse=u["sparse"], vect=u["vect"]), ctx)
        if r is None:
            ctx.count("left")
    ctx.sample(dict(u=u, ops=[str(o) for o in ops]))
