"""Long histories of larger grids: many cells (ids of two and three digits), many wells, redefinitions between the steps."""
from __future__ import annotations

from . import core, lib, ref, sim

GRIDS = [(12, 1, 1), (5, 4, 1), (3, 3, 3), (101, 1, 1), (1, 11, 1), (4, 1, 4), (11, 10, 1)]


def units(tier="quick", grids=None, comps=(0, 2), sparse=(True, False)):
    out = []
    for g in grids if grids is not None else range(len(GRIDS)):
        for x, c in enumerate(comps):
            for s in sparse:
                if tier == "quick" and (g + x) % 2 == int(s):
                    continue
                out.append(dict(kind="large", g=g, comp=c, sparse=s))
    return out


def scenario(u):
    from .checks import s01
    n = GRIDS[u["g"]]
    R = ref.RefGrid(n)
    gs = s01.grid_spec(n, 1, u["comp"], 1 if R.N < 300 else 0)
    gs["k"] = [[v / 5 for v in k] for k in gs["k"]]
    fs = dict(mu=0.5, B=1.1, rho=50.0, comp=1e-5 if u["comp"] else 0)
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    b0, b1, b2 = real[0], real[-1], real[len(real) // 2]
    ids = R.interior
    c = [ids[0], ids[len(ids) // 2], ids[-1], ids[1], ids[-2]]
    wells = R.fdir in ("x", "xy", "xyz")
    bc = {b0: ("pressure", 4100.0), b1: ("rate", -3.0)}
    if b2 not in bc:
        bc[b2] = ("gradient", -0.01)
    ops = [("b", bc)]
    if wells:
        ops += [("w", c[0], dict(q=-900.0, pwf=3600.0, r=3.5)), ("w", c[1], dict(q=15.0, r=2.0)), ("w", c[2], dict(pwf=3900.0, r=3.5, s=1.0))]
    ops.append(("step", 9))
    ops.append(("b1", b1, "pressure", 3950.0))
    if wells:
        ops += [("w", c[1], dict(q=-40.0, pwf=3700.0))]
    ops.append(("step", 3))
    if wells:
        ops += [("w", c[2], dict(q=-5.0, s=2.0))]
    ops.append(("step", 3))
    ops += [("b", {b0: ("rate", 5.0), b1: ("pressure", 4000.0)})]
    if wells:
        ops += [("w", c[3], dict(q=-2.0, r=1.5)), ("wobj", c[4], dict(q=3.0, r=1.5, s=0.0))]
    ops.append(("step", 4))
    ops += [("ball", "pressure", 4010.0), ("step", 2)]
    if u.get("repeat"):
        ops = [("step", o[1] * u["repeat"]) if o[0] == "step" else o for o in ops]
    return dict(grid=gs, fluid=fs, pi=4000.0, dt=2, ops=ops)


def run(u, ctx, each=None, hook=None, **cfg):
    """Lockstep with the reference; each(step) changes options, hook(model, reference) looks at every step."""
    sc = scenario(u)
    r = sim.lockstep(sc, dict(sparse=u["sparse"], each=each, hook=hook, **cfg), ctx, key="large:")
    if r is not None and not ctx.viol:
        ctx.count("large_steps", int(r[0].solution.tstep))
    ctx.sample(dict(u=u, steps=None if r is None else int(r[0].solution.tstep)))
    return r
