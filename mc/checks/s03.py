"""S03: wells keep their target rate unless their pressure limit binds."""
import itertools

import numpy as np

from .. import core, large, lib, ref, sim
from . import s01

ASSUME = ["histories in which two control choices satisfy all limits within 1e-6 are skipped (counted as ties)",
          "limits are lower bounds of the well pressure, targets are lower bounds of the (signed) rate"]
BOUNDS = {
    "quick": "5 grids; one well: every cell x 5 targets x 4 limits x 4 boundary schedules x 2 compressibility; "
             "two wells: all ordered first/neighbour/last pairs x 8 x 8 controls x 2 schedules x 2 compressibility; 4-5 steps each, sparse/dense; one well: every cell x 5 controls x 7 x 8 later partial redefinitions; histories of 21 steps with redefinitions on grids of 11 to 110 cells with up to 5 wells",
    "thorough": "8 grids, two wells at every ordered pair of cells, three wells 5x5x5 controls, symbolic assembly"}
GRIDS = [(2, 1, 1), (3, 1, 1), (2, 2, 1), (3, 2, 1), (2, 2, 2)]
MORE = [(4, 1, 1), (3, 3, 1), (3, 2, 2)]
Q = [None, -5.0, -60.0, -900.0, 40.0]
P = [None, 500.0, 3300.0, 4300.0]
ONE = [(q, p) for q in Q for p in P if q is not None or p is not None] + [(None, None)]
TWO = [(-60.0, 3300.0), (-900.0, 3300.0), (-900.0, 3900.0), (None, 3700.0), (-30.0, None), (40.0, None),
       (-400.0, 3000.0), (40.0, 4300.0)]
# schedules: pressures at the first boundary, step counts
SCHED = {
    "const": [(4000.0, 3)],
    "fall": [(4500.0, 2), (3350.0, 2)],
    "rise": [(3350.0, 2), (8000.0, 2)],
    "wave": [(4000.0, 1), (3000.0, 1), (9000.0, 1), (3000.0, 1), (9000.0, 1)],
}


def plan(tier):
    th = tier == "thorough"
    out = []
    for n in GRIDS + (MORE if th else []):
        R = ref.RefGrid(n)
        for cell, comp in itertools.product(R.interior, (0, 2)):
            for s in SCHED:
                out.append(dict(kind=1, n=list(n), cells=[cell], comp=comp, sch=s, tier=tier))
        for cell, comp in itertools.product(R.interior, (0, 2)):
            out.append(dict(kind=4, n=list(n), cells=[cell], comp=comp, sch="again", tier=tier))
        ids = R.interior
        pairs = {(ids[0], ids[-1]), (ids[-1], ids[0]), (ids[0], ids[1]), (ids[1], ids[0])}
        if th:
            pairs = set(itertools.permutations(ids, 2))
        for pair, comp, s in itertools.product(sorted(pairs), (0, 2), ("rise", "wave")):
            out.append(dict(kind=2, n=list(n), cells=list(pair), comp=comp, sch=s, tier=tier))
        if th and len(ids) > 2:
            for tr in itertools.permutations([ids[0], ids[1], ids[-1]]):
                for comp in (0, 2):
                    out.append(dict(kind=3, n=list(n), cells=list(tr), comp=comp, sch="wave", tier=tier))
    out += large.units(tier, (0, 1, 2, 6))
    return out


def controls(u):
    if u["kind"] == 1:
        return [(c,) for c in ONE]
    if u["kind"] == 2:
        return list(itertools.product(TWO, repeat=2))
    return list(itertools.product(TWO[:5], repeat=3))


def well_ops(cells, ctl):
    out = []
    for x, (cell, (q, p)) in enumerate(zip(cells, ctl)):
        kw = dict(r=3.5, s=0.5 * x)
        if q is not None:
            kw["q"] = q
        if p is not None:
            kw["pwf"] = p
        out.append(("w", cell, kw))
    return out


def run(u, ctx):
    if u["kind"] == "large":
        return large.run(u, ctx)
    n = tuple(u["n"])
    R = ref.RefGrid(n)
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    gs = s01.grid_spec(n, 3 if u["kind"] == 2 else 1, u["comp"], 0)
    gs["k"] = [[v / 10 for v in k] if isinstance(k, list) else k / 10 for k in gs["k"]]
    fs = dict(mu=0.5, B=1.0, comp=1e-5 if u["comp"] else 0)
    if u["kind"] == 4:
        return again(u, ctx, dict(grid=gs, fluid=fs, pi=4000.0, dt=1), real[0])
    for x, ctl in enumerate(controls(u)):
        ops = well_ops(u["cells"], ctl)
        for p, k in SCHED[u["sch"]]:
            ops += [("b1", real[0], "pressure", p), ("step", k)]
        scen = dict(grid=gs, fluid=fs, pi=4000.0, dt=1, ops=ops)
        cfgs = [dict(sparse=x % 2 == 0)]
        if u["tier"] == "thorough":
            cfgs = [dict(sparse=True), dict(sparse=False)]
            if len(R.interior) <= 3 and x % 4 == 0:
                cfgs.append(dict(sparse=False, vect=False))
        elif len(R.interior) == 2 and x % 8 == 3:
            cfgs.append(dict(sparse=True, vect=False))
        for cfg in cfgs:
            r = sim.lockstep(scen, cfg, ctx)
            if r is None:
                continue
            invariants(ctx, r[0], r[1], u["cells"], ctl, ops)
    ctx.sample(dict(n=n, ops=[str(o) for o in ops]))


LATER = [dict(pwf=500.0), dict(pwf=3300.0), dict(pwf=3800.0), dict(q=-60.0), dict(q=-900.0), dict(q=-5.0, pwf=3500.0), dict(s=2.0)]


def again(u, ctx, scen, b):
    """Controls are given again, in part, after some steps."""
    cell = u["cells"][0]
    for x, (ctl, a, c) in enumerate(itertools.product([(-900.0, 3300.0), (-60.0, 3300.0), (-900.0, None), (None, 3300.0),
                                                       (-60.0, 3995.0)], LATER, [None] + LATER)):
        ops = [("b1", b, "pressure", 4000.0)] + well_ops([cell], [ctl]) + [("step", 1), ("w", cell, a), ("step", 2)]
        if c is not None:
            ops += [("w", cell, c), ("step", 1)]
        r = sim.lockstep(dict(scen, ops=ops), dict(sparse=x % 2 == 0), ctx)
        if r is not None:
            ctx.count("redefined")
    ctx.sample(dict(u=u, ops=[str(o) for o in ops]))


def invariants(ctx, m, S, cells, ctl, ops):
    """Directly on the stored histories."""
    sol = m.solution
    for cell, (q, p) in zip(cells, ctl):
        J = S.wells[cell]["J"]
        for t in range(1, sol.tstep + 1):
            rate, pwf, pc = (float(x) for x in (sol.rates[t, cell], m.w_pressures[cell][t], sol.pressures[t, cell]))
            tolp = 1e-7 * (1 + abs(pc))
            tolq = tolp * max(J, 1.0)
            ctx.trans()
            if q is None and p is None:
                ctx.eq("shut", rate, 0.0, ops=str(ops))
                continue
            lim = 0.0 if p is None else p
            if q is None:
                if abs(pwf - p) > tolp:
                    ctx.fail("pressure-well", f"cell {cell} step {t}: pwf {pwf}, specified {p}", ops=str(ops))
                continue
            if rate < q - tolq or pwf < lim - tolp:
                ctx.fail("limit", f"cell {cell} step {t}: rate {rate} (target {q}), pwf {pwf} (limit {lim})", ops=str(ops))
            elif abs(rate - q) > tolq and abs(pwf - lim) > tolp:
                ctx.fail("control", f"cell {cell} step {t}: rate {rate} (target {q}), pwf {pwf} (limit {lim})", ops=str(ops))
            ctx.count("steps_at_limit" if abs(rate - q) > tolq else "steps_at_target")
            if abs(rate - J * (pwf - pc)) > tolq * 10 + 1e-7 * abs(rate):
                ctx.fail("inflow", f"cell {cell} step {t}: rate {rate}, J*(pwf-p) {J * (pwf - pc)}", ops=str(ops))
