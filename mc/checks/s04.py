"""S04: boundary conditions act as they were defined last."""
import itertools

import numpy as np

from .. import core, large, lib, ref, sim
from . import s01

ASSUME = ["conditions of edge/corner cells (no face with the reservoir) have no effect",
          "a gradient v stands for the rate T*d*v of the adjacent cell"]
BOUNDS = {
    "quick": "8 grids; every boundary cell x 13 spellings of the 3 conditions x 3 ways to set; all sequences of 2 out of 12 definitions "
             "x 3 moments (before compile, after compile, after a step); all rejected ids and conditions; histories of 21 steps with redefinitions on grids of 11 to 110 cells with up to 5 wells",
    "thorough": "14 grids; sequences of 3 definitions x 3 moments"}
GRIDS = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2), (3, 2, 1)]
MORE = [(4, 1, 1), (1, 3, 1), (1, 1, 4), (1, 3, 2), (3, 2, 2), (2, 3, 3)]
COND = [("pressure", "p"), ("PRESSURE", "p"), ("Press", "p"), ("p", "p"), ("P", "p"),
        ("rate", "q"), ("Rate", "q"), ("q", "q"), ("Q", "q"),
        ("gradient", "g"), ("GRAD", "g"), ("g", "g"), ("G", "g")]
VAL = dict(p=3700.0, q=-12.0, g=0.3)


def plan(tier):
    out = []
    for n in GRIDS + (MORE if tier == "thorough" else []):
        R = ref.RefGrid(n)
        for comp in (0, 2):
            for b in R.boundary:
                out.append(dict(kind="one", n=list(n), b=b, comp=comp))
            out.append(dict(kind="bad", n=list(n), comp=comp))
            for first in range(len(defs(R))):
                for grav in (0, 1):
                    out.append(dict(kind="seq", n=list(n), comp=comp, first=first, grav=grav,
                                    depth=3 if tier == "thorough" and len(R.interior) <= 4 else 2))
    out += large.units(tier, (0, 1, 4, 5))
    return out


def real(R):
    return [b for b in R.boundary if any(R.inner_neighbors(b).values())]


def defs(R):
    rb = real(R)
    a, z, mid = rb[0], rb[-1], rb[len(rb) // 2]
    edge = [b for b in R.boundary if b not in rb]
    out = [("b", {a: ("pressure", 3900.0)}),
           ("b", {a: ("rate", 9.0), z: ("press", 4100.0)}),
           ("b", {z: ("rate", -6.0), a: ("gradient", -0.2)}),
           ("b", {mid: ("p", 0.0)}),
           ("b", {}),
           ("ball", "pressure", 4050.0), ("ball", "q", 2.5),
           ("b1", a, "p", 3600.0), ("b1", a, "rate", -8.0), ("b1", a, "g", 0.25), ("b1", z, "pressure", 4444.0),
           ("b1", mid, "q", 0.0)]
    if edge:
        out.append(("b", {edge[0]: ("pressure", 1.0), edge[-1]: ("rate", 77.0), a: ("p", 4123.0)}))
    return out


def base(u, grav=0):
    n = tuple(u["n"])
    gs = s01.grid_spec(n, 1, u["comp"], grav)
    fs = dict(mu=0.5, B=1.1, rho=50.0, comp=1e-5 if u["comp"] else 0)
    return dict(grid=gs, fluid=fs, pi=4000.0, dt=2)


def start_rows(ctx, key, m, S, hist):
    """Before any step: first rows of the model and of the solution."""
    rows = [("model", m.init_pressures[0], m.init_rates[0])]
    if m.solution is not None and m.solution.tstep == 0:
        rows.append(("solution", m.solution.pressures[0], m.solution.rates[0]))
    R = S.g
    for name, p, q in rows:
        for b in real(R):
            c = S.bc.get(b)
            wp = c[1] if c and c[0] == "p" else np.nan
            wq = c[1] if c and c[0] == "q" else 0.0
            ctx.close(key + f"start-{name}-pressure", float(p[b]), wp, rtol=1e-10, hist=hist)
            ctx.close(key + f"start-{name}-rate", float(q[b]), wq, rtol=1e-10, atol=1e-12, hist=hist)


def play(ctx, scen, ops, moments, sparse, key=""):
    """moments[x]: where definition x is made (0 before compile, 1 after, 2 after a step)."""
    S = sim.make_ref(scen)
    hist = [f"{m}:{o}" for o, m in zip(ops, moments)]
    with lib.quiet():
        m = sim.make_model(scen)
        now = 0
        for op, when in zip(ops, moments):
            while now < when:
                now += 1
                if now == 1:
                    m.compile("numerical", "FDM", sparse=sparse)
                elif not one_step(ctx, key, m, S, hist):
                    return
            sim.apply_model(m, op)
            sim.apply_ref(S, op)
            if now < 2:
                start_rows(ctx, key, m, S, hist)
        if now == 0:
            m.compile("numerical", "FDM", sparse=sparse)
        for _ in range(2):
            if not one_step(ctx, key, m, S, hist):
                return
    ctx.trace()


def one_step(ctx, key, m, S, hist):
    try:
        S.step()
    except ArithmeticError:
        ctx.count("singular")
        return False
    m.solve(vectorize=True, isolver=None, check_MB=False)
    ctx.state((S.g.nxyz, core.canon(S.p, 7), core.canon(S.bc)))
    return sim.compare_last(m, S, ctx, key, hist=hist)


def run(u, ctx):
    if u["kind"] == "large":
        return large.run(u, ctx)
    n = tuple(u["n"])
    R = ref.RefGrid(n)
    rb = real(R)
    scen = base(u, u.get("grav", 0))
    if u["kind"] == "one":
        b = u["b"]
        other = [x for x in rb if x != b][-1]
        for spell, kind in COND:
            if b not in rb and kind == "g":
                continue   # no face: a gradient is not defined
            bc = {b: (spell, VAL[kind]), other: ("pressure", 4200.0)}
            for way in range(3):
                if way == 0:
                    ops = [("b", bc)]
                elif way == 1:
                    ops = [("b1", b, spell, VAL[kind]), ("b1", other, "p", 4200.0)]
                else:
                    ops = [("ball", "rate", 1.0), ("b1", other, "p", 4200.0), ("b1", b, spell, VAL[kind])]
                play(ctx, scen, ops, [0] * len(ops) if way != 1 else [1] * len(ops), way != 2, "one:")
        ctx.sample(dict(n=n, boundary=b))
    elif u["kind"] == "bad":
        bad(u, ctx, R, scen)
    else:
        D = defs(R)
        for rest in itertools.product(range(len(D)), repeat=u["depth"] - 1):
            ops = [D[u["first"]]] + [D[x] for x in rest]
            for x, mom in enumerate(itertools.combinations_with_replacement((0, 1, 2), len(ops))):
                if u["depth"] == 3 and (x + sum(rest)) % 2:
                    continue
                play(ctx, scen, ops, mom, (x + sum(rest)) % 2 == 0, "seq:")
        ctx.sample(dict(n=n, ops=[str(o) for o in ops]))


def bad(u, ctx, R, scen):
    with lib.quiet():
        for i in list(R.interior) + [R.N, R.N + 5, -1]:
            m = sim.make_model(scen)
            m.set_boundary(real(R)[0], "pressure", 4000.0)
            try:
                m.set_boundaries({i: ("pressure", 1.0)})
            except Exception:
                ctx.trans()
            else:
                ctx.fail("interior-accepted", f"condition at cell {i} which is not a boundary")
            try:
                m.set_boundary(i, "pressure", 1.0)
            except Exception:
                ctx.trans()
            else:
                ctx.fail("interior-accepted", f"one condition at cell {i} which is not a boundary")
        for cond in ("temperature", "", "pressures", "flow"):
            for way in range(2):
                m = sim.make_model(scen)
                try:
                    if way:
                        m.set_boundaries({real(R)[0]: (cond, 1.0)})
                    else:
                        m.set_boundary(real(R)[0], cond, 1.0)
                except ValueError:
                    ctx.trans()
                else:
                    ctx.fail("condition-accepted", f"unknown condition {cond!r}")
        # nothing of a rejected definition may act
        m = sim.make_model(scen)
        m.compile("numerical", "FDM")
        m.set_boundary(real(R)[0], "pressure", 3900.0)
        for refused in (lambda: m.set_boundary(real(R)[-1], "bad", 5.0),
                        lambda: m.set_boundary(R.interior[0], "rate", 5.0),
                        lambda: m.set_boundaries({real(R)[0]: ("rate", 3.0), real(R)[-1]: ("bad", 5.0)}),
                        lambda: m.set_boundaries({real(R)[0]: ("rate", 3.0), R.interior[0]: ("p", 5.0)}),
                        lambda: m.set_all_boundaries("bad", 5.0)):
            try:
                refused()
            except Exception:
                ctx.trans()
            else:
                ctx.fail("accepted", "a definition which must be refused")
        S = sim.make_ref(scen)
        sim.apply_ref(S, ("b", {real(R)[0]: ("pressure", 3900.0)}))
        one_step(ctx, "rejected:", m, S, [])
    ctx.state(("bad", R.nxyz, u["comp"]))
    ctx.trace()
