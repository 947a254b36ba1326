"""M01: solutions and models do not disturb each other."""
import itertools

import numpy as np

from .. import core, large, lib, ref, sim
from . import s01

ASSUME = ["definitions (wells, boundaries) belong to a model and act on all its solutions; histories belong to one solution",
          "compiling again the same method starts a new history"]
BOUNDS = {
    "quick": "2 models which share grid and fluid (or the grid only), 2 scenarios, all sequences of 4 out of 10 operations (compile or select sparse/dense, step, well, boundary), "
             "first steps symbolic in one scenario, vectorized in the other; all solutions of both models compared after every operation, earlier rows bit by bit; schedules of 21 steps of two models with two solutions each on a grid of 12 cells",
    "thorough": "3 scenarios, all sequences of 5"}


def alphabet(R):
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    a, z = R.interior[0], R.interior[-1]
    return [("M", "use", True), ("M", "use", False), ("N", "use", True), ("M", "step"), ("N", "step"),
            ("M", "def", ("w", a, dict(q=-350.0, pwf=3700.0, r=3.5))),
            ("M", "def", ("b1", real[-1], "pressure", 3600.0)),
            ("N", "def", ("b", {real[0]: ("rate", -9.0), real[-1]: ("p", 3900.0)})),
            ("N", "def", ("w", z, dict(q=12.0, r=2.0))),
            ("M", "compile", True)]


SCEN = [((3, 1, 1), 2, 0), ((2, 2, 1), 1, 0), ((2, 1, 1), 0, 1)]
SHARED = [False, True, False]       # do the models share the fluid?
SYMB = [True, False, True]          # symbolic first steps; no boundary conditions at the start


def plan(tier):
    th = tier == "thorough"
    out = []
    for k in range(3 if th else 2):
        A = alphabet(ref.RefGrid(SCEN[k][0]))
        n = len(A)
        for pre in itertools.product(range(n), repeat=2):
            out.append(dict(k=k, pre=list(pre), depth=5 if th else 4, n=n))
    for g in (0, 2) if th else (0,):
        for comp in (0, 2):
            out.append(dict(kind="large", g=g, comp=comp))
    return out


class View:
    """One solution seen as a model."""

    def __init__(self, sol):
        self.solution = sol
        self.w_pressures = sol.w_pressures


def large_pair(u, ctx):
    """Long schedules of two models on one grid, one of them shifted in time; each step is made by both solutions of a model."""
    sc = large.scenario(u)
    g, f = lib.make_grid(sc["grid"]), lib.make_fluid(sc["fluid"])
    with lib.quiet():
        real = [sim.make_model(sc, g, f) for _ in range(2)]
        flat = [o for op in sc["ops"] for o in ([("step", 1)] * op[1] if op[0] == "step" else [sim.fix(op)])]
        refs, sols = [], []
        for m in real:
            refs.append({})
            sols.append({})
            for sp in (True, False):
                m.compile("numerical", "FDM", sparse=sp)
                refs[-1][sp], sols[-1][sp] = sim.make_ref(sc), m.solution
        lag = 5
        for x in range(len(flat) + lag):
            for w in (0, 1):
                y = x - lag * w
                if not 0 <= y < len(flat):
                    continue
                op, m = flat[y], real[w]
                if op[0] == "step":
                    for sp in (True, False) if x % 2 else (False, True):
                        m.set_solution(f"BlackOil-numerical-FDM-{sp}")
                        refs[w][sp].step()
                        refs[w][sp].bc_stepped = dict(refs[w][sp].bc)
                        m.solve(isolver=None, check_MB=False)
                else:
                    sim.apply_model(m, op)
                    for S in refs[w].values():
                        sim.apply_ref(S, op)
                for v in (0, 1):
                    for sp, S in refs[v].items():
                        if len(S.hist_p) == 1:
                            continue
                        now, S.bc = S.bc, S.bc_stepped      # rows keep the conditions of their step
                        ok = sim.compare_last(View(sols[v][sp]), S, ctx, "large:", hist=[x, w, str(op)])
                        S.bc = now
                        if not ok:
                            return
                ctx.state((u["g"], u["comp"], x, w))
    ctx.count("large_steps", sum(s.tstep for v in sols for s in v.values()))
    ctx.trace()


def run(u, ctx):
    if u.get("kind") == "large":
        return large_pair(u, ctx)
    n, comp, grav = SCEN[u["k"]]
    R = ref.RefGrid(n)
    A = alphabet(R)[: u["n"]]
    gs = s01.grid_spec(n, 1, comp, grav)
    gs["k"] = [[v / 10 for v in k] for k in gs["k"]]
    fs = dict(mu=0.5, B=1.1, rho=50.0, comp=(0, 1e-5, 1e-5)[comp])
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    fn = fs if SHARED[u["k"]] else dict(mu=1.3, B=1.2, rho=40.0, comp=fs["comp"])
    sc = {"M": dict(grid=gs, fluid=fs, pi=4000.0, dt=1), "N": dict(grid=gs, fluid=fn, pi=4100.0, dt=2)}
    base = {"M": [("b", {real[0]: ("p", 4200.0)})], "N": [("b", {real[-1]: ("p", 4000.0)})]}
    if SYMB[u["k"]] and comp:
        base = {"M": [("w", R.interior[-1], dict(q=-5.0, r=3.5))], "N": [("w", R.interior[0], dict(q=-3.0, r=3.5))]}
    for post in itertools.product(range(len(A)), repeat=u["depth"] - 2):
        seq = [A[x] for x in list(u["pre"]) + list(post)]
        with lib.quiet():
            play(ctx, sc, base, seq, gs, SYMB[u["k"]])
    ctx.sample(dict(u=u, seq=[str(s) for s in seq]))


def play(ctx, sc, base, seq, gs, symb):
    g, f = lib.make_grid(gs), lib.make_fluid(sc["M"]["fluid"])
    h = f if sc["N"]["fluid"] is sc["M"]["fluid"] else lib.make_fluid(sc["N"]["fluid"])
    real = {"M": sim.make_model(sc["M"], g, f), "N": sim.make_model(sc["N"], g, h)}
    defs = {w: list(base[w]) for w in "MN"}
    for w in "MN":
        for op in base[w]:
            sim.apply_model(real[w], op)
    refs = {"M": {}, "N": {}}
    sols = {"M": {}, "N": {}}
    cur = {"M": None, "N": None}
    for x, op in enumerate(seq):
        w, kind = op[0], op[1]
        m = real[w]
        hist = [str(o) for o in seq[: x + 1]]
        if kind in ("use", "compile"):
            sp = op[2]
            if kind == "compile" or sp not in refs[w]:
                m.compile("numerical", "FDM", sparse=sp)
                S = sim.make_ref(sc[w])
                for d in defs[w]:
                    sim.apply_ref(S, d)
                refs[w][sp] = S
                if sp in sols[w] and sols[w][sp] is m.solution:
                    ctx.fail("compile-again", "the same solution object", hist=hist)
                sols[w][sp] = m.solution
            else:
                m.set_solution(f"BlackOil-numerical-FDM-{sp}")
            cur[w] = sp
            ctx.eq("selected", m.solution is sols[w][sp], True, hist=hist)
        elif kind == "def":
            sim.apply_model(m, op[2])
            defs[w].append(op[2])
            for S in refs[w].values():
                sim.apply_ref(S, op[2])
        elif cur[w] is None:
            ctx.eq("uncompiled", m.solve(isolver=None), None, hist=hist)
            try:
                m.get_shape()
            except AssertionError:
                pass
            else:
                ctx.fail("uncompiled-shape", "a shape without solution", hist=hist)
        else:
            S = refs[w][cur[w]]
            S.step()
            S.bc_stepped = dict(S.bc)
            if S.tie:
                ctx.count("ties")
                return
            vect = not symb or len(S.hist_p) != 2
            if x % 2:
                m.run(1, isolver=None, check_MB=False, threading=False, vectorize=vect)
            else:
                m.solve(isolver=None, check_MB=False, vectorize=vect)
        for v in "MN":
            for sp, S in refs[v].items():
                now, S.bc = S.bc, getattr(S, "bc_stepped", S.bc)   # rows keep the conditions of their step
                ok = sim.compare_last(View(sols[v][sp]), S, ctx, "", hist=hist)
                S.bc = now
                if not ok:
                    return
                ctx.state((v, sp, cur[v], core.canon(S.p, 7), len(S.hist_p)))
            ctx.eq("listed", sorted(real[v].get_solutions()),
                   sorted(f"BlackOil-numerical-FDM-{sp}" for sp in refs[v]), hist=hist)
    ctx.trace()
