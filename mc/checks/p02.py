"""P02: linearity, invariance and bounds of simulated pressures."""
import itertools

import numpy as np

from .. import core, lib, ref, sim
from . import s01

ASSUME = ["wells with a rate and without a pressure limit which binds, or with a fixed pressure (linear models)",
          "the maximum principle is stated without sources and gravity"]
BOUNDS = {
    "quick": "11 shapes x 2 property patterns x 2 compressibility x 2 gravity, all pairs of 5 source patterns and combinations of 4 coefficients; 2-3 steps",
    "thorough": "18 shapes, 4 property patterns, 7 source patterns"}
SHAPES = [(3, 1, 1), (1, 4, 1), (2, 2, 1), (2, 1, 2), (1, 2, 3), (2, 2, 2), (3, 2, 1), (1, 1, 3), (3, 2, 2), (12, 1, 1), (5, 4, 1)]
MORE = [(6, 1, 1), (4, 3, 1), (3, 1, 3), (2, 3, 2), (3, 3, 3), (2, 1, 1), (1, 5, 2)]


def plan(tier):
    th = tier == "thorough"
    return [dict(n=list(n), het=het, comp=comp, grav=grav, part=part, np=7 if th else 5)
            for n in SHAPES + (MORE if th else []) for het in ((0, 1, 2, 3) if th else (0, 1))
            for comp in (0, 2) for grav in (0, 1) for part in ("linear", "invariant")]


def sources(R, np_):
    """(boundary pressures, boundary rates, well rates, fixed well pressures, pi), zero where absent."""
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    a, z = R.interior[0], R.interior[-1]
    w = R.fdir in ("x", "xy", "xyz")
    out = [dict(bp={real[0]: 100.0}), dict(bq={real[-1]: 7.0}), dict(pi=50.0), dict(wq={a: -3.0} if w else {}),
           dict(wp={z: 70.0} if w else {}, bp={real[0]: -20.0}),
           dict(bq={real[-1]: -2.0}, wq={a: 5.0} if w else {}, pi=-10.0), dict(bp={real[0]: 1.0}, wp={z: -5.0} if w else {})]
    return real, out[:np_]


def solve(u, R, gs, real, s, sparse=True, mu=1.0, dt=2, steps=2, kf=1.0, well=True):
    gs = dict(gs, k=[U02mul(k, kf) for k in gs["k"]])
    sc = dict(grid=gs, fluid=dict(mu=0.5 * mu, B=1.1, rho=s.get("rho", 0.0), comp=1e-5 if u["comp"] else 0),
              pi=s.get("pi", 0.0), dt=dt)
    m = sim.make_model(sc)
    if R.fdir in ("x", "xy", "xyz") and well:
        a, z = R.interior[0], R.interior[-1]
        # the same wells in all problems; limits far below
        m.set_well(cell_id=a, q=s.get("wq", {}).get(a, 0.0), pwf=-1e9, r=3.5, s=0.5)
        m.set_well(cell_id=z, pwf=s.get("wp", {}).get(z, 0.0), r=3.0)
    m.set_boundaries({real[0]: ("pressure", s.get("bp", {}).get(real[0], 0.0)),
                      real[-1]: ("rate", s.get("bq", {}).get(real[-1], 0.0))})
    m.compile("numerical", "FDM", sparse=sparse)
    for _ in range(steps):
        m.solve(isolver=None, check_MB=False)
    return np.asarray(m.solution.pressures, float), np.asarray(m.solution.rates, float)


def U02mul(v, f):
    if v is None:
        return None
    return [x * f for x in v] if isinstance(v, (list, tuple)) else v * f


def add(s, t, a, b):
    out = {}
    for key in ("bp", "bq", "wq", "wp"):
        out[key] = {}
        for k in set(s.get(key, {})) | set(t.get(key, {})):
            out[key][k] = a * s.get(key, {}).get(k, 0.0) + b * t.get(key, {}).get(k, 0.0)
    for key in ("pi", "rho"):
        out[key] = a * s.get(key, 0.0) + b * t.get(key, 0.0)
    return out


def run(u, ctx):
    n = tuple(u["n"])
    R = ref.RefGrid(n)
    gs = s01.grid_spec(n, u["het"], u["comp"], u["grav"])
    real, S = sources(R, u["np"])
    if u["grav"]:
        S = S + [dict(rho=45.0)]    # gravity is one more (linear) source
    with lib.quiet():
        linear(u, ctx, R, gs, real, S) if u["part"] == "linear" else invariant(u, ctx, R, gs, real, S)
    ctx.sample(dict(u=u, sources=[str(s) for s in S]))


def linear(u, ctx, R, gs, real, S):
    unit = [solve(u, R, gs, real, s) for s in S]
    for i, j in itertools.combinations(range(len(S)), 2):
        for a, b in ((1.0, 1.0), (2.0, -1.0), (-0.5, 3.0), (10.0, 0.0)):
            p, q = solve(u, R, gs, real, add(S[i], S[j], a, b), sparse=(i + j) % 2 == 0)
            wp, wq = a * unit[i][0] + b * unit[j][0], a * unit[i][1] + b * unit[j][1]
            hist = dict(first=str(S[i]), second=str(S[j]), a=a, b=b)
            sc = sum(abs(c) * np.nanmax(np.abs(unit[x][0])) for c, x in ((a, i), (b, j)))
            sq = sum(abs(c) * np.nanmax(np.abs(unit[x][1])) for c, x in ((a, i), (b, j)))
            ctx.close("superposition", p, wp, rtol=0, atol=1e-9 * sc + 1e-9, **hist)
            ctx.close("superposition-rates", q, wq, rtol=0, atol=1e-8 * (sq + sc) + 1e-8, **hist)
            ctx.state((R.nxyz, u["het"], u["comp"], u["grav"], i, j, a, b))
            ctx.trace()


def invariant(u, ctx, R, gs, real, S):
    for i, s in enumerate(S):
        p0, q0 = solve(u, R, gs, real, s)
        scale = 1 + np.nanmax(np.abs(p0))
        hist = dict(source=str(s))
        # all pressures shifted by a constant
        for c in (1000.0, -300.0):
            t = dict(s, pi=s.get("pi", 0.0) + c, bp={real[0]: s.get("bp", {}).get(real[0], 0.0) + c})
            z = R.interior[-1]
            t["wp"] = {z: s.get("wp", {}).get(z, 0.0) + c}
            p, q = solve(u, R, gs, real, t)
            ctx.close("shift", p, p0 + c, rtol=0, atol=1e-8 * (scale + abs(c)), **hist)
            ctx.close("shift-rates", q, q0, rtol=1e-7, atol=1e-6, **hist)
        # mobility: k and mu by the same factor
        p, q = solve(u, R, gs, real, s, mu=4.0, kf=4.0)
        ctx.close("mobility", p, p0, rtol=1e-9, atol=1e-9 * scale, **hist)
        ctx.close("mobility-rates", q, q0, rtol=1e-8, atol=1e-7, **hist)
        # depth: no datum, only density times slope counts
        for f, c in ((1.0, 1000.0), (1.0, -2e6), (1e-3, 8000.0), (-2.0, -500.0)):
            g2 = dict(gs, z=[c + f * v for v in gs["z"]] if isinstance(gs["z"], (list, tuple)) else c)
            p, q = solve(u, R, g2, real, dict(s, rho=s.get("rho", 0.0) / f))
            ctx.close("depth", p, p0, rtol=0, atol=1e-6 * scale, **hist)
            ctx.close("depth-rates", q, q0, rtol=1e-5, atol=1e-5, **hist)
        # without compressibility the state is steady: independent of the timestep, the start and the step
        if not u["comp"]:
            p, q = solve(u, R, gs, real, dict(s, pi=777.0), dt=7, steps=3)
            for t in range(1, 4):
                ctx.close("steady", p[t], p0[1], rtol=1e-9, atol=1e-8 * scale, **hist)
        else:
            # a long time leads to the steady state of the incompressible model
            p, _ = solve(u, R, gs, real, s, dt=1e12, steps=2)
            g2 = dict(gs, comp=0)
            pi_, _ = solve(dict(u, comp=0), R, g2, real, s)
            ctx.close("long-time", p[2][R.interior], pi_[2][R.interior], rtol=1e-5, atol=1e-5 * scale, **hist)
            # conditions equal to the state: nothing moves
        ctx.state((R.nxyz, u["het"], u["comp"], u["grav"], i))
        ctx.trace()
    # maximum principle and rest, without sources and gravity
    for pl, pr, pi in itertools.product((0.0, 100.0, 250.0), repeat=3):
        sc = dict(grid=gs, fluid=dict(mu=0.5, B=1.0, comp=1e-5 if u["comp"] else 0), pi=pi, dt=3)
        m = sim.make_model(sc)
        m.set_boundaries({real[0]: ("p", pl), real[-1]: ("p", pr)})
        m.compile("numerical", "FDM", sparse=bool(pi))
        for _ in range(3):
            m.solve(isolver=None, check_MB=False)
        p = np.asarray(m.solution.pressures, float)[:, R.interior]
        vals = (pl, pr, pi) if u["comp"] else (pl, pr)
        lo, hi = min(vals), max(vals)
        rows = p if u["comp"] else p[1:]
        ctx.trans()
        if rows.min() < lo - 1e-7 or rows.max() > hi + 1e-7:
            ctx.fail("maximum-principle", f"ends {pl}, {pr}, start {pi}: pressures {rows.min()}..{rows.max()}")
        if u["comp"] and pl == pr:     # distances to the ends decrease
            dist = np.abs(p - pl).max(axis=1)
            if not (np.diff(dist) <= 1e-7).all():
                ctx.fail("decay", f"ends {pl}, start {pi}: distances {dist.tolist()}")
        if pl == pr == pi:
            ctx.close("rest", p, np.full_like(p, pi), rtol=1e-12, atol=1e-9)
        ctx.trace()
