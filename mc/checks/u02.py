"""U02: the same reservoir in field, metric and lab units has the same answer."""
import itertools

import numpy as np

from .. import core, large, lib, ref, sim
from . import s01

ASSUME = ["unit factors have 4-6 digits: agreement to 1e-3 of the pressure range of the history",
          "permeability is given in md (field), um^2 (metric) and darcy (lab), well radius in 1/12 of the length unit"]
BOUNDS = {
    "quick": "10 shapes x 2 property patterns x 3 compressibility x 2 gravity x 4 schedules, 3 steps, three units against each other; histories of 21 steps with redefinitions on grids of 11 to 110 cells with up to 5 wells",
    "thorough": "20 shapes, 4 property patterns, 5 steps"}
FT, PSI, STB = 0.3048, 6.894757, 0.1589873
# per unit: length, pressure, rate, time, permeability, density, relative to field
CONV = {"field": dict(L=1.0, P=1.0, Q=1.0, t=1.0, k=1.0, rho=1.0),
        "metric": dict(L=FT, P=PSI, Q=STB, t=1.0, k=9.869233e-4, rho=16.018463),
        "lab": dict(L=30.48, P=0.0680460, Q=158987.3 / 86400.0, t=86400.0, k=1e-3, rho=0.016018463)}


def plan(tier):
    th = tier == "thorough"
    shapes = s01.SHAPES[:10] if not th else s01.SHAPES + s01.MORE[:8]
    return [dict(n=list(n), het=het, comp=comp, grav=grav, sch=sch, unit="field", unify=True, steps=5 if th else 3)
            for n in shapes for het in range(4 if th else 2) for comp in range(3) for grav in (0, 1) for sch in range(4)] + \
        large.units(tier, (0, 1, 2, 4))


def mul(v, f):
    if v is None:
        return None
    return [x * f for x in v] if isinstance(v, (list, tuple)) else v * f


def convert(sc, unit):
    c = CONV[unit]
    g = dict(sc["grid"], unit=unit)
    g["d"] = [mul(v, c["L"]) for v in g["d"]]
    g["k"] = [mul(v, c["k"]) for v in g["k"]]
    g["z"] = mul(g["z"], c["L"])
    g["comp"] = (g["comp"] or 0) / c["P"]
    f = dict(sc["fluid"], unit=unit)
    f["rho"] *= c["rho"]
    f["comp"] = (f["comp"] or 0) / c["P"]
    ops = []
    for op in sc["ops"]:
        if op[0] == "b":
            ops.append(("b", {b: (k, v * (c["P"] if k == "pressure" else c["Q"] if k == "rate" else c["P"] / c["L"]))
                              for b, (k, v) in op[1].items()}))
        elif op[0] == "b1":
            ops.append((op[0], op[1], op[2], op[3] * c["P"]))
        elif op[0] == "ball":
            ops.append((op[0], op[1], op[2] * c["P"]))
        elif op[0] in ("w", "wobj"):
            kw = dict(op[2])
            for key, s in (("q", "Q"), ("pwf", "P"), ("r", "L")):
                if key in kw:
                    kw[key] *= c[s]
            ops.append((op[0], op[1], kw))
        else:
            ops.append(op)
    return dict(grid=g, fluid=f, pi=sc["pi"] * c["P"], dt=sc["dt"] * c["t"], ops=ops)


def play(sc, sparse):
    m = sim.make_model(sc)
    m.compile("numerical", "FDM", sparse=sparse)
    for op in sc["ops"]:
        if op[0] == "step":
            sim.step_model(m, dict(mb=False), op[1])
        else:
            sim.apply_model(m, op)
    return m


def run(u, ctx):
    sc = large.scenario(u) if u.get("kind") == "large" else s01.scenario(u)
    R = ref.RefGrid(tuple(sc["grid"]["n"]))
    # a gradient is pressure per length times the transmissibility and length of the library
    with lib.quiet():
        base = play(sc, True)
        p0 = np.asarray(base.solution.pressures, float)
        q0 = np.asarray(base.solution.rates, float)
        if np.isnan(p0[:, R.interior]).any():
            ctx.count("singular")
            return
        span = max(np.nanmax(p0) - np.nanmin(p0), 1.0)
        qs = max(np.nanmax(np.abs(q0)), 1.0)
        for unit in ("metric", "lab"):
            c = CONV[unit]
            m = play(convert(sc, unit), unit == "lab")
            p = np.asarray(m.solution.pressures, float) / c["P"]
            q = np.asarray(m.solution.rates, float) / c["Q"]
            ctx.close(unit + ":pressures", p, p0, rtol=0, atol=1e-3 * span)
            ctx.close(unit + ":rates", q, q0, rtol=0, atol=2e-3 * qs)
            for w, v in base.w_pressures.items():
                ctx.close(unit + ":wells", np.array(m.w_pressures[w]) / c["P"], v, rtol=0,
                          atol=1e-3 * max(span, max(v) - min(v)))
            ctx.state((unit, core.canon(p, 4)))
            ctx.trace()
    ctx.sample(dict(u=u))
