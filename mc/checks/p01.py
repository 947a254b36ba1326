"""P01: the answer does not depend on the orientation of the axes nor on the datum of depths."""
import itertools

import numpy as np

from .. import core, lib, ref, sim
from . import s01

ASSUME = ["well models exist for grids with flow in x, xy and xyz only: wells take part in the symmetries which keep the z axis, "
          "and rate wells in none where the grid has no x axis"]
BOUNDS = {
    "quick": "11 shapes x 2 property patterns x 2 compressibility x 2 gravity x 3 schedules x all 48 signed axis permutations and 4 shifts of the depth datum, 2 steps, sparse/dense alternating; 5 small shapes with symbolic assembly",
    "thorough": "17 shapes, 4 property patterns, 3 compressibility, 4 steps"}
SHAPES = [(3, 1, 1), (2, 3, 1), (3, 1, 2), (2, 2, 2), (3, 2, 2), (1, 2, 3), (4, 1, 1), (3, 3, 1), (2, 2, 3), (1, 1, 4), (6, 2, 1)]
MORE = [(5, 1, 1), (4, 2, 1), (1, 4, 2), (3, 2, 4), (3, 3, 2), (1, 6, 1)]


def plan(tier):
    th = tier == "thorough"
    return [dict(n=list(n), het=het, comp=comp, grav=grav, sch=sch, steps=4 if th else 2)
            for n in SHAPES + (MORE if th else [])
            for het in ((0, 1, 2, 3) if th else (1, 3)) for comp in ((0, 1, 2) if th else (0, 2))
            for grav in (0, 1) for sch in range(3)] + [
        dict(n=list(n), het=1, comp=comp, grav=1, sch=sch, steps=2 if max(n) > 2 and n[0] * n[1] * n[2] < 6 else 1, vect=False)
        for n in ((3, 1, 1), (4, 1, 1), (1, 1, 4), (2, 2, 1), (2, 3, 1)) + (((2, 2, 2), (3, 1, 2)) if th else ())
        for comp in (0, 2) for sch in (0, 2)]


def expand(gs, R):
    """Everything per cell / per axis position."""
    d = [list(ref.as_axis(gs["d"][a], R.nb[a])) for a in range(3)]
    k = [ref.as_axis(gs["k"][a], R.N) for a in range(3)]
    phi = ref.as_axis(gs["phi"], R.N)
    z = ref.as_axis(gs["z"], R.N)
    return d, k, phi, z


def transform(n, d, k, phi, z, perm, flip):
    """New axis a is old axis perm[a], reversed where flip[a]."""
    n2 = tuple(n[perm[a]] for a in range(3))
    R, R2 = ref.RefGrid(n), ref.RefGrid(n2)
    old = []
    for c in R2.cells:
        o = [0, 0, 0]
        for a in range(3):
            o[perm[a]] = R2.nb[a] - 1 - c[a] if flip[a] else c[a]
        old.append(R.id[tuple(o)])
    d2 = [d[perm[a]][::-1] if flip[a] else d[perm[a]] for a in range(3)]
    k2 = [[k[perm[a]][o] for o in old] for a in range(3)]
    return n2, d2, k2, [phi[o] for o in old], [z[o] for o in old], old


def scenario(u):
    n = tuple(u["n"])
    R = ref.RefGrid(n)
    sc = s01.scenario(dict(u, unit="field", unify=True, sch=(0, 1, 2)[u["sch"]]))
    return sc, R


def play(gs, sc, ops, sparse, steps, vect=True):
    m = sim.make_model(dict(sc, grid=gs))
    m.compile("numerical", "FDM", sparse=sparse)
    for op in ops:
        if op[0] != "step":
            sim.apply_model(m, op)
    for _ in range(steps):
        m.solve(isolver=None, check_MB=False, vectorize=vect)
    return np.asarray(m.solution.pressures, float), np.asarray(m.solution.rates, float)


def run(u, ctx):
    sc, R = scenario(u)
    d, k, phi, z = expand(sc["grid"], R)
    n, vect = R.nxyz, u.get("vect", True)
    wells = [op for op in sc["ops"] if op[0] == "w"]
    bops = [op for op in sc["ops"] if op[0] == "b"]
    base = dict(sc["grid"], d=d, k=k, phi=phi, z=z)
    with lib.quiet():
        cache = {}
        for x, (perm, flip) in enumerate(itertools.product(itertools.permutations(range(3)),
                                                           itertools.product((0, 1), repeat=3))):
            if any(flip[a] and n[perm[a]] == 1 for a in range(3)):
                continue     # nothing to reverse
            n2, d2, k2, phi2, z2, old = transform(n, d, k, phi, z, perm, flip)
            use = wells if perm[2] == 2 and (R.D != 1 or perm == (0, 1, 2)) else []
            new = {o: i for i, o in enumerate(old)}
            ops = [("b", {new[b]: v for b, v in op[1].items()}) for op in bops]
            ops += [("w", new[c], kw) for _, c, kw in use]
            key = bool(use)
            if key not in cache:
                cache[key] = play(base, sc, bops + use, True, u["steps"], vect)
                if np.isnan(cache[key][0][:, R.interior]).any():
                    ctx.count("singular")
                    return
            p0, q0 = cache[key]
            gs = dict(base, n=n2, d=d2, k=k2, phi=phi2, z=z2, unify=x % 3 != 0)
            p, q = play(gs, sc, ops, x % 2 == 0, u["steps"], vect)
            hist = dict(perm=perm, flip=flip, wells=bool(use))
            ctx.close("pressures", p, p0[:, old], rtol=1e-9, **hist)
            ctx.close("rates", q, q0[:, old], rtol=1e-8, atol=1e-7, **hist)
            ctx.state((n, u["het"], u["comp"], u["grav"], u["sch"], perm, flip))
            ctx.trace()
        if u["grav"]:       # the datum of depths, and the side of it
            p0, q0 = cache.get(True) or cache[False]
            ops = bops + (wells if True in cache else [])
            low, mid = min(z), sorted(z)[len(z) // 2]
            for x, datum in enumerate((low, mid, max(z) + 500.0, -9000.0)):
                gs = dict(base, z=[v - datum for v in z], unify=x % 2 == 0)
                p, q = play(gs, sc, ops, x > 1, u["steps"], vect)
                ctx.close("pressures", p, p0, rtol=1e-8, datum=datum)
                ctx.close("rates", q, q0, rtol=1e-7, atol=1e-6, datum=datum)
                ctx.state((n, u["het"], u["comp"], u["grav"], u["sch"], "datum", x))
                ctx.trace()
    ctx.sample(dict(u=u, n=n))
