"""E01: equations of both assemblers against the cell-by-cell balance."""
import itertools

import numpy as np

from .. import core, lib, ref, sim
from . import s01

ASSUME = ["rows are compared after division by their diagonal (rows may be scaled)"]
BOUNDS = {"quick": "10 shapes x properties x compressibility x gravity x 6 boundary/well settings, first two steps, vectorized and symbolic, sparse and dense; grids of 11 to 101 cells",
          "thorough": "22 shapes, all property patterns, 6 settings"}
SHAPES = [(2, 1, 1), (3, 1, 1), (1, 3, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2), (3, 2, 1), (1, 2, 1)]
MORE = [(4, 1, 1), (5, 1, 1), (1, 1, 4), (3, 3, 1), (2, 3, 1), (3, 1, 2), (2, 1, 3), (1, 3, 2),
        (1, 2, 3), (3, 2, 2), (2, 3, 2), (2, 2, 3)]


def plan(tier):
    out = []
    for n in SHAPES + (MORE if tier == "thorough" else []):
        for het, comp, grav, bc in itertools.product(
                (0, 1) if tier == "quick" else range(4), (0, 2), range(5), range(6)):
            if grav > 1 and (het != 1 or tier == "quick" and comp != 2 * (grav != 3)):
                continue
            out.append(dict(n=list(n), het=het, comp=comp, grav=grav, bc=bc,
                            unit="field", unify=bc % 2 == 0))
    for x, n in enumerate([(12, 1, 1), (5, 4, 1), (3, 3, 3), (101, 1, 1), (1, 11, 1), (4, 1, 4)]):
        for bc in (1, 4):
            out.append(dict(n=list(n), het=1, comp=2, grav=1 if x < 3 else 0, bc=bc, unit="field", unify=x % 2 == 0))
    return out


def setting(u, R):
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    wellable = R.fdir in ("x", "xy", "xyz")
    a, z = R.interior[0], R.interior[-1]
    ops = []
    k = u["bc"]
    if k == 0:
        ops = [("b", {b: ("pressure", 3900.0 + 10 * x) for x, b in enumerate(real)})]
    elif k == 1:
        ops = [("b", {b: ("rate", 5.0 + x) for x, b in enumerate(real)})]
    elif k == 2:
        ops = [("b", {real[0]: ("pressure", 0.0), real[-1]: ("gradient", 0.4)})]
    elif k == 3:
        ops = [("b", {real[-1]: ("press", 4100.0)})]
        if wellable:
            ops += [("w", z, dict(q=-20.0, r=3.5, s=1.0))]
    elif k == 4:
        ops = [("b", {real[0]: ("p", 4200.0), real[-1]: ("q", 3.0)})]
        if wellable:
            ops += [("w", a, dict(pwf=3000.0, r=2.5)), ("w", z, dict(q=-1.0, pwf=100.0, r=3.5, s=2.0))]
    else:
        ops = [("b", {})] if u["comp"] else [("b", {real[1]: ("pressure", 100.0)})]
        if wellable:
            ops += [("w", a, dict(pwf=0.0, r=2.5))]
    return ops


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.array(x, dtype=float)


def norm(A, d):
    A, d = np.array(A, float), np.array(d, float).flatten()
    g = np.diag(A).copy()
    g[g == 0] = 1.0
    return np.hstack([A / g[:, None], (d / g)[:, None]])


def cmp(ctx, key, got, want, hist):
    # coefficients and constants have different sizes
    ctx.close(key + "-coefficients", got[:, :-1], want[:, :-1], rtol=1e-8, hist=hist)
    ctx.close(key + "-constants", got[:, -1], want[:, -1], rtol=1e-8, atol=1e-6, hist=hist)


def run(u, ctx):
    n = tuple(u["n"])
    R = ref.RefGrid(n)
    gs = s01.grid_spec(n, u["het"], u["comp"], u["grav"], "field", u["unify"])
    fs = dict(mu=0.5, B=1.1, rho=50.0, comp=1e-5 if u["comp"] else 0)
    ops = setting(u, R)
    scen = dict(grid=gs, fluid=fs, pi=4000.0, dt=2)
    S = sim.make_ref(scen)
    for sparse in (True, False):
        S = sim.make_ref(scen)
        g, f = lib.make_grid(gs), lib.make_fluid(fs)
        with lib.quiet():
            m = sim.make_model(scen, g, f)
            for op in ops:
                sim.apply_model(m, op)
                sim.apply_ref(S, op)
            m.compile("numerical", "FDM", sparse=sparse)
        for step in range(2):
            modes = S.default_modes() if step == 0 else S.hist_mode[-1]
            A, d, idx = S.assemble(modes)
            # the next step starts from the controls of the last one
            want = norm(A, d)
            hist = [str(o) for o in ops] + [step, "sparse" if sparse else "dense"]
            with lib.quiet():
                Av, dv = m.solution.get_matrices_vect()
            cmp(ctx, "vectorized", norm(dense(Av), dense(dv)), want, hist)
            ctx.state((core.canon(A, 7), core.canon(d, 7)))
            if len(idx) <= 4 or (sparse and step == 0):
                with lib.quiet():
                    As, ds_ = m.solution.get_matrices_symb(threading=False)
                cmp(ctx, "symbolic", norm(dense(As), dense(ds_)), want, hist)
                with lib.quiet():
                    eqs = m.solution.get_cells_eq()
                E = np.zeros((len(idx), len(idx)))
                e = np.zeros(len(idx))
                for cell, (lhs, rhs) in eqs.items():
                    for s, c in lhs.items():
                        if float(c):
                            E[idx[int(cell)], idx[int(str(s)[1:])]] = float(c)
                    e[idx[int(cell)]] = float(rhs)
                cmp(ctx, "equation", norm(E, e), want, hist)
            if step == 0:
                try:
                    S.step()
                except ArithmeticError:
                    break
                if S.tie:
                    break
                with lib.quiet():
                    m.solve(vectorize=True, isolver=None, check_MB=False)
            ctx.trace()
    ctx.sample(dict(n=n, ops=[str(o) for o in ops]))
