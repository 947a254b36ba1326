"""S05: the answer does not depend on how a timestep is computed."""
import itertools

import numpy as np

from .. import core, large, lib, ref, sim
from . import s01

ASSUME = ["iterative solvers: relative residual of the reference equations at most 1e-4 (library default tolerance 1e-5), or a raised error",
          "minres is documented as not recommended and reports success when it stops early: only finite answers and bookkeeping are required of it",
          "direct paths: agreement with the reference trajectory to 1e-8"]
BOUNDS = {
    "quick": "12 scenarios (1D/2D/3D, wells, gradients, compressibility, gravity) x every combination of {sparse,dense} x {vectorized,symbolic,printed} "
             "x threading x {solve,run} x {check on,off} with the direct solver, every iterative solver x {sparse,dense} x {vectorized,symbolic} x {solve,run}; 2 steps; histories of 21 steps with redefinitions on grids of 11 to 110 cells with up to 5 wells, options changing from step to step",
    "thorough": "40 scenarios, 4 steps"}
NAMES = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"]
MINRES = {"minres"}


def scenarios(tier):
    out = []
    small = [(3, 1, 1), (1, 2, 1), (1, 1, 3), (2, 2, 1)]
    if tier == "thorough":
        small += [(4, 1, 1), (1, 3, 1), (2, 1, 2), (1, 2, 2)]
    for x, n in enumerate(small):
        for comp, sch in ((0, 0), (2, 2), (2, 3), (0, 1), (1, 2)):
            if tier == "quick" and (comp, sch) in ((0, 1), (1, 2)):
                continue
            out.append(dict(n=list(n), het=1, comp=comp, grav=(x + sch) % 2, sch=sch, unit="field",
                            unify=x % 2 == 0, steps=4 if tier == "thorough" else 2))
    return out


def plan(tier):
    out = []
    for u in scenarios(tier):
        for part in ("sparse", "dense", "iter", "iter-symb", "iter-dense"):
            out.append(dict(u, part=part))
    big = [(4, 3, 1), (2, 2, 2), (3, 2, 2), (8, 1, 1)] if tier == "quick" else \
        [(4, 3, 1), (2, 2, 2), (3, 2, 2), (8, 1, 1), (5, 4, 1), (3, 3, 3), (1, 6, 2), (12, 1, 1)]
    for x, n in enumerate(big):
        for comp, sch in ((0, 0), (2, 2), (2, 3), (0, 1)):
            out.append(dict(n=list(n), het=1, comp=comp, grav=x % 2, sch=sch, unit="field", unify=True,
                            steps=3, part="iter"))
            out.append(dict(n=list(n), het=1, comp=comp, grav=x % 2, sch=sch, unit="field", unify=True,
                            steps=3, part="big"))
    out += large.units(tier, (0, 1, 2, 4))
    return out


def options(g, sparse):
    """Options change from step to step."""
    def each(t):
        cfg = dict(vect=t % 3 != 2 or g == 2, thr=t % 2 == 1, mb=t % 5 < 2, driver="run" if t % 7 < 3 else "solve")
        if not cfg["vect"] and t % 4:
            cfg["vect"] = True      # symbolic assembly is slow
        return cfg
    return each


def run(u, ctx):
    if u.get("kind") == "large":
        return large.run(u, ctx, each=options(u["g"], u["sparse"]))
    sc = s01.scenario(u)
    part = u["part"]
    if part in ("sparse", "dense", "big"):
        paths = [("vect", True, False), ("vect", True, True)]
        if part != "big":
            paths += [("symb", False, False), ("symb", False, True), ("print", True, False), ("print", False, True)]
        for sparse in ((True, False) if part == "big" else (part == "sparse",)):
            for (name, vect, thr), driver, mb in itertools.product(paths, ("solve", "run"), (True, False)):
                if name == "print" and not mb:
                    continue
                direct(u, sc, ctx, sparse, name, vect, thr, driver, mb)
    else:
        names = NAMES
        for name in names:
            for driver in ("solve", "run"):
                iterative(u, sc, ctx, name, driver, part)
        if part == "iter":
            unknown(sc, ctx)
    ctx.sample(dict(u=u, ops=[str(o) for o in sc["ops"]]))


def direct(u, sc, ctx, sparse, name, vect, thr, driver, mb):
    key = f"{'sparse' if sparse else 'dense'}/{name}{'/threads' if thr else ''}/{driver}:"
    S = sim.make_ref(sc)
    with lib.quiet():
        m = sim.make_model(sc)
        m.compile("numerical", "FDM", sparse=sparse)
        for op in (sim.fix(o) for o in sc["ops"]):
            if op[0] != "step":
                sim.apply_model(m, op)
                sim.apply_ref(S, op)
                continue
            steps = min(op[1], u["steps"])
            kw = dict(vectorize=vect, threading=thr, isolver=None, check_MB=mb, print_arrays=name == "print")
            try:
                for _ in range(steps):
                    S.step()
            except ArithmeticError:
                ctx.count("singular")
                return
            if S.tie:
                return
            if driver == "run":
                m.run(steps, **kw)
            else:
                for _ in range(steps):
                    m.solve(**kw)
    sim.compare_last(m, S, ctx, key)
    # all rows, not only the last one
    for t in range(1, len(S.hist_p)):
        got = m.solution.pressures[t][S.g.interior]
        ctx.close(key + "history", got, [S.hist_p[t][i] for i in S.g.interior], rtol=1e-8)
    ctx.state((u["n"], core.canon(S.p, 7)))
    ctx.trace()


def iterative(u, sc, ctx, name, driver, part):
    sparse = part != "iter-dense"
    vect = part != "iter-symb"
    key = f"{name}/{part}/{driver}:"
    S = sim.make_ref(sc)
    with lib.quiet():
        m = sim.make_model(sc)
        m.compile("numerical", "FDM", sparse=sparse)
        for op in (sim.fix(o) for o in sc["ops"]):
            if op[0] != "step":
                sim.apply_model(m, op)
                sim.apply_ref(S, op)
                continue
            for t in range(min(op[1], u["steps"])):
                A, d, idx = S.assemble(S.default_modes())
                if np.linalg.matrix_rank(A) < len(d):
                    ctx.count("singular")
                    return
                kw = dict(vectorize=vect, isolver=name, check_MB=False, threading=False)
                before = (m.solution.tstep, len(m.solution.pressures))
                try:
                    if driver == "run":
                        m.run(1, **kw)
                    else:
                        m.solve(**kw)
                except AssertionError:
                    ctx.count("not_converged")
                    ctx.eq(key + "unchanged", (m.solution.tstep, len(m.solution.pressures)), before)
                    return
                p = np.asarray(m.solution.pressures[-1], float)[S.g.interior]
                res = float(np.abs(A @ p - d).max())
                scale = float(np.abs(d).sum())
                if not sparse:
                    scale *= 1e-5    # dense models always use the direct solver
                ctx.trans()
                if name in MINRES and sparse:
                    # scipy stops it early on badly scaled systems; here only finite
                    if not np.isfinite(p).all():
                        ctx.fail(key + "finite", f"step {t}: {p}")
                        return
                elif not res <= 1e-4 * scale + 1e-9:
                    ctx.fail(key + "residual", f"step {t}: residual {res}, scale {scale}")
                    return
                S.p = {i: float(v) for i, v in zip(S.g.interior, p)}
                ctx.state((u["n"], name, core.canon(S.p, 4)))
    ctx.trace()


def unknown(sc, ctx):
    with lib.quiet():
        for bad in ("", "lu", "CGS", "jacobi"):
            m = sim.make_model(sc)
            m.compile("numerical", "FDM", sparse=True)
            for op in (sim.fix(o) for o in sc["ops"]):
                if op[0] != "step":
                    sim.apply_model(m, op)
            if bad == "":
                continue   # empty name: direct solver, as None
            try:
                m.solve(isolver=bad)
            except ValueError:
                ctx.eq("unknown-unchanged", m.solution.pressures.shape[0], 1)
            else:
                ctx.fail("unknown-solver", f"isolver={bad!r} was accepted")
