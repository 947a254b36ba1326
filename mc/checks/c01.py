"""C01: threads do not change what a timestep computes."""
import itertools
import os

import numpy as np

from .. import core, lib, ref, sched, sim
from . import s01

ASSUME = ["scheduling points: every line of the package (and of the sparse matrix rows of scipy) executed by a worker",
          "worker pools take tasks in order, with the number of workers the code asks for"]
BOUNDS = {
    "quick": "3 models (4 cells: 2 equation workers, 4 matrix workers), first or second timestep; every start order of the workers "
             "without preemption, every single preemption at a line of the solution, model and helper files (to the next worker), every failing cell x every start order; grids of 12 and 16 cells with all start orders of four workers",
    "thorough": "6 models up to 6 cells, both timesteps, sparse and dense; every single preemption at any line of the package to every other worker; "
                "2 models: all pairs of preemptions at function calls"}
MODELS = [((4, 1, 1), 0, 2), ((2, 2, 1), 2, 2), ((1, 4, 1), 2, 0), ((6, 1, 1), 2, 2), ((1, 1, 4), 0, 1), ((3, 2, 1), 1, 3), ((12, 1, 1), 2, 2), ((4, 4, 1), 0, 2)]
FILES = None
QUICK = [(0, False, True), (1, True, True), (2, True, False)]
NB = 16      # units per exploration


def before_import():
    sched.install()


def files(u):
    base = os.path.join(lib.REPO, "reservoirflow") + os.sep
    own = (base,) if u.get("th") else (base + "solutions" + os.sep, base + "models" + os.sep, base + "utils" + os.sep)
    return own + ("scipy/sparse/_lil.py",)


def plan(tier):
    th = tier == "thorough"
    out = []
    for k in range(6 if th else 4):
        for second in (False, True):
            for sparse in (True, False):
                out.append(dict(k=k, second=second, sparse=sparse, kind="orders"))
                out.append(dict(k=k, second=second, sparse=sparse, kind="error"))
                if not th and (k, second, sparse) not in QUICK:
                    continue
                for part in range(NB):
                    out.append(dict(k=k, second=second, sparse=sparse, kind="one", part=part, th=th))
                if th and k < 2:
                    for part in range(NB * 4):
                        out.append(dict(k=k, second=second, sparse=sparse, kind="two", part=part, nb=NB * 4))
    for k in (6, 7):
        for part in range(8):
            out.append(dict(k=k, second=k == 6, sparse=k == 6, kind="large", part=part))
    return out


def model(u):
    n, comp, sch = MODELS[u["k"]]
    sc = s01.scenario(dict(n=list(n), het=1, comp=comp, grav=u['k'] % 2, sch=sch, unit="field", unify=True, steps=1))
    m = sim.make_model(sc)
    m.compile("numerical", "FDM", sparse=u["sparse"])
    for op in (sim.fix(o) for o in sc["ops"]):
        if op[0] != "step":
            sim.apply_model(m, op)
    if u["second"]:
        m.solve(vectorize=False, threading=False, isolver=None, check_MB=False)
    return m


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.array(x, float)


def answer(m):
    A, d = m.solution.get_matrices_symb(threading=True)
    return dense(A), dense(d).flatten()


def execute(u, **kw):
    m = model(u)
    return sched.run(lambda: answer(m), files=files(u), **kw)


def check(ctx, u, want, kw):
    got, err, c = execute(u, **kw)
    ctx.trans(c.point)
    ctx.trace()
    if err is not None:
        ctx.fail("threads-raise", f"schedule {kw}: {type(err).__name__}: {err}")
        return c
    ctx.close("coefficients", got[0], want[0], rtol=1e-12, schedule=str(kw))
    ctx.close("constants", got[1], want[1], rtol=1e-12, schedule=str(kw))
    ctx.state((u["k"], u["second"], u["sparse"], str(kw)))
    return c


def run(u, ctx):
    with lib.quiet():
        A, d = model(u).solution.get_matrices_symb(threading=False)
        want = dense(A), dense(d).flatten()
        if u["kind"] == "orders":
            n = len(want[1])
            c = check(ctx, u, want, {})
            orders = itertools.permutations(range(min(n, 4)))
            for o in orders:
                check(ctx, u, want, dict(order=o))
            # the whole timestep, direct and with threads of the real pool
            ms = [model(u), model(u), model(u)]
            ms[0].solve(vectorize=False, threading=False, isolver=None)
            ms[1].solve(vectorize=False, threading=True, isolver=None)
            _, err, _ = sched.run(lambda: ms[2].solve(vectorize=False, threading=True, isolver=None), files=files(u))
            if err is not None:
                raise err
            for m in ms[1:]:
                ctx.close("step", m.solution.pressures[-1], ms[0].solution.pressures[-1], rtol=1e-12)
                ctx.close("step-rates", m.solution.rates[-1], ms[0].solution.rates[-1], rtol=1e-12, atol=1e-12)
            ctx.count("pools", c.pools)
            ctx.count("worker_threads", c.max_workers)
        elif u["kind"] == "large":
            n = len(want[1])
            orders = [{}] + [dict(order=o) for o in list(itertools.permutations(range(4)))[1:]]
            for x, kw in enumerate(orders):
                if x % 8 == u["part"]:
                    check(ctx, u, want, kw)
                    ctx.count("large_cells", n)
        elif u["kind"] == "one":
            _, _, c = execute(u)
            pts = [(p + 1, t) for p, (w, others) in enumerate(c.alive_at) for t in (others if u["th"] else others[:1])]
            for x, (p, t) in enumerate(pts):
                if x % NB == u["part"]:
                    check(ctx, u, want, dict(switches={p: t}))
                    ctx.count("schedules")
        elif u["kind"] == "two":
            _, _, c = execute(u, coarse=True)
            pts = [(p + 1, t) for p, (w, others) in enumerate(c.alive_at) for t in others]
            for x, (p, t) in enumerate(pts):
                if x % u["nb"] != u["part"]:
                    continue
                c2 = check(ctx, u, want, dict(switches={p: t}, coarse=True))
                for p2 in range(p + 1, len(c2.alive_at) + 1):
                    for t2 in c2.alive_at[p2 - 1][1]:
                        check(ctx, u, want, dict(switches={p: t, p2: t2}, coarse=True))
                        ctx.count("schedules")
        else:
            errors(u, ctx)
    ctx.sample(dict(u=u))


class Boom(Exception):
    pass


def errors(u, ctx):
    """A failure inside a worker reaches the caller under every start order."""
    m = model(u)
    cells = [int(c) for c in m.cells_id]
    for cell in cells:
        for o in itertools.permutations(range(min(len(cells) // 2, 3))):
            m = model(u)
            real = m.solution.get_cell_eq
            fired = []

            def broken(c, *a, **k):
                if int(c) == cell:
                    fired.append(1)
                    raise Boom(cell)
                return real(c, *a, **k)
            m.solution.get_cell_eq = broken
            before = (m.solution.tstep, m.solution.pressures.shape)
            _, err, c = sched.run(lambda: m.solve(vectorize=False, threading=True, isolver=None),
                                  files=files(u), order=o)
            ctx.trans(c.point)
            ctx.trace()
            if not fired:
                ctx.count("not_reached")
                continue
            if not isinstance(err, Boom):
                ctx.fail("error-lost", f"equation of cell {cell} failed, the caller got {err!r}")
            ctx.eq("error-unchanged", (m.solution.tstep, m.solution.pressures.shape), before)
            ctx.state(("err", u["k"], u["second"], cell, o))
