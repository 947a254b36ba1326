"""S07: a timestep which fails leaves the model as it was, and can be repeated."""
import itertools

import numpy as np

from .. import core, lib, ref, sim
from . import s01, s06

ASSUME = ["faults are injected where a timestep depends on an outside answer: the linear solvers",
          "a fault is an exception of the solver, (iterative) an answer with a nonzero exit code, or (sparse direct) an answer of nan",
          "steps which have no solution need only be refused if the solver notices; within rounding it may not"]
BOUNDS = {
    "quick": "5 scenarios with control switches x {sparse,dense,iterative} x {solve,run,grouped run} x every solver call of the history x 4 fault kinds "
             "x 1 or 2 consecutive faults; 4 steps, then the full history again; "
             "12 shapes: steps without any given pressure, or compressible without initial pressure, at the start and later; every fault point of 18 steps on 12 cells",
    "thorough": "10 scenarios, 5 steps, all pairs of failing calls"}

PLAN = dict(n=0, at={}, fired=[])
SOLVERS = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"]


class SolverFault(ArithmeticError):
    pass


def wrap(f, iterative):
    def inner(*a, **k):
        PLAN["n"] += 1
        kind = PLAN["at"].get(PLAN["n"])
        if kind == "raise":
            PLAN["fired"].append(PLAN["n"])
            raise SolverFault("injected")
        if kind == "memory":
            PLAN["fired"].append(PLAN["n"])
            raise MemoryError("injected")
        out = f(*a, **k)
        if kind == "nan":   # the sparse direct solver answers a singular matrix with a warning and nan
            PLAN["fired"].append(PLAN["n"])
            return np.full_like(np.asarray(out), np.nan)
        if kind in ("exit+", "exit-") and iterative:
            PLAN["fired"].append(PLAN["n"])
            return np.zeros_like(np.asarray(out[0])) + 17.0, 25 if kind == "exit+" else -1
        return out
    inner.__name__ = f.__name__
    return inner


def before_import():
    import scipy.linalg as sl
    import scipy.sparse.linalg as ssl
    sl.solve = wrap(sl.solve, False)
    ssl.spsolve = wrap(ssl.spsolve, False)
    for n in SOLVERS:
        setattr(ssl, n, wrap(getattr(ssl, n), True))


def plan(tier):
    th = tier == "thorough"
    out = []
    for k in range(10 if th else 5):
        for mode in ("sparse", "dense", "iter"):
            for drv in ("solve", "run", "group"):
                for kind in ("raise", "memory", "exit+", "exit-", "nan"):
                    if kind.startswith("exit") and mode != "iter" or kind == "nan" and mode != "sparse":
                        continue
                    out.append(dict(k=k, mode=mode, drv=drv, kind=kind, N=5 if th else 4,
                                    pairs="all" if th else "next"))
    for mode, drv, kind in (("sparse", "run", "raise"), ("dense", "group", "memory"), ("iter", "solve", "exit+"), ("sparse", "solve", "nan")):
        out.append(dict(k=10, mode=mode, drv=drv, kind=kind, N=18, pairs="none"))
    for n in s01.SHAPES + (s01.MORE if th else []):
        for het in range(2):
            out.append(dict(kind="unsolvable", n=list(n), het=het))
    return out


def unsolvable(u, ctx):
    """Steps which have no solution (no pressure is given anywhere) or no start
    (compressible without initial pressure) are refused and can be repeated
    once the missing value is given."""
    n = tuple(u["n"])
    R = ref.RefGrid(n)
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    closed = {real[0]: ("rate", 3.0), real[-1]: ("rate", -4.0)}
    given = {real[0]: ("pressure", 4100.0), real[-1]: ("rate", -4.0)}
    for case, sparse, vect in itertools.product(("closed", "late", "no-pi"), (True, False), (True, False)):
        if not vect and n[0] * n[1] * n[2] > 4:
            continue
        gs = s01.grid_spec(n, u["het"], 0, 0)
        sc = dict(grid=gs, fluid=dict(mu=0.5, B=1.1, rho=50.0, comp=1e-5 if case == "no-pi" else 0),
                  pi=None if case == "no-pi" else 4000.0, dt=1)
        hist = dict(case=case, sparse=sparse, vect=vect)
        with lib.quiet():
            m = sim.make_model(sc)
            S = sim.make_ref(sc)
            kw = dict(vectorize=vect, threading=False, isolver=None, check_MB=False)

            def define(b):
                m.set_boundaries(b)
                S.set_boundaries(b)
            define(given)
            m.compile("numerical", "FDM", sparse=sparse)
            if case == "late":
                for _ in range(2):
                    m.solve(**kw)
                    S.step()
                    if not sim.compare_last(m, S, ctx, "unsolvable:", hist=hist):
                        return
            if case != "no-pi":
                define(closed)
            for _ in range(2):
                before = s06.snap(m)
                ctx.trans()
                try:
                    m.solve(**kw)
                except Exception:
                    s06.same(ctx, "unsolvable:", s06.snap(m), before, 0.0, hist)
                else:
                    if case == "no-pi" or not np.isfinite(m.solution.pressures[-1, R.interior]).all():
                        ctx.fail("unsolvable:accepted", f"stored {m.solution.pressures.tolist()}", **hist)
                        return
                    break       # solved within rounding
            else:
                if case != "no-pi":
                    define(given)
                    for _ in range(2):
                        m.solve(**kw)
                        S.step()
                        if not sim.compare_last(m, S, ctx, "unsolvable:", hist=hist):
                            return
                ctx.count("refused_steps", 2)
        ctx.state(("unsolvable", n, u["het"], case, sparse, vect))
        ctx.trace()


def advance(m, drv, left, kw):
    if drv == "solve":
        m.solve(**kw)
    elif drv == "run":
        m.run(left, **kw)
    else:
        m.run(min(2, left), **kw)


def play(u, at, ctx=None, base=None):
    """Advance to N steps, calling again after each failure."""
    sc, R = s06.scen(u["k"])
    kw = dict(vectorize=True, threading=False, check_MB=False,
              isolver="bicgstab" if u["mode"] == "iter" else None)
    rtol = 1e-9
    m = s06.build(sc, u["mode"] != "dense")
    PLAN.update(n=0, at=at, fired=[])
    rows = [s06.snap(m)]
    fails = 0
    guard = 0
    while m.solution.tstep < u["N"] and guard < 50:
        guard += 1
        before = s06.snap(m)
        nf = len(PLAN["fired"])
        hist = dict(faults=str(at), step=before["tstep"])
        try:
            advance(m, u["drv"], u["N"] - m.solution.tstep, kw)
        except Exception as e:
            if len(PLAN["fired"]) == nf:
                raise        # not ours
            fails += 1
            if ctx is not None:
                ctx.trans()
                after = s06.snap(m)
                done = after["tstep"]
                s06.book(ctx, "after-failure:", m, done, R, hist)
                if u["drv"] == "solve":
                    s06.same(ctx, "after-failure:", after, before, 0.0, hist)
                elif done < len(base["rows"]):
                    s06.same(ctx, "after-failure:", after, base["rows"][done], rtol, hist)
        else:
            if len(PLAN["fired"]) > nf and ctx is not None:
                ctx.fail("swallowed", f"the failure of solver call {PLAN['fired'][-1]} was not reported", **hist)
                return None
        if u["drv"] == "solve":
            while len(rows) <= m.solution.tstep:
                rows.append(s06.snap(m))
    return dict(rows=rows, calls=PLAN["n"], end=s06.snap(m), fails=fails, guard=guard)


def run(u, ctx):
    if u["kind"] == "unsolvable":
        return unsolvable(u, ctx)
    with lib.quiet():
        base = play(dict(u, drv="solve"), {})
        n = base["calls"]
        ctx.count("solver_calls", n)
        plans = [{a: u["kind"]} for a in range(1, n + 1)]
        if u["pairs"] == "next":
            plans += [{a: u["kind"], a + 1: u["kind"]} for a in range(1, n + 1)]
        elif u["pairs"] == "all":
            plans += [{a: u["kind"], b: u["kind"]} for a, b in itertools.combinations(range(1, n + 2), 2)]
        for at in plans:
            r = play(u, at, ctx, base)
            if r is None:
                return
            if not r["fails"]:
                ctx.count("fault_not_reached")
            ctx.count("faults", r["fails"])
            s06.same(ctx, "repeated:", r["end"], base["end"], 1e-9 if u["mode"] != "iter" else 1e-6,
                     hist=dict(faults=str(at)))
            ctx.state((u["k"], u["mode"], u["drv"], u["kind"], tuple(at)))
            ctx.trace()
    ctx.sample(dict(u=u, solver_calls=n))
