"""S06: N steps are N steps, however they are grouped, probed or computed."""
import itertools

import numpy as np

from .. import core, large, lib, ref, sim
from . import s01

ASSUME = ["the baseline is the same model advanced by single solve() calls; it is itself compared with the reference simulator"]
BOUNDS = {
    "quick": "5 scenarios (control switches, gravity, compressibility) x all 34 groupings of 4 steps into solve()/run(k) "
             "x {no probe, probe before each call, probe before and after} x 7 per-call setting patterns x sparse/dense; histories of 21 steps with redefinitions on grids of 11 to 110 cells with up to 5 wells, grouped in 6 ways",
    "thorough": "10 scenarios x all 89 groupings of 5 steps, same factors"}
PATTERNS = ["vect", "threads", "mb", "driver-iso", "alt-thread", "alt-mb", "symb-mix"]


def scen(k):
    grids = [((3, 1, 1), 2, 0), ((2, 2, 1), 0, 0), ((1, 3, 1), 2, 1), ((2, 1, 2), 2, 1), ((4, 1, 1), 1, 0),
             ((2, 2, 2), 2, 1), ((3, 2, 1), 2, 0), ((1, 1, 3), 0, 1), ((5, 1, 1), 2, 1), ((1, 2, 2), 1, 0), ((12, 1, 1), 2, 0)]
    n, comp, grav = grids[k]
    R = ref.RefGrid(n)
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    gs = s01.grid_spec(n, 1, comp, grav, unify=k % 2 == 0)
    fs = dict(mu=0.5, B=1.1, rho=50.0, comp=(0, 1e-5, 1e-5)[comp])
    ops = [("b", {real[0]: ("pressure", 4000.0), real[-1]: ("rate", -3.0)})]
    if R.fdir in ("x", "xy", "xyz"):
        ops += [("w", R.interior[-1], dict(q=-90.0, pwf=3700.0, r=3.5)),
                ("w", R.interior[0], dict(q=20.0, r=3.5))]
    return dict(grid=gs, fluid=fs, pi=4000.0, dt=1, ops=ops), R


def tokens(n):
    """All groupings: each part is one run(k), a part of size 1 may be solve()."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in tokens(n - k):
            if k == 1:
                yield (("S", 1),) + rest
            yield (("R", k),) + rest


def plan(tier):
    th = tier == "thorough"
    N = 5 if th else 4
    out = []
    for k in range(10 if th else 5):
        for sparse in (True, False):
            for pat in PATTERNS:
                for probe in (0, 1, 2):
                    if pat == "symb-mix" and (probe == 2 or k not in (0, 2, 7)):
                        continue
                    out.append(dict(k=k, sparse=sparse, pat=pat, probe=probe, N=N))
    out += [dict(kind="large", g=g, comp=c, sparse=(g + c // 2) % 2 == 0) for g in ((0, 1, 2, 4, 6) if th else (0, 2)) for c in (0, 2)]
    return out


def settings(pat, x, sparse):
    kw = dict(vectorize=True, threading=False, isolver=None, check_MB=False)
    if pat == "threads":
        kw["threading"] = True
    elif pat == "mb":
        kw["check_MB"] = True
    elif pat == "driver-iso":
        kw["isolver"] = None if sparse else "cgs"     # ignored by dense models
    elif pat == "alt-thread":
        kw["threading"] = x % 2 == 0
    elif pat == "alt-mb":
        kw["check_MB"] = x % 2 == 1
    elif pat == "symb-mix":
        kw["vectorize"] = x % 2 == 0
    return kw


def build(sc, sparse):
    m = sim.make_model(sc)
    m.compile("numerical", "FDM", sparse=sparse)
    for op in (sim.fix(o) for o in sc["ops"]):
        sim.apply_model(m, op)
    return m


def snap(m):
    s = m.solution
    return dict(tstep=int(s.tstep), nsteps=int(s.nsteps), p=np.array(s.pressures, float), q=np.array(s.rates, float),
                As=np.array(getattr(s, "As", np.zeros((len(s.pressures), 0))), float),
                ds=np.array(getattr(s, "ds", np.zeros((len(s.pressures), 0))), float),
                wp={int(k): list(map(float, v)) for k, v in m.w_pressures.items()},
                inner=np.array(m.grid.cells_id), shape=tuple(int(x) for x in m.get_shape(True)), shape_in=tuple(int(x) for x in m.get_shape(False)))


def same(ctx, key, a, b, rtol=1e-9, hist=None):
    ok = ctx.eq(key + "steps", (a["tstep"], a["nsteps"], a["shape"], a["shape_in"], a["p"].shape, a["q"].shape, a["As"].shape, a["ds"].shape),
                (b["tstep"], b["nsteps"], b["shape"], b["shape_in"], b["p"].shape, b["q"].shape, b["As"].shape, b["ds"].shape), hist=hist)
    if not ok:
        return False
    ok &= ctx.close(key + "pressures", a["p"], b["p"], rtol=rtol, hist=hist)
    ok &= ctx.close(key + "rates", a["q"], b["q"], rtol=rtol * 10, atol=1e-7, hist=hist)
    ok &= solved(ctx, key, a, hist)
    ok &= ctx.eq(key + "wells", sorted(a["wp"]), sorted(b["wp"]), hist=hist)
    for k in b["wp"]:
        if k in a["wp"]:
            ok &= ctx.close(key + "well-pressures", a["wp"][k], b["wp"][k], rtol=rtol, hist=hist)
    return ok


def solved(ctx, key, a, hist):
    """Every stored system A p = d is solved by the pressures of its step."""
    n = a["ds"].shape[1]
    if not n:
        return True
    inner = a["inner"]
    for t in range(1, len(a["As"])):
        A, d, x = a["As"][t].reshape(n, n), a["ds"][t], a["p"][t][inner]
        size = (np.abs(A) @ np.abs(x) + np.abs(d)).max()
        ctx.trans()
        if not (np.abs(A @ x - d) <= 1e-6 * size).all():
            ctx.fail(key + "matrices", f"the system stored for step {t} is not the one that was solved", hist=hist)
            return False
    return True


def book(ctx, key, m, done, R, hist):
    s = m.solution
    got = dict(tstep=int(s.tstep), nsteps=int(s.nsteps), p=s.pressures.shape, q=s.rates.shape,
               shape=tuple(m.get_shape(True)), inner=tuple(m.get_shape(False)),
               wells=sorted({len(v) for v in m.w_pressures.values()}))
    want = dict(tstep=done, nsteps=done + 1, p=(done + 1, R.N), q=(done + 1, R.N), shape=(done + 1, R.N),
                inner=(done + 1, len(R.interior)), wells=[done + 1] if m.wells else [])
    return ctx.eq(key + "bookkeeping", got, want, hist=hist)


GROUPS = ["steps", "run", "run+step", "step+run", "halves", "probes"]


def parts(how, k):
    """The k steps of one part of a schedule."""
    if how in ("steps", "probes") or k == 1:
        return [("S", 1)] * k
    if how == "run":
        return [("R", k)]
    if how == "run+step":
        return [("R", k - 1), ("S", 1)]
    if how == "step+run":
        return [("S", 1), ("R", k - 1)]
    return [("R", k // 2), ("R", k - k // 2)]


def large_groups(u, ctx):
    """Long schedules with redefinitions, grouped in six ways; the first is compared with the reference."""
    if large.run(u, ctx) is None or ctx.viol:
        return
    sc = large.scenario(u)
    R = sim.make_ref(sc).g
    base = []
    with lib.quiet():
        for how in GROUPS:
            m = sim.make_model(sc)
            m.compile("numerical", "FDM", sparse=u["sparse"])
            done, x = 0, 0
            for op in (sim.fix(o) for o in sc["ops"]):
                if op[0] != "step":
                    sim.apply_model(m, op)
                    continue
                for kind, k in parts(how, op[1]):
                    kw = dict(vectorize=True, threading=how == "halves", isolver=None, check_MB=how == "run")
                    if how == "probes":
                        m.solve(update=False, **kw)
                    if kind == "S":
                        m.solve(**kw)
                    else:
                        m.run(k, **kw)
                    done += k
                    book(ctx, "large:", m, done, R, [how, done])
                now = snap(m)
                if how == GROUPS[0]:
                    base.append(now)
                elif not same(ctx, "large:", now, base[x], hist=[how, done]):
                    return
                x += 1
                ctx.state((u["g"], u["comp"], how, done))
            ctx.trace()


def run(u, ctx):
    if u.get("kind") == "large":
        return large_groups(u, ctx)
    sc, R = scen(u["k"])
    N, sparse = u["N"], u["sparse"]
    key = f"{u['pat']}:"
    with lib.quiet():
        m = build(sc, sparse)
        base = [snap(m)]
        S = sim.make_ref(sc)
        for op in (sim.fix(o) for o in sc["ops"]):
            sim.apply_ref(S, op)
        for t in range(N):
            m.solve(vectorize=True, threading=False, isolver=None, check_MB=False)
            base.append(snap(m))
            S.step()
            if not S.tie and not sim.compare_last(m, S, ctx, "baseline:"):
                return
        symb = u["pat"] == "symb-mix"
        for tk in tokens(N):
            if symb and len(tk) not in (2, N):
                continue    # symbolic assembly is slow
            m = build(sc, sparse)
            done = 0
            hist = []
            for x, (kind, k) in enumerate(tk):
                kw = settings(u["pat"], x, sparse)
                for _ in range(u["probe"]):
                    before = snap(m)
                    hist.append("probe")
                    m.solve(update=False, **kw)
                    if not same(ctx, key + "probe:", snap(m), before, 0.0, hist):
                        break
                hist.append((kind, k))
                if kind == "S":
                    m.solve(**kw)
                else:
                    m.run(k, **kw)
                done += k
                book(ctx, key, m, done, R, hist)
                if not same(ctx, key, snap(m), base[done], hist=hist):
                    break
                ctx.state((u["k"], done, core.canon(base[done]["p"][-1], 8)))
            ctx.trace()
    ctx.sample(dict(u=u, tokens=str(tk)))
