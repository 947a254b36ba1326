"""S02: material balance of every step, from the raw histories only."""
import itertools
import warnings

import numpy as np

from .. import core, large, lib, ref, sim
from . import s01

ASSUME = ["rock and fluid volumes are computed by the reference grid",
          "the relative error of compressible models is compared only when the net rate is not (almost) zero"]
BOUNDS = {
    "quick": "12 shapes up to 5x5x1 and 4x3x3 x 2 property patterns x 3 compressibility x 2 gravity x 6 schedules x sparse/dense, 4 steps; tampered rates in each of them; runs of 1 to 7 steps with 3 iterative solvers; histories of 21 steps with redefinitions on grids of 11 to 110 cells with up to 5 wells",
    "thorough": "23 shapes up to 6x5x4, 4 property patterns, 3 units, direct and iterative solvers, 8 steps"}
SHAPES = [(3, 1, 1), (1, 4, 1), (1, 1, 3), (3, 2, 1), (2, 1, 2), (1, 2, 3), (2, 2, 2),
          (3, 2, 2), (8, 1, 1), (5, 5, 1), (4, 3, 3), (1, 4, 4)]
MORE = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (12, 1, 1), (2, 4, 1), (3, 1, 3),
        (2, 3, 2), (2, 2, 4), (3, 3, 3), (6, 5, 4)]


def plan(tier):
    th = tier == "thorough"
    out = []
    for n in SHAPES + (MORE if th else []):
        for het, comp, grav, sch in itertools.product(
                range(4) if th else (0, 1), range(3), (0, 1), range(6)):
            for unit in (("field", "metric", "lab") if th and het == 1 else ("field",)):
                out.append(dict(n=list(n), het=het, comp=comp, grav=grav, sch=sch, unit=unit,
                                unify=het % 2 == 0, steps=8 if th else 4, iter=th))
    out += large.units(tier, (0, 1, 2, 4, 5, 6))
    out += [dict(kind="runs", n=list(n), comp=comp, k=k) for n in ((8, 1, 1), (5, 5, 1), (4, 3, 3), (30, 1, 1), (1, 8, 5)) for comp in (0, 2) for k in range(1, 12 if th else 8)]
    return out


def scenario(u):
    if u["sch"] < 4:
        return s01.scenario(u)
    sc = s01.scenario(dict(u, sch=0))
    R = ref.RefGrid(tuple(u["n"]))
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    wellable = R.fdir in ("x", "xy", "xyz")
    half = u["steps"] // 2
    ops = []
    if u["sch"] == 4:      # wells which meet their limits and leave them again
        if wellable:
            ops += [("w", R.interior[0], dict(q=-400.0, pwf=3600.0, r=3.5)),
                    ("w", R.interior[-1], dict(q=-30.0, pwf=3950.0, r=3.5))]
        ops += [("b", {real[0]: ("p", 4000.0), real[-1]: ("q", -7.0)}), ("step", half),
                ("b1", real[0], "p", 9000.0), ("step", u["steps"] - half)]
    else:                  # conditions replaced while the model runs
        ops += [("ball", "pressure", 4100.0), ("step", half)]
        ops += [("b", {real[0]: ("rate", 25.0), real[-1]: ("pressure", 3000.0)}),
                ("step", u["steps"] - half)]
        if wellable:
            ops.insert(2, ("w", R.interior[-1], dict(q=-55.0, r=3.0)))
    return dict(sc, ops=ops)


def balance(ctx, key, model, acc, ids, tol=1e-8, cond=0.0):
    """Net inflow of every stored step equals the change of the stored mass."""
    sol = model.solution
    p, q = np.asarray(sol.pressures, float), np.asarray(sol.rates, float)
    a = np.array([acc[i] for i in ids])
    for t in range(1, len(p)):
        net = float(np.nansum(q[t]))
        stored = float((a * (p[t, ids] - p[t - 1, ids])).sum())
        # rounding: sizes of the single terms
        scale = float(np.nanmax(np.abs(q[t]))) + float((a * np.abs(p[t, ids])).sum()) * 1e-3 + 1e-9
        scale += cond * float(np.nanmax(np.abs(p[t]))) * 1e-4
        ctx.trans()
        if not abs(net - stored) <= tol * scale:
            ctx.fail(key + "balance", f"step {t}: net inflow {net!r}, stored {stored!r}")
            return None
    return net, stored, scale


def reported(ctx, key, model, net, stored, scale):
    """The reported error is the one of the newest step."""
    err = float(model.solution.error)
    if all(c == 0 for c in [model.comp]):
        ctx.close(key + "reported", err, net, rtol=1e-6, atol=1e-8 * scale)
    elif abs(net) > 1e-4 * scale:
        ctx.close(key + "reported", err, abs(stored / net - 1), rtol=1e-6, atol=1e-8 + 1e-8 * scale / abs(net))


def warned(model, **kw):
    import contextlib
    import io
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out):
        warnings.simplefilter("always")
        model.solution.check_MB(**kw)
    return any("aterial balance" in str(x.message) for x in w)


def every_step(ctx):
    """Balance of the whole history and the reported error, at every step."""
    def hook(m, S):
        R = S.g
        acc = {i: S.acc(i) for i in R.interior}
        cond = max(2 * S.T(b, x) for b in R.boundary for v in R.inner_neighbors(b).values() for x in v)
        r = balance(ctx, "large:", m, acc, R.interior, 1e-8, cond)
        if r is None:
            return False
        reported(ctx, "large:", m, *r)
        return not ctx.viol
    return hook


def runs(u, ctx):
    """After a run the reported error is that of the last step (inexact solvers: every step has another one)."""
    sc = scenario(dict(u, het=1, grav=0, sch=0, unit="field", unify=True, steps=1))
    for sparse, it, before in itertools.product((True,), ("cgs", "bicgstab", "gmres"), (0, 1)):
        with lib.quiet():
            m = sim.make_model(sc)
            m.compile("numerical", "FDM", sparse=sparse)
            for op in (sim.fix(o) for o in sc["ops"]):
                if op[0] != "step":
                    sim.apply_model(m, op)
            try:
                for _ in range(before):
                    m.solve(isolver=it)
                m.run(u["k"], isolver=it)
            except AssertionError:
                ctx.count("not-converged")
                continue
            got = float(m.solution.error)
            m.solution.check_MB()
        ctx.count("inexact", abs(got) > 1e-9)
        ctx.close("after-run", got, float(m.solution.error), rtol=1e-6, atol=1e-11, solver=it, steps=u["k"], before=before)
        ctx.state((u["n"], u["comp"], u["k"], it, before))
        ctx.trace()
    ctx.sample(u)


def run(u, ctx):
    if u.get("kind") == "runs":
        return runs(u, ctx)
    if u.get("kind") == "large":
        return large.run(u, ctx, hook=every_step(ctx))
    sc = scenario(u)
    R = ref.RefGrid(tuple(u["n"]))
    S = sim.make_ref(sc)
    acc = {i: S.acc(i) for i in R.interior}
    big = len(R.interior) > 9
    cond = max(2 * S.T(b, x) for b in R.boundary for v in R.inner_neighbors(b).values() for x in v)
    cfgs = [dict(sparse=True), dict(sparse=False)]
    if u["iter"] and u["het"] == 1 and u["unit"] == "field":
        cfgs += [dict(sparse=True, isolver=s) for s in ("bicgstab", "gmres", "cgs")]
    if not big and u["sch"] in (2, 4) and len(R.interior) <= 4 and u["het"] == 0:
        cfgs.append(dict(sparse=True, vect=False))
    for cfg in cfgs:
        key = "/".join(f"{k}={v}" for k, v in cfg.items()) + ":"
        with lib.quiet():
            m = sim.make_model(sc)
            m.compile("numerical", "FDM", sparse=cfg["sparse"])
            done = 0
            for op in (sim.fix(o) for o in sc["ops"]):
                if op[0] != "step":
                    sim.apply_model(m, op)
                    continue
                for _ in range(op[1]):
                    sim.step_model(m, cfg)
                    done += 1
                    if np.isnan(m.solution.pressures[done][R.interior]).any():
                        # no steady state exists for these conditions
                        ctx.count("singular")
                        break
                    it = cfg.get("isolver")
                    r = balance(ctx, key, m, acc, R.interior, 2e-4 if it else 1e-8, cond)
                    if r is None:
                        return
                    if not it:
                        reported(ctx, key, m, *r)
                    ctx.state((u["n"], core.canon(m.solution.rates[done], 6)))
        if cfg.get("isolver") or cfg.get("vect") is False or done == 0:
            continue
        # the reported error has to follow what is stored
        t = m.solution.tstep
        a = np.array([acc[i] for i in R.interior])
        dp = np.asarray(m.solution.pressures[t] - m.solution.pressures[t - 1], float)[R.interior]
        if np.isnan(dp).any():
            continue
        cell = R.interior[0]
        stored = float((a * dp).sum())
        for delta in (0.05, 5.0, -5.0, 1e5):
            m.solution.rates[t, cell] += delta
            net = float(np.nansum(m.solution.rates[t]))
            if m.comp == 0:
                want = abs(net)
            else:
                want = abs(stored / net - 1) if net else None
            if want is not None and np.isfinite(want):
                for thr in (None, 0.01, 1.0, 50.0):
                    kw = {} if thr is None else dict(error_threshold=thr)
                    lim = 0.1 if thr is None else thr
                    if abs(want - lim) > 1e-3 * lim:
                        ctx.eq(key + "warns", warned(m, **kw), want > lim, delta=delta, thr=thr, error=want)
                        ctx.close(key + "tampered", abs(float(m.solution.error)), want, rtol=1e-6, atol=1e-7)
            m.solution.rates[t, cell] -= delta
        ctx.trace()
    ctx.sample(dict(n=u["n"], ops=[str(o) for o in sc["ops"]]))
