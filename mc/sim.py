"""Lockstep of the real simulator and the reference simulator."""
from __future__ import annotations

import numpy as np

from . import lib, ref


def make_ref(scen):
    gs, fs = scen["grid"], scen["fluid"]
    R = ref.RefGrid(gs["n"], gs.get("d", (1, 1, 1)), gs.get("k", (None,) * 3), gs.get("phi"),
                    gs.get("z", 0.0), gs.get("comp") or 0.0, gs.get("unit", "field"))
    F = ref.RefFluid(fs.get("mu", 1.0), fs.get("B", 1.0), fs.get("rho") or 0.0,
                     fs.get("comp") or 0.0, fs.get("unit", "field"))
    sim = ref.RefSim(R, F, 0.0 if scen["pi"] is None else scen["pi"], scen.get("dt", 1))
    if scen["pi"] is None:      # incompressible flow needs no initial pressure
        sim.hist_p[0] = dict.fromkeys(sim.hist_p[0], float("nan"))
    return sim


def make_model(scen, grid=None, fluid=None):
    g = grid if grid is not None else lib.make_grid(scen["grid"])
    f = fluid if fluid is not None else lib.make_fluid(scen["fluid"])
    unit = scen["grid"].get("unit", "field")
    with lib.quiet():
        return lib.rf().models.BlackOil(g, f, pi=scen["pi"], dt=scen.get("dt", 1), unit=unit,
                                        start_date=scen.get("start"), dtype=scen["grid"].get("dtype", "double"))


def fix(op):
    """JSON turns keys into strings."""
    if op[0] == "b":
        return ("b", {int(k): tuple(v) for k, v in op[1].items()})
    return tuple(op)


def apply_model(model, op, via="args"):
    """Operations which are not time steps."""
    if op[0] == "w":
        _, cell, kw = op
        model.set_well(cell_id=cell, **kw)
    elif op[0] == "wobj":
        _, cell, kw = op
        well = lib.rf().wells.SingleCell(cell_id=cell, **kw)
        model.set_well(well)
    elif op[0] == "b":
        model.set_boundaries({int(k): tuple(v) for k, v in op[1].items()})
    elif op[0] == "b1":
        model.set_boundary(int(op[1]), op[2], op[3])
    elif op[0] == "ball":
        model.set_all_boundaries(op[1], op[2])
    else:
        raise KeyError(op[0])


def apply_ref(sim, op):
    if op[0] in ("w", "wobj"):
        sim.set_well(op[1], **op[2])
    elif op[0] == "b":
        sim.bc_src = {int(k): tuple(v) for k, v in op[1].items()}
        sim.set_boundaries(sim.bc_src)
    elif op[0] == "b1":
        sim.bc_src = dict(getattr(sim, "bc_src", {}))
        sim.bc_src[int(op[1])] = (op[2], op[3])
        sim.set_boundaries(sim.bc_src)
    elif op[0] == "ball":
        sim.bc_src = {b: (op[1], op[2]) for b in sim.g.boundary}
        sim.set_boundaries(sim.bc_src)
    else:
        raise KeyError(op[0])


def step_model(model, cfg, k=1):
    kw = dict(vectorize=cfg.get("vect", True), threading=cfg.get("thr", False),
              isolver=cfg.get("isolver"), check_MB=cfg.get("mb", True))
    if cfg.get("driver", "solve") == "run":
        model.run(k, **kw)
    else:
        for _ in range(k):
            model.solve(**kw)


def compare_last(model, sim, ctx, key="", rtol=1e-8, hist=None, wells=True):
    """Newest row of the real histories against the reference."""
    sol = model.solution
    t = len(sim.hist_p) - 1
    ctx.trans()
    R = sim.g
    if int(sol.tstep) != t or sol.pressures.shape != (t + 1, R.N) or sol.rates.shape != (t + 1, R.N):
        ctx.fail(key + "steps", f"tstep {sol.tstep}, shapes {sol.pressures.shape} {sol.rates.shape}, "
                 f"expected {t} and {(t + 1, R.N)}", hist=hist)
        return False
    if hasattr(sol, "nsteps") and int(sol.nsteps) != t + 1:
        ctx.fail(key + "steps", f"nsteps {sol.nsteps} after {t} steps", hist=hist)
        return False
    p, q = np.asarray(sol.pressures[t], float), np.asarray(sol.rates[t], float)
    want = np.full(R.N, np.nan)
    for i, v in sim.hist_p[t].items():
        want[i] = v
    for b, (c, v, m) in sim.bc.items():
        if c == "p":
            want[b] = v
    scale = 1.0 + max((abs(v) for v in sim.hist_p[t].values() if v == v), default=0.0)
    if not compare_history(sol, sim, ctx, key, rtol, hist):
        return False
    ok = ctx.close(key + "pressure-inner", p[R.interior], want[R.interior], rtol=rtol, atol=rtol * scale, hist=hist)
    real_b = [b for b in R.boundary if b in sim.bc or any(R.inner_neighbors(b).values())]
    ok &= ctx.close(key + "pressure-boundary", p[real_b], want[real_b], rtol=rtol, atol=rtol, hist=hist)
    if t == 0:      # the first row shows the boundary rates, nothing flows yet elsewhere
        wq = np.zeros(R.N)
        for b, (c, v, m) in sim.bc.items():
            if c != "p":
                wq[b] = v
        cols = [b for b in R.boundary if any(R.inner_neighbors(b).values())] + R.interior
        return ok & ctx.close(key + "rates-start", q[cols], wq[cols], rtol=rtol, atol=rtol, hist=hist)
    wq = np.zeros(R.N)
    for i, v in sim.hist_q[t - 1].items():
        wq[i] = v
    # rates come from pressure differences: scale them by conductance x pressure
    cond = max([2 * sim.T(b, m) for b, (c, v, m) in sim.bc.items()] +
               [w["J"] for w in sim.wells.values()] + [0.0])
    cols = real_b + R.interior
    ok &= ctx.close(key + "rates", q[cols], wq[cols], rtol=rtol, atol=rtol * (1 + cond * scale), hist=hist)
    if wells:
        for i, v in sim.hist_pwf[t - 1].items():
            got = model.w_pressures[i]
            if len(got) != t + 1:
                ctx.fail(key + "well-pressure-length", f"{len(got)} values, expected {t + 1}", hist=hist)
                ok = False
            else:
                ok &= ctx.close(key + "well-pressure", got[-1], v, rtol=rtol, atol=rtol * scale, hist=hist)
    return ok


def compare_history(sol, sim, ctx, key, rtol, hist):
    """Earlier rows never change, and each step has its matrices: A p = d."""
    t, n = len(sim.hist_p) - 1, len(sim.g.interior)
    As, ds = getattr(sol, "As", None), getattr(sol, "ds", None)
    if As is None or ds is None:
        As = ds = np.zeros((t + 1, 0))
    elif As.shape != (t + 1, n * n) or ds.shape != (t + 1, n):
        ctx.fail(key + "matrices", f"shapes {As.shape} {ds.shape}, expected {(t + 1, n * n)} {(t + 1, n)}", hist=hist)
        return False
    elif t and not getattr(sim, "seen_t", 0) == t:
        A, d, x = As[t].reshape(n, n), ds[t], np.asarray(sol.pressures[t], float)[sim.g.interior]
        size = np.abs(A) @ np.abs(x) + np.abs(d)
        ctx.trans()
        if not (np.abs(A @ x - d) <= 1e-3 * rtol ** 0.5 * size.max()).all():
            ctx.fail(key + "matrices", f"stored matrices of step {t} are not solved by its pressures: "
                     f"{(A @ x - d).tolist()} of {size.max()}", hist=hist)
            return False
    now = [np.array(a, dtype=float) for a in (sol.pressures, sol.rates, As, ds)]
    old = getattr(sim, "seen", None)
    if old is not None:
        # the first row shows the boundary conditions until the first step
        first, k = (0 if len(old[0]) > 1 else 1), min(len(old[0]), t + 1)
        ctx.trans()
        for what, a, b in zip(("pressures", "rates", "As", "ds"), now, old):
            if a.shape[1] == b.shape[1] and not np.array_equal(a[first:k], b[first:k], equal_nan=True):
                ctx.fail(key + "history", f"earlier rows of {what} changed: {b[first:k].tolist()} became "
                         f"{a[first:k].tolist()}", hist=hist)
                return False
    sim.seen, sim.seen_t = now, t
    return True


def lockstep(scen, cfg, ctx, key="", rtol=1e-8, state=True):
    """Run all operations of a scenario on both sides, compare after each."""
    from . import core
    sim = make_ref(scen)
    ops = [fix(o) for o in scen["ops"]]
    with lib.quiet():
        model = make_model(scen)
        when = cfg.get("compile", "first")
        started = False
        if when == "first":
            model.compile("numerical", "FDM", sparse=cfg.get("sparse", True))
            started = True
        for x, op in enumerate(ops):
            if op[0] == "step":
                if not started:
                    model.compile("numerical", "FDM", sparse=cfg.get("sparse", True))
                    started = True
                step = dict(cfg)
                for _ in range(op[1]):
                    try:
                        sim.step()
                    except ArithmeticError:
                        return None
                    if cfg.get("each"):
                        step.update(cfg["each"](len(sim.hist_p) - 1))
                    step_model(model, step, 1)
                    if sim.tie:
                        ctx.count("ties")
                        return None
                    if not compare_last(model, sim, ctx, key, rtol, hist=[str(o) for o in ops[: x + 1]]):
                        return model, sim
                    if cfg.get("hook") and cfg["hook"](model, sim) is False:
                        return model, sim
                    if state:
                        ctx.state((core.canon(scen["grid"]["n"]), core.canon(sim.p, 7),
                                   core.canon(sim.hist_mode[-1]), core.canon(sim.bc)))
            elif op[0] == "refused":        # definitions which must be refused without effect
                for o in op[1]:
                    ctx.trans()
                    try:
                        apply_model(model, fix(o))
                    except Exception:
                        continue
                    ctx.fail(key + "accepted", f"{o} must be refused", hist=[str(o) for o in ops[: x + 1]])
            else:
                apply_model(model, op)
                apply_ref(sim, op)
                ctx.trans()
    ctx.trace()
    return model, sim
