"""V02: plots show the stored values of the cell or the step they name."""
import itertools

import numpy as np

from .. import lib, ref, sim
from . import d01, v01

ASSUME = ["matplotlib draws what its axes hold: figures are real, nothing is put on a screen",
          "models are compiled; the grid picture is a row of cells, so its labels are only asked for in 1D"]
BOUNDS = {
    "quick": "6 numerical histories (0-3 steps, 1D/2D/3D, wells) and 2 analytical x {pressures, rates} x every cell and every step (and none); "
             "all sequences of 3 out of 8 plots and operations on one model",
    "thorough": "9 numerical histories, sequences of 4"}
ACTIONS = [("cell", "pressures"), ("cell", "rates"), ("last", "pressures"), ("step", "rates"), ("grid", "pressures"),
           ("solve",), ("solution",), ("table",)]
SHOWN = []


def before_import():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: SHOWN.append(axes(plt))


def axes(plt):
    """What the figure would show; the window is closed afterwards, as a user does."""
    fig = plt.gcf()
    fig.canvas.draw()
    ax = fig.axes[0]
    out = dict(lines=[np.array(x.get_xydata(), float) for x in ax.lines], images=[np.array(np.ma.filled(x.get_array(), np.nan), float) for x in ax.images],
               extents=[tuple(float(v) for v in x.get_extent()) for x in ax.images],
               ticks=[(float(x.get_position()[0]), x.get_text()) for x in ax.get_xticklabels()], xlim=tuple(float(v) for v in ax.get_xlim()))
    plt.close("all")
    return out


def plan(tier):
    th = tier == "thorough"
    out = [dict(kind="model", h=h) for h in list(range(9 if th else 6)) + ["a0", "a1"]]
    out += [dict(kind="seq", first=f, depth=4 if th else 3) for f in range(len(ACTIONS))]
    return out + [dict(kind="refused")]


def draw(ctx, key, f, msg):
    del SHOWN[:]
    with lib.quiet():
        f()
    ctx.trans()
    if len(SHOWN) != 1:
        ctx.fail(key + "shown", f"{msg}: {len(SHOWN)} figures shown")
        return None
    return SHOWN[0]


def line(ctx, key, v, x, y, msg):
    if len(v["lines"]) != 1 or v["images"]:
        return ctx.fail(key + "line", f"{msg}: {len(v['lines'])} lines, {len(v['images'])} images")
    xy = v["lines"][0]
    if xy.shape != (len(x), 2):
        return ctx.fail(key + "points", f"{msg}: {xy.shape} points, expected {len(x)}")
    ctx.close(key + "x", xy[:, 0], np.array(x, float), rtol=1e-9, atol=1e-12, msg=msg)
    ctx.eq(key + "nan", np.isnan(xy[:, 1]).tolist(), np.isnan(np.array(y, float)).tolist(), msg=msg)
    ctx.close(key + "y", np.nan_to_num(xy[:, 1]), np.nan_to_num(np.array(y, float)), rtol=1e-9, atol=1e-12, msg=msg)


def hist(m, prop):
    return np.array(getattr(m.solution, prop), float)


def cell(ctx, m, sc, prop, i, step, msg):
    kw = {} if step is None else dict(tstep=step)
    v = draw(ctx, "cell:", lambda: m.plot(prop, id=i, **kw), msg)
    if v:
        h = hist(m, prop)
        line(ctx, "cell:", v, [t * sc["dt"] for t in range(m.solution.tstep + 1)], h[:, i], msg)


def step(ctx, m, R, prop, t, msg):
    v = draw(ctx, "step:", lambda: m.plot(prop=prop, tstep=t), msg)
    if not v:
        return
    ids = R.ids(True)
    line(ctx, "step:", v, range(len(ids)), hist(m, prop)[m.solution.tstep if t is None else t][ids], msg)
    for p, name in v["ticks"]:
        ok = p == int(p) and 0 <= p < len(ids) and name == str(ids[int(p)])
        if not ok:
            ctx.fail("step:ticks", f"{msg}: the point at {p} is named {name}")
    if not v["ticks"]:
        ctx.fail("step:ticks", f"{msg}: no cell is named")


def grid(ctx, m, R, prop, t, msg):
    v = draw(ctx, "grid:", lambda: m.plot_grid(prop, tstep=t), msg)
    if not v:
        return
    ids = R.ids(False)
    want = hist(m, prop)[m.solution.tstep if t is None else t][ids]
    if len(v["images"]) != 1 or v["images"][0].shape != (1, len(ids)):
        return ctx.fail("grid:image", f"{msg}: images {[x.shape for x in v['images']]}")
    ctx.eq("grid:nan", np.isnan(v["images"][0][0]).tolist(), np.isnan(want).tolist(), msg=msg)
    ctx.close("grid:values", np.nan_to_num(v["images"][0][0]), np.nan_to_num(want), rtol=1e-9, atol=1e-12, msg=msg)
    if sum(x > 1 for x in (m.grid.nx, m.grid.ny, m.grid.nz)) <= 1:
        x0, x1 = v["extents"][0][:2]
        ctx.eq("grid:ticks", [int(x[1]) for x in v["ticks"]], list(range(1, len(ids) + 1)), msg=msg)
        ctx.close("grid:ticks-at", [x[0] for x in v["ticks"]], [x0 + (i + 0.5) * (x1 - x0) / len(ids) for i in range(len(ids))], rtol=1e-9, atol=1e-9, msg=msg)
        ctx.close("grid:limits", sorted(v["xlim"]), sorted((x0, x1)), rtol=1e-9, atol=1e-9, msg=msg)


def run(u, ctx):
    if u["kind"] == "seq":
        return sequences(u, ctx)
    if u["kind"] == "refused":
        return refused(u, ctx)
    with lib.quiet():
        m, R0, sc = v01.history(u["h"])
    R = sim.make_ref(sc).g
    before = v01.snapshot(m)
    steps = [None] + list(range(m.solution.tstep + 1))
    for prop in ["pressures"] if str(u["h"])[0] == "a" else ["pressures", "rates"]:
        for i, t in itertools.product(R.ids(True), (None, 0)):
            cell(ctx, m, sc, prop, i, t, f"{prop} of cell {i}")
            ctx.state((u["h"], prop, "cell", i))
        for t in steps:
            step(ctx, m, R, prop, t, f"{prop} of step {t}")
            grid(ctx, m, R, prop, t, f"{prop} of step {t}")
            ctx.state((u["h"], prop, "step", t))
        ctx.trace()
    v = draw(ctx, "default:", lambda: m.plot(), "default")
    if v:
        line(ctx, "default:", v, range(R.N), hist(m, "pressures")[m.solution.tstep], "default")
    v01.same(ctx, m, before, str(u))
    ctx.sample(dict(u=u, steps=len(steps) - 1))


def sequences(u, ctx):
    """All orders of plots and operations: each plot is that of the selected solution as it is then."""
    for rest in itertools.product(range(len(ACTIONS)), repeat=u["depth"] - 1):
        seq = [ACTIONS[x] for x in (u["first"],) + rest]
        if seq[-1][0] in ("solve", "solution", "table"):
            continue
        with lib.quiet():
            gs = dict(n=(4, 1, 1), d=(100.0, 350.0, 40.0), k=(1.0, None, None), phi=0.1, z=0.0, comp=1e-6, unit="field")
            sc = dict(grid=gs, fluid=dict(mu=0.5, B=1.2, comp=3e-5, unit="field"), pi=4000.0, dt=2, start=None)
            m = sim.make_model(sc)
            m.set_boundaries({0: ("pressure", 1000.0), 5: ("pressure", 3000.0)})
            m.compile("analytical", "D1P1")
            m.run(1)
            m.compile("numerical", "FDM")
            m.run(2)
        R = ref.RefGrid(gs["n"])
        names = m.get_solutions()
        for k, e in enumerate(seq):
            msg = f"{seq[:k + 1]}"
            ctx.trans()
            prop = e[1] if len(e) > 1 and "rates" in vars(m.solution) and "FDM" in type(m.solution).__name__ else "pressures"
            if e[0] == "cell":
                cell(ctx, m, sc, prop, 2, None, msg)
            elif e[0] == "last":
                step(ctx, m, R, prop, None, msg)
            elif e[0] == "step":
                step(ctx, m, R, prop, 1, msg)
            elif e[0] == "grid":
                grid(ctx, m, R, prop, None, msg)
            else:
                with lib.quiet():
                    if e[0] == "solve":
                        m.run(1)
                    elif e[0] == "solution":
                        names = names[1:] + names[:1]
                        m.set_solution(names[-1])
                    else:
                        m.get_df(columns=["time", "cells"], melt=True, units=True)
        ctx.state(tuple(seq))
        ctx.trace()


def refused(u, ctx):
    """Models which were not compiled have no plots; unknown properties neither."""
    for compiled, f in itertools.product((False, True), (lambda m: m.plot("nothing"), lambda m: m.plot("nothing", id=1), lambda m: m.plot_grid("nothing"),
                                                         lambda m: m.plot(), lambda m: m.plot(id=1), lambda m: m.plot_grid())):
        with lib.quiet():
            m, R, sc = v01.history("a0")
            if not compiled:
                m = sim.make_model(sc)
        del SHOWN[:]
        err = None
        try:
            with lib.quiet():
                f(m)
        except Exception as e:
            err = e
        ctx.trans()
        import matplotlib.pyplot as plt
        plt.close("all")
        if (err is None) != bool(SHOWN):
            ctx.fail("refused", f"compiled={compiled}: error {err!r}, {len(SHOWN)} figures")
        if not compiled and err is None:
            ctx.fail("refused", "a plot without a solution")
        ctx.state((compiled, repr(err)))
    ctx.trace()
