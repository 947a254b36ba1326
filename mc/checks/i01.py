"""I01: an option which is left out takes its stated default."""
import itertools
import os

import numpy as np

from .. import core, lib, ref, sim
from . import d01, v01
from .v01 import before_import  # noqa: F401

ASSUME = ["defaults are those of the documented interface (signatures of the API reference) at the pinned commit",
          "options which never change an answer (printing, threads, solvers: S05) are compared within solver tolerance",
          "looks of a picture (colors, angles, window size) are not compared"]
BOUNDS = {
    "quick": "34 grid questions on 5 grids x unified or not, 8 model questions on 3 histories, tables, constructors of grid, fluid, model, scaler, well, "
             "solution methods and viewers: every choice of options left out (others at every listed value)",
    "thorough": "as quick on 9 grids and 5 histories"}
GRIDS = [(3, 1, 1), (2, 3, 1), (2, 2, 3), (1, 3, 2), (1, 1, 2), (1, 4, 1), (4, 1, 2), (3, 2, 2), (1, 1, 1)]
B2 = (True, False)


def canon(x, nd=9):
    """As core.canon, comparable when values are missing."""
    r = core.canon(x, nd)
    if isinstance(r, tuple):
        return tuple(canon(v, nd) for v in r)
    return "nan" if isinstance(r, float) and r != r else r


BF = [("boundary", True, B2), ("fshape", False, B2)]
BT = [("boundary", True, B2), ("fshape", True, B2)]
FM = ("array", "list", "tuple")


def table(R):
    """name, positional arguments, options (name, default, values)."""
    i0, c1, bd = R.interior[0], R.cells[R.interior[-1]], R.boundary[0]
    fld = np.arange(R.N) * 3.0
    bound = [("boundary", True, B2)]
    T = [("get_shape", (), [("boundary", False, B2)]), ("get_n", (), bound), ("get_n_max", (), bound),
         ("get_fshape", (), bound + [("points", False, B2)]),
         ("get_order", (), [("type", "natural", ("natural",))] + BF),
         ("get_ones", (), BF + [("sparse", False, (False,))]), ("get_zeros", (), BF + [("sparse", False, (False,))]),
         ("get_cells_id", (), BF + [("fmt", "array", FM)]), ("get_cells_i", (), BF + [("fmt", "array", FM)]),
         ("get_cells_coords", (), BF + [("fmt", "tuple", FM)]),
         ("get_cell_coords", (i0,), bound), ("get_cell_id", (c1,), bound),
         ("get_cell_neighbors", (i0,), [("boundary", False, B2), ("fmt", "dict", FM + ("dict",))]),
         ("get_cell_boundaries", (i0,), [("fmt", "dict", FM + ("dict",))]),
         ("get_boundaries", (), [("by", "id", ("id", "coords")), ("fmt", "tuple", FM)]),
         ("get_cells_center", (), BF + [("pyvista", False, (False,))]), ("get_cells_V", (), BF + [("pyvista", False, (False,))]),
         ("get_Vt", (), bound + [("pyvista", False, (False,))]), ("get_corners", (), bound),
         ("get_cell_G", (i0,), bound), ("get_cells_G", (), [("boundary", False, B2), ("sparse", True, B2)]),
         ("get_cells_G_diag_1", (), [("boundary", False, B2)]),
         ("get_prop", ("kx" if "x" in R.fdir else "phi",), BT + [("fmt", "array", FM)]),
         ("get_cells_k", (R.fdir[0] if R.fdir[0] in "xyz" else "x",), BT + [("fmt", "array", FM)]),
         ("remove_boundaries", (fld,), [("points", None, (None, False)), ("remove", "both", ("both", "left", "right"))]),
         ("extract_boundaries", (fld,), [("points", None, (None, False)), ("fmt", "tuple", FM)])]
    for a in "xyz":
        T += [(f"get_cells_d{a}", (), BF), (f"get_cells_A{a}", (), BT)]
    T += [("get_cells_d", ("y",), BF), ("get_cells_A", ("z",), BT)]
    return T


def calls(opts):
    """Every choice of given and left out options; at least one left out."""
    for vals in itertools.product(*[[None] + list(range(len(v))) for _, _, v in opts]):
        if None not in vals:
            continue
        given = {o[0]: o[2][x] for o, x in zip(opts, vals) if x is not None}
        full = {o[0]: (o[1] if x is None else o[2][x]) for o, x in zip(opts, vals)}
        yield given, full


def kinds(r):
    """Value and kind of an answer."""
    if hasattr(r, "toarray"):
        return ("sparse", type(r).__name__, canon(r.toarray(), 12))
    if isinstance(r, np.ndarray):
        return ("array", r.shape, canon(r, 12))
    if isinstance(r, dict):
        return ("dict", tuple((k, kinds(v)) for k, v in r.items()))
    return (type(r).__name__, canon(r, 12))


def answer(f, a, k):
    try:
        with lib.quiet():
            return kinds(f(*a, **k))
    except (AssertionError, ValueError, NotImplementedError) as e:
        return ("refused", type(e).__name__)


def compare(ctx, owner, f, name, args, opts, what):
    for given, full in calls(opts):
        ctx.trans()
        r, w = answer(f, args, given), answer(f, args, full)
        ctx.state((what, name, str(given), r))
        if r != w:
            ctx.fail(f"{owner}:{name}", f"{what}: {name}({given}) gives {str(r)[:300]}, {name}({full}) gives {str(w)[:300]}")
    ctx.trace()


def plan(tier):
    th = tier == "thorough"
    out = [dict(kind="grid", g=g, unify=x) for g in range(9 if th else 5) for x in B2]
    out += [dict(kind="model", h=h) for h in ((0, 1, 2, 3, 6) if th else (1, 2, 6))]
    out += [dict(kind="df", h=h, x=x) for h in ((0, 1, 2, 3, 6) if th else (1, 2)) for x in range(3)]
    out += [dict(kind=k) for k in ("grids", "fluids", "models", "scalers", "wells", "compile", "solve", "run", "analytical", "units")]
    out += [dict(kind="view", what=w) for w in ("grid", "model", "gif", "plot")]
    return out


def spec(n):
    N = int(np.prod([m + 2 if m > 1 else m for m in n]))
    k = [[100.0 + 7 * ((3 * i + a) % 5) for i in range(N)] for a in range(3)]
    d = [(300.0, 350.0, 40.0)[a] if n[a] == 1 else [100.0 + 11 * i + 3 * a for i in range(n[a] + 2)] for a in range(3)]
    return dict(n=n, d=d, k=k, phi=[0.1 + 0.01 * (i % 4) for i in range(N)], z=[10.0 * (i % 3) for i in range(N)], comp=1e-6)


def state(o, skip=()):
    """Public settings of an object."""
    return {k: kinds(v) if not hasattr(v, "__dict__") else type(v).__name__ for k, v in vars(o).items()
            if not k.startswith("_") and k not in skip and not callable(v)}


def constructors(ctx, what, make, base, opts, skip=()):
    for given, full in calls(opts):
        ctx.trans()
        with lib.quiet():
            a, b = state(make(**base, **given), skip), state(make(**base, **full), skip)
        ctx.state((what, str(given)))
        if a != b:
            diff = {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
            ctx.fail(f"{what}", f"{what}({given}) differs from {what}({full}): {str(diff)[:400]}")
    ctx.trace()


def run(u, ctx):
    globals()["run_" + u["kind"]](u, ctx)
    ctx.sample(u)


def run_grid(u, ctx):
    n = GRIDS[u["g"]]
    R = ref.RefGrid(n)
    if n == (1, 1, 1):
        return
    g = lib.make_grid(spec(n), unify=u["unify"])
    for name, args, opts in table(R):
        if n[1] * n[2] > 1 and n[0] == 1 and name == "get_prop":
            args = ("phi",)
        compare(ctx, "grid", getattr(g, name), name, args, opts, f"grid {n} unify={u['unify']}")


def run_model(u, ctx):
    with lib.quiet():
        m, R, sc = d01.history(u["h"])
    i0, what = R.interior[0], f"history {u['h']}"
    for name, args, opts in [
            ("get_shape", (), [("boundary", True, B2)]), ("get_time", (), [("scale", False, B2)]),
            ("get_centers", (), [("scale", False, B2), ("boundary", True, B2)]),
            ("get_cell_trans", (i0,), [("boundary", False, B2)]),
            ("get_cells_trans", (), [("boundary", False, B2), ("sparse", False, B2), ("vectorize", True, B2)]),
            ("get_cells_trans_diag", (), [("boundary", False, B2), ("diag_n", 1, (1, 2))])]:
        compare(ctx, "model", getattr(m, name), name, args, opts, what)
    s = m.solution
    compare(ctx, "solution", lambda **k: {x: y for x, y in enumerate(s.get_matrices_vect(**k))}, "get_matrices_vect", (), [("threading", False, B2)], what)


def run_df(u, ctx):
    with lib.quiet():
        m, R, sc = d01.history(u["h"])

    def ask(**k):
        before = set(os.listdir("."))
        d = m.get_df(**k)
        new = set(os.listdir(".")) - before
        return [list(map(str, d.columns)), str(d.index.name), np.array(d.index).tolist(),
                [[str(v) if isinstance(v, str) else canon(None if v is None else float(v), 12) for v in col] for col in d.T.values.tolist()], sorted(new)]

    opts = [("columns", ["time", "cells", "wells"], (["time", "cells", "wells"], ["date", "rates"])),
            ("boundary", True, B2), ("units", False, B2), ("melt", False, B2), ("scale", False, B2),
            ("drop_nan", True, B2), ("drop_zero", True, B2)]
    x = u["x"]
    opts[0] = opts[0] if x < 2 else ("columns", ["time", "cells", "wells"], ())
    for y, (given, full) in enumerate(calls(opts + [("save", False, ())])):
        if x < 2 and ("columns" not in given or given["columns"] != opts[0][2][x]):
            continue
        r, w = answer(ask, (), given), answer(ask, (), full)
        ctx.trans()
        ctx.state((u["h"], str(given)))
        if r != w:
            ctx.fail("model:get_df", f"history {u['h']}: get_df({given}) gives {str(r)[:300]}, get_df({full}) gives {str(w)[:300]}")
    ctx.trace()


def run_grids(u, ctx):
    G = lib.rf().grids.RegularCartesian
    for n, k in (((3, 1, 1), dict(kx=10)), ((2, 2, 1), dict(kx=10, ky=20)), ((1, 1, 3), dict(kz=5))):
        base = dict(nx=n[0], ny=n[1], nz=n[2], dx=10, dy=20, dz=30, **k)
        rest = {f"k{a}" for a in "xyz"} - set(k)
        constructors(ctx, "grid", G, base, [(a, None, ()) for a in sorted(rest)][:1] + [
            ("phi", None, (0.2,)), ("z", 0, (100,)), ("comp", None, (0, 1e-6)), ("unit", "field", ("metric",)),
            ("dtype", "double", ("single",)), ("unify", True, B2), ("verbose", False, (False,))])
        # nothing said about depth and compressibility: flat and incompressible
        with lib.quiet():
            g = G(**base, phi=0.1)
        ctx.eq("grid:flat", (set(np.array(g.z).ravel().tolist()), g.comp, g.comp_type), ({0.0}, 0, "incompressible"))


def run_fluids(u, ctx):
    F = lib.rf().fluids.SinglePhase
    constructors(ctx, "fluid", F, dict(mu=0.5, B=1.1), [
        ("rho", None, (50.0,)), ("comp", None, (0, 1e-5)), ("unit", "field", ("metric", "lab")), ("dtype", "double", ("single",)),
        ("verbose", False, (False,))])
    with lib.quiet():
        f = F(mu=0.5, B=1.1)
    ctx.eq("fluid:rest", (f.rho, f.g, f.comp, f.comp_type), (0, 0, 0, "incompressible"))


def parts(fs=None, n=(3, 1, 1)):
    gs = dict(n=n, d=(100.0, 350.0, 40.0), k=(50.0, 50.0, 50.0), phi=0.1, z=0.0, comp=1e-6)
    return lib.make_grid(gs), lib.make_fluid(fs or dict(mu=0.5, B=1.1, comp=1e-5))


def run_models(u, ctx):
    import datetime
    rf = lib.rf()

    def make(**k):
        g, f = parts()
        return rf.models.BlackOil(grid=g, fluid=f, **k)

    constructors(ctx, "model", make, {}, [
        ("well", None, ()), ("pi", None, (4000.0,)), ("dt", 1, (3,)), ("start_date", None, (datetime.date(2020, 1, 2),)),
        ("unit", "field", ("field",)), ("dtype", "double", ("double",)), ("verbose", False, (False,))])
    for k in ({}, dict(start_date=None)):
        a = datetime.date.today()
        with lib.quiet():
            m = make(pi=4000.0, **k)
            m.compile("numerical", "FDM")
            d = m.get_df(columns=["date"])
        b = datetime.date.today()
        ctx.trans()
        got = str(np.array(d).ravel()[0])
        if got not in (a.strftime("%d.%m.%Y"), b.strftime("%d.%m.%Y")):
            ctx.fail("model:today", f"without start date the first day is {got}")


def run_scalers(u, ctx):
    rf = lib.rf()
    for shape in ((3,), (3, 2), (2, 4)):
        v = np.arange(float(np.prod(shape))).reshape(shape) ** 2
        for rng in ((0, 1), (-1, 1), (5, 2)):
            for inp in (None, (0.0, 10.0)):
                mk = (lambda **k: rf.scalers.MinMax(rng, **k))
                for opt in (dict(), dict(input_range=inp)):
                    if inp is not None and not opt:
                        continue
                    for fit in ("fit", "fit_transform"):
                        def f(**k):
                            s = mk(**opt)
                            getattr(s, fit)(v, **k)
                            return s.transform(v)
                        compare(ctx, "scaler", f, fit, (), [("axis", 0, (0, None))], f"{shape} {rng} {inp}")
                compare(ctx, "scaler", lambda **k: mk(**k).fit(v).transform(v), "MinMax", (), [("input_range", None, (None, (0.0, 10.0)))], f"{shape} {rng}")
        compare(ctx, "scaler", lambda **k: rf.scalers.Dummy(**k).fit(v).transform(v), "Dummy", (),
                [("output_range", None, (None, (0, 1))), ("input_range", None, (None, (0, 1)))], f"{shape}")


def run_wells(u, ctx):
    """Settings of a well which are not given: no target, no limit, no skin."""
    rf = lib.rf()
    for q, s, r, pwf in itertools.product((None, -20.0), (None, 0.0, 2.0), (None, 3.0), (None, 3000.0)):
        given = {k: v for k, v in (("q", q), ("s", s), ("r", r), ("pwf", pwf)) if v is not None}
        out = []
        for k in (given, dict(q=q, s=s, r=r, pwf=pwf), dict(given, well=None)):
            try:
                with lib.quiet():
                    g, f = parts()
                    m = rf.models.BlackOil(g, f, pi=4000.0)
                    m.set_well(cell_id=2, **k)
                    m.set_boundaries({0: ("pressure", 3900.0)})
                    m.compile("numerical", "FDM")
                    m.solve(isolver=None, check_MB=False)
                out.append(canon((sorted((str(a), str(b)) for a, b in m.wells[2].items()), m.solution.pressures, m.solution.rates), 10))
            except Exception as e:
                out.append(type(e).__name__)
        ctx.trans(2)
        ctx.state(("well", str(given), str(out[0])))
        if out[0] != out[1] or out[0] != out[2]:
            ctx.fail("well", f"set_well({given}) differs from the same with the rest given as None: {str(out)[:500]}")
        ctx.trace()


def simple(sparse=None, verbose=False, fs=None, n=(3, 1, 1), **k):
    rf = lib.rf()
    g, f = parts(fs, n)
    m = rf.models.BlackOil(g, f, pi=4000.0)
    m.set_well(cell_id=2, q=-20.0, r=3.0, s=0.0)
    m.set_boundaries({0: ("pressure", 3900.0)})
    m.compile("numerical", "FDM", **({} if sparse is None else dict(sparse=sparse)))
    return m


def run_compile(u, ctx):
    import scipy.sparse as ss
    for vect in B2:
        with lib.quiet():
            a, b = simple(), simple(True)
            for m in (a, b):
                m.solve(vectorize=vect, isolver=None)
        ctx.eq("compile:sparse", (a.solution.sparse, ss.issparse(a.solution.As[-1]) if len(a.solution.As) else None),
               (True, ss.issparse(b.solution.As[-1]) if len(b.solution.As) else None))
        ctx.eq("compile:names", (list(a.get_solutions()), a.solution.name), (list(b.get_solutions()), b.solution.name))
        ctx.close("compile:values", a.solution.pressures, b.solution.pressures, rtol=1e-12)
        ctx.trace()


def history(m):
    s = m.solution
    return np.array(s.pressures, float), np.array(s.rates, float)


OPTS_SOLVE = [("threading", False, (True,)), ("vectorize", True, (False,)), ("check_MB", True, (False,)), ("update", True, (False,)),
              ("print_arrays", False, ()), ("isolver", "cgs", (None, "bicgstab"))]
OPTS_RUN = [("nsteps", 10, (2,)), ("threading", True, (False,)), ("vectorize", True, (False,)), ("check_MB", True, (False,)),
            ("print_arrays", False, ()), ("isolver", None, ("cgs",))]


def stepping(ctx, name, opts):
    import io
    import contextlib
    for given, full in calls(opts):
        res = []
        for k in (given, full):
            with lib.quiet():
                m = simple()
            out = io.StringIO()
            with lib.quiet(), contextlib.redirect_stdout(out):
                getattr(m, name)(**k)
            text = out.getvalue()
            res.append((m, history(m), "step:" in text, m.solution.tstep, m.solution.nsteps))
        ctx.trans()
        ctx.state((name, str(given)))
        (ma, ha, pa, ta, na), (mb, hb, pb, tb, nb) = res
        msg = f"{name}({given}) instead of {name}({full})"
        ctx.eq(f"{name}:steps", (ta, na, ha[0].shape), (tb, nb, hb[0].shape), msg=msg)
        ctx.eq(f"{name}:printed", pa, pb, msg=msg)
        if ha[0].shape == hb[0].shape:
            ctx.close(f"{name}:pressures", np.nan_to_num(ha[0]), np.nan_to_num(hb[0]), rtol=1e-6, msg=msg)
            ctx.close(f"{name}:rates", np.nan_to_num(ha[1]), np.nan_to_num(hb[1]), rtol=1e-4, atol=1e-3, msg=msg)
        ctx.trace()


def run_solve(u, ctx):
    stepping(ctx, "solve", OPTS_SOLVE)


def run_run(u, ctx):
    stepping(ctx, "run", OPTS_RUN)


def run_analytical(u, ctx):
    def make():
        g, f = parts()
        m = lib.rf().models.BlackOil(g, f, pi=4000.0, dt=2)
        m.set_boundaries({0: ("pressure", 3000.0), 4: ("pressure", 1000.0)})
        m.compile("analytical", "D1P1")
        return m

    for given, full in calls([("nsteps", 10, (3,)), ("threading", True, (False,)), ("vectorize", True, ()), ("check_MB", True, ()),
                              ("print_arrays", False, ()), ("isolver", None, ())]):
        with lib.quiet():
            a, b = make(), make()
            a.run(**given)
            b.run(**full)
        ctx.eq("analytical:shape", np.shape(a.solution.pressures), np.shape(b.solution.pressures), given=str(given))
        ctx.close("analytical:run", a.solution.pressures, b.solution.pressures, rtol=1e-12, given=str(given))
        ctx.trace()
    with lib.quiet():
        m = make()
        m.run(4)
    s = m.solution
    for given, full in calls([("N", 1000, (50,)), ("scale", False, B2), ("output_range", [-1, 1], ([0, 2],)), ("clean", True, (True, False))]):
        with lib.quiet():
            a, b = s.calc_solution(**given), s.calc_solution(**full)
        ctx.close("analytical:points", a[0], b[0], rtol=1e-12, given=str(given))
        ctx.close("analytical:values", a[1], b[1], rtol=1e-12, given=str(given))
        ctx.state(("calc", str(given)))


def run_units(u, ctx):
    """set_units() without a name: field."""
    for start in ("field", "metric", "lab"):
        for who in ("grid", "fluid"):
            o = [lib.make_grid(dict(n=(2, 1, 1), d=(1, 1, 1), k=(1, None, None), phi=0.1, unit=start)),
                 lib.make_fluid(dict(mu=1, B=1, unit=start))][who == "fluid"]
            with lib.quiet():
                o.set_units()
            want = lib.make_fluid(dict(mu=1, B=1, unit="field"))
            ctx.eq("units", (o.unit, o.units, o.factors), ("field", want.units, want.factors), start=start, who=who)
    ctx.trace()


def seen(pl):
    """What was drawn, without looks."""
    out = []
    for v in pl.rec["shown"] + pl.rec["frames"]:
        out.append(canon([[(g["centers"], g["scalars"] if g["scalars"] is None else g["scalars"], g["clim"], g["preference"]) for g in v["grids"]],
                               [t["bounds"] for t in v["tubes"]], v["texts"]], 6))
    s = pl.rec["slider"]
    return (out, len(pl.rec["meshes"]), canon(pl.rec["labels"], 6), canon(pl.rec["points"], 6), None if s is None else canon(s[1:], 9),
            pl.rec["gif"], pl.rec["bars"], len(pl.renderer.actors) if hasattr(pl, "renderer") else None)


def run_view(u, ctx):
    what = u["what"]
    with lib.quiet():
        m, R, sc = d01.history(1)
    if what == "grid":
        f = m.grid.show
        opts = [("label", None, ("id", None)), ("boundary", False, B2), ("corners", False, (True,)), ("ruler", False, (True,)), ("desc", False, (True,)),
                ("title", None, ("t",)), ("static", False, ()), ("notebook", False, ())]
    elif what == "model":
        f = m.show
        opts = [("prop", "pressures", ("rates",)), ("label", None, ()), ("boundary", False, (True,)), ("wells", True, (False,)), ("ruler", False, ()),
                ("desc", False, ()), ("info", True, (False,)), ("cbar", True, (False,)), ("title", None, ("t",)), ("static", False, (True,)),
                ("notebook", False, (True,))]
    elif what == "gif":
        f = m.save_gif
        opts = [("prop", "pressures", ("rates",)), ("label", None, ()), ("boundary", False, (True,)), ("wells", True, (False,)), ("ruler", False, ()),
                ("desc", False, ()), ("info", True, (False,)), ("cbar", True, ()), ("title", None, ()), ("fps", 10, (3,)),
                ("file_name", "grid_animated.gif", ("b.gif",))]
    else:
        return plots(m, ctx)
    memo = {}

    def drawn(k):
        key = str(sorted(k.items(), key=str))
        if key not in memo:
            del v01.LOG[:]
            with lib.quiet():
                f(**k)
            memo[key] = [seen(p) for p in v01.LOG]
            for p in v01.LOG:
                try:
                    p.deep_clean()
                except Exception:
                    pass
        return memo[key]

    for given, full in calls(opts):
        if len(given) > 2:
            continue
        ctx.trans()
        a, b = drawn(given), drawn(full)
        ctx.state((what, str(given)))
        if a != b:
            ctx.fail(f"view:{what}", f"{f.__name__}({given}) draws {str(a)[:400]}, with {full} {str(b)[:400]}")
    ctx.trace()


def plots(m, ctx):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    def drawn(f, k):
        plt.close("all")
        with lib.quiet():
            f(**k)
        out = []
        for n in plt.get_fignums():
            for ax in plt.figure(n).axes:
                out.append([ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), [canon(ln.get_xydata(), 9) for ln in ax.lines]])
        plt.close("all")
        return out

    for f, opts in ((m.plot, [("prop", "pressures", ("pressures", "rates")), ("id", None, (1, 2)), ("tstep", None, (1, 2))]),
                    (m.plot_grid, [("property", "pressures", ("pressures", "rates")), ("tstep", None, (0, 2))])):
        show, plt.show = plt.show, lambda *a, **k: None
        try:
            for given, full in calls(opts):
                ctx.trans()
                a, b = drawn(f, given), drawn(f, full)
                ctx.state((f.__name__, str(given)))
                if a != b:
                    ctx.fail(f"view:{f.__name__}", f"{f.__name__}({given}) draws {str(a)[:300]}, with {full} {str(b)[:300]}")
        finally:
            plt.show = show
    ctx.trace()
