"""V01: the viewer and the animation are given the stored values of the step they name."""
import itertools
import math
import os
import re

import numpy as np

from .. import lib, ref, sim
from . import d01

ASSUME = ["no graphics here: everything up to the renderer is the real viewer library (meshes, mappers, texts, labels, sliders); "
          "rendering itself, opening a window and encoding GIF frames are stand-ins which record what the renderer would be given",
          "fractions of a step on the slider: the view is that of one of the two neighboring steps"]
BOUNDS = {
    "quick": "6 numerical histories (0-3 steps, 1D/2D/3D, wells) and 2 analytical x {p, q} x boundary x interactive/static/notebook: every slider position, "
             "all sequences of 3 positions (with halves), every GIF frame; 15 labels x boundary x 12 grids; "
             "all sequences of 3 out of 9 views and operations on one model",
    "thorough": "9 numerical histories, sequences of 4 positions and of 4 views"}
LABELS = ["id", "i", "coords", "icoords", "dx", "dy", "dz", "Ax", "area_x", "Ay", "area_y", "Az", "area_z", "V", "volume", "center", "centers"]
GRIDS = [((3, 1, 1), 1), ((1, 3, 1), 0), ((1, 1, 3), 1), ((3, 2, 1), 1), ((2, 1, 3), 1), ((1, 2, 3), 0), ((2, 3, 2), 1), ((3, 2, 2), 0)]
ACTIONS = [("show", "p", False), ("show", "q", True), ("show", "p", True), ("gif", "q", False), ("gif", "p", True),
           ("grid", "id", True), ("step",), ("table",), ("well",)]
LOG = []


def before_import():
    import pyvista as pv
    try:
        from vtkmodules.vtkCommonCore import vtkLogger
        vtkLogger.SetStderrVerbosity(vtkLogger.VERBOSITY_OFF)
    except ImportError:
        pass
    pv.set_jupyter_backend = lambda name, *a, **k: BACKENDS.append(name)

    class Recorder(pv.Plotter):
        """The real plotter up to the renderer."""

        def __init__(self, *a, **k):
            super().__init__(*a, **{**k, "off_screen": True, "notebook": False})
            self.rec = dict(meshes=[], texts=[], labels=[], points=[], slider=None, frames=[], shown=[], gif=None, closed=0, bars=[])
            LOG.append(self)

        def add_mesh(self, mesh, *a, **k):
            actor = super().add_mesh(mesh, *a, **k)
            if hasattr(self, "rec"):
                self.rec["meshes"].append((mesh, actor, k))
            return actor

        def add_text(self, text, *a, **k):
            actor = super().add_text(text, *a, **k)
            self.rec["texts"].append(actor)
            return actor

        def add_point_labels(self, points, labels, *a, **k):
            self.rec["labels"].append((np.array(points, float), [np.array(x).tolist() for x in labels]))
            return super().add_point_labels(points, labels, *a, **k)

        def add_points(self, points, *a, **k):
            self.rec["points"].append(np.array(points, float))

        def add_slider_widget(self, callback, rng, value=None, **k):
            self.rec["slider"] = (callback, tuple(rng), value)
            # created as the library does: the callback runs with the initial value
            return super().add_slider_widget(callback, rng, value=value, **k)

        def add_scalar_bar(self, *a, **k):
            self.rec["bars"].append(k.get("title", a[0] if a else None))
            return super().add_scalar_bar(*a, **k)

        def open_gif(self, filename, *a, **k):
            self.rec["gif"] = (filename, k.get("fps"))

        def write_frame(self, *a, **k):
            self.rec["frames"].append(view(self))

        def show(self, *a, **k):
            self.rec["shown"].append(view(self))

        def render(self, *a, **k):
            pass

        def close(self, *a, **k):
            if hasattr(self, "rec"):
                self.rec["closed"] += 1

    pv.Plotter = Recorder


BACKENDS = []


def view(pl):
    """What the renderer would draw now."""
    grids, tubes = [], []
    for mesh, actor, k in pl.rec["meshes"]:
        data = actor.mapper.dataset
        sc = data.active_scalars if actor.mapper.scalar_visibility else None
        item = dict(centers=np.array(data.cell_centers().points, float), bounds=tuple(data.bounds),
                    scalars=None if sc is None else np.array(sc, float), clim=tuple(actor.mapper.scalar_range),
                    cells=data.n_cells, preference=getattr(data, "active_scalars_info", (None,))[0])
        (grids if type(data).__name__ == "ExplicitStructuredGrid" else tubes).append(item)
    texts = []
    for t in pl.rec["texts"]:
        texts.append(t.GetInput() if hasattr(t, "GetInput") else t.input)
    return dict(grids=grids, tubes=tubes, texts=texts)


def plan(tier):
    th = tier == "thorough"
    out = []
    for h in list(range(9 if th else 6)) + ["a0", "a1"]:
        for prop, b in itertools.product(("p", "q"), (False, True)):
            if str(h)[0] == "a" and prop == "q":
                continue
            out.append(dict(kind="model", h=h, prop=prop, b=b, depth=4 if th else 3))
    for g in range(len(GRIDS)):
        out.append(dict(kind="grid", g=g))
    for first in range(len(ACTIONS)):
        out.append(dict(kind="seq", first=first, depth=4 if th else 3))
    out.append(dict(kind="refused"))
    return out


def history(h):
    if str(h)[0] != "a":
        return d01.history(h)
    gs = dict(n=(3 + int(h[1]), 1, 1), d=(100.0, 350.0, 40.0), k=(1.0, None, None), phi=0.1, z=0.0, comp=1e-6, unit="field")
    sc = dict(grid=gs, fluid=dict(mu=0.5, B=1.2, comp=3e-5, unit="field"), pi=4000.0, dt=2, start=None)
    m = sim.make_model(sc)
    R = ref.RefGrid(gs["n"])
    m.set_boundaries({0: ("pressure", 1000.0), R.N - 1: ("pressure", 3000.0)})
    m.compile("analytical", "D1P1")
    m.run(3 + int(h[1]))
    return m, R, sc


def values(m, R, prop, b):
    a = np.array(m.solution.pressures if prop[0].lower() == "p" else m.solution.rates, float)
    return a[:, R.ids(b)]


def match(ctx, key, R, item, ids, want, msg):
    """Scalars of a drawn grid, cell by cell by position."""
    pos = np.array([R.center(i) for i in ids])
    ctx.trans()
    if item["cells"] != len(ids):
        return ctx.fail(key + "cells", f"{msg}: {item['cells']} cells drawn, expected {len(ids)}")
    if item["scalars"] is None or item["scalars"].shape != (len(ids),):
        return ctx.fail(key + "values", f"{msg}: no value per cell is drawn: {item['scalars']}")
    left = set(range(len(ids)))
    for c, v in zip(item["centers"], item["scalars"]):
        d = np.abs(pos - c).max(axis=1)
        x = int(d.argmin())
        if d[x] > 1e-3 * np.abs(pos).max() or x not in left:
            return ctx.fail(key + "place", f"{msg}: a box at {c.tolist()} is no cell or drawn twice")
        left.discard(x)
        w = want[x]
        if math.isnan(w) != math.isnan(v) or abs(v - w) > 1e-5 * (1 + abs(w)):
            return ctx.fail(key + "values", f"{msg}: cell {ids[x]} is drawn with {v}, stored {w}")
    return True


def texts(v):
    out = {}
    for t in v["texts"]:
        for k, pat in (("date", r"current date:\s*(.*)"), ("step", r"current timestep:\s*(-?\d+)"), ("pi", r"initial pressure:\s*(.*)"),
                       ("avg", r"avg pressure:\s*(.*)"), ("min", r"min pressure:\s*(.*)"), ("max", r"max pressure:\s*(.*)")):
            g = re.search(pat, t)
            if g:
                out[k] = g.group(1).strip()
    return out


def check_view(ctx, key, m, S, R, v, prop, b, steps, info=True, wells=True, msg=""):
    """The view belongs to one of the given steps, in all its parts."""
    if len(v["grids"]) != 1:
        return ctx.fail(key + "grids", f"{msg}: {len(v['grids'])} grids drawn")
    g, ids, hist = v["grids"][0], R.ids(b), values(m, R, prop, b)
    tx = texts(v)
    if info:
        if set(tx) != {"date", "step", "pi", "avg", "min", "max"}:
            return ctx.fail(key + "info", f"{msg}: info texts {tx}")
        if int(tx["step"]) not in steps:
            return ctx.fail(key + "step", f"{msg}: step {tx['step']} is named, expected {steps}")
        t = int(tx["step"])
        if tx["date"] != S.dates()[t]:
            ctx.fail(key + "date", f"{msg}: date {tx['date']}, expected {S.dates()[t]}")
        for k, f in (("avg", np.nanmean), ("min", np.nanmin), ("max", np.nanmax)):
            row = hist[t]
            if not np.isnan(row).all() and abs(float(tx[k]) - f(row)) > 0.5 + 1e-6:
                ctx.fail(key + k, f"{msg}: {k} {tx[k]}, stored {f(row)}")
        if tx["pi"] != "None" and abs(float(tx["pi"]) - m.pi) > 1e-9:
            ctx.fail(key + "pi", f"{msg}: initial pressure {tx['pi']}, given {m.pi}")
    else:
        if tx:
            ctx.fail(key + "info", f"{msg}: info was not asked for: {tx}")
        t = [t for t in steps if np.allclose(np.nan_to_num(g["scalars"], nan=-1e9), np.nan_to_num(hist[t], nan=-1e9), rtol=1e-5)]
        t = t[0] if t else steps[0]
    ok = match(ctx, key, R, g, ids, hist[t], f"{msg} step {t}")
    if np.nanmin(hist) < np.nanmax(hist):     # the library widens an empty range
        ctx.close(key + "limits", g["clim"], (np.nanmin(hist), np.nanmax(hist)), rtol=1e-6, msg=msg)
    want = sorted(m.wells) if wells else []
    if len(v["tubes"]) != len(want):
        ctx.fail(key + "wells", f"{msg}: {len(v['tubes'])} wells drawn, expected {len(want)}")
    for tube, w in zip(v["tubes"], list(m.wells)):
        c, r = R.center(w), float(m.wells[w]["r"])
        x0, x1, y0, y1, z0, z1 = tube["bounds"]
        tol = 1e-3 * (r + max(c))
        if abs((x0 + x1) / 2 - c[0]) > tol or abs((y0 + y1) / 2 - c[1]) > tol or not z0 <= c[2] + tol or not z1 >= c[2] - tol:
            ctx.fail(key + "well-place", f"{msg}: well {w} drawn at {tube['bounds']}, its cell is at {c}")
        if abs(max(x1 - x0, y1 - y0) / 2 - r) > 0.02 * r:
            ctx.fail(key + "well-radius", f"{msg}: well {w} drawn with radius {(x1 - x0) / 2}, set {r}")
    return ok


def snapshot(m):
    s = m.solution
    out = [np.array(s.pressures, float)]
    for k in ("rates", "As", "ds"):
        if getattr(s, k, None) is not None:
            out.append(np.array(getattr(s, k), float))
    out += [np.array(m.grid.get_cells_center(True, False, False), float), np.array(m.grid.get_cells_d("x", True, False), float),
            np.array(m.grid.get_corners(False), float), np.array([[w, x["r"]] for w, x in m.wells.items()], float)]
    return out


def same(ctx, m, before, msg):
    after = snapshot(m)
    ctx.trans()
    if len(after) != len(before) or not all(a.shape == c.shape and np.array_equal(a, c, equal_nan=True) for a, c in zip(after, before)):
        ctx.fail("read-only", f"{msg}: drawing changed the model")


def last():
    return LOG[-1]


def run(u, ctx):
    if u["kind"] == "grid":
        return grids(u, ctx)
    if u["kind"] == "seq":
        return sequences(u, ctx)
    if u["kind"] == "refused":
        return refused(u, ctx)
    with lib.quiet():
        m, R0, sc = history(u["h"])
    S = d01.Spec(m, R0, sc, None) if str(u["h"])[0] != "a" else None
    R = sim.make_ref(sc).g
    if S is None:
        S = Dates(m, sc)
    n, b = m.solution.tstep + 1, u["b"]
    before = snapshot(m)
    names = dict(p=["p", "pressure", "pressures", "Pressures", "P"], q=["q", "rate", "rates", "Rate", "Q"])[u["prop"]]
    modes = [(s, nb) for s in (False, True) for nb in (False, True)]
    for x, (static, notebook) in enumerate(modes):
        for info, wells, extra in ((True, True, {}), (False, True, dict(cbar=False)), (True, False, dict(ruler=True, desc=True, title="t"))):
            name = names[(x + len(extra)) % len(names)]
            del LOG[:]
            with lib.quiet():
                m.show(prop=name, boundary=b, static=static, notebook=notebook, info=info, wells=wells, **extra)
            msg = f"{name} boundary={b} static={static} notebook={notebook} info={info}"
            if len(LOG) != 1 or len(last().rec["shown"]) != 1:
                return ctx.fail("shown", f"{msg}: {len(LOG)} windows")
            pl = last()
            check_view(ctx, "show:", m, S, R, pl.rec["shown"][0], name, b, [n - 1], info, wells, msg)
            if static and notebook:
                if pl.rec["slider"] is not None:
                    ctx.fail("slider", f"{msg}: a static picture has a slider")
                continue
            if pl.rec["slider"] is None:
                ctx.fail("slider", f"{msg}: no slider")
                continue
            cb, rng, val = pl.rec["slider"]
            ctx.eq("slider-range", (float(rng[0]), float(rng[1]), float(val)), (0.0, float(n - 1), float(n - 1)), msg=msg)
            pos = [float(t) for t in range(n)] + [t + 0.5 for t in range(n - 1)]
            depth = u["depth"] if x == 0 and info and wells else 1
            for seq in itertools.product(pos, repeat=depth):
                with lib.quiet():
                    for p in seq:
                        cb(p)
                p = seq[-1]
                steps = sorted({int(math.floor(p)), int(math.ceil(p))})
                if not check_view(ctx, "slide:", m, S, R, view(pl), name, b, steps, info, wells, f"{msg} positions {seq}"):
                    return
                ctx.state((u["h"], u["prop"], b, static, notebook, seq))
            ctx.trace()
    for info, wells, fps in ((True, True, 10), (False, False, 3)):
        del LOG[:]
        with lib.quiet():
            m.save_gif(prop=names[fps % 4], boundary=b, info=info, wells=wells, fps=fps, file_name="a.gif")
        pl = last()
        ctx.eq("gif-file", pl.rec["gif"], ("a.gif", fps))
        ctx.eq("gif-frames", len(pl.rec["frames"]), n)
        ctx.eq("gif-closed", pl.rec["closed"] > 0, True)
        for t, f in enumerate(pl.rec["frames"][:n]):
            check_view(ctx, "gif:", m, S, R, f, u["prop"], b, [t], info, wells, f"frame {t}")
            ctx.state((u["h"], u["prop"], b, "gif", t))
        ctx.trace()
    same(ctx, m, before, str(u))
    ctx.sample(dict(u=u, steps=n))


class Dates:
    def __init__(self, m, sc):
        self.time = [t * sc["dt"] for t in range(m.solution.tstep + 1)]
        self.sc = sc

    dates = d01.Spec.dates


def label(R, name, i, b):
    ids = R.ids(b)
    c = R.cells[i]
    if name == "coords":
        return tuple(c)
    if name == "id":
        return i
    if name == "i":
        return ids.index(i)
    if name in ("dx", "dy", "dz"):
        return R.d("xyz".index(name[1]), i)
    if name in ("Ax", "Ay", "Az", "area_x", "area_y", "area_z"):
        return R.area("xyz".index(name[-1]), i)
    if name in ("V", "volume"):
        return R.vol(i)
    return R.center(i)


def grids(u, ctx):
    n, pat = GRIDS[u["g"]]
    d = [300.0, 350.0, 40.0]
    if pat:
        d = [[d[a] * (1 + 0.2 * ((i * 3 + a) % 4)) for i in range(m + 2)] if m > 1 else d[a] for a, m in enumerate(n)]
    for unify in (True, False):
        gs = dict(n=n, d=d, k=(10.0, 10.0, 10.0), phi=0.2, z=0.0, comp=1e-6, unit="field", unify=unify)
        g = lib.make_grid(gs)
        R = ref.RefGrid(n, d)
        for b, lab, op, static in itertools.product((False, True), LABELS + [None, False, "sphere"], (0.9, 1.0), (False, True)):
            del LOG[:]
            with lib.quiet():
                g.show(label=lab, boundary=b, opacity=op, static=static, notebook=static, corners=lab == "id", ruler=lab == "i", desc=lab == "id")
            msg = f"label={lab} boundary={b} opacity={op} unify={unify}"
            if len(LOG) != 1 or len(last().rec["shown"]) != 1:
                return ctx.fail("shown", f"{msg}: {len(LOG)} windows")
            v, rec, ids = last().rec["shown"][0], last().rec, R.ids(b)
            if len(v["grids"]) != 1:
                return ctx.fail("grid:grids", f"{msg}: {len(v['grids'])} grids")
            item = dict(v["grids"][0], scalars=np.zeros(len(ids)))
            match(ctx, "grid:", R, item, ids, [0.0] * len(ids), msg)
            labels = list(rec["labels"])
            if lab == "id":     # corners: each point is named by its own place
                pts, txt = labels.pop(0)
                ctx.close("corners", txt, pts, rtol=1e-6, msg=msg)
                ctx.close("corner-box", (pts.min(axis=0), pts.max(axis=0)),
                          (np.array([item["bounds"][x] for x in (0, 2, 4)]), np.array([item["bounds"][x] for x in (1, 3, 5)])), rtol=1e-6)
            drawn = op < 1 and lab
            if lab == "sphere":
                ctx.eq("spheres", len(rec["points"]), int(op < 1), msg=msg)
                if rec["points"]:
                    ctx.close("spheres", sorted(rec["points"][0].tolist()), sorted(list(R.center(i)) for i in ids), rtol=1e-5)
                continue
            ctx.eq("labels", len(labels), int(bool(drawn)), msg=msg)
            if not drawn or len(labels) != 1:
                continue
            pts, txt = labels[0]
            ctx.eq("labels-count", (len(pts), len(txt)), (len(ids), len(ids)), msg=msg)
            pos = np.array([R.center(i) for i in ids])
            field = np.arange(R.N).reshape(R.fshape(True, unify))
            seen = set()
            for p, t in zip(pts, txt):
                x = int(np.abs(pos - p).max(axis=1).argmin())
                seen.add(x)
                ctx.trans()
                if np.abs(pos[x] - p).max() > 1e-3 * np.abs(pos).max():
                    ctx.fail("label-place", f"{msg}: label {t} at {p.tolist()}")
                    break
                i = ids[x]
                if lab == "icoords":
                    ok = int(field[tuple(int(y) for y in t)]) == i
                else:
                    w = label(R, lab, i, b)
                    ok = np.allclose(np.array(t, float), np.array(w, float), rtol=1e-6)
                if not ok:
                    ctx.fail("label", f"{msg}: cell {i} is labeled {t}")
                    break
            ctx.eq("labels-all", len(seen), len(ids), msg=msg)
            ctx.state((n, unify, b, lab, op))
        ctx.trace()


def sequences(u, ctx):
    """All orders of views and operations: each view is that of the model as it is then."""
    for rest in itertools.product(range(len(ACTIONS)), repeat=u["depth"] - 1):
        seq = [ACTIONS[x] for x in (u["first"],) + rest]
        if seq[-1][0] not in ("show", "gif", "grid"):
            continue
        with lib.quiet():
            m, R0, sc = history(1)
        R = sim.make_ref(sc).g
        pending = []
        for e in seq:
            ctx.trans()
            S = Dates(m, sc)
            n = m.solution.tstep + 1
            del LOG[:]
            before = snapshot(m) if e[0] in ("show", "gif", "grid", "table") else None
            with lib.quiet():
                if e[0] == "show":
                    m.show(prop=e[1], boundary=e[2])
                elif e[0] == "gif":
                    m.save_gif(prop=e[1], boundary=e[2])
                elif e[0] == "grid":
                    m.grid.show(label=e[1], boundary=e[2])
                elif e[0] == "step":
                    m.solve(isolver=None, check_MB=False)
                elif e[0] == "table":
                    m.get_df(columns=["time", "cells"], melt=True, units=True)
                elif e[0] == "well":
                    pending.append(1)
                    m.set_well(cell_id=R.interior[1], q=-5.0 * len(pending), r=1.5)
            if before is not None:
                same(ctx, m, before, f"{seq}: {e}")
            if e[0] == "show":
                if not check_view(ctx, "order:", m, S, R, last().rec["shown"][0], e[1], e[2], [n - 1], msg=str(seq)):
                    return
                # a window which is still open after a later step: its slider covers the steps of its time
            elif e[0] == "gif":
                if len(last().rec["frames"]) != n:
                    return ctx.fail("order:frames", f"{seq}: {len(last().rec['frames'])} frames, {n} steps")
                for t, f in enumerate(last().rec["frames"]):
                    if not check_view(ctx, "order:", m, S, R, f, e[1], e[2], [t], msg=str(seq)):
                        return
            elif e[0] == "grid":
                pts, txt = last().rec["labels"][0]
                pos = np.array([R.center(i) for i in range(R.N)])
                got = [int(np.abs(pos - p).max(axis=1).argmin()) for p in pts]
                if got != [int(t) for t in txt]:
                    return ctx.fail("order:labels", f"{seq}: labels {txt} at cells {got}")
        ctx.state(tuple(seq))
        ctx.trace()


def refused(u, ctx):
    with lib.quiet():
        m, R0, sc = history(0)
    pv = lib.rf().utils.pyvista
    for what, call in (("property", lambda: m.show(prop="temperature")), ("property", lambda: m.show(prop="")),
                       ("property", lambda: m.save_gif(prop="x")), ("label", lambda: m.show(label="kx")), ("label", lambda: m.grid.show(label="name")),
                       ("mode", lambda: pv.set_mode("blue"))):
        ctx.trans()
        try:
            with lib.quiet():
                call()
        except ValueError:
            pass
        else:
            ctx.fail("refused", f"unknown {what} was accepted")
    for mode, back, text in (("dark", "black", "white"), ("light", "white", "black"), ("black", "black", "white"), ("white", "white", "black"), ("dark", "black", "white")):
        del LOG[:]
        with lib.quiet():
            pv.set_mode(mode)
            m.show()
        ctx.eq("mode", str(last().background_color.name), back, mode=mode)
        ctx.eq("mode-text", str(pv.TEXT_COLOR), text, mode=mode)
    ctx.state("refused")
    ctx.trace()
