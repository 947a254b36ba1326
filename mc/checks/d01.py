"""D01: tables, time, centers are the stored histories and nothing else."""
import datetime
import itertools
import os

import numpy as np

from .. import core, lib, ref, sim
from . import s01

ASSUME = ["the stored histories (pressures, rates, well pressures) are checked by S01-S08; here only their presentation",
          "melted tables have no well columns; dates: whole days or fractions of days from a date object",
          "scaled tables are checked for models with at least one timestep (a single value has no range)"]
BOUNDS = {
    "quick": "6 histories (0 and 3 steps, wells, replaced boundary pressures, decimal timestep) x all column lists of length 1 and 2 out of 10 names "
             "x boundary x units x melt x scale x drop_nan x drop_zero; "
             "on 2 histories all sequences of 3 out of 14 questions, scaler refits, scaler settings and solved steps; one history of 12 steps and 12 cells, one with tiny rates and timesteps",
    "thorough": "9 histories, column lists of length 3 in addition, 4 scaler settings, sequences on 4 histories and of 4 events on one"}
NAMES = ["time", "t", "Date", "cells", "rates", "p", "wells", "cells_rate", "wells_pressure", "CELLS_PRESSURE"]
KIND = {"time": ["T"], "t": ["T"], "date": ["D"], "d": ["D"],
        "q": ["cr", "wr"], "rates": ["cr", "wr"], "cells": ["cr", "cp"], "cells_rate": ["cr"],
        "p": ["cp", "wp"], "pressures": ["cp", "wp"], "cells_pressure": ["cp"],
        "wells": ["wr", "wp"], "wells_rate": ["wr"], "wells_pressure": ["wp"]}
SCAL = [None,
        {"time": ["MinMax", (0, 1)], "space": ["MinMax", (-1, 1)], "pressure": [None, None], "rate": ["minmaxscaler", (0, 2)]},
        {"t": [None, None], "xyz": [None, None], "p": ["MinMax", (2, 3)], "q": ["MinMax", (-1, 1)]},
        {"time": ["MINMAX", (-1, 1)], "x": ["minmax", (0, 1)], "pressures": ["MinMax", (0, 1)], "rates": [None, (0, 1)]}]


def plan(tier):
    th = tier == "thorough"
    out = []
    for h in range(9 if th else 6):
        for b, un, me in itertools.product((True, False), repeat=3):
            for s in range(4 if th else 2):
                out.append(dict(h=h, b=b, un=un, me=me, s=s, depth=3 if th and s == 0 and h < 4 else 2))
        out.append(dict(h=h, kind="vectors"))
        if h in ((0, 1, 3, 5) if th else (1, 3)):
            out += [dict(h=h, kind="seq", first=x, depth=4 if th and h == 1 else 3) for x in range(len(EVENTS))]
    for b, un, me in itertools.product((True, False), repeat=3):
        out.append(dict(h=9, b=b, un=un, me=me, s=int(b), depth=2 if th else 1))
        out.append(dict(h=10, b=b, un=un, me=me, s=int(b), depth=2 if th else 1))
    return out


# questions and operations of one model whose order must not matter to the answers
EVENTS = [("time",), ("centers", True), ("centers", False), ("domain", False),
          ("df", False, True, True), ("df", True, True, True), ("df", True, False, True), ("df", False, False, True), ("df", True, True, False),
          ("update", False), ("update", True), ("scalers", 1), ("scalers", 2), ("step",)]


def history(h):
    """A model with a history, and the dates of its start."""
    shapes = [(3, 1, 1), (2, 2, 1), (1, 3, 1), (3, 1, 1), (2, 1, 1), (2, 2, 2), (1, 2, 2), (4, 1, 1), (3, 2, 1), (12, 1, 1), (3, 1, 1)]
    n = shapes[h]
    R = ref.RefGrid(n)
    gs = s01.grid_spec(n, 1, 2, 1)
    unit = ("field", "field", "metric")[h % 3]
    gs["unit"] = unit
    start = [datetime.date(2018, 12, 30), datetime.date(2020, 2, 27), None][h % 3]
    sc = dict(grid=gs, fluid=dict(mu=0.5, B=1.1, rho=50.0, comp=1e-5, unit=unit), pi=4000.0,
              dt=(1, 3, 0.1, 1, 5, 1, 0.5, 2, 1, 9, 1e-3)[h], start=start)
    if h == 10:
        sc["start"] = "10.11.2018"
    m = sim.make_model(sc)
    if h == 10:
        sc["start"] = datetime.date(2018, 10, 11)
    tiny = 1e-10 if h == 10 else 1.0
    real = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    if R.fdir in ("x", "xy", "xyz") and h != 4:
        m.set_well(cell_id=R.interior[-1], q=-30.0 * tiny, pwf=3900.0, r=3.5, s=1.0)
        m.set_well(cell_id=R.interior[0], q=11.0 * tiny, r=2.5)
    m.set_boundaries({real[0]: ("pressure", 4100.0), real[-1]: ("rate", -4.0 * tiny)})
    m.compile("numerical", "FDM", sparse=h % 2 == 0)
    steps = 0 if h in (4,) else 12 if h == 9 else 3
    for k in range(steps):
        m.solve(isolver=None, check_MB=False)
        if h in (3, 5) and k == 1:      # a boundary pressure ends, another starts
            m.set_boundaries({real[0]: ("rate", 2.0), real[-1]: ("pressure", 3900.0)})
    return m, R, sc


class Spec:
    def __init__(self, m, R, sc, scal):
        self.m, self.R, self.sc = m, sim.make_ref(sc).g, sc
        s = m.solution
        self.n = s.tstep + 1
        self.p, self.q = np.array(s.pressures, float), np.array(s.rates, float)
        self.wells = list(m.wells)
        self.wp = {w: [float(v) for v in m.w_pressures[w]] for w in self.wells}
        self.time = [t * sc["dt"] for t in range(self.n)]
        cfg = dict(T=(0, 1), X=(-1, 1), P=(-1, 1), Q=None)
        if scal is not None:
            cfg = {}
            for k, (typ, rng) in scal.items():
                cfg[{"t": "T", "p": "P", "q": "Q", "r": "Q"}.get(k[0], "X")] = None if typ is None or rng is None else rng
        self.cfg = cfg

    def scaled(self, kind, v):
        rng = self.cfg[kind]
        v = np.asarray(v, float)
        if rng is None:
            return v
        if kind == "T":
            lo, hi = min(self.time), max(self.time)
        elif kind == "X":
            return None
        else:
            a = self.p if kind == "P" else self.q
            # columns which are zero or empty throughout do not count
            cols = [a[:, j] for j in range(a.shape[1]) if not np.isnan(a[:, j]).all() and (a[:, j] != 0).any()]
            lo, hi = np.nanmin(cols), np.nanmax(cols)
        return rng[0] + (v - lo) * (rng[1] - rng[0]) / (hi - lo)

    def label(self, base, kind, units, scale):
        if not units:
            return base
        if scale and self.cfg[kind] is not None:
            return base + " [scaled]"
        return base + {"T": {"field": " [days]", "metric": " [days]"}, "P": {"field": " [psia]", "metric": " [kpa]"},
                       "Q": {"field": " [stb/day]", "metric": " [m^3/day]"}}[kind][self.sc["grid"]["unit"]]

    def dates(self):
        start = self.sc["start"] or datetime.date.today()
        t0 = datetime.datetime(start.year, start.month, start.day)
        return [(t0 + datetime.timedelta(days=t)).strftime("%d.%m.%Y") for t in self.time]

    def centers(self, boundary, scale):
        c = [self.R.center(i) for i in self.R.ids(boundary)]
        c = np.array([[v[a] for a in self.R.flow] for v in c])
        if scale and self.cfg["X"] is not None:
            al = np.array([[self.R.center(i)[a] for a in self.R.flow] for i in range(self.R.N)])
            lo, hi = al.min(axis=0), al.max(axis=0)
            A, B = self.cfg["X"]
            c = A + (c - lo) * (B - A) / (hi - lo)
        return c

    def table(self, columns, boundary, units, melt, scale, drop_nan, drop_zero):
        """List of (label, values)."""
        ids = self.R.ids(boundary)
        out = []
        sc = (lambda k, v: self.scaled(k, v)) if scale else (lambda k, v: np.asarray(v, float))
        if melt:
            out.append(("id", ids * self.n))
            out.append(("Step", [t for t in range(self.n) for _ in ids]))
            c = self.centers(boundary, scale)
            for x, a in enumerate(self.R.flow):
                out.append(("xyz"[a], list(c[:, x]) * self.n))
        for col in columns:
            for kind in KIND[col.lower()]:
                if kind == "T":
                    v = list(sc("T", self.time))
                    out.append((self.label("Time", "T", units, scale), np.repeat(v, len(ids)).tolist() if melt else v))
                elif kind == "D":
                    v = self.dates()
                    out.append(("Date" + (" [d.m.y]" if units else ""), [x for x in v for _ in ids] if melt else v))
                elif kind in ("cr", "cp"):
                    k = "Q" if kind == "cr" else "P"
                    a = sc(k, (self.q if kind == "cr" else self.p)[:, ids])
                    if melt:
                        out.append((self.label(k, k, units, scale), a.flatten().tolist()))
                    else:
                        out += [(self.label(f"{k}{i}", k, units, scale), a[:, x].tolist()) for x, i in enumerate(ids)]
                elif not melt:
                    k = "Q" if kind == "wr" else "P"
                    for w in self.wells:
                        v = self.q[:, w] if kind == "wr" else self.wp[w]
                        out.append((self.label(("Qw" if kind == "wr" else "Pwf") + str(w), k, units, scale), sc(k, v).tolist()))
        isnan = lambda v: isinstance(v, float) and v != v
        if melt:
            if drop_nan:
                rows = [r for r in range(len(out[0][1])) if not any(isnan(v[r]) for _, v in out)]
                out = [(l, [v[r] for r in rows]) for l, v in out]
        else:
            if drop_nan:
                out = [(l, v) for l, v in out if not all(isnan(x) for x in v)]
            if drop_zero:
                out = [(l, v) for l, v in out if any(isnan(x) or x != 0 for x in v)]
        return out


def compare(ctx, key, df, want, msg):
    ctx.trans()
    if [str(c) for c in df.columns] != [l for l, _ in want]:
        ctx.fail(key + "columns", f"{msg}: got {list(df.columns)}, expected {[l for l, _ in want]}")
        return False
    rows = len(want[0][1]) if want else 0
    if want and len(df) != rows:
        ctx.fail(key + "rows", f"{msg}: {len(df)} rows, expected {rows}")
        return False
    if want and list(df.index) != list(range(rows)):
        ctx.fail(key + "index", f"{msg}: index {list(df.index)}")
        return False
    for x, (l, v) in enumerate(want):
        got = df.iloc[:, x].tolist()
        if v and isinstance(v[0], str):
            ok = got == v
        else:
            g, w = np.array(got, float), np.array(v, float)
            s = 1e-9 * (1 + (np.nanmax(np.abs(w)) if w.size and not np.isnan(w).all() else 0))
            ok = np.array_equal(np.isnan(g), np.isnan(w)) and (np.abs(g - w)[~np.isnan(w)] <= s).all()
        if not ok:
            ctx.fail(key + "values", f"{msg}: column {l}: got {got}, expected {v}")
            return False
    return True


def run(u, ctx):
    if u.get("kind") == "vectors":
        return vectors(u, ctx)
    if u.get("kind") == "seq":
        return sequences(u, ctx)
    with lib.quiet():
        m, R, sc = history(u["h"])
        if SCAL[u["s"]] is not None:
            m.set_scalers(SCAL[u["s"]])
    S = Spec(m, R, sc, SCAL[u["s"]])
    before = S.p.copy(), S.q.copy()
    lists = [c for k in range(1, u["depth"] + 1) for c in itertools.product(NAMES[:6] if k == 3 else NAMES, repeat=k)]
    for cols in lists:
        if len({k for c in cols for k in KIND[c.lower()]}) != sum(len(KIND[c.lower()]) for c in cols):
            continue    # same column twice
        for scale, dn, dz in itertools.product((False, True), repeat=3):
            if scale and S.n == 1:
                continue
            a = dict(boundary=u["b"], units=u["un"], melt=u["me"], scale=scale, drop_nan=dn, drop_zero=dz)
            want = S.table(cols, **a)
            with lib.quiet():
                df = m.get_df(columns=list(cols), **a)
            if not compare(ctx, "melt:" if u["me"] else "wide:", df, want, f"{cols} {a}"):
                return
    ctx.state((u["h"], u["b"], u["un"], u["me"], u["s"]))
    # tables only read
    ctx.close("read-only", m.solution.pressures, before[0], rtol=0)
    ctx.close("read-only", m.solution.rates, before[1], rtol=0)
    with lib.quiet():
        for bad in ("temperature", "", "well"):
            try:
                m.get_df(columns=["time", bad])
            except ValueError:
                ctx.trans()
            else:
                ctx.fail("unknown-column", f"column {bad!r} was accepted")
        if S.n > 1:
            import pandas as pd
            df = m.get_df(boundary=u["b"], units=u["un"], melt=u["me"], save=True)
            back = pd.read_csv("model_data.csv")
            os.remove("model_data.csv")
            vals = back[[c for c in back.columns if c in df.columns]]
            ctx.eq("saved-columns", list(vals.columns), list(df.columns))
            ctx.close("saved-values", vals.values, df.values, rtol=1e-9)
            ctx.eq("default-columns", list(df.columns),
                   [l for l, _ in S.table(("time", "cells", "wells"), u["b"], u["un"], u["me"], False, True, True)])
    ctx.trace()
    ctx.sample(dict(u=u, lists=len(lists)))


def vectors(u, ctx):
    """Time, centers and domain."""
    for s in range(4):
        with lib.quiet():
            m, R, sc = history(u["h"])
            if SCAL[s] is not None:
                m.set_scalers(SCAL[s])
        S = Spec(m, R, sc, SCAL[s])
        for scale in (False, True):
            if scale and S.n == 1:
                continue
            wt = (S.scaled("T", S.time) if scale else np.array(S.time)).reshape(-1, 1)
            with lib.quiet():
                ctx.close("time", m.get_time(scale=scale), wt, rtol=1e-12)
                for b in (True, False):
                    c, f = m.get_centers(scale=scale, boundary=b)
                    wc = S.centers(b, scale)
                    ctx.eq("directions", list(f), ["xyz"[a] for a in R.flow])
                    ctx.close("centers", c, wc, rtol=1e-12, atol=1e-12)
                    t2, c2 = m.get_domain(scale, b)
                    ctx.close("domain-time", t2, wt, rtol=1e-12)
                    ctx.close("domain-centers", c2, wc, rtol=1e-12, atol=1e-12)
        with lib.quiet():      # the defaults are those of the signatures: boundaries, no scaling
            ctx.close("default-time", m.get_time(), np.array(S.time).reshape(-1, 1), rtol=1e-12)
            ctx.close("default-centers", m.get_centers()[0], S.centers(True, False), rtol=1e-12, atol=1e-12)
            ctx.close("default-centers", m.get_centers(False)[0], S.centers(True, False), rtol=1e-12, atol=1e-12)
            compare(ctx, "default:", m.get_df(), S.table(("time", "cells", "wells"), True, False, False, False, True, True), "get_df()")
        ctx.state((u["h"], s))
        ctx.trace()


def sequences(u, ctx):
    """All sequences of questions and operations on one model: an answer depends on the
    stored history and the scaler settings, never on what was asked before."""
    for rest in itertools.product(range(len(EVENTS)), repeat=u["depth"] - 1):
        seq = [EVENTS[x] for x in (u["first"],) + rest]
        if seq[-1][0] in ("update", "scalers", "step"):
            continue    # ends without a question
        with lib.quiet():
            m, R, sc = history(u["h"])
        scal, S, cols = None, Spec(m, R, sc, None), ["time", "cells", "wells"]
        for e in seq:
            ctx.trans()
            if e[0] == "update":
                with lib.quiet():
                    m.update_scalers(e[1])
            elif e[0] == "scalers":
                with lib.quiet():
                    m.set_scalers(SCAL[e[1]])
                scal = SCAL[e[1]]
                S = Spec(m, R, sc, scal)
            elif e[0] == "step":
                with lib.quiet():
                    m.solve(isolver=None, check_MB=False)
                S = Spec(m, R, sc, scal)
            elif e[0] == "df":
                a = dict(boundary=e[2], units=True, melt=e[1], scale=e[3], drop_nan=True, drop_zero=False)
                with lib.quiet():
                    df = m.get_df(columns=cols, **a)
                if not compare(ctx, "order:", df, S.table(cols, **a), f"{seq}: {e}"):
                    return
            else:
                wt = S.scaled("T", S.time).reshape(-1, 1)
                wc = S.centers(e[1], True) if len(e) > 1 else None
                with lib.quiet():
                    t = m.get_time(scale=True) if e[0] == "time" else None
                    c = m.get_centers(scale=True, boundary=e[1])[0] if e[0] == "centers" else None
                    if e[0] == "domain":
                        t, c = m.get_domain(True, e[1])
                if t is not None and not ctx.close("order:time", t, wt, rtol=1e-12, msg=str(seq)):
                    return
                if c is not None and not ctx.close("order:centers", c, wc, rtol=1e-12, atol=1e-12, msg=str(seq)):
                    return
        ctx.state((u["h"], tuple(seq)))
        ctx.trace()
