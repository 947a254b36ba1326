"""O01: messages and reports change nothing and state the values of the moment."""
import io
import itertools
import re
import contextlib
import warnings

import numpy as np

from .. import lib

ASSUME = ["wording and order of messages are free: only the numbers and names which a message is about are compared",
          "printed numbers carry numpy's eight digits"]
BOUNDS = {
    "quick": "4 grids x {incompressible, compressible} x {dense, sparse}, talking models against a silent twin: all sequences of 2 (one of the "
             "models: 3) out of 13 operations (wells, boundaries, timesteps of both kinds, printed matrices, runs, reports, refused "
             "requests, switching messages), then a printed and a plain timestep; 3 grids: all sequences of 3 out of 12 property updates "
             "and reports of grid and fluid, 6 formats; sequences of 4 requests to an analytical model",
    "thorough": "6 grids, sequences of 3 operations on 3 of them; sequences of 4 updates and reports, of 5 analytical requests"}

GRIDS = [(n, (300.0, 350.0, 40.0)) for n in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (3, 1, 1), (1, 2, 2))]
OPS = [("well", dict(q=-50.0)), ("well", dict(pwf=2500.0)), ("well", dict(q=-4e4, pwf=3000.0)), ("boundary", "pressure", 3800.0),
       ("boundary", "rate", -20.0), ("solve", dict(vectorize=True)), ("solve", dict(vectorize=False)), ("print",), ("run", None), ("run", "unknown"),
       ("ask",), ("refuse",), ("switch",)]
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan")


def plan(tier):
    th = tier == "thorough"
    out = []
    for g, comp, sparse, first in itertools.product(range(len(GRIDS) if th else 4), (0, 1), (0, 1), range(len(OPS))):
        depth = 3 if th and g < 3 or g == 0 and comp and sparse else 2
        for second in range(len(OPS)) if depth > 2 else (None,):
            out.append(dict(kind="model", g=g, comp=comp, sparse=sparse, first=first, second=second, depth=depth))
    for first in range(len(TALKS)):
        out.append(dict(kind="analytical", first=first, depth=5 if th else 4))
    for g, first in itertools.product(range(6) if th else (0, 3, 5), range(len(UPDATES))):
        out.append(dict(kind="reports", g=g, first=first, depth=4 if th else 3))
    return out


@contextlib.contextmanager
def heard():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield out


def numbers(text):
    return [float(x) for x in NUM.findall(text)]


def has(nums, value):
    return any(abs(x - value) <= 1e-6 * abs(value) + 2e-8 for x in nums if x == x)


def has_all(ctx, key, text, values, seq):
    """Every value is among the printed numbers."""
    nums = numbers(text)
    for v in np.ravel(values):
        ctx.trans()
        if v == v and not has(nums, float(v)):
            ctx.fail(key, f"{float(v)} is not in the message {text[-400:]!r}", seq=str(seq))
            return False
    return True


def build(u, talk):
    n, d = GRIDS[u["g"]]
    c = 1e-5 if u["comp"] else 0
    rf = lib.rf()
    N = int(np.prod([m + 2 if m > 1 else m for m in n]))
    g = rf.grids.RegularCartesian(nx=n[0], ny=n[1], nz=n[2], dx=d[0], dy=d[1], dz=d[2], kx=270.0, ky=200.0, kz=100.0, phi=0.2,
                                  z=np.arange(N) * 1.0, comp=c, verbose=talk)
    f = rf.fluids.SinglePhase(mu=0.5, B=1.1, rho=50.0, comp=c, verbose=talk)
    m = rf.models.BlackOil(g, f, pi=4000.0, dt=2, verbose=talk)
    m.set_boundaries({b: ("pressure", 3900.0) for b in bnds(g)})
    m.compile("numerical", "FDM", sparse=bool(u["sparse"]))
    return m


def bnds(g):
    """The first and the last boundary with a neighbor; the last one changes."""
    out = [int(b) for b in g.get_boundaries() if len(g.get_cell_neighbors(int(b), None, False, "list"))]
    return out[0], out[-1]


def well_cell(g):
    return int(g.get_cells_id(False, False, "list")[0])


def picture(m):
    """What a user sees of a model."""
    s = m.solution
    return dict(p=np.array(s.pressures, float), q=np.array(s.rates, float), t=int(s.tstep), n=int(s.nsteps), dt=m.dt,
                wells={int(c): {k: w[k] for k in ("q", "q_sp", "pwf", "r", "s", "constrain") if k in w} for c, w in m.wells.items()},
                bhp={int(c): np.array(v, float) for c, v in s.w_pressures.items()},
                error=getattr(s, "error", None), bdict={int(c): tuple(v) for c, v in m.bdict.items()})


def same(ctx, a, b, seq):
    for k in ("t", "n", "dt"):
        if not ctx.eq("twin-" + k, a[k], b[k], seq=str(seq)):
            return False
    for k in ("p", "q"):
        if not ctx.close("twin-" + k, a[k], b[k], rtol=1e-9, seq=str(seq)):
            return False
    if not ctx.eq("twin-boundaries", a["bdict"], b["bdict"], seq=str(seq)) or \
            not ctx.eq("twin-wells", sorted(a["wells"]), sorted(b["wells"]), seq=str(seq)):
        return False
    for c, w in a["wells"].items():
        v = b["wells"][c]
        if not ctx.eq("twin-well", sorted(w), sorted(v), seq=str(seq)):
            return False
        for k in w:
            if isinstance(w[k], str) or w[k] is None or v[k] is None or isinstance(v[k], str):
                good = ctx.eq("twin-well-" + k, w[k], v[k], seq=str(seq))
            else:
                good = ctx.close("twin-well-" + k, w[k], v[k], rtol=1e-8, seq=str(seq))
            if not good:
                return False
        if not ctx.close("twin-bhp", a["bhp"].get(c, []), b["bhp"].get(c, []), rtol=1e-9, seq=str(seq)):
            return False
    if (a["error"] is None) != (b["error"] is None) or a["error"] is not None and not abs(a["error"] - b["error"]) <= 1e-6:
        ctx.fail("twin-error", f"balance error {a['error']}, silent {b['error']}", seq=str(seq))
        return False
    return True


def attempt(fn):
    try:
        return "done", fn()
    except Exception as e:
        return "refused " + type(e).__name__, None


def model(u, ctx):
    for rest in itertools.product(range(len(OPS)), repeat=u["depth"] - (1 if u["second"] is None else 2)):
        seq = [OPS[x] for x in (u["first"], u["second"]) + rest if x is not None]
        talk = True
        with heard() as out:
            m = build(u, True)
        has_all(ctx, "said-boundary", "\n".join(x for x in out.getvalue().splitlines() if "pressure" in x), bnds(m.grid), seq)
        with lib.quiet():
            w = build(u, False)
        n = w.grid.get_n(False)
        cell, b = well_cell(w.grid), bnds(w.grid)[1]
        for i, op in enumerate(seq + [("print",), ("solve", dict(vectorize=True))]):
            hist = seq[:i + 1]
            ctx.trans()
            if op[0] == "switch":
                talk = not talk
                for o in (m, m.grid, m.fluid):
                    o.verbose = talk
                continue
            with lib.quiet():
                before = None if op[0] != "ask" else picture(w)
                do = dict(well=lambda x: x.set_well(cell_id=cell, r=3.5, s=0.5, **op[1]),
                          boundary=lambda x: x.set_boundaries({bnds(x.grid)[0]: ("pressure", 3900.0), b: op[1:]}),
                          solve=lambda x: x.solve(isolver=None, **op[1]),
                          print=lambda x: x.solve(isolver=None),
                          run=lambda x: x.run(2, isolver=op[1]),
                          ask=lambda x: x.solution.check_MB() if x.solution.tstep else None,
                          refuse=lambda x: x.set_well(cell_id=10 ** 6, q=-1.0, r=1.0))[op[0]]
                want = attempt(lambda: do(w))[0]
            with heard() as out:
                if op[0] == "print":
                    got = attempt(lambda: m.solve(isolver=None, print_arrays=True))[0]
                elif op[0] == "ask":
                    got = attempt(lambda: (ask(m), m.solution.check_MB(verbose=talk) if m.solution.tstep else None))[0]
                else:
                    got = attempt(lambda: do(m))[0]
            if not ctx.eq("twin-answer", got, want, seq=str(hist), op=str(op)):
                break
            a, z = picture(m), picture(w)
            if not same(ctx, a, z, hist) or before is not None and not same(ctx, dict(z, error=before["error"]), before, hist):
                break
            if not ctx.eq("switch-kept", [bool(o.verbose) for o in (m, m.grid, m.fluid)], [talk] * 3, seq=str(hist)):
                break
            if not said(u, ctx, op, out.getvalue(), m, cell, b, n, talk, got, hist):
                break
            ctx.state((u["g"], u["comp"], u["sparse"], str(hist), i))
        ctx.trace()
    ctx.sample(u)


TALKS = [("run", 1), ("run", 4), ("switch",), ("ask",), ("refuse",), ("pi", 3500.0)]


def analytical(u, ctx):
    """The same for the analytical solution."""
    rf = lib.rf()

    def make(talk):
        g = rf.grids.RegularCartesian(nx=3, ny=1, nz=1, dx=300.0, dy=350.0, dz=40.0, kx=270.0, phi=0.2, z=0.0, comp=1e-6, verbose=talk)
        f = rf.fluids.SinglePhase(mu=0.5, B=1.1, rho=50.0, comp=1e-5, verbose=talk)
        m = rf.models.BlackOil(g, f, pi=4000.0, dt=2, verbose=talk)
        m.set_boundaries({0: ("pressure", 3000.0), 4: ("pressure", 1000.0)})
        m.compile("analytical", "D1P1")
        return m

    for rest in itertools.product(range(len(TALKS)), repeat=u["depth"] - 1):
        seq = [TALKS[x] for x in (u["first"],) + rest]
        talk = True
        with lib.quiet():
            m, w = make(True), make(False)
        for i, op in enumerate(seq + [("run", 2)]):
            hist = seq[:i + 1]
            ctx.trans()
            if op[0] == "switch":
                talk = not talk
                for o in (m, m.grid, m.fluid):
                    o.verbose = talk
                continue
            do = dict(run=lambda x: x.run(op[1]), ask=lambda x: ask(x) if x is m else None,
                      refuse=lambda x: x.set_well(cell_id=10 ** 6, q=-1.0, r=1.0), pi=lambda x: setattr(x, "pi", op[1]))[op[0]]
            with heard() as out:
                got = attempt(lambda: do(m))[0]
            with lib.quiet():
                want = attempt(lambda: do(w))[0]
            if not ctx.eq("twin-answer", got, want, seq=str(hist)) or \
                    not ctx.eq("twin-steps", (int(m.solution.tstep), int(m.solution.nsteps)),
                               (int(w.solution.tstep), int(w.solution.nsteps)), seq=str(hist)) or \
                    not ctx.close("twin-p", m.solution.pressures, w.solution.pressures, rtol=1e-12, seq=str(hist)) or \
                    not ctx.eq("switch-kept", [bool(o.verbose) for o in (m, m.grid, m.fluid)], [talk] * 3, seq=str(hist)):
                break
            if op[0] == "run" and not has_all(ctx, "said-run", "\n".join(x for x in out.getvalue().splitlines() if "steps" in x),
                                              [op[1]], hist):
                break
            ctx.state(("analytical", str(hist)))
        ctx.trace()
    ctx.sample(u)


def ask(m):
    """All reports of all objects."""
    for o in (m, m.grid, m.fluid):
        for fmt in range(6):
            o.report(None, bool(fmt % 2), fmt)
        o.report("unit")
        o.report("no such property")
        str(o), repr(o)
    str(m.compiler), repr(m.compiler)


def said(u, ctx, op, text, m, cell, b, n, talk, got, hist):
    s = m.solution
    lines = text.splitlines()
    if op[0] == "run":
        if got != "done":
            return True
        # a run is announced and summed up, talking or not
        return has_all(ctx, "said-run", "\n".join(x for x in lines if "steps" in x), [2], hist) and \
            has_all(ctx, "said-run-error", "\n".join(x for x in lines if "rror" in x), [s.error], hist)
    if op[0] == "print" and got == "done" and len({k for x in hist if x[0] == "well" for k in x[1]}) < 2:
        # the matrices of both kinds, then the differences; no well changed its control
        at = [i for i, x in enumerate(lines) if "step" in x and "[" not in x and str(int(s.tstep) - 1) in x]
        if not ctx.eq("printed-step", len(at), 1, seq=str(hist)):
            return False
        body = "\n".join(itertools.takewhile(lambda x: "[info]" not in x and "[warning]" not in x, lines[at[0] + 1:]))
        nums = numbers(body)
        if not ctx.eq("printed-size", len(nums), 3 * n * n + 3 * n, seq=str(hist)):
            return False
        A = np.reshape(nums[:3 * n * n], (3, n, n))
        d = np.reshape(nums[3 * n * n:], (n, 3))
        wa, wd = np.abs(s.As[-1]).reshape(n, n), np.abs(s.ds[-1])
        return all([ctx.close("printed-A", np.abs(A[0]), wa, rtol=1e-6, seq=str(hist)),
                    ctx.close("printed-A-vectorized", np.abs(A[1]), wa, rtol=1e-6, seq=str(hist)),
                    ctx.close("printed-A-difference", A[2], 0 * wa, atol=1e-6 * wa.max(), seq=str(hist)),
                    ctx.close("printed-d", np.abs(d[:, 0]), wd, rtol=1e-6, seq=str(hist)),
                    ctx.close("printed-d-vectorized", np.abs(d[:, 1]), wd, rtol=1e-6, seq=str(hist)),
                    ctx.close("printed-d-difference", d[:, 2], 0 * wd, atol=1e-6 * wd.max(), seq=str(hist))])
    if op[0] == "ask":
        good = True
        for o, names in ((m, ("pi", "dt")), (m.fluid, ("mu", "B", "rho", "comp"))):
            for k in names:
                good &= has_all(ctx, "said-report", "\n".join(x for x in lines if re.search(rf"\b{k}\b", x)), [float(getattr(o, k))], hist)
        if talk and s.tstep:
            good &= has_all(ctx, "said-balance", "\n".join(x for x in lines if "rror" in x), [s.error], hist)
        return good
    if not talk or got != "done":
        return True
    if op[0] in ("solve", "print"):
        return has_all(ctx, "said-pressures", text, s.pressures[-1], hist) and has_all(ctx, "said-rates", text, s.rates[-1], hist)
    if op[0] == "well":
        return has_all(ctx, "said-well", "\n".join(x for x in lines if "well" in x), [cell], hist)
    if op[0] == "boundary":
        return has_all(ctx, "said-boundary", "\n".join(x for x in lines if op[1] in x), [b], hist)
    return True


# name, value; None as value is a report
UPDATES = [("mu", 0.9), ("comp", 0), ("B", 1.4), ("rho", 42.0), ("comp", 3e-5), ("kx", 7.0), ("kx", "cells"), ("kx", "one"), ("phi", 0.15),
           ("z", 0.0), ("phi", "cells"), ("report", None)]


def reports(u, ctx):
    n, d = GRIDS[u["g"]]
    N = int(np.prod([m + 2 if m > 1 else m for m in n]))
    rf = lib.rf()
    for rest in itertools.product(range(len(UPDATES)), repeat=u["depth"] - 1):
        seq = [UPDATES[x] for x in (u["first"],) + rest]
        fluid = dict(mu=0.5, B=1.1, rho=50.0, comp=1e-5, unit="field")
        grid = dict(kx=np.full(N, 270.0), phi=np.full(N, 0.2), z=np.full(N, 3.0), nx=n[0], ny=n[1], nz=n[2], unit="field",
                    D=sum(x > 1 for x in n))
        with lib.quiet():
            g = rf.grids.RegularCartesian(nx=n[0], ny=n[1], nz=n[2], dx=d[0], dy=d[1], dz=d[2], kx=270.0, ky=200.0, kz=100.0, phi=0.2,
                                          z=3.0, comp=1e-6)
            f = rf.fluids.SinglePhase(mu=0.5, B=1.1, rho=50.0, comp=1e-5)
        for k, v in seq + [("report", None)]:
            ctx.trans()
            with lib.quiet():
                if k in ("mu", "B", "rho", "comp"):
                    getattr(f, "set_" + k)(v)
                    fluid[k] = v
                elif v == "cells":
                    grid[k] = (np.arange(N) * 2.0 + 31.0) / (100.0 if k == "phi" else 1.0)
                    g.set_props(**{k: grid[k].copy()})
                elif v == "one":
                    grid[k] = grid[k].copy()
                    grid[k][N - 1] = 77.0
                    g.set_prop(k, 77.0, id=N - 1)
                elif k != "report":
                    grid[k] = np.full(N, v)
                    g.set_props(**{k: v})
            if k != "report":
                continue
            for o, values in ((f, fluid), (g, grid)):
                for show, fmt in itertools.product((True, False), range(6)):
                    with heard() as out:
                        o.report(None, show, fmt)
                    rows = [[x.strip() for x in re.split(r"[|│]|\s{2,}", y) if x.strip()] for y in out.getvalue().splitlines()]
                    for name, value in values.items():
                        row = [r for r in rows if r[int(show):int(show) + 1] == [name]]
                        if not ctx.eq("table-row", len(row), 1, seq=str(seq), name=name, fmt=fmt, show=show):
                            return
                        text = " ".join(row[0][int(show) + 1:])
                        if not shown(ctx, "table", text, value, seq=str(seq), name=name, fmt=fmt, show=show):
                            return
                for name, value in values.items():
                    with heard() as out:
                        o.report(name)
                    if not shown(ctx, "single", out.getvalue().split(name, 1)[-1], value, seq=str(seq), name=name):
                        return
                with heard() as out:
                    o.report("no such property")
                if not ctx.eq("unknown", numbers(out.getvalue()), [], seq=str(seq)):
                    return
            ctx.state((u["g"], str(seq)))
        ctx.trace()
    ctx.sample(u)


def shown(ctx, key, text, value, **data):
    if isinstance(value, str):
        return ctx.eq(key, value in text, True, text=text[:200], **data)
    nums = numbers(text)
    want = np.ravel(value)
    if key == "table" and nums:      # a long value goes on in the next line
        want = want[:len(nums)]
    if len(nums) < len(want):
        ctx.fail(key, f"{text[:300]!r} does not state {want.tolist()}", **data)
        return False
    return ctx.close(key, nums[:len(want)], want, rtol=1e-6, **data)


def run(u, ctx):
    return dict(model=model, reports=reports, analytical=analytical)[u["kind"]](u, ctx)
