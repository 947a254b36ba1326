"""G04: sizes, areas, volumes, centres and corners agree with the spacing."""
import itertools

import numpy as np

from .. import lib, ref

ASSUME = ["spacing alphabet: constant, varying, thin (millimeters) or differing in boundary cells only per flow axis; answers of the "
          "3D viewer library are compared to 1e-5 (single precision points)"]
BOUNDS = {"quick": "all sizes 1..3 per axis (at least one >1) x constant, varying, thin or boundary-only-varying spacing on each flow axis x unify on/off; 17 larger or elongated sizes (up to 6x6x6, 102 cells in a row)",
          "thorough": "all sizes 1..4 per axis, same spacing alphabet"}


BIG = [(12, 1, 1), (1, 11, 1), (1, 1, 13), (11, 3, 1), (3, 11, 1), (11, 1, 3), (3, 1, 11), (1, 3, 11), (1, 11, 3), (7, 5, 3), (3, 5, 7),
       (5, 7, 3), (6, 6, 6), (10, 11, 1), (101, 1, 1), (1, 102, 1), (1, 1, 101)]


def plan(tier):
    m = 3 if tier == "quick" else 4
    out = [dict(n=list(n), pat=[k if n[a] > 1 else 0 for a in range(3) if n[a] > 1], unify=k < 2) for n in BIG for k in (0, 1, 2, 3)]
    for n in itertools.product(range(1, m + 1), repeat=3):
        if max(n) == 1:
            continue
        flow = [a for a in range(3) if n[a] > 1]
        pats = {x: 1 for k in (1, 2, 3) for x in itertools.product((0, k), repeat=len(flow))}
        for pat in pats:
            for unify in (True, False):
                out.append(dict(n=list(n), pat=list(pat), unify=unify))
    return out


BASE = (300.0, 350.0, 40.0)


def spacing(n, pat):
    flow = [a for a in range(3) if n[a] > 1]
    d = list(BASE)
    for a, p in zip(flow, pat):
        if p == 2:      # thin cells: different, but not by much in length units
            d[a] = [1e-3 * (2 + (3 * i + a) % 5) for i in range(n[a] + 2)]
        elif p == 3:    # boundary cells of other sizes than the cells between them
            d[a] = [BASE[a] / 2] + [BASE[a]] * n[a] + [BASE[a] * 0.75]
        elif p:
            d[a] = [BASE[a] + (a + 2) * 10.5 * (i + 1) + (i % 2) * 3 for i in range(n[a] + 2)]
    return d


def run(u, ctx):
    n, unify = tuple(u["n"]), u["unify"]
    d = spacing(n, u["pat"])
    R = ref.RefGrid(n, d)
    g = lib.make_grid(dict(n=n, d=d), unify=unify)
    N = R.N
    D = np.array([[R.d(a, i) for i in range(N)] for a in range(3)])
    A = np.array([[R.area(a, i) for i in range(N)] for a in range(3)])
    V = np.array([R.vol(i) for i in range(N)])
    C = np.array([R.center(i) for i in range(N)])
    for b in (True, False):
        ids = R.ids(b)
        for fs in (True, False):
            sh = R.fshape(b, unify) if fs else (len(ids),)
            for a, ax in enumerate("xyz"):
                ctx.state((n, tuple(u["pat"]), unify, b, fs, ax))
                for nm, f in ((f"get_cells_d", lambda: g.get_cells_d(ax, b, fs)),
                              (f"get_cells_d{ax}", lambda: getattr(g, f"get_cells_d{ax}")(b, fs))):
                    ctx.close(f"{nm}:{ax}", f(), D[a][ids].reshape(sh), boundary=b, fshape=fs)
                for nm, f in ((f"get_cells_A", lambda: g.get_cells_A(ax, b, fs)),
                              (f"get_cells_A{ax}", lambda: getattr(g, f"get_cells_A{ax}")(b, fs))):
                    ctx.close(f"{nm}:{ax}", f(), A[a][ids].reshape(sh), boundary=b, fshape=fs)
            ctx.close("cells_V", g.get_cells_V(b, fs, False), V[ids].reshape(sh), boundary=b)
            ctx.close("cells_V-viewer", g.get_cells_V(b, fs, True), V[ids].reshape(sh),
                      rtol=1e-5, boundary=b)
            csh = sh + (3,)
            ctx.close("centers", g.get_cells_center(b, fs, False), C[ids].reshape(csh), boundary=b)
            ctx.close("centers-viewer", g.get_cells_center(b, fs, True), C[ids].reshape(csh),
                      rtol=1e-5, boundary=b)
        ctx.close("Vt", g.get_Vt(b, False), V[ids].sum(), boundary=b)
        ctx.close("Vt-viewer", g.get_Vt(b, True), V[ids].sum(), rtol=1e-5, boundary=b)
        pv = g.get_pyvista_grid(b)
        ctx.eq("viewer-cells", int(pv.n_cells), len(ids), boundary=b)
        box = []
        for num in range(len(ids)):
            box.append([float(x) for x in pv.get_cell(num).bounds])
        want = []
        for i in ids:
            w = []
            for a in range(3):
                w += [R.center(i)[a] - R.d(a, i) / 2, R.center(i)[a] + R.d(a, i) / 2]
            want.append(w)
        ctx.close("viewer-boxes", box, want, rtol=1e-5, boundary=b)
    for i, c in enumerate(R.cells):
        for a, ax in enumerate("xyz"):
            ctx.close(f"cell_d:{ax}", [g.get_cell_d(ax, i), g.get_cell_d(ax, None, c),
                                       getattr(g, f"get_cell_d{ax}")(i),
                                       getattr(g, f"get_cell_d{ax}")(None, c)], [D[a][i]] * 4, id=i)
            ctx.close(f"cell_A:{ax}", [g.get_cell_A(ax, i), g.get_cell_A(ax, None, c),
                                       getattr(g, f"get_cell_A{ax}")(i),
                                       getattr(g, f"get_cell_A{ax}")(None, c)], [A[a][i]] * 4, id=i)
        ctx.close("cell_V", [g.get_cell_V(i), g.get_cell_V(None, c)], [V[i]] * 2, id=i)
        ctx.close("cell_center", [np.asarray(g.get_cell_center(i)).flatten(),
                                  np.asarray(g.get_cell_center(None, c)).flatten()], [C[i]] * 2, id=i)
    regular = all(len({D[a][i] for i in R.interior}) == 1 for a in range(3))
    ctx.eq("is_regular", (bool(g.is_regular), bool(g.is_irregular)), (regular, not regular))
    for q in (lambda: g.get_cells_d("w"), lambda: g.get_cells_A("w")):
        try:
            q()
            ctx.fail("unknown-direction", "accepted")
        except ValueError:
            ctx.trans()
    # spacing must give one size per cell, boundary cells included
    flow = R.flow[0]
    bad = list(d)
    bad[flow] = [1.0] * (n[flow] + 1)
    try:
        lib.make_grid(dict(n=n, d=bad), unify=unify)
        ctx.fail("short-spacing-accepted", f"axis {flow}")
    except AssertionError:
        ctx.trans()
    ctx.trace()
    ctx.sample(dict(n=n, d=d, unify=unify))
