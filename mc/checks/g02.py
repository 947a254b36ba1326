"""G02: neighbours and boundary cells are the face adjacency of the grid."""
import itertools

import numpy as np

from .. import lib, ref

ASSUME = ["questions by id and by coordinates for every cell of every grid in the bound"]
BOUNDS = {"quick": "all sizes 1..4 per axis, permutations of (5,2,1) (at least one axis >1), and 17 larger or elongated sizes up to 102 cells or 216 cells (6x6x6), unify on/off",
          "thorough": "all sizes 1..5 per axis (at least one >1), same larger sizes, unify on/off"}


BIG = [(12, 1, 1), (1, 11, 1), (1, 1, 13), (11, 3, 1), (3, 11, 1), (11, 1, 3), (3, 1, 11), (1, 3, 11), (1, 11, 3), (7, 5, 3), (3, 5, 7),
       (5, 7, 3), (6, 6, 6), (10, 11, 1), (101, 1, 1), (1, 102, 1), (1, 1, 101)]


def plan(tier):
    m = 4 if tier == "quick" else 5
    sizes = [n for n in itertools.product(range(1, m + 1), repeat=3) if max(n) > 1]
    if tier == "quick":
        sizes += list(itertools.permutations((5, 2, 1)))
    return [dict(n=list(n), unify=u) for n in BIG + sizes for u in (True, False)]


def cv(x):
    return tuple(int(v) for v in x) if isinstance(x, (tuple, list, np.ndarray)) else int(x)


def dictset(d):
    return {a: sorted(cv(v) for v in d[a]) for a in "xyz"}


def flat(d):
    return sorted(v for a in "xyz" for v in d[a])


def run(u, ctx):
    n, unify = tuple(u["n"]), u["unify"]
    R = ref.RefGrid(n)
    g = lib.make_grid(dict(n=n, d=(1, 1, 1)), unify=unify)
    toC = lambda dd: {a: sorted(R.cells[m] for m in v) for a, v in dd.items()}
    for fmt, typ in (("tuple", tuple), ("list", list), ("set", set), ("array", np.ndarray)):
        got = g.get_boundaries("id", fmt)
        ctx.eq(f"boundaries-type:{fmt}", isinstance(got, typ), True)
        ctx.eq(f"boundaries:{fmt}", sorted(int(x) for x in got), R.boundary)
        got = g.get_boundaries("coords", fmt)
        ctx.eq(f"boundaries-coords:{fmt}", sorted(cv(x) for x in got),
               sorted(R.cells[i] for i in R.boundary))
    for i, c in enumerate(R.cells):
        ctx.state((n, unify, i))
        inner, bound, full = R.inner_neighbors(i), R.cell_boundaries(i), R.neighbors(i)
        ctx.eq("neighbors", dictset(g.get_cell_neighbors(i, None, False, "dict")),
               {a: sorted(v) for a, v in inner.items()}, id=i)
        ctx.eq("neighbors-coords",
               dictset(g.get_cell_neighbors(None, c, False, "dict")), toC(inner), coords=c)
        for fmt in ("list", "tuple", "set", "array"):
            ctx.eq(f"neighbors:{fmt}",
                   sorted(int(x) for x in g.get_cell_neighbors(i, None, False, fmt)),
                   flat(inner), id=i)
            ctx.eq(f"neighbors-coords:{fmt}",
                   sorted(cv(x) for x in g.get_cell_neighbors(None, c, False, fmt)),
                   flat(toC(inner)), coords=c)
        if i in R.inset:
            ctx.eq("neighbors-all", dictset(g.get_cell_neighbors(i, None, True, "dict")),
                   {a: sorted(v) for a, v in full.items()}, id=i)
            ctx.eq("neighbors-all-coords",
                   dictset(g.get_cell_neighbors(None, c, True, "dict")), toC(full), coords=c)
            ctx.eq("cell_boundaries", dictset(g.get_cell_boundaries(i, None, "dict")),
                   {a: sorted(v) for a, v in bound.items()}, id=i)
            ctx.eq("cell_boundaries-coords",
                   dictset(g.get_cell_boundaries(None, c, "dict")), toC(bound), coords=c)
            for fmt in ("list", "tuple", "set", "array"):
                ctx.eq(f"cell_boundaries:{fmt}",
                       sorted(int(x) for x in g.get_cell_boundaries(i, None, fmt)),
                       flat(bound), id=i)
                ctx.eq(f"cell_boundaries-coords:{fmt}",
                       sorted(cv(x) for x in g.get_cell_boundaries(None, c, fmt)),
                       flat(toC(bound)), coords=c)
                ctx.eq(f"neighbors-all:{fmt}",
                       sorted(int(x) for x in g.get_cell_neighbors(i, None, True, fmt)),
                       flat(full), id=i)
        else:
            for name, f in (
                    ("neighbors", lambda: g.get_cell_neighbors(i, None, True, "dict")),
                    ("neighbors-coords", lambda: g.get_cell_neighbors(None, c, True, "dict")),
                    ("cell_boundaries", lambda: g.get_cell_boundaries(i, None, "dict")),
                    ("cell_boundaries-coords", lambda: g.get_cell_boundaries(None, c, "dict"))):
                try:
                    r = f()
                    ctx.fail(f"{name}-accepts-boundary-cell", f"cell {i}: {r}")
                except AssertionError:
                    ctx.trans()
    ctx.trace()
    ctx.sample(dict(n=n, unify=unify, interior=len(R.interior), boundary=len(R.boundary)))
