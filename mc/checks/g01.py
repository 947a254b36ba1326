"""G01: numbering, coordinates and shapes of every small grid."""
import itertools

import numpy as np

from .. import lib, ref

ASSUME = ["grid sizes up to the stated bound per axis, one cell layer of boundary"]
BOUNDS = {"quick": "all sizes 1..5 per axis (at least one >1), and 17 larger or elongated sizes up to 102 cells or 216 cells (6x6x6), unify on/off",
          "thorough": "all sizes 1..7 per axis (at least one >1), same larger sizes, unify on/off"}


BIG = [(12, 1, 1), (1, 11, 1), (1, 1, 13), (11, 3, 1), (3, 11, 1), (11, 1, 3), (3, 1, 11), (1, 3, 11), (1, 11, 3), (7, 5, 3), (3, 5, 7),
       (5, 7, 3), (6, 6, 6), (10, 11, 1), (101, 1, 1), (1, 102, 1), (1, 1, 101)]


def plan(tier):
    m = 5 if tier == "quick" else 7
    return [dict(n=list(n), unify=u)
            for n in BIG + list(itertools.product(range(1, m + 1), repeat=3))
            if max(n) > 1 for u in (True, False)]


def ints(x):
    """Nested ints of arrays, lists, tuples."""
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [ints(v) for v in x]
    return int(x)


def tup(x):
    return tuple(int(v) for v in x)


def run(u, ctx):
    n, unify = tuple(u["n"]), u["unify"]
    R = ref.RefGrid(n)
    mk = lambda: lib.make_grid(dict(n=n, d=(1, 1, 1)), unify=unify)
    g = mk()
    ctx.eq("D", int(g.get_D()), R.D)
    ctx.eq("fdir", g.get_fdir(), R.fdir)
    kind = {"array": np.ndarray, "list": list, "tuple": tuple, "set": set}
    for b in (True, False):
        ids = R.ids(b)
        cs = [R.cells[i] for i in ids]
        sh = R.fshape(b, unify)
        ctx.eq(f"shape:{b}", tup(g.get_shape(b)), R.shape(b))
        ctx.eq(f"n:{b}", int(g.get_n(b)), len(ids))
        ctx.eq(f"n_max:{b}", int(g.get_n_max(b)), max(R.shape(b)))
        ctx.eq(f"fshape:{b}", tup(g.get_fshape(b, False)), sh)
        ctx.eq(f"fshape-points:{b}", tup(g.get_fshape(b, True)), sh + (3,))
        ctx.eq(f"order:{b}", ints(g.get_order("natural", b, False)), ids)
        ctx.eq(f"order-fshape:{b}", ints(g.get_order("natural", b, True)),
               np.array(ids).reshape(sh).tolist())
        ctx.eq(f"cells_id-fshape:{b}", ints(g.get_cells_id(b, True)),
               np.array(ids).reshape(sh).tolist())
        ctx.eq(f"cells_i-fshape:{b}", ints(g.get_cells_i(b, True)),
               np.arange(len(ids)).reshape(sh).tolist())
        ctx.eq(f"coords-fshape:{b}", ints(g.get_cells_coords(b, True)),
               np.array(cs).reshape(sh + (3,)).tolist())
        ctx.eq(f"ones:{b}", (np.asarray(g.get_ones(b, False)).shape,
                             bool((g.get_ones(b, False) == 1).all())),
               ((len(ids),), True))
        ctx.eq(f"ones-fshape:{b}", np.asarray(g.get_ones(b, True)).shape, sh)
        ctx.eq(f"zeros:{b}", (np.asarray(g.get_zeros(b, False)).shape,
                              bool((g.get_zeros(b, False) == 0).all())),
               ((len(ids),), True))
        ctx.eq(f"zeros-fshape:{b}", np.asarray(g.get_zeros(b, True)).shape, sh)
        for fmt in kind:
            for q, f, want in (
                    ("cells_id", lambda: g.get_cells_id(b, False, fmt), ids),
                    ("cells_i", lambda: g.get_cells_i(b, False, fmt),
                     list(range(len(ids)))),
                    ("coords", lambda: g.get_cells_coords(b, False, fmt), cs)):
                got = f()
                ctx.eq(f"{q}-type:{fmt}:{b}", isinstance(got, kind[fmt]), True)
                conv = (lambda v: tup(v)) if q == "coords" else int
                if fmt == "set":
                    ctx.eq(f"{q}:{fmt}:{b}", {conv(v) for v in got}, set(want))
                    ctx.eq(f"{q}-len:{fmt}:{b}", len(got), len(want))
                else:
                    ctx.eq(f"{q}:{fmt}:{b}", [conv(v) for v in got], want)
        # single and grouped lookups, both directions; inner lookups count
        # from the first inner cell.
        local = [tuple(c[a] - (1 if (not b and a in R.flow) else 0)
                       for a in range(3)) for c in cs]
        for i, c in enumerate(local):
            num = ids[i] if b else i
            ctx.state((n, unify, b, num))
            ctx.eq(f"cell_id:{b}", int(g.get_cell_id(c, b)), num, coords=c)
            ctx.eq(f"cell_coords:{b}", tup(g.get_cell_coords(num, b)), c, id=num)
        nums = ids if b else list(range(len(ids)))
        groups = [tuple(range(len(nums))), tuple(reversed(range(len(nums)))),
                  (0, len(nums) - 1)]
        for grp in groups:
            gi = tuple(nums[x] for x in grp)
            gc = tuple(local[x] for x in grp)
            ctx.eq(f"cell_id-many:{b}", [int(x) for x in g.get_cell_id(gc, b)],
                   list(gi))
            ctx.eq(f"cell_coords-many:{b}",
                   [tup(x) for x in g.get_cell_coords(gi, b)], list(gc))
    # array indices of a coordinate address that cell in a shaped field
    field = np.arange(R.N).reshape(R.fshape(True, unify))
    for i, c in enumerate(R.cells):
        ctx.eq("icoords", int(field[g.get_cell_icoords(c)]), i, coords=c)
    two = (R.cells[0], R.cells[-1])
    ctx.eq("icoords-many", [int(field[ic]) for ic in g.get_cell_icoords(two)],
           [0, R.N - 1])
    for bad in ((R.nb[0], 0, 0), (0, R.nb[1], 0), (0, 0, R.nb[2])):
        try:
            r = g.get_cell_icoords(bad)
            ctx.fail("icoords-out-of-range", f"{bad} accepted: {r}")
        except AssertionError:
            ctx.trans()
    ctx.eq("cells_id-attr", [int(x) for x in g.cells_id], R.interior)
    ctx.trace()
    ctx.sample(dict(n=n, unify=unify, cells=R.N, interior=len(R.interior)))
