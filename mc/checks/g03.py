"""G03: taking boundaries off a field and taking boundaries out of a field."""
import itertools

import numpy as np

from .. import lib, ref

ASSUME = ["field values are distinct numbers, so a wrong or moved entry is visible"]
BOUNDS = {"quick": "all sizes 1..4 per axis, and 17 larger or elongated sizes up to 102 cells or 216 cells (6x6x6), unify on/off, flat/shaped, scalar/point fields, dicts, one-sided removal",
          "thorough": "all sizes 1..5 per axis, same"}


BIG = [(12, 1, 1), (1, 11, 1), (1, 1, 13), (11, 3, 1), (3, 11, 1), (11, 1, 3), (3, 1, 11), (1, 3, 11), (1, 11, 3), (7, 5, 3), (3, 5, 7),
       (5, 7, 3), (6, 6, 6), (10, 11, 1), (101, 1, 1), (1, 102, 1), (1, 1, 101)]


def plan(tier):
    m = 4 if tier == "quick" else 5
    sizes = [n for n in itertools.product(range(1, m + 1), repeat=3) if max(n) > 1]
    return [dict(n=list(n), unify=u) for n in BIG + sizes for u in (True, False)]


def run(u, ctx):
    n, unify = tuple(u["n"]), u["unify"]
    R = ref.RefGrid(n)
    g = lib.make_grid(dict(n=n, d=(1, 1, 1)), unify=unify)
    N = R.N
    sc = 7 * np.arange(N) + 1000 + (np.arange(N) * 13) % 5
    pt = np.stack([sc, sc * 2 + 1, -sc], axis=1)
    shb, shi = R.fshape(True, unify), R.fshape(False, unify)

    def side(c, remove):
        for a in R.flow:
            if remove in ("both", "left") and c[a] == 0:
                return False
            if remove in ("both", "right") and c[a] == R.nb[a] - 1:
                return False
        return True

    for remove in ("both", "left", "right"):
        keep = [i for i, c in enumerate(R.cells) if side(c, remove)]
        dims = [n[a] + (0 if remove == "both" else 1) if a in R.flow else n[a]
                for a in range(3)]
        full = (dims[2], dims[1], dims[0])
        shr = full if (unify or R.D == 3) else tuple(dims[a] for a in reversed(R.flow))
        for pts in (False, True):
            data = pt if pts else sc
            tail = (3,) if pts else ()
            for shaped in (False, True):
                src = data.reshape(shb + tail).copy() if shaped else data.copy()
                before = src.copy()
                for explicit in (True, False):
                    if not explicit and not pts and shaped and shb[-1] == 3:
                        continue  # a scalar field which looks like points
                    got = g.remove_boundaries(src, pts if explicit else None, remove)
                    want = data[keep].reshape(shr + tail) if shaped else data[keep]
                    key = f"remove:{remove}:{'pts' if pts else 'scalar'}:{'shaped' if shaped else 'flat'}"
                    ctx.state((n, unify, key, explicit))
                    ctx.eq(key, (got.shape, got.tolist()), (want.shape, want.tolist()))
                ctx.eq("remove-input-kept", src.tolist(), before.tolist())
        d_in = {"x": sc.copy(), "y": -sc, "z": sc * 3}
        ref_in = {k: v.copy() for k, v in d_in.items()}
        got = g.remove_boundaries(d_in, False, remove)
        ctx.eq(f"remove-dict:{remove}", {k: np.asarray(v).tolist() for k, v in got.items()},
               {k: v[keep].tolist() for k, v in ref_in.items()})
        ctx.eq("remove-dict-input-kept", {k: v.tolist() for k, v in d_in.items()},
               {k: v.tolist() for k, v in ref_in.items()})
    for pts in (False, True):
        data = pt if pts else sc
        want = data[R.boundary]
        for shaped in (False, True):
            src = data.reshape(shb + ((3,) if pts else ())).copy() if shaped else data.copy()
            before = src.copy()
            for fmt in ("array", "list", "tuple", "set"):
                got = g.extract_boundaries(src, pts, fmt)
                conv = (lambda v: tuple(int(t) for t in v)) if pts else int
                ctx.eq(f"extract:{fmt}:{'pts' if pts else 'scalar'}",
                       sorted(conv(v) for v in got),
                       sorted(conv(v) for v in want), shaped=shaped)
            ctx.eq("extract-input-kept", src.tolist(), before.tolist())
    for bad in (np.arange(N + 1), np.arange(max(N - 1, 0))):
        for name, f in (("remove", g.remove_boundaries), ("extract", g.extract_boundaries)):
            try:
                f(bad, False)
                ctx.fail(f"{name}-accepts-wrong-size", f"size {bad.size} of {N}")
            except ValueError:
                ctx.trans()
    ctx.trace()
    ctx.sample(dict(n=n, unify=unify, cells=N))
