"""G05: histories of property updates against a dictionary of the last writes."""
import itertools

import numpy as np

from .. import core, lib, ref

ASSUME = ["a single cell is only written after its property was defined",
          "flags are judged when inner cells differ or no cell differs"]
BOUNDS = {"quick": "every history of 2 updates (38-44 operations including shaped arrays and refused values; arrays of the user shared between properties and changed by the user afterwards) on 8 grids, observed after every update or only at the end; histories of 3 updates over a reduced alphabet of 9",
          "thorough": "every history of 3 updates over the full alphabet on 4 grids, 4 over the reduced alphabet on 3 grids"}

GRIDS = [((3, 1, 1), True), ((3, 1, 1), False), ((1, 2, 2), False), ((2, 2, 1), True),
         ((2, 2, 1), False), ((2, 1, 2), True), ((2, 2, 2), True), ((1, 1, 3), False)]
INIT = dict(kx=100.0, ky=None, kz=None, phi=0.2, z=0.0, comp=0.0)


def names(n):
    flow = [a for a in range(3) if n[a] > 1]
    return ["k" + "xyz"[a] for a in flow] + ["phi", "z"]


def alphabet(n, reduced=False):
    R = ref.RefGrid(n)
    inner, bnd = R.interior[-1], R.boundary[0]
    ops = []
    for nm in names(n):
        base = {"phi": 0.1, "z": 100.0}.get(nm, 50.0)
        arr = [base * (1 + 0.1 * ((3 * i) % 7)) for i in range(R.N)]
        near = [base * (1 + 1e-3 * (i % 2)) for i in range(R.N)]
        barr = [base if i in R.inset else base * 1.3 for i in range(R.N)]
        if reduced:
            ops += [("all", nm, base), ("id", nm, base * 3, inner)]
            if nm in ("phi",) or nm[0] == "k":
                ops += [("arr", nm, arr)]
            continue
        ops += [("all", nm, base), ("arr", nm, arr), ("arr", nm, barr), ("arr", nm, near),
                ("id", nm, base * 3, inner), ("id", nm, base * 5, bnd),
                ("coords", nm, base * 4, R.cells[inner])]
    if reduced:
        return ops[:9]
    k = names(n)[0]
    ops += [("props", {k: 77.0, "phi": 0.31}, None, None),
            ("props", {k: 78.0, "z": 12.0}, inner, None),
            ("props", {"phi": 0.33}, None, R.cells[inner]),
            ("props", {"comp": 2e-6}, None, None),
            ("arrs", [x for x in names(n) if x != "z"], [0.2 + 0.01 * i for i in range(R.N)]),
            ("comp", 1e-6), ("comp", 0), ("badname",)]
    shaped = [0.15 + 0.01 * ((3 * i) % 5) for i in range(R.N)]
    ops += [("shaped", nm, shaped, how) for nm, how in ((k, "grid"), ("phi", "column"), ("phi", "row"))]
    ops += [("refused", "set_comp", (-1e-6,), {}), ("refused", "set_props", (), dict(comp=-2e-6)),
            ("refused", "set_prop", (k, [33.0] * (R.N + 1)), {}), ("refused", "set_prop", ("phi", 0.4), dict(id=R.N + 3)),
            ("refused", "set_prop", (k, "much"), {}), ("refused", "set_prop", ("phi", 0.4), dict(coords=(99, 0, 0))),
            ("refused", "set_comp", (float("nan"),), {})]
    return ops


def plan(tier):
    out = []
    for gi, (n, unify) in enumerate(GRIDS):
        full, red = alphabet(n), alphabet(n, True)
        dep, rdep = (2, 3) if tier == "quick" else (3, 4)
        if tier == "quick" or gi in (0, 2, 4, 6):
            for a in range(len(full)):
                if tier == "quick":
                    out.append(dict(g=gi, alpha="full", first=[a], depth=dep))
                else:
                    out += [dict(g=gi, alpha="full", first=[a, b], depth=dep)
                            for b in range(len(full))]
        if tier == "quick" or gi in (1, 2, 4):
            out += [dict(g=gi, alpha="red", first=[a, b], depth=rdep)
                    for a in range(len(red)) for b in range(len(red))]
    return out


class Model:
    """Last write wins, per cell."""

    def __init__(self, n):
        self.R = ref.RefGrid(n, (300, 350, 40))
        self.p = {}
        for nm in ("kx", "ky", "kz", "phi", "z"):
            v = INIT[nm]
            if nm[0] == "k" and nm in names(n):
                v = 100.0 + 10 * "xyz".index(nm[1])
            elif nm[0] == "k":
                v = None
            self.p[nm] = None if v is None else [float(v)] * self.R.N
        self.comp = 0.0

    def apply(self, op):
        if op[0] == "all":
            self.p[op[1]] = [float(op[2])] * self.R.N
        elif op[0] in ("arr", "shaped"):
            self.p[op[1]] = [float(x) for x in op[2]]
        elif op[0] == "arrs":
            for nm in op[1]:
                self.p[nm] = [float(x) for x in op[2]]
        elif op[0] == "id":
            self.p[op[1]][op[3]] = float(op[2])
        elif op[0] == "coords":
            self.p[op[1]][self.R.id[tuple(op[3])]] = float(op[2])
        elif op[0] == "props":
            for nm, v in op[1].items():
                if nm == "comp":
                    self.comp = v
                elif op[2] is not None:
                    self.p[nm][op[2]] = v
                elif op[3] is not None:
                    self.p[nm][self.R.id[tuple(op[3])]] = v
                else:
                    self.p[nm] = [v] * self.R.N
        elif op[0] == "comp":
            self.comp = op[1]


def own(pool, values):
    """The array of the user: the same object whenever the values are the same."""
    return pool.setdefault(tuple(values), np.array(values, dtype=float))


def apply_real(g, op, ctx, pool):
    if op[0] == "all":
        g.set_prop(op[1], op[2])
    elif op[0] == "arr":
        g.set_prop(op[1], own(pool, op[2]))
    elif op[0] == "arrs":
        g.set_props(**{nm: own(pool, op[2]) for nm in op[1]})
    elif op[0] == "id":
        g.set_prop(op[1], op[2], id=op[3])
    elif op[0] == "coords":
        g.set_prop(op[1], op[2], coords=tuple(op[3]))
    elif op[0] == "props":
        g.set_props(id=op[2], coords=None if op[3] is None else tuple(op[3]), **op[1])
    elif op[0] == "comp":
        g.set_comp(op[1])
    elif op[0] == "badname":
        try:
            g.set_prop("kw", 1.0)
            ctx.fail("unknown-property-accepted", "kw")
        except ValueError:
            ctx.trans()
    elif op[0] == "shaped":
        a = np.array(op[2])
        shape = {"column": (-1, 1), "row": (1, -1), "grid": g.get_fshape(True, False)}[op[3]]
        g.set_prop(op[1], a.reshape(shape))
    elif op[0] == "refused":
        try:
            getattr(g, op[1])(*[np.array(v) if isinstance(v, list) else v for v in op[2]], **op[3])
        except Exception:
            ctx.trans()
        else:
            ctx.fail("not-refused", str(op))


def observe(g, M, n, unify, ctx, hist):
    R = M.R
    for nm, v in M.p.items():
        if v is None:
            try:
                r = g.get_prop(nm)
                ctx.fail("undefined-property-answered", f"{nm}: {r}", hist=hist)
            except ValueError:
                ctx.trans()
            continue
        v = np.array(v)
        for b in (True, False):
            ids = R.ids(b)
            ctx.close(f"get_prop:{nm}", g.get_prop(nm, b, False), v[ids], hist=hist, boundary=b)
            ctx.close(f"get_prop-shaped:{nm}", g.get_prop(nm, b, True),
                      v[ids].reshape(R.fshape(b, unify)), hist=hist, boundary=b)
            if nm[0] == "k":
                ctx.close(f"get_cells_k:{nm}", g.get_cells_k(nm[1], b, False), v[ids], hist=hist)
        ctx.close(f"get_prop-list:{nm}", list(g.get_prop(nm, True, False, "list")), v, hist=hist)
        ctx.close(f"attribute:{nm}", getattr(g, nm), v, hist=hist)
        if nm[0] == "k":
            ctx.close(f"k-dict:{nm}", g.k[nm[1]], v, hist=hist)
            ctx.close(f"cell_k:{nm}", [g.get_cell_k(nm[1], i) for i in range(R.N)], v, hist=hist)
            ctx.close(f"cell_k-coords:{nm}",
                      [getattr(g, f"get_cell_{nm}")(None, c) for c in R.cells], v, hist=hist)
    ctx.close("comp", g.comp, M.comp, hist=hist)
    ctx.eq("comp_type", g.comp_type, "compressible" if M.comp > 0 else "incompressible", hist=hist)
    ks = [M.p[k] for k in ("kx", "ky", "kz") if M.p[k] is not None]
    for flag, anti, fields in (("is_homogeneous", "is_heterogeneous", [M.p["phi"]]),
                               ("is_isotropic", "is_anisotropic", ks)):
        got = bool(getattr(g, flag))
        ctx.eq(anti, bool(getattr(g, anti)), not got, hist=hist)
        if any(len(set(f[i] for i in R.interior)) > 1 for f in fields):
            ctx.eq(flag, got, False, hist=hist)
        elif all(len(set(f)) == 1 for f in fields):
            ctx.eq(flag, got, True, hist=hist)
    ctx.eq("is_regular", (bool(g.is_regular), bool(g.is_irregular)), (True, False), hist=hist)
    R.k = [M.p["kx"], M.p["ky"], M.p["kz"]]
    want = np.zeros((R.N, R.N))
    for i in range(R.N):
        for ms in R.neighbors(i).values():
            for m in ms:
                want[i, m] = R.G(i, m)
    ctx.close("G", np.asarray(g.get_cells_G(True, False)), want, hist=hist)
    for i in R.interior:
        got = {int(a): float(b) for a, b in g.get_cell_G(i, None, True).items()}
        ctx.close("cell_G", [got.get(m, -1.0) for m in range(R.N)],
                  [want[i, m] if want[i, m] else -1.0 for m in range(R.N)], hist=hist, id=i)
    ctx.state((n, unify, core.canon(M.p), M.comp))


def run(u, ctx):
    n, unify = GRIDS[u["g"]]
    ops = alphabet(n, u["alpha"] == "red")
    rest = u["depth"] - len(u["first"])
    k = [100.0 + 10 * a if n[a] > 1 else None for a in range(3)]
    for tail in itertools.product(range(len(ops)), repeat=rest):
        seq = u["first"] + list(tail)
        for every in (True, False):
            g = lib.make_grid(dict(n=n, d=(300, 350, 40), k=k, phi=0.2, z=0), unify=unify)
            M, pool = Model(n), {}
            if every:
                observe(g, M, n, unify, ctx, [])
            for x, o in enumerate(seq):
                apply_real(g, ops[o], ctx, pool)
                M.apply(ops[o])
                for v, a in pool.items():
                    ctx.eq("array-of-the-user", tuple(a.tolist()), v, hist=[str(ops[j]) for j in seq[: x + 1]])
                if every or x == len(seq) - 1:
                    observe(g, M, n, unify, ctx, [str(ops[j]) for j in seq[: x + 1]])
            if pool and not every:
                for a in pool.values():     # own arrays of the user may be used for something else
                    a += 1000.0
                observe(g, M, n, unify, ctx, [str(ops[j]) for j in seq] + ["user changes own arrays"])
            ctx.trace()
    ctx.sample(dict(n=n, unify=unify, history=[str(ops[o]) for o in seq]))
