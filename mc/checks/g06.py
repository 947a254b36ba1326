"""G06: a grid question never changes the answer to another one."""
import itertools
import os
import pickle

import numpy as np

from .. import core, lib

ASSUME = ["the arrays handed out by a question are not modified by the user"]
BOUNDS = {"quick": "every ordered pair of questions (about 90 each) on 7 grids, each pair also with a second differently sized grid asked in between; every question before and after a simulation on the grid; every question before all questions which the grid and models ask themselves, as spelled there",
          "thorough": "as quick on 12 grids, plus every ordered triple of a reduced set of questions"}

GRIDS = [((3, 1, 1), True), ((2, 3, 1), True), ((2, 2, 3), True), ((1, 3, 2), False),
         ((2, 1, 3), False), ((1, 1, 3), True), ((3, 2, 1), False),
         ((1, 4, 1), False), ((3, 1, 2), True), ((1, 2, 3), True), ((4, 1, 1), False), ((3, 2, 2), False)]


def plan(tier):
    out = []
    grids = list(enumerate(GRIDS if tier == "thorough" else GRIDS[:7]))
    out = [dict(kind="sim", g=gi) for gi, _ in grids]
    out += [dict(kind="inner", g=gi, part=x) for gi, _ in grids for x in range(4)]
    for gi, (n, unify) in grids:
        nq = len(queries(n))
        step = 12
        for a in range(0, nq, step):
            out.append(dict(kind="pair", g=gi, a=[a, min(a + step, nq)]))
        if tier == "thorough":
            out += [dict(kind="triple", g=gi, a=a) for a in range(0, nq, 3)]
    return out


def spec(n, alt=False):
    N = int(np.prod([m + 2 if m > 1 else m for m in n]))
    k = [[100.0 + 7 * ((3 * i + a) % 5) + (50 if alt else 0) for i in range(N)] for a in range(3)]
    d = [(300.0, 350.0, 40.0)[a] if n[a] == 1 else
         [100.0 + 11 * i + 3 * a + (20 if alt else 0) for i in range(n[a] + 2)] for a in range(3)]
    return dict(n=n, d=d, k=k, phi=[0.1 + 0.01 * (i % 4) for i in range(N)],
                z=[10.0 * (i % 3) for i in range(N)], comp=1e-6)


def other(n):
    m = tuple(sorted(n))
    return (2, 3, 2) if m != (2, 2, 3) else (4, 1, 1)


def queries(n):
    from .. import ref
    R = ref.RefGrid(n)
    i0, i1, bd = R.interior[0], R.interior[-1], R.boundary[1]
    c0, c1 = R.cells[i0], R.cells[i1]
    q = []

    def add(name, *a, **k):
        q.append((name, a, k))

    for b in (True, False):
        add("get_shape", b)
        add("get_n", b)
        add("get_n_max", b)
        for fs in (True, False):
            add("get_fshape", b, fs)
            add("get_order", "natural", b, fs)
            add("get_ones", b, fs, False)
            add("get_zeros", b, fs, False)
            add("get_cells_id", b, fs, "array")
            add("get_cells_coords", b, fs, "array")
            add("get_cells_d", "y", b, fs)
            add("get_cells_A", "x", b, fs)
            add("get_cells_V", b, fs)
            add("get_cells_center", b, fs)
            add("get_prop", "kx", b, fs)
        add("get_cells_i", b, False, "list")
        add("get_cells_id", b, False, "set")
        add("get_cells_coords", b, False, "tuple")
        add("get_cells_V", b, False, True)
        add("get_cells_center", b, False, True)
        add("get_Vt", b)
        add("get_Vt", b, True)
        add("get_corners", b)
        add("get_cells_G", b, True)
        add("get_cells_G", b, False)
        add("get_cell_neighbors", i0, None, b, "dict")
        add("get_cell_neighbors", None, c1, b, "dict")
        add("get_cell_neighbors", i1, None, b, "list")
        add("get_cell_G", i0, None, b)
        add("get_cell_G", i1, None, b)
    add("get_cell_neighbors", bd, None, False, "dict")
    add("get_D")
    add("get_fdir")
    add("get_boundaries", "id", "set")
    add("get_boundaries", "id", "array")
    add("get_boundaries", "coords", "tuple")
    add("get_cell_boundaries", i0, None, "dict")
    add("get_cell_boundaries", None, c0, "list")
    add("get_cell_id", c1, True)
    add("get_cell_coords", i1, True)
    add("get_cell_icoords", c1)
    add("get_cell_d", "x", i0, None)
    add("get_cell_d", "z", None, c1)
    add("get_cell_A", "z", i0, None)
    add("get_cell_V", None, c1)
    add("get_cell_center", i0, None)
    add("get_cell_center", None, c1)
    add("get_cell_k", "x", None, c1)
    add("get_prop", "phi", True, False, "list")
    for p in ("is_homogeneous", "is_isotropic", "is_regular", "cells_id", "kx", "phi", "z"):
        add(p)
    add("remove_boundaries", "FIELD", False, "both")
    add("extract_boundaries", "FIELD", False, "array")
    return q


def ask(g, q, N):
    name, a, k = q
    a = tuple(np.arange(N) * 3 if isinstance(x, str) and x == "FIELD" else x for x in a)
    try:
        f = getattr(g, name)
        r = f(*a, **k) if callable(f) else f
    except AssertionError:
        return "AssertionError"
    if hasattr(r, "toarray"):
        r = r.toarray()
    if isinstance(r, dict):
        r = {str(kk): ([tuple(map(int, x)) if isinstance(x, tuple) else int(x) for x in v]
                       if isinstance(v, list) else v) for kk, v in r.items()}
    if isinstance(r, (tuple, list, set)) and name.startswith(("get_cells_coords", "get_boundaries", "get_cell")):
        r = type(r)(tuple(int(t) for t in x) if isinstance(x, tuple) else
                    (int(x) if isinstance(x, (int, np.integer)) else x) for x in r)
    return core.canon(r, 12)


def alone(jobs):
    """Each question to a new grid in a process of its own."""
    out = []
    for s, unify, q, N in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                try:
                    res = pickle.dumps(ask(lib.make_grid(s, unify=unify), q, N))
                except BaseException as e:
                    res = pickle.dumps(("raised", repr(e)))
                with os.fdopen(w, "wb") as f:
                    f.write(res)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            out.append(pickle.loads(f.read()))
        os.waitpid(pid, 0)
        if isinstance(out[-1], tuple) and out[-1][:1] == ("raised",):
            raise RuntimeError(f"{qname(q)}: {out[-1][1]}")
    return out


def kept(g, make):
    """Computed once per run."""
    name = os.path.join(os.environ["RFMC_SCRATCH"], f"g06_alone_{g}.pickle")
    if not os.path.exists(name):
        with open(f"{name}.{os.getpid()}", "wb") as f:
            pickle.dump(make(), f)
        os.replace(f"{name}.{os.getpid()}", name)
    with open(name, "rb") as f:
        return pickle.load(f)


def qname(q):
    return f"{q[0]}{q[1]}{q[2] or ''}"


def simulate(g, sparse, vect):
    rf = lib.rf()
    f = lib.make_fluid(dict(mu=0.5, B=1, rho=50, comp=1e-5))
    with lib.quiet():
        m = rf.models.BlackOil(g, f, pi=4000.0, dt=1)
        m.set_boundaries({int(i): ("pressure", 3900.0) for i in g.get_boundaries("id", "array")
                          if len(g.get_cell_neighbors(int(i), None, False, "list"))})
        m.compile("numerical", "FDM", sparse=sparse)
        m.run(2, vectorize=vect, isolver=None, threading=False)


def own_questions(n, unify, N):
    """The questions a grid is asked by itself and by models, as they are spelled there."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            g, seen = lib.make_grid(spec(n), unify=unify), {}

            def watch(name, f):
                def call(self, *a, **k):
                    try:
                        if not any(isinstance(x, (np.ndarray, dict, set)) for x in a + tuple(k.values())):
                            q = pickle.loads(pickle.dumps((name, a, k)))
                            seen.setdefault(repr(q), q)
                    except Exception:
                        pass        # arguments which cannot be repeated
                    return f(self, *a, **k)
                return call
            for cls in type(g).__mro__[::-1]:
                for name, f in list(vars(cls).items()):
                    if callable(f) and name.startswith("get_") and "pyvista" not in name:
                        setattr(type(g), name, watch(name, f))
            for q in queries(n):
                ask(g, q, N)
            try:
                for vect in (True, False):
                    simulate(lib.make_grid(spec(n), unify=unify), True, vect)
            finally:
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps([seen[x] for x in sorted(seen)]))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out = pickle.loads(f.read())
    os.waitpid(pid, 0)
    seen, keep = {}, []
    for q in out:       # of many cells: the first three of each spelling
        key = (q[0], len(q[1]), tuple(q[2]), tuple(x for x in q[1] + tuple(q[2].values()) if isinstance(x, (str, bool))))
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= 3:
            keep.append(q)
    return keep


def run(u, ctx):
    n, unify = GRIDS[u["g"]]
    Q = queries(n)
    mk = lambda: lib.make_grid(spec(n), unify=unify)
    g = mk()
    N = int(g.get_n(True))
    # the answers of a process which has seen no other grid and no other question
    base = kept(u["g"], lambda: alone([(spec(n), unify, q, N) for q in Q]))
    for q, r in zip(Q, base):
        ctx.state((n, unify, qname(q), r))
    n2 = other(n)
    N2 = int(np.prod([m + 2 if m > 1 else m for m in n2]))
    if u["kind"] == "pair":
        Q2 = {qname(q): q for q in queries(n2)}
        asked = [Q2.get(qname(Q[a])) or next(iter(Q2.values())) for a in range(*u["a"])]
        base2 = alone([(spec(n2), unify, q, N2) for q in asked])
        base3 = alone([(spec(n, True), unify, Q[a], N) for a in range(*u["a"])])
        for a in range(*u["a"]):
            for b in range(len(Q)):
                g = mk()
                r1, r2, r3 = ask(g, Q[a], N), ask(g, Q[b], N), ask(g, Q[a], N)
                ctx.trace()
                for what, r, w in ((a, r1, base[a]), (b, r2, base[b]), (a, r3, base[a])):
                    ctx.trans()
                    if r != w:
                        ctx.fail(f"changed:{Q[what][0]}", f"{qname(Q[what])} after {qname(Q[a])},"
                                 f"{qname(Q[b])}: {str(r)[:300]} instead of {str(w)[:300]}")
            # two live grids of other size / same size and other values
            g, h, s = mk(), lib.make_grid(spec(n2), unify=unify), lib.make_grid(spec(n, True), unify=unify)
            x = a - u["a"][0]
            q2, b2, b3 = asked[x], base2[x], base3[x]
            for r, w, who in ((ask(g, Q[a], N), base[a], "first"), (ask(h, q2, N2), b2, "second"),
                              (ask(s, Q[a], N), b3, "third"), (ask(g, Q[a], N), base[a], "first again"),
                              (ask(h, q2, N2), b2, "second again")):
                ctx.trans()
                if r != w:
                    ctx.fail(f"mixed:{Q[a][0]}", f"{who} grid answers {str(r)[:300]} instead of {str(w)[:300]}")
            ctx.trace()
    elif u["kind"] == "triple":
        idx = list(range(0, len(Q), 3))
        a = u["a"]
        for b, c in itertools.product(idx, idx):
            g = mk()
            for x in (a, b, c, a):
                r = ask(g, Q[x], N)
                ctx.trans()
                if r != base[x]:
                    ctx.fail(f"changed:{Q[x][0]}", f"{qname(Q[x])} after {qname(Q[a])},{qname(Q[b])},{qname(Q[c])}")
            ctx.trace()
    elif u["kind"] == "inner":
        S = kept(f"{u['g']}_own", lambda: own_questions(n, unify, N))
        alone_ = kept(f"{u['g']}_own_alone", lambda: alone([(spec(n), unify, q, N) for q in S]))
        ctx.eq("own-questions", len(S) > 20, True)
        for q in (Q + S)[u["part"]::4]:
            for back in (False, True):
                g = mk()
                ask(g, q, N)
                for x in range(len(S))[::-1 if back else 1]:
                    ctx.trans()
                    r = ask(g, S[x], N)
                    if r != alone_[x]:
                        ctx.fail(f"changed:{S[x][0]}", f"{qname(S[x])} after {qname(q)} and others: {str(r)[:300]} instead of {str(alone_[x])[:300]}")
                ctx.trace()
    else:
        for sparse, vect in itertools.product((True, False), repeat=2):
            g, h = mk(), mk()
            simulate(g, sparse, vect)
            for x, q in enumerate(Q):
                for who in (g, h):
                    ctx.trans()
                    r = ask(who, q, N)
                    if r != base[x]:
                        ctx.fail(f"after-simulation:{q[0]}", f"{qname(q)}: {str(r)[:300]} instead of {str(base[x])[:300]}")
            ctx.trace()
    ctx.sample(dict(n=n, unify=unify, questions=len(Q), kind=u["kind"]))
