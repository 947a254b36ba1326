"""T01: the transmissibility network."""
import itertools

import numpy as np

from .. import lib, ref

ASSUME = ["permeability alphabet per direction: constant, varying inside, varying only in "
          "boundary cells; strictly positive permeability"]
BOUNDS = {"quick": "sizes 1..3 per axis (at least one >1), constant/varying/thin spacing on each flow axis, 3 permeability patterns on each flow axis; 17 larger or elongated sizes (up to 6x6x6, 102 cells in a row)",
          "thorough": "sizes 1..4 per axis, same alphabets"}
K0 = (270.0, 30.0, 4.0)
BASE = (300.0, 350.0, 40.0)


BIG = [(12, 1, 1), (1, 11, 1), (1, 1, 13), (11, 3, 1), (3, 11, 1), (11, 1, 3), (3, 1, 11), (1, 3, 11), (1, 11, 3), (7, 5, 3), (3, 5, 7),
       (5, 7, 3), (6, 6, 6), (10, 11, 1), (101, 1, 1), (1, 102, 1), (1, 1, 101)]


def plan(tier):
    m = 3 if tier == "quick" else 4
    out = [dict(n=list(n), pat=[p for a in range(3) if n[a] > 1], k=[k for a in range(3) if n[a] > 1], unify=k < 2)
           for n in BIG for p in (1, 2) for k in range(3)]
    for n in itertools.product(range(1, m + 1), repeat=3):
        if max(n) == 1:
            continue
        flow = [a for a in range(3) if n[a] > 1]
        pats = list(itertools.product((0, 1), repeat=len(flow)))
        kp = list(itertools.product(range(3), repeat=len(flow)))
        for pat in pats:
            for kk in kp:
                out.append(dict(n=list(n), pat=list(pat), k=list(kk),
                                unify=len(out) % 2 == 0))
        for pat in itertools.product((0, 2), repeat=len(flow)):
            if any(pat):
                for kk, unify in itertools.product((kp[0], kp[-1]), (True, False)):
                    out.append(dict(n=list(n), pat=list(pat), k=list(kk), unify=unify))
        for p in (3, 4):
            for pat, unify in itertools.product((0, 1), (True, False)):
                out.append(dict(n=list(n), pat=[pat] * len(flow), k=[p] * len(flow), unify=unify))
    return out


def kfield(R, a, p):
    if p == 0:
        return K0[a]
    if p == 1:
        return [K0[a] * (1 + 0.37 * ((i * 7 + a) % 5) + 0.01 * i) for i in range(R.N)]
    if p == 3:      # extreme contrast
        return [(1e-4, 3e4, 7.0)[(i + a) % 3] for i in range(R.N)]
    if p == 4:      # some cells are tight
        return [0.0 if (i + a) % 3 == 1 else K0[a] for i in range(R.N)]
    return [K0[a] if i in R.inset else K0[a] * (1.5 + (i % 4)) for i in range(R.N)]


def dense(m):
    return m.toarray() if hasattr(m, "toarray") else np.asarray(m)


def run(u, ctx):
    n, unify = tuple(u["n"]), u["unify"]
    flow = [a for a in range(3) if n[a] > 1]
    d = list(BASE)
    for a, p in zip(flow, u["pat"]):
        if p == 1:
            d[a] = [BASE[a] + 21.5 * (i + 1) + (i % 2) * 7 for i in range(n[a] + 2)]
        elif p == 2:    # thin cells: different, but not by much in length units
            d[a] = [1e-3 * (2 + (i * 3) % 5) for i in range(n[a] + 2)]
    R0 = ref.RefGrid(n, d)
    k = [None, None, None]
    for a, p in zip(flow, u["k"]):
        k[a] = kfield(R0, a, p)
    for a in range(3):  # permeability of a direction without flow is not used
        if k[a] is None and u["k"][0] == 1:
            k[a] = 11.0
    R = ref.RefGrid(n, d, k, phi=0.2)
    g = lib.make_grid(dict(n=n, d=d, k=k, phi=0.2), unify=unify)
    mu, B = 0.5, 1.25
    f = lib.make_fluid(dict(mu=mu, B=B))
    with lib.quiet():
        model = lib.rf().models.BlackOil(g, f, pi=1000.0)
    N = R.N
    for b in (True, False):
        ids = R.ids(b)
        pos = {c: x for x, c in enumerate(ids)}
        want = np.zeros((len(ids), len(ids)))
        for i in ids:
            for ms in R.neighbors(i).values():
                for m in ms:
                    # faces between two boundary cells are not part of the
                    # per-cell answers, but they are grid faces.
                    if m in pos:
                        want[pos[i], pos[m]] = R.G(i, m)
        inner = np.zeros_like(want)
        for i in ids:
            for m in [x for v in (R.neighbors(i) if i in R.inset else R.inner_neighbors(i)).values() for x in v]:
                if m in pos:
                    inner[pos[i], pos[m]] = R.G(i, m)
        for sp in (True, False):
            ctx.state((n, tuple(u["pat"]), tuple(u["k"]), b, sp))
            G = dense(g.get_cells_G(b, sp))
            ctx.close(f"G:{'sparse' if sp else 'dense'}:{b}", G, want)
            ctx.close("G-symmetric", G, G.T, rtol=1e-12)
            ctx.eq("G-pattern", (G > 0).tolist(), (want > 0).tolist())
            T = dense(model.get_cells_trans(b, sp, True))
            ctx.close(f"T-vectorized:{'sparse' if sp else 'dense'}:{b}", T, want / (mu * B))
            off = 1
            for x, a in enumerate(flow):    # couplings along one axis: one diagonal each
                dg = np.asarray(model.get_cells_trans_diag(b, x + 1))
                ctx.close(f"T-diagonal:{b}", dg, np.diag(want, off) / (mu * B), axis="xyz"[a])
                off *= R.nb[a] if b else n[a]
            if not b:
                T = dense(model.get_cells_trans(b, sp, False))
                ctx.close(f"T-cells:{'sparse' if sp else 'dense'}:{b}", T, inner / (mu * B))
    for i, c in enumerate(R.cells):
        for b in (False, True):
            if b and i not in R.inset:
                continue
            nb = R.neighbors(i) if b else R.inner_neighbors(i)
            want = {m: R.G(i, m) for ms in nb.values() for m in ms}
            for nm, got, div in (
                    ("cell_G", g.get_cell_G(i, None, b), 1.0),
                    ("cell_T", model.get_cell_trans(i, None, b), mu * B)):
                got = {int(kk): float(v) for kk, v in got.items()}
                if ctx.eq(f"{nm}-faces", sorted(got), sorted(want), id=i):
                    ctx.close(nm, [got[m] for m in sorted(want)],
                              [want[m] / div for m in sorted(want)], id=i)
            got = {tuple(int(x) for x in kk): float(v)
                   for kk, v in g.get_cell_G(None, c, b).items()}
            wc = {R.cells[m]: v for m, v in want.items()}
            if ctx.eq("cell_G-coords-faces", sorted(got), sorted(wc), coords=c):
                ctx.close("cell_G-coords", [got[m] for m in sorted(wc)],
                          [wc[m] for m in sorted(wc)], coords=c)
            got = {tuple(int(x) for x in kk): float(v)
                   for kk, v in model.get_cell_trans(None, c, b).items()}
            if ctx.eq("cell_T-coords-faces", sorted(got), sorted(wc), coords=c):
                ctx.close("cell_T-coords", [got[m] for m in sorted(wc)],
                          [wc[m] / (mu * B) for m in sorted(wc)], coords=c)
    ctx.trace()
    ctx.sample(dict(n=n, d=d, k=u['k'], unify=unify))
