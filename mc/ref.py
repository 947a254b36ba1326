"""Reference models: plain Python, written from the documented semantics.

Nothing in this file imports the code under test.  The grid model works on
(i, j, k) triples and dictionaries; the simulator assembles the implicit
finite-volume balance cell by cell, and decides the well controls by trying
every assignment of control modes.
"""
from __future__ import annotations

import itertools
import math

import numpy as np

FACTORS = {
    "field": dict(g=32.174, T=0.001127, grav=0.21584e-3, vol=5.614583),
    "metric": dict(g=9.806635, T=0.0864, grav=0.001, vol=1),
    "lab": dict(g=980.6635, T=1, grav=0.986923e-6, vol=1),
}
AXES = "xyz"


def as_axis(d, n):
    """d: scalar or list of n entries -> list of n floats."""
    if isinstance(d, (list, tuple)):
        assert len(d) == n, (d, n)
        return [float(v) for v in d]
    return [float(d)] * n


class RefGrid:
    """Structured grid with a one-cell boundary layer in flow directions."""

    def __init__(self, n, d=(1.0, 1.0, 1.0), k=(None, None, None), phi=None,
                 z=0.0, comp=0.0, unit="field"):
        self.nxyz = tuple(n)
        self.flow = [a for a in range(3) if n[a] > 1]
        self.D = len(self.flow)
        self.fdir = "".join(AXES[a] for a in self.flow) or "-"
        self.nb = tuple(m + 2 if m > 1 else m for m in n)
        self.unit = unit
        self.fac = FACTORS[unit]
        self.dax = [as_axis(d[a], self.nb[a]) for a in range(3)]
        # natural order: x fastest, then y, then z
        self.cells = [(i, j, kk) for kk in range(self.nb[2])
                      for j in range(self.nb[1]) for i in range(self.nb[0])]
        self.id = {c: i for i, c in enumerate(self.cells)}
        self.N = len(self.cells)
        self.interior = [i for i, c in enumerate(self.cells) if self.is_in(c)]
        self.inset = set(self.interior)
        self.boundary = [i for i in range(self.N) if i not in self.inset]
        self.k = [self.bulk(v) for v in k]
        self.phi = self.bulk(phi)
        self.z = self.bulk(z)
        self.comp = comp

    def bulk(self, v):
        if v is None:
            return None
        return as_axis(v, self.N)

    def is_in(self, c):
        return all(0 < c[a] < self.nb[a] - 1 for a in self.flow)

    def shape(self, boundary):
        return self.nb if boundary else self.nxyz

    def fshape(self, boundary, unify):
        """(z, y, x) order; all three axes when unified or 3D."""
        s = self.shape(boundary)
        if unify or self.D == 3:
            return (s[2], s[1], s[0])
        if self.D == 0:
            return (1,)
        return tuple(s[a] for a in reversed(self.flow))

    def ids(self, boundary):
        return list(range(self.N)) if boundary else list(self.interior)

    def neighbors(self, i):
        """{axis letter: [lower, upper] face neighbours of cell i (all)}."""
        c = self.cells[i]
        out = {}
        for a in range(3):
            out[AXES[a]] = []
            if a not in self.flow:
                continue
            for s in (-1, 1):
                m = list(c)
                m[a] += s
                if tuple(m) in self.id:
                    out[AXES[a]].append(self.id[tuple(m)])
        return out

    def inner_neighbors(self, i):
        return {a: [m for m in v if m in self.inset]
                for a, v in self.neighbors(i).items()}

    def cell_boundaries(self, i):
        return {a: [m for m in v if m not in self.inset]
                for a, v in self.neighbors(i).items()}

    # geometry -----------------------------------------------------------
    def d(self, a, i):
        return self.dax[a][self.cells[i][a]]

    def area(self, a, i):
        o = [b for b in range(3) if b != a]
        return self.d(o[0], i) * self.d(o[1], i)

    def vol(self, i):
        return self.d(0, i) * self.d(1, i) * self.d(2, i)

    def center(self, i):
        c = self.cells[i]
        return tuple(math.fsum(self.dax[a][: c[a]]) + self.dax[a][c[a]] / 2
                     for a in range(3))

    # transmissibility -----------------------------------------------------
    def G(self, i, m):
        """Series (harmonic) combination of the two half cells of a face."""
        for a in range(3):
            if self.cells[i][a] != self.cells[m][a]:
                break
        if self.k[a][i] == 0 or self.k[a][m] == 0:
            return 0.0      # a tight cell
        ri = self.d(a, i) / (self.area(a, i) * self.k[a][i])
        rm = self.d(a, m) / (self.area(a, m) * self.k[a][m])
        return 2 * self.fac["T"] / (ri + rm)

    def face_axis(self, i, m):
        return [a for a in range(3) if self.cells[i][a] != self.cells[m][a]][0]


class RefFluid:
    def __init__(self, mu=1.0, B=1.0, rho=0.0, comp=0.0, unit="field"):
        self.mu, self.B, self.rho, self.comp = mu, B, rho, comp
        f = FACTORS[unit]
        self.g = f["grav"] * rho * f["g"]


def well_geometry(grid: RefGrid, i, r, s=0.0):
    """Peaceman equivalent radius and geometric factor, wells along z."""
    dx, dy, dz = (grid.d(a, i) for a in range(3))
    if grid.fdir == "x":
        req = 0.14 * math.sqrt(dx * dx + dy * dy)
        kH = grid.k[0][i]
    elif grid.fdir in ("xy", "xyz"):
        kx, ky = grid.k[0][i], grid.k[1][i]
        req = (0.28 * math.sqrt(math.sqrt(ky / kx) * dx * dx
                                + math.sqrt(kx / ky) * dy * dy)
               / ((ky / kx) ** 0.25 + (kx / ky) ** 0.25))
        kH = math.sqrt(kx * ky)
    else:
        raise ValueError(grid.fdir)
    G = (2 * math.pi * grid.fac["T"] * kH * dz
         / (math.log(req / r * 12) + (s or 0.0)))
    return req, G


class RefSim:
    """Implicit single-phase simulator (slightly compressible or not)."""

    def __init__(self, grid: RefGrid, fluid: RefFluid, pi, dt):
        self.g, self.f, self.dt = grid, fluid, dt
        self.comp = fluid.comp + grid.comp
        self.pi = pi
        self.p = {i: pi for i in grid.interior}
        self.bc = {}      # boundary id -> ("p"|"q", value)
        self.wells = {}   # id -> dict(q=|None, pwf=limit or value, G=)
        self.hist_p = [dict(self.p)]
        self.hist_q = []
        self.hist_pwf = []
        self.hist_mode = []

    def T(self, i, m):
        return self.g.G(i, m) / (self.f.mu * self.f.B)

    def acc(self, i):
        if self.comp == 0:
            return 0.0
        return (self.g.vol(i) * self.g.phi[i] * self.comp
                / (self.g.fac["vol"] * self.f.B * self.dt))

    def set_boundaries(self, bdict):
        """Replace all conditions; gradient -> rate T * d * v (d of cell)."""
        bc = {}
        for b, (cond, v) in bdict.items():
            c = cond.lower()
            inner = [m for ms in self.g.inner_neighbors(b).values() for m in ms]
            if not inner:
                continue  # edge/corner cell: no face with the reservoir
            (m,) = inner
            if c in ("pressure", "press", "p"):
                bc[b] = ("p", float(v), m)
            elif c in ("rate", "q"):
                bc[b] = ("q", float(v), m)
            elif c in ("gradient", "grad", "g"):
                a = self.g.face_axis(b, m)
                bc[b] = ("q", self.T(b, m) * self.g.d(a, m) * v, m)
            else:
                raise ValueError(cond)
        self.bc = bc

    def set_well(self, i, q=None, pwf=None, r=None, s=None):
        w = self.wells.setdefault(i, dict(q=None, pwf=None, r=None, s=None))
        for key, v in dict(q=q, pwf=pwf, r=r, s=s).items():
            if v is not None:
                w[key] = float(v)
        w["req"], w["G"] = well_geometry(self.g, i, w["r"], w["s"])
        w["J"] = w["G"] / (self.f.B * self.f.mu)

    def assemble(self, modes):
        idx = {c: n for n, c in enumerate(self.g.interior)}
        n = len(idx)
        A = np.zeros((n, n))
        d = np.zeros(n)
        gam, z = self.f.g, self.g.z
        for i in self.g.interior:
            r = idx[i]
            for ms in self.g.inner_neighbors(i).values():
                for m in ms:
                    t = self.T(i, m)
                    A[r, idx[m]] += t
                    A[r, r] -= t
                    d[r] += t * gam * (z[m] - z[i])
            A[r, r] -= self.acc(i)
            d[r] -= self.acc(i) * self.p[i] if self.comp else 0.0
        for b, (c, v, m) in self.bc.items():
            r = idx[m]
            if c == "p":
                t = 2 * self.T(b, m)
                A[r, r] -= t
                d[r] -= t * (v - gam * (z[b] - z[m]))
            else:
                d[r] -= v
        for i, w in self.wells.items():
            r = idx[i]
            if modes.get(i) == "q":
                d[r] -= w["q"]
            elif modes.get(i) == "pwf":
                A[r, r] -= w["J"]
                d[r] -= w["J"] * (w["pwf"] or 0.0)
        return A, d, idx

    def default_modes(self):
        return {i: ("q" if w["q"] is not None else
                    "pwf" if w["pwf"] is not None else None)
                for i, w in self.wells.items()}

    def step(self):
        """One implicit step.  Target wells obey q = max(q_target, q(limit)),
        decided by exhaustive search over all control-mode assignments."""
        targets = [i for i, w in self.wells.items() if w["q"] is not None]
        base = self.default_modes()
        best = None
        sols = []
        def attempt(combo):
            modes = dict(base)
            modes.update(zip(targets, combo))
            A, d, idx = self.assemble(modes)
            if np.linalg.matrix_rank(A) < len(d):
                return None
            x = np.linalg.solve(A, d)
            worst, bad = 0.0, []
            scale = 1.0 + float(np.abs(x).max())
            for i in targets:
                w = self.wells[i]
                est = x[idx[i]] + w["q"] / w["J"]
                lim = w["pwf"] or 0.0
                gap = ((lim - est) if modes[i] == "q" else (est - lim)) / scale
                worst = max(worst, gap)
                if gap > -1e-6:
                    bad.append(i)
            sols.append((worst, modes, x, idx))
            return worst, bad

        if len(targets) <= 5:
            for combo in itertools.product(("q", "pwf"), repeat=len(targets)):
                attempt(combo)
        else:   # too many combinations: bind limits one round after another, then
            combo = ["q"] * len(targets)    # vary every doubtful well
            while (r := attempt(combo)) and r[0] > 1e-9:
                assert len(sols) < 50
                for i in r[1]:
                    combo[targets.index(i)] = "pwf"
            for i in (r[1] if r else ()):
                x = targets.index(i)
                attempt(combo[:x] + [{"q": "pwf", "pwf": "q"}[combo[x]]] + combo[x + 1:])
        if not sols:
            raise ArithmeticError("singular")
        best = min(sols, key=lambda s: s[0])
        worst, modes, x, idx = best
        assert worst < 1e-9, worst
        # degenerate decision: two mode vectors feasible with different p
        self.tie = any(s[0] < 1e-6 and s[1] != modes for s in sols)
        newp = {c: float(x[idx[c]]) for c in self.g.interior}
        q, pwf = {}, {}
        gam, z = self.f.g, self.g.z
        for b, (c, v, m) in self.bc.items():
            q[b] = (2 * self.T(b, m) * (v - newp[m] - gam * (z[b] - z[m]))
                    if c == "p" else v)
        for i, w in self.wells.items():
            if modes[i] == "q":
                q[i] = w["q"]
                pwf[i] = newp[i] + w["q"] / w["J"]
            elif modes[i] == "pwf":
                pwf[i] = w["pwf"] or 0.0
                q[i] = -w["J"] * (newp[i] - pwf[i])
            else:
                q[i] = 0.0
                pwf[i] = newp[i]
        self.p = newp
        self.hist_p.append(newp)
        self.hist_q.append(q)
        self.hist_pwf.append(pwf)
        self.hist_mode.append(dict(modes))
        return newp, q, pwf, modes
