"""A01: the analytical 1D solution against the method of images."""
import itertools
import math

import numpy as np

from .. import core, lib, ref, sim

ASSUME = ["homogeneous compressible 1D models in x with pressure at both ends; pressures belong to cell centers",
          "first row and very early times: accuracy of a series of 1000 terms"]
BOUNDS = {
    "quick": "nx 2..6 x {uniform, varying} spacing x 3 property sets x 3 timesteps x all triples (left, right, initial) of 4 pressures, "
             "two runs of 1 and 6 steps, calc_solution scaled and not; all sequences of 3 out of 9 property updates, runs and diffusivity queries",
    "thorough": "nx 2..9, all triples of 5 pressures, 3 units; sequences of 4 updates"}
PROPS = [(0.05, 0.2, 1e-5), (1.0, 0.1, 3e-5), (30.0, 0.3, 1e-6)]


def plan(tier):
    th = tier == "thorough"
    out = []
    for nx in range(2, 10 if th else 7):
        for het, pr, dt in itertools.product((0, 1), range(3), (1, 0.5, 20)):
            for unit in ("field", "metric", "lab") if th else ("field",):
                out.append(dict(nx=nx, het=het, pr=pr, dt=dt, unit=unit, np=5 if th else 4))
    for unit in ("field", "metric", "lab"):
        for first in range(len(UPDATES)):
            out.append(dict(kind="updates", unit=unit, first=first, depth=4 if th else 3))
    return out


# what may happen to grid and fluid between the questions to a model
UPDATES = [("run",), ("alpha",), ("kx", 7.0), ("kx", [1.0, 2.0, 3.0, 4.0, 5.0]), ("cell", 2, 9.0), ("phi", 0.15), ("phi", [0.1, 0.2, 0.3, 0.4, 0.2]),
           ("mu", 0.9), ("B", 1.4)]


def updates(u, ctx):
    """Diffusivity and solution follow the properties of the moment, after every sequence of updates and questions."""
    n, c = 3, 2e-5
    for rest in itertools.product(range(len(UPDATES)), repeat=u["depth"] - 1):
        seq = [UPDATES[x] for x in (u["first"],) + rest]
        k, phi, mu, B = [30.0] * 5, [0.2] * 5, 0.5, 1.2
        gs = dict(n=(n, 1, 1), d=(100.0, 350.0, 40.0), k=(30.0, None, None), phi=0.2, z=0.0, comp=0.2 * c, unit=u["unit"])
        fac = ref.RefGrid(gs["n"], gs["d"], gs["k"], 0.2, 0.0, 0.2 * c, u["unit"]).fac
        with lib.quiet():
            m = sim.make_model(dict(grid=gs, fluid=dict(mu=mu, B=B, comp=c, unit=u["unit"]), pi=4000.0, dt=2))
            m.set_boundaries({0: ("pressure", 3000.0), n + 1: ("pressure", 1000.0)})
            m.compile("analytical", "D1P1")
        for e in seq + [("alpha",), ("run",)]:
            ctx.trans()
            want = [fac["T"] * a * fac["vol"] / (mu * b * 1.2 * c) for a, b in zip(k, phi)]
            with lib.quiet():
                if e[0] == "alpha":
                    if not ctx.close("alpha", np.ravel(m.get_alpha()), want, rtol=1e-12, seq=str(seq)):
                        return
                elif e[0] == "run":
                    m.run(3)
                    if len(set(want)) == 1:
                        got = np.array(m.solution.pressures, float)
                        for t, x in itertools.product(range(1, 4), range(1, n + 1)):
                            w = 4000.0 - 1000.0 * F(100.0 * x, 400.0, want[0], 2 * t) - 3000.0 * F(400.0 - 100.0 * x, 400.0, want[0], 2 * t)
                            if not abs(got[t, x] - w) <= 1e-3:
                                ctx.fail("updates", f"after {seq}: step {t} cell {x}: {got[t, x]}, expected {w}")
                                return
                elif e[0] == "kx":
                    k = list(e[1]) if isinstance(e[1], list) else [e[1]] * 5
                    m.grid.set_props(kx=np.array(e[1]) if isinstance(e[1], list) else e[1])
                elif e[0] == "cell":
                    k = list(k)
                    k[e[1]] = e[2]
                    m.grid.set_prop("kx", e[2], id=e[1])
                elif e[0] == "phi":
                    phi = list(e[1]) if isinstance(e[1], list) else [e[1]] * 5
                    m.grid.set_props(phi=np.array(e[1]) if isinstance(e[1], list) else e[1])
                elif e[0] == "mu":
                    mu = e[1]
                    m.fluid.set_mu(mu)
                elif e[0] == "B":
                    B = e[1]
                    m.fluid.set_B(B)
            ctx.state((u["unit"], str(seq), e))
        ctx.trace()
    ctx.sample(u)


def F(x, L, a, t):
    """Response at x to a unit step of the pressure at 0, other end fixed."""
    if t == 0:
        return 1.0 if x == 0 else 0.0
    w = 2 * math.sqrt(a * t)
    if w < L:
        return sum(math.erfc((2 * n * L + x) / w) - math.erfc((2 * (n + 1) * L - x) / w) for n in range(0, 40))
    # late: residual of the steady state, few terms
    q = math.pi / L
    return 1 - x / L - sum(2 / (n * math.pi) * math.sin(n * q * x) * math.exp(-(n * q) ** 2 * a * t) for n in range(1, 60))


def run(u, ctx):
    if u.get("kind") == "updates":
        return updates(u, ctx)
    nx = u["nx"]
    k, phi, c = PROPS[u["pr"]]
    dx = 100.0 if not u["het"] else [80.0 + 25.0 * ((3 * i) % 4) for i in range(nx + 2)]
    gs = dict(n=(nx, 1, 1), d=(dx, 350.0, 40.0), k=(k, None, None), phi=phi, z=0.0, comp=0.2 * c, unit=u["unit"])
    R = ref.RefGrid(gs["n"], gs["d"], gs["k"], phi, 0.0, 0.2 * c, u["unit"])
    f = R.fac
    a = f["T"] * k * f["vol"] / (0.5 * phi * 1.2 * c)
    xs = [R.center(i)[0] for i in range(R.N)]
    x0, L = xs[0], xs[-1] - xs[0]
    P = [4000.0, 1000.0, 2500.0, 0.0, 100.0][: u["np"]]
    for pl, pr, pi in itertools.product(P, repeat=3):
        if pl == pr == pi:
            continue
        sc = dict(grid=gs, fluid=dict(mu=0.5, B=1.2, comp=c, unit=u["unit"]), pi=pi, dt=u["dt"])
        with lib.quiet():
            m = sim.make_model(sc)
            m.set_boundaries({0: ("pressure", pl), nx + 1: ("pressure", pr)})
            m.compile("analytical", "D1P1")
        lo, hi = min(pl, pr, pi), max(pl, pr, pi)
        for n in (1, 6, 6):
            with lib.quiet():
                m.run(n)
            s = m.solution
            case = dict(left=pl, right=pr, pi=pi, steps=n)
            ctx.eq("bookkeeping", (int(s.tstep), int(s.nsteps), s.pressures.shape, tuple(int(v) for v in m.get_shape(True))),
                   (n, n + 1, (n + 1, R.N), (n + 1, R.N)), **case)
            if s.pressures.shape != (n + 1, R.N):
                return
            got = np.asarray(s.pressures, float)
            for t in range(n + 1):
                T = t * u["dt"]
                tD = a * T / L ** 2
                for x, v in enumerate(got[t]):
                    xr = xs[x] - x0
                    want = pi + (pl - pi) * F(xr, L, a, T) + (pr - pi) * F(L - xr, L, a, T)
                    tol = 1e-8
                    if math.pi ** 2 * 1e6 * tD < 40:
                        d = min(xr, L - xr) / L
                        tol = 1e-9 if d == 0 else 2.0 / (1000 * math.sin(math.pi * d))
                    ctx.trans()
                    if not abs(v - want) <= tol * (hi - lo) + 1e-9:
                        ctx.fail("pressure", f"step {t} cell {x}: {v}, expected {want} (tolerance {tol * (hi - lo)})", **case)
                        return
            if got.min() < lo - 1e-9 * (hi - lo) or got.max() > hi + 1e-9 * (hi - lo):
                ctx.fail("bounds", f"pressures {got.min()}..{got.max()} outside {lo}..{hi}", **case)
            ctx.state((nx, u["pr"], u["dt"], u["het"], pl, pr, pi, n))
        with lib.quiet():
            X, p = m.solution.calc_solution()
            ctx.close("calc", p, got, rtol=1e-12, **case)
            ctx.close("calc-times", X[:, :, 0], [[t * u["dt"]] * R.N for t in range(n + 1)], rtol=1e-12)
            ctx.close("calc-places", X[:, :, 1], [xs] * (n + 1), rtol=1e-12)
            X, p = m.solution.calc_solution(scale=True, output_range=[-1, 1])
            lo, hi = got.min(), got.max()     # the range of the stored pressures
            ctx.close("calc-scaled", p, -1 + 2 * (got - lo) / (hi - lo), rtol=1e-9, atol=1e-9)
            ctx.close("calc-scaled-times", X[:, :, 0], [[t / n] * R.N for t in range(n + 1)], rtol=1e-12)
            ctx.close("calc-scaled-places", X[:, :, 1], [[-1 + 2 * (x - x0) / L for x in xs]] * (n + 1), rtol=1e-9, atol=1e-9)
        ctx.trace()
    ctx.sample(u)
