"""W01: rate and pressure of a well are tied by the productivity of its block."""
import itertools

from .. import large, lib, ref, sim

ASSUME = ["vertical wells in grids with flow along x, in xy or in xyz"]
BOUNDS = {"quick": "4 grids x every cell x 3 radii x 4 skins (stimulated wells included) x {rate, pressure, both} x {arguments, well object, object moved to another cell, object given to the model, piecewise} x 3 unit systems; histories of 21 steps with redefinitions on grids of 11 to 110 cells with up to 5 wells",
          "thorough": "8 grids, 4 radii, 6 skins, same definitions and units"}
GRIDS = [((3, 1, 1), 0), ((2, 2, 1), 1), ((2, 2, 2), 2), ((3, 2, 1), 3),
         ((4, 1, 1), 1), ((2, 3, 1), 2), ((2, 3, 2), 3), ((3, 3, 1), 1)]


def plan(tier):
    ng, radii, skins = (4, (0.5, 3.5, 12.0), (None, 0.0, 2.5, -1.5)) if tier == "quick" else (
        8, (0.25, 0.5, 3.5, 12.0), (None, 0.0, 2.5, -1.5, -0.5, 7.0))
    out = []
    for gi in range(ng):
        n, kp = GRIDS[gi]
        R = ref.RefGrid(n)
        for cell in R.interior:
            for unit in ("field", "metric", "lab"):
                out.append(dict(n=list(n), kp=kp, cell=cell, unit=unit,
                                radii=list(radii), skins=list(skins)))
    out += large.units(tier, (0, 1, 2, 6))
    return out


def spec(u):
    n = tuple(u["n"])
    R = ref.RefGrid(n)
    k = [80.0, 80.0, 9.0]
    if u["kp"] in (1, 3):
        k[1] = 20.0
    if u["kp"] >= 2:
        k = [[kk * (1 + 0.3 * ((i + 2 * a) % 4)) for i in range(R.N)] for a, kk in enumerate(k)]
    d = [300.0, 350.0, 40.0]
    if u["kp"] >= 1:
        for a in R.flow:
            d[a] = [d[a] * (1 + 0.2 * ((i * 3 + a) % 4)) for i in range(R.nb[a])]
    return dict(n=n, d=d, k=k, phi=0.2, comp=1e-6, unit=u["unit"], unify=True)


def inflow(ctx):
    """Every well of the newest step; the productivity is that of the definition in force."""
    def hook(m, S):
        t = int(m.solution.tstep)
        for c, w in S.wells.items():
            q, p, pw = float(m.solution.rates[t, c]), float(m.solution.pressures[t, c]), float(m.w_pressures[c][t])
            ctx.close("large:inflow", q, -w["J"] * (p - pw), rtol=1e-7, atol=1e-9 * w["J"] * 4000, cell=c, step=t)
        return not ctx.viol
    return hook


def run(u, ctx):
    if u.get("kind") == "large":
        return large.run(u, ctx, hook=inflow(ctx))
    gs = spec(u)
    fs = dict(mu=0.8, B=1.2, comp=1e-5, unit=u["unit"])
    R = ref.RefGrid(gs["n"], gs["d"], gs["k"], 0.2, unit=u["unit"])
    cell = u["cell"]
    bd = [b for b in R.boundary if any(R.inner_neighbors(b).values())][0]
    g, f = lib.make_grid(gs), lib.make_fluid(fs)
    for r, s in itertools.product(u["radii"], u["skins"]):
        _, G = ref.well_geometry(R, cell, r, s)
        J = G / (fs["mu"] * fs["B"])
        for how, via in itertools.product(("q", "pwf", "both-q", "both-pwf"), ("args", "object", "piecewise", "moved", "built")):
            if via in ("object", "moved", "built") and how != "q":
                continue  # well objects carry a rate, a skin and a radius
            scen = dict(grid=gs, fluid=fs, pi=4000.0, dt=1)
            q, pw = -0.05 * J * 4000.0 / 10, 3990.0
            kw = {"q": dict(q=q), "pwf": dict(pwf=pw), "both-q": dict(q=q, pwf=10.0),
                  "both-pwf": dict(q=100 * q, pwf=pw)}[how]
            with lib.quiet():
                well = lib.rf().wells.SingleCell(cell_id=cell, r=r, s=s, **kw) if how == "q" else None
                if via == "built":
                    m = lib.rf().models.BlackOil(g, f, well, 4000.0, 1, None, unit=u["unit"])
                else:
                    m = sim.make_model(scen, g, f)
                if via == "built":
                    pass
                elif via == "moved":        # the given cell wins over the cell of the well
                    well.set_cell_id(R.interior[0] if cell != R.interior[0] else R.interior[-1])
                    m.set_well(well, cell_id=cell)
                elif via == "args":
                    m.set_well(cell_id=cell, r=r, s=s, **kw)
                elif via == "object":
                    m.set_well(well)
                else:
                    m.set_well(cell_id=cell, r=r * 2, s=1.0, **kw)
                    m.set_well(cell_id=cell, r=r, s=0.0 if s is None else s)
                m.set_boundaries({bd: ("pressure", 4010.0)})
                m.compile("numerical", "FDM", sparse=False)
                m.solve(vectorize=True)
            ctx.eq(f"cells:{how}:{via}", list(m.wells), [cell])
            p = float(m.solution.pressures[1, cell])
            rate = float(m.solution.rates[1, cell])
            w = float(m.w_pressures[cell][1])
            key = f"{how}:{via}"
            ctx.close(f"productivity:{key}", rate, -J * (p - w), rtol=1e-7,
                      atol=1e-9 * J * 4000, r=r, s=s, cell=cell)
            if how in ("q", "both-q"):
                ctx.close(f"rate:{key}", rate, q, r=r, s=s)
            else:
                ctx.close(f"pressure:{key}", w, pw, r=r, s=s)
            ctx.state((tuple(u["n"]), cell, u["unit"], r, s, key))
            ctx.trace()
    try:
        with lib.quiet():
            m = sim.make_model(dict(grid=gs, fluid=fs, pi=4000.0, dt=1), g, f)
            m.set_well(cell_id=R.boundary[0], q=-1.0, r=1.0)
        ctx.fail("boundary-well-accepted", f"cell {R.boundary[0]}")
    except AssertionError:
        ctx.trans()
    ctx.sample(dict(n=u["n"], cell=cell, unit=u["unit"]))
