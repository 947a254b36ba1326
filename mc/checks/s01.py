"""S01: every simulated trajectory is the implicit finite-volume solution."""
import itertools

from .. import large, lib, ref, sim

ASSUME = ["reference: cell-by-cell implicit balance written independently, dense solve",
          "well controls by exhaustive search over control modes"]
BOUNDS = {
    "quick": "12 grid shapes x {spacing, permeability, porosity: constant/varying} x compressibility "
             "{none, fluid, both} x gravity {flat, tilted; gently tilted, one cell or the boundaries off the plane} x 4 schedules x {sparse,dense}x{vectorized,symbolic}, 3 steps; "
             "8 shapes up to 11x1x1, 5x4x1 and 4x3x3 with a well in every other cell, 20 steps; incompressible models without initial pressure; single precision; 16 unusual magnitudes (pressures, rates, timesteps, viscosity, permeability, storage, a tight cell) x 3 schedules; histories of 21 steps with redefinitions on grids of 11 to 110 cells with up to 5 wells (147 steps on one)",
    "thorough": "26 grid shapes, same factors, unify and unit alphabets, 5 steps; 18 shapes with wells in every other cell, 60 steps"}
SHAPES = [(3, 1, 1), (1, 4, 1), (1, 1, 3), (2, 2, 1), (3, 2, 1), (2, 1, 2), (1, 2, 3), (2, 2, 2),
          (3, 2, 2), (2, 1, 1), (2, 3, 2), (4, 1, 1)]
LONG = [(2, 1, 1), (3, 1, 1), (11, 1, 1), (1, 5, 1), (2, 2, 1), (5, 4, 1), (2, 2, 2), (4, 3, 3)]
MORE = [(5, 1, 1), (1, 2, 1), (1, 1, 2), (3, 3, 1), (4, 2, 1), (2, 4, 1), (3, 1, 3), (1, 3, 3),
        (2, 1, 4), (1, 4, 2), (2, 2, 3), (3, 3, 2), (4, 3, 2), (6, 1, 1)]


EXT = [dict(pi=0.0, b=0.0), dict(pi=14.7, b=-50.0), dict(pi=2e5, b=1.5e5), dict(dt=1e-3), dict(dt=3650), dict(q=1e-5), dict(q=1e4),
       dict(mu=1e-3, B=0.7), dict(mu=5e3, B=1.9), dict(k=1e-5), dict(k=3e2), dict(c=1e-3, comp=True), dict(c=1e-12, comp=True),
       dict(phi=0, comp=True), dict(phi=5e-3, comp=True), dict(tight=True, comp=True)]


def unusual(sc, e):
    """The same scenario with other magnitudes."""
    g, f = dict(sc["grid"]), dict(sc["fluid"])
    ops = []
    for op in sc["ops"]:
        if op[0] == "b":
            bs = dict(op[1])
            if "b" in e or "pi" in e:
                bs = {b: (c, v - 4000.0 + e["b"] if c == "pressure" else v) for b, (c, v) in bs.items()}
            op = ("b", {b: (c, v * e.get("q", 1.0) if c == "rate" else v) for b, (c, v) in bs.items()})
        elif op[0] == "w":
            kw = dict(op[2])
            if "q" in kw:
                kw["q"] *= e.get("q", 1.0)
            if "pwf" in kw and "pi" in e:
                kw["pwf"] += e["pi"] - 4000.0
            op = ("w", op[1], kw)
        ops.append(op)
    for nm in ("mu", "B"):
        f[nm] = e.get(nm, f[nm])
    if "c" in e:
        g["comp"], f["comp"] = e["c"] / 3, e["c"]
    if "k" in e:
        g["k"] = [[v * e["k"] for v in k] for k in g["k"]]
    if "phi" in e:
        g["phi"] = [e["phi"] if i % 2 else v for i, v in enumerate(g["phi"])]
    if "tight" in e:
        R = ref.RefGrid(g["n"])
        t = R.interior[len(R.interior) // 2]
        g["k"] = [[0.0 if i == t else v for i, v in enumerate(k)] for k in g["k"]]
    return dict(sc, grid=g, fluid=f, ops=ops, pi=e.get("pi", sc["pi"]), dt=e.get("dt", sc["dt"]))


def plan(tier):
    out = []
    shapes = SHAPES if tier == "quick" else SHAPES + MORE
    for n in shapes:
        for het, comp, grav in itertools.product(range(3 if tier == "quick" else 4), range(3), range(5)):
            if grav > 1 and (het != 1 or tier == "quick" and comp == 2):
                continue
            for sch in range(4):
                units = ("field",) if tier == "quick" else ("field", "metric", "lab")
                for unit in units:
                    if unit != "field" and (het != 1 or n in MORE):
                        continue
                    out.append(dict(n=list(n), het=het, comp=comp, grav=grav, sch=sch, unit=unit,
                                    unify=(het + sch) % 2 == 0,
                                    steps=3 if tier == "quick" else 5))
    for n, sch in itertools.product(shapes, range(4)):     # single precision
        for comp in (0, 2):
            out.append(dict(n=list(n), het=1, comp=comp, grav=sch % 2, sch=sch, unit="field", unify=True, steps=3, dtype="single"))
    for n, sch in itertools.product(shapes, range(4)):     # incompressible without initial pressure
        out.append(dict(n=list(n), het=1, comp=0, grav=sch % 2, sch=sch, unit="field", unify=True, steps=3, nopi=True))
    for n, sch, ext, comp in itertools.product(shapes, (0, 2, 3), range(len(EXT)), (0, 2)):     # unusual magnitudes
        if comp or not EXT[ext].get("comp"):
            out.append(dict(n=list(n), het=1, comp=comp, grav=ext % 2, sch=sch, unit="field", unify=True, steps=3, ext=ext))
    for n in LONG if tier == "quick" else LONG + MORE[4:]:
        for comp, grav in itertools.product(range(3), (0, 1)):
            out.append(dict(n=list(n), het=1 + comp % 2, comp=comp, grav=grav, sch=4, unit="field", unify=bool(grav),
                            steps=20 if tier == "quick" else 60))
    out += large.units(tier) + [dict(kind="large", g=0, comp=c, sparse=c == 0, repeat=7) for c in (0, 2)]
    return out


def grid_spec(n, het, comp, grav, unit="field", unify=True):
    R = ref.RefGrid(n)
    N = R.N
    d = [300.0, 350.0, 40.0]
    if het in (1, 3):
        for a in R.flow:
            d[a] = [d[a] * (1 + 0.13 * ((i * 5) % 4)) for i in range(R.nb[a])]
    k0 = (270.0, 120.0, 15.0)
    if het in (1, 2):
        k = [[k0[a] * (1 + 0.31 * ((i * 7 + a) % 6)) for i in range(N)] for a in range(3)]
    else:
        k = list(k0)
    phi = 0.27 if het in (0, 3) else [0.1 + 0.03 * ((i * 3) % 7) for i in range(N)]
    tilt = [25.0 * R.cells[i][0] - 17.0 * R.cells[i][1] + 40.0 * R.cells[i][2] + 3 * (i % 3) for i in range(N)]
    # flat, tilted, gently tilted from depth 0, one cell off the plane, boundaries off the plane
    z = (0.0, [3000.0 + t for t in tilt], [0.01 * t for t in tilt],
         [2000.0 + (8.0 if i == R.interior[len(R.interior) // 2] else 0.0) for i in range(N)],
         [1000.0 + (0.0 if i in R.inset else t) for i, t in enumerate(tilt)])[grav]
    return dict(n=tuple(n), d=d, k=k, phi=phi, z=z, comp=(0, 0, 2e-6)[comp], unit=unit, unify=unify)


def scenario(u):
    n = tuple(u["n"])
    R = ref.RefGrid(n)
    gs = grid_spec(n, u["het"], u["comp"], u["grav"], u["unit"], u["unify"])
    fs = dict(mu=0.5, B=1.1, rho=50.0 if u["unit"] == "field" else 800.0,
              comp=(0, 1e-5, 1e-5)[u["comp"]], unit=u["unit"])
    real_b = [b for b in R.boundary if any(R.inner_neighbors(b).values())]
    wellable = R.fdir in ("x", "xy", "xyz")
    first, last = R.interior[0], R.interior[-1]
    ops = []
    sch = u["sch"]
    if sch == 0:    # one pressure side, one flow side
        ops.append(("b", {real_b[0]: ("pressure", 4200.0), real_b[-1]: ("rate", -30.0)}))
    elif sch == 1:  # all sides at pressure, distinct values
        ops.append(("b", {b: ("pressure", 3900.0 + 13.0 * (x % 5)) for x, b in enumerate(real_b)}))
    elif sch == 4:  # many wells (limits which bind late), long history
        ops.append(("b", {real_b[0]: ("pressure", 4100.0), real_b[-1]: ("rate", 7.0)}))
        if wellable:
            for x, c in enumerate(R.interior[::2]):
                kw = dict(q=-9.0 - x, r=3.5, s=0.3 * x) if x % 2 == 0 else dict(q=6.0 + x, r=2.0)
                if x in (0, 2):
                    kw["pwf"] = 3960.0 - 10 * x
                ops.append(("w", c, kw))
    elif sch == 2:  # gradient + pressure, producer and injector
        ops.append(("b", {real_b[0]: ("gradient", -0.2), real_b[-1]: ("pressure", 4000.0)}))
        if wellable:
            ops += [("w", last, dict(q=-25.0, r=3.5, s=1.5)),
                    ("w", first, dict(q=11.0, r=2.0))]
    else:           # constant bottom hole pressure, no-flow elsewhere
        if wellable:
            ops += [("w", last, dict(pwf=3500.0, r=3.5, s=0.7))]
            if u["comp"] == 0 or R.D == 3:
                ops.append(("b", {real_b[0]: ("pressure", 4100.0)}))
        else:
            ops.append(("b", {real_b[1]: ("pressure", 4100.0), real_b[0]: ("rate", 5.0)}))
    ops.append(("step", u["steps"]))
    if u.get("dtype"):
        gs["dtype"] = fs["dtype"] = u["dtype"]
    if "ext" in u:
        return unusual(dict(grid=gs, fluid=fs, pi=4000.0, dt=(1, 5, 0.5)[u["het"] % 3], ops=ops), EXT[u["ext"]])
    return dict(grid=gs, fluid=fs, pi=None if u.get("nopi") else 4000.0, dt=(1, 5, 0.5)[u["het"] % 3], ops=ops)


def run(u, ctx):
    if u.get("kind") == "large":
        return large.run(u, ctx)
    sc = scenario(u)
    ncell = u["n"][0] * u["n"][1] * u["n"][2]
    for sparse, vect in itertools.product((True, False), repeat=2):
        if u["sch"] == 4 and (not vect or sparse is not (u["grav"] == 0)):
            continue
        if "ext" in u and sparse is not ((u["ext"] + u["sch"] // 2) % 2 == 0):
            continue
        if not vect and ncell > 4 and not (u["sch"] == 2 and sparse and u["het"] == 1):
            continue  # symbolic assembly is slow (50 ms per cell and step)
        if not vect and not sparse and u["sch"] % 2:
            continue
        cfg = dict(sparse=sparse, vect=vect)
        sc2 = sc if vect else dict(sc, ops=sc["ops"][:-1] + [("step", 2 if ncell <= 4 else 1)])
        sim.lockstep(sc2, cfg, ctx, rtol=1e-4 if u.get("dtype") else 1e-8, key=f"{'vect' if vect else 'symb'}:{'sparse' if sparse else 'dense'}:")
    ctx.sample(dict(unit=u, ops=[str(o) for o in sc["ops"]]))
