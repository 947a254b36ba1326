"""U01: units, factors, fluid properties and compressibility types."""
import itertools

from .. import core, lib, ref, sim

ASSUME = ["the gravity of a fluid follows its density; a later change of units acts on densities set afterwards"]
BOUNDS = {
    "quick": "fluids: all sequences of 3 out of 17 calls after every start (units x given properties); grids and models: all combinations of compressibilities {0, none, 1e-6, 2e-5, 1e-13, 3e-2, -1e-6}, units",
    "thorough": "sequences of 4"}
UNITS = ("field", "metric", "lab")
CALLS = [("set_mu", 0.5), ("set_mu", 2.0), ("set_B", 1.2), ("set_rho", 50.0), ("set_rho", 0.0), ("set_comp", 0),
         ("set_comp", 1e-5), ("set_comp", -1e-6), ("set_units", "field"), ("set_units", "metric"), ("set_units", "lab"),
         ("set_units", "si"), ("set_props", dict(mu=3.0)), ("set_props", dict(B=1.5, rho=10.0)), ("set_props", dict(comp=0.0)),
         ("set_props", dict(comp=2e-5, mu=4.0)), ("set_props", {})]
LENGTH = dict(field="ft", metric="m", lab="cm")
PRESS = dict(field="psia", metric="kpa", lab="atm")
RATE = dict(field="stb/day", metric="m^3/day", lab="cm^3/sec")
TIME = dict(field="days", metric="days", lab="sec")


def plan(tier):
    d = 4 if tier == "thorough" else 3
    out = [dict(kind="fluid", unit=un, start=s, first=f, depth=d)
           for un in UNITS for s in range(4) for f in range(len(CALLS))]
    out += [dict(kind="model", unit=un) for un in UNITS]
    return out


STARTS = [dict(mu=1.0, B=1.0), dict(mu=0.7, B=1.1, rho=40.0), dict(mu=0.7, B=1.1, comp=1e-6),
          dict(mu=0.7, B=1.1, rho=12.0, comp=0)]


def factors(ctx, o, unit):
    F = ref.FACTORS[unit]
    got = (o.unit, o.factors["gravitational acceleration"], o.factors["transmissibility conversion"],
           o.factors["gravity conversion"], o.factors["volume conversion"],
           o.units["length"], o.units["pressure"], o.units["rate"], o.units["time"])
    want = (unit, F["g"], F["T"], F["grav"], F["vol"], LENGTH[unit], PRESS[unit], RATE[unit], TIME[unit])
    ctx.trans()
    for x, (a, b) in enumerate(zip(got, want)):
        if (abs(a - b) > 1e-9 * abs(b)) if isinstance(b, float) else a != b:
            ctx.fail("factors", f"{unit}: {got}, expected {want}")
            return


def run(u, ctx):
    with lib.quiet():
        fluid(u, ctx) if u["kind"] == "fluid" else model(u, ctx)


def fluid(u, ctx):
    for post in itertools.product(range(len(CALLS)), repeat=u["depth"] - 1):
        seq = [CALLS[x] for x in (u["first"],) + post]
        st = dict(rho=0.0, comp=0)
        st.update(STARTS[u["start"]])
        f = lib.rf().fluids.SinglePhase(unit=u["unit"], **STARTS[u["start"]])
        unit = u["unit"]
        g = ref.FACTORS[unit]["grav"] * st["rho"] * ref.FACTORS[unit]["g"]
        for name, v in seq:
            err = None
            try:
                getattr(f, name)(**v) if isinstance(v, dict) else getattr(f, name)(v)
            except ValueError as e:
                err = e
            want_err = v in ("si",) or v == -1e-6
            if (err is not None) != want_err:
                ctx.fail("rejects", f"{seq}: {name}({v}) {'raised' if err else 'was accepted'}")
                return
            if err is None:
                if name == "set_units":
                    unit = v
                else:
                    new = v if isinstance(v, dict) else {name[4:]: v}
                    st.update(new)
                    if "rho" in new:
                        g = ref.FACTORS[unit]["grav"] * st["rho"] * ref.FACTORS[unit]["g"]
            factors(ctx, f, unit)
            ctx.close("properties", [f.mu, f.B, f.rho, f.comp], [st["mu"], st["B"], st["rho"], st["comp"]], rtol=0, seq=str(seq))
            ctx.close("gravity", f.g, g, rtol=1e-9, seq=str(seq))
            ctx.eq("type", f.comp_type, "compressible" if st["comp"] > 0 else "incompressible", seq=str(seq))
            ctx.state((unit, tuple(sorted(st.items())), round(g, 12)))
        ctx.trace()
    ctx.sample(dict(u=u, seq=str(seq)))


def model(u, ctx):
    unit = u["unit"]
    C = [None, 0, 1e-6, 2e-5, 1e-13, 3e-2]
    for gc, fc in itertools.product(C + [-1e-6], repeat=2):
        gs = dict(n=(2, 1, 1), d=(10.0, 20.0, 5.0), k=(10.0, None, None), phi=0.2, z=0.0, comp=gc, unit=unit)
        fs = dict(mu=0.5, B=1.1, rho=3.0, comp=fc, unit=unit)
        neg = [x for x in (gc, fc) if x is not None and x < 0]
        try:
            g = lib.make_grid(gs)
            f = lib.make_fluid(fs)
            m = sim.make_model(dict(grid=gs, fluid=fs, pi=100.0, dt=1), g, f)
        except ValueError:
            if not neg:
                raise
            ctx.trans()
            continue
        if neg:
            ctx.fail("negative", f"compressibilities {gc}, {fc} were accepted")
            continue
        c = (gc or 0) + (fc or 0)
        for o, v in ((g, gc or 0), (f, fc or 0), (m, c)):
            ctx.close("compressibility", o.comp, v, rtol=1e-12)
            ctx.eq("type", o.comp_type, "compressible" if v > 0 else "incompressible")
            factors(ctx, o, unit)
        for bad, (o, v) in itertools.product((-1e-6, float("nan"), "1"), ((g, gc or 0), (f, fc or 0), (m, c))):
            try:
                o.set_comp(bad)
                ctx.fail("negative", f"{type(o).__name__}.set_comp({bad!r}) was accepted")
            except (ValueError, TypeError):
                ctx.close("kept-compressibility", o.comp, v, rtol=1e-12)
                ctx.eq("kept-type", o.comp_type, "compressible" if v > 0 else "incompressible", refused=bad)
        ctx.state((unit, gc, fc))
        for o in (g, f, m):
            import contextlib
            import io
            for kw in [dict(ifmt=i) for i in range(6)] + [dict(showindex=False)]:
                s = io.StringIO()
                with contextlib.redirect_stdout(s):
                    o.report(**kw)
                if "comp_type" not in s.getvalue() or o.comp_type not in s.getvalue():
                    ctx.fail("report", f"{type(o).__name__}.report({kw}) does not show comp_type")
                ctx.trans()
            s = io.StringIO()
            with contextlib.redirect_stdout(s):
                o.report("unit")
            ctx.eq("report-one", unit in s.getvalue(), True)
            s = io.StringIO()
            with contextlib.redirect_stdout(s):
                o.report("nothing")
            ctx.eq("report-unknown", "Unknown" in s.getvalue(), True)
    for bad in ("", "Field", "si", None):
        for make in (lambda: lib.make_grid(dict(n=(2, 1, 1), unit=bad)), lambda: lib.make_fluid(dict(unit=bad))):
            try:
                make()
            except ValueError:
                ctx.trans()
            else:
                ctx.fail("unit-accepted", f"unit={bad!r}")
    ctx.trace()
    ctx.sample(u)
