"""M02: names of solutions: every documented name means its method."""
import itertools

from .. import core, lib, ref, sim

ASSUME = ["methods which are documented as not implemented may raise, but not as an unknown name"]
BOUNDS = {"quick": "every type name x every method name of every type x 3 spellings (case) x sparse in {True, False}, with and without an earlier compilation; "
                   "12 wrong names, 5 wrong sparse values, every pair of names",
          "thorough": "the same (complete)"}
STYPES = {"numerical": ["n", "num", "numerical"], "analytical": ["a", "ana", "analytical"],
          "neurical": ["nn", "neu", "neurical"]}


def methods():
    out = {"numerical": {"FDM": ["fdm", "finite difference method", "finite-difference-method"],
                         "FVM": ["fvm", "finite volume method", "finite-volume-method"],
                         "FEM": ["fem", "finite element method", "finite-element-method"]},
           "neurical": {"PINN": ["pinn", "physics informed neural network", "physics-informed-neural-network"],
                        "DeepONet": ["deeponet", "deep operator network", "deep-operator-network"]},
           "analytical": {}}
    for d, p in itertools.product((1, 2, 3), repeat=2):
        out["analytical"][f"D{d}P{p}"] = [f"d{d}p{p}", f"{d}d{p}p", f"{d}-dimension-{p}-phase", f"{d}dimension{p}phase"]
    return out


READY = {"FDM", "D1P1"}
SPELL = [str.lower, str.upper, str.title]


def plan(tier):
    out = []
    for st in STYPES:
        for name in methods()[st]:
            for pre in (False, True):
                out.append(dict(st=st, name=name, pre=pre))
    return out + [dict(st="bad", name="", pre=p) for p in (False, True)]


def model():
    sc = dict(grid=dict(n=(3, 1, 1), d=(10.0, 10.0, 10.0), k=(10.0, 10.0, 10.0), phi=0.2, z=0.0, comp=1e-6),
              fluid=dict(mu=1.0, B=1.0, comp=1e-5), pi=100.0, dt=1)
    m = sim.make_model(sc)
    m.set_boundaries({0: ("pressure", 200.0), 4: ("pressure", 50.0)})
    return m


def observe(m):
    return (id(m.solution), id(m.compiler), tuple(m.get_solutions()))


def run(u, ctx):
    with lib.quiet():
        if u["st"] == "bad":
            return bad(u, ctx)
        for t, name, f, sparse in itertools.product(
                STYPES[u["st"]], methods()[u["st"]][u["name"]], SPELL, (True, False)):
            m = model()
            if u["pre"]:
                m.compile("numerical", "FDM", sparse=not sparse)
                m.solve(isolver=None)
            before = observe(m)
            case = dict(stype=f(t), method=f(name), sparse=sparse)
            ctx.state((u["pre"], str(case)))
            try:
                m.compile(stype=f(t), method=f(name), sparse=sparse)
            except Exception as e:
                if u["name"] in READY:
                    ctx.fail("ready-raises", f"{case}: {type(e).__name__}: {e}")
                elif "nknown" in str(e):
                    ctx.fail("known-name", f"{case}: {e}")
                ctx.eq("unchanged", observe(m), before, case=str(case))
                ctx.trans()
                continue
            if u["name"] not in READY:
                # a method which became available has to be the named one
                ctx.eq("method", type(m.solution).__name__, u["name"], case=str(case))
                continue
            ctx.eq("method", (type(m.solution).__name__, m.solution.sparse), (u["name"], sparse), case=str(case))
            key = f"BlackOil-{u['st']}-{u['name']}-{sparse}"
            ctx.eq("key", m.get_solutions()[-1], key, case=str(case))
            ctx.eq("count", len(m.get_solutions()), 2 if u["pre"] else 1)
            ctx.eq("registered", m.solutions[key] is m.solution, True)
            ctx.eq("dispatch", (m.solve.__self__ is m.solution, m.run.__self__ is m.solution), (True, True))
            ctx.eq("model", m.solution.model is m, True)
            ctx.trace()
    ctx.sample(u)


def bad(u, ctx):
    M = methods()
    names = [(st, n) for st in M for n in M[st]]
    for st in list(STYPES) + ["", "x", "numeric", "fdm", "analytic", "neural"]:
        known = [k for k, v in STYPES.items() if st in v]
        for name in [n for s in M for v in M[s].values() for n in v] + ["", "fd", "d4p1", "d0p1", "pin", "d1p", "1d1"]:
            ok = known and any(name in v for v in M[known[0]].values())
            if ok:
                continue
            m = model()
            if u["pre"]:
                m.compile("numerical", "FDM")
            before = observe(m)
            try:
                m.compile(st, name)
            except ValueError:
                ctx.trans()
            else:
                ctx.fail("unknown-accepted", f"stype={st!r}, method={name!r} gave {type(m.solution).__name__}")
            ctx.eq("unchanged", observe(m), before, st=st, name=name)
            ctx.state((st, name, u["pre"]))
    for sp in (1, 0, None, "True", []):
        m = model()
        before = observe(m)
        try:
            m.compile("numerical", "FDM", sparse=sp)
        except ValueError:
            ctx.trans()
        else:
            ctx.fail("sparse-accepted", f"sparse={sp!r}")
        ctx.eq("unchanged", observe(m), before)
    m = model()
    if u["pre"]:
        m.compile("numerical", "FDM")
    for n in ("", "FDM", "BlackOil-numerical-FDM-False", "blackoil-numerical-fdm-true"):
        before = observe(m)
        try:
            m.set_solution(n)
        except ValueError:
            ctx.trans()
        else:
            ctx.fail("solution-accepted", f"set_solution({n!r})")
        ctx.eq("unchanged", observe(m), before)
    ctx.trace()
