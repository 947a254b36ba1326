"""X01: profiling decorators do not change what the decorated function does."""
import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile

from .. import core, lib

ASSUME = ["decorated functions do not call functions which are decorated with cProfiler (one profiler at a time in Python 3.12)",
          "saved files go to the folder of the script (sys.path[0]), which is a scratch folder here"]
BOUNDS = {
    "quick": "9 decorators/options x all sequences of 3 calls of 2 functions with 6 kinds of behaviour (values, defaults, keywords, exceptions, mutation, simulation step); every decorator x 15 argument tuples x 8 keyword sets x 6 results; 64 pairs of exceptions; methods, generators, stacked decorators",
    "thorough": "sequences of 4"}
DECS = ["c", "c-quiet", "c-save", "c-sort", "l", "l-quiet", "l-save", "profile", "timeit"]
CALLS = [("f", (1,), {}), ("f", (2,), dict(b=5)), ("f", (-1,), {}), ("g", ([1],), {}), ("g", ([],), dict(x=3)), ("h", (), {})]


def plan(tier):
    return ([dict(dec=d, first=i, depth=4 if tier == "thorough" else 3) for d in DECS for i in range(len(CALLS))] +
            [dict(kind=k, dec=d) for d in DECS for k in ("echo", "uses")])


def deco(name):
    P = lib.rf().utils.profme
    return {"c": lambda: P.cProfiler(), "c-quiet": lambda: P.cProfiler(print_output=False),
            "c-save": lambda: P.cProfiler(print_output=False, save_output=True),
            "c-sort": lambda: P.cProfiler(sort_stats="cumtime", print_output=True),
            "l": lambda: P.lProfiler(), "l-quiet": lambda: P.lProfiler(print_output=False),
            "l-save": lambda: P.lProfiler(print_output=False, save_output=True),
            "profile": lambda: P.profile, "timeit": lambda: P.timeit}[name]()


class Own(Exception):
    pass


def functions(log, wrap):
    def f(a, b=2):
        "adds"
        log.append(("f", a, b))
        if a < 0:
            raise Own(a)
        return a + b

    def g(v, *, x=1):
        "appends"
        log.append(("g", list(v), x))
        v.append(x)
        if len(v) > 3:
            raise KeyError(len(v))
        return v

    def h():
        "nothing"
        log.append(("h",))

    return {k.__name__: wrap(k) for k in (f, g, h)}


def play(fs, seq):
    out = []
    box = [1]
    for name, a, k in seq:
        if name == "g" and a[0]:
            a = (box,)
        elif name == "g":
            a = ([],)
        try:
            r = fs[name](*a, **k)
            out.append(("ok", list(r) if isinstance(r, list) else r, r is box))
        except Exception as e:
            out.append((type(e).__name__, str(e)))
    return out, list(box)


VALUES = [(), (None,), ((),), ((1,),), ((1, 2),), ([1, 2],), ({"a": 1},), (0, False), ("", b""), ((1, 2), 3), (None, None, None),
          (len,), (1, 2, 3, 4, 5), (object,), (Own,)]
KEYWORDS = [{}, dict(func=1), dict(args=(1,)), dict(kwargs={}), dict(kw=2, self=3), dict(result=None, ts=1), dict(pr=1, s=2, f=3),
            dict(_func=1, print_output=True, save_output=True)]
RAISES = [Own, KeyError, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit, AssertionError]


def echo(u, ctx):
    """Arguments arrive and results leave as the very same objects."""
    dec = u["dec"]
    seen = []

    def f(*a, **k):
        seen.append((a, k))
        return RESULT[0]

    RESULT = [None]
    g = deco(dec)(f)
    for a, k in itertools.product(VALUES, KEYWORDS):
        for res in (a, k, None, 0, (), a[0] if a else False):
            RESULT[0] = res
            seen.clear()
            with contextlib.redirect_stdout(io.StringIO()):
                got = g(*a, **k)
            ctx.trans()
            ok = len(seen) == 1 and len(seen[0][0]) == len(a) and all(x is y for x, y in zip(seen[0][0], a)) \
                and list(seen[0][1]) == list(k) and all(seen[0][1][n] is k[n] for n in k)
            if not ok:
                ctx.fail("arguments", f"{dec}: called with {a} {k}, arrived {seen}")
            if got is not res:
                ctx.fail("result", f"{dec}: returned {got!r} instead of {res!r}")
        ctx.state((dec, str(a), str(k)))
    ctx.trace()


def uses(u, ctx):
    """Exceptions, methods, stacked decorators, recursion, generators."""
    dec = u["dec"]
    d = deco(dec)
    out = io.StringIO()
    for first, then in itertools.product(RAISES + [None], repeat=2):
        for e in (first, then):
            exc = e("x") if e else None

            def f():
                if exc is not None:
                    raise exc
                return f

            with contextlib.redirect_stdout(out):
                try:
                    got = deco(dec)(f)()
                except BaseException as x:
                    got = x
            ctx.eq("raised", got is (exc if exc is not None else f), True, dec=dec, kind=str(e))
        ctx.state((dec, str(first), str(then)))

    class A:
        "a class"

        def __init__(self, v):
            self.v = v

        @d
        def m(self, k):
            self.v += k
            return self

        @classmethod
        @deco(dec)
        def c(cls, k=1):
            return cls(k)

        @staticmethod
        @deco(dec)
        def s(k):
            return [k]

    with contextlib.redirect_stdout(out):
        a = A(1)
        ctx.eq("method", (a.m(2) is a, a.v, a.m(k=4).v, A.m(a, 1).v, A.c().v, A.c(k=5).v, a.c(7).v, A.s(3)),
               (True, 3, 7, 8, 1, 5, 7, [3]), dec=dec)
        gen = d(lambda n: (i * i for i in range(n)))(4)
        ctx.eq("generator", list(gen), [0, 1, 4, 9], dec=dec)

        def gf(n):
            for i in range(n):
                got = yield i
                if got:
                    return
        ctx.eq("generator-function", list(d(gf)(3)), [0, 1, 2], dec=dec)
        for other in DECS:
            if dec[0] in "cl" + "p" and other[0] in "cl" + "p":
                continue    # one profiler at a time
            both = deco(other)(d(lambda x, *, y=1: (x, y)))
            ctx.eq("stacked", (both(1), both(2, y=3)), ((1, 1), (2, 3)), dec=dec, other=other)
        if dec == "timeit":
            def fact(n):
                return 1 if n < 2 else n * wrapped(n - 1)
            wrapped = d(fact)
            ctx.eq("recursion", wrapped(5), 120, dec=dec)
    ctx.trace()


def run(u, ctx):
    import importlib
    importlib.import_module("reservoirflow.utils.profme")
    if "kind" not in u:
        return calls(u, ctx)
    here = tempfile.mkdtemp(prefix="x01_", dir=os.getcwd())
    old = list(sys.path)
    sys.path.insert(0, here)
    try:
        (echo if u["kind"] == "echo" else uses)(u, ctx)
    finally:
        sys.path[:] = old
        shutil.rmtree(here, ignore_errors=True)


def calls(u, ctx):
    import importlib
    importlib.import_module("reservoirflow.utils.profme")
    here = tempfile.mkdtemp(prefix="x01_", dir=os.getcwd())
    old = list(sys.path)
    sys.path.insert(0, here)
    try:
        for rest in itertools.product(range(len(CALLS)), repeat=u["depth"] - 1):
            seq = [CALLS[x] for x in (u["first"],) + rest]
            l0, l1 = [], []
            want = play(functions(l0, lambda f: f), seq)
            fs = functions(l1, deco(u["dec"]))
            with contextlib.redirect_stdout(io.StringIO()) as text:
                got = play(fs, seq)
            ctx.eq("results", got, want, seq=str(seq))
            ctx.eq("calls", l1, l0, seq=str(seq))
            ctx.eq("names", [(f.__name__, f.__doc__) for f in fs.values()],
                   [("f", "adds"), ("g", "appends"), ("h", "nothing")])
            printed = bool(text.getvalue().strip())
            if u["dec"] in ("c-quiet", "c-save", "l-quiet", "l-save"):
                ctx.eq("quiet", printed, False, seq=str(seq))
            files = sorted(n for n in os.listdir(here))
            done = {seq[i][0] for i, r in enumerate(want[0]) if r[0] == "ok"}
            kind = u["dec"][0]
            files_want = sorted(f"{kind}Profiler_{fs[n].__qualname__}.csv" for n in done) \
                if u["dec"].endswith("-save") else []
            ctx.eq("files", files, files_want, seq=str(seq))
            for n in files:
                path = os.path.join(here, n)
                ctx.eq("file-empty", os.path.getsize(path) > 20, True, seq=str(seq))
                os.remove(path)
            ctx.state((u["dec"], str(seq)))
            ctx.trace()
    finally:
        sys.path[:] = old
        shutil.rmtree(here, ignore_errors=True)
    ctx.sample(dict(u=u, seq=str(seq)))
