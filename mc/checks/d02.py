"""D02: scalers map ranges onto ranges and back."""
import itertools

import numpy as np

from .. import core, lib

ASSUME = ["degenerate input (no range: min = max) is outside the domain of the scaling"]
BOUNDS = {
    "quick": "all matrices with entries of {-3,0,2,7} of shapes 2x1, 3x1, 2x2, 1D of 2-4 values x 5 output ranges x fit axes x given input ranges x "
             "all sequences of 3 calls (fit, set range, transform, inverse, fit_transform)",
    "thorough": "shapes up to 3x2 and 5 values, sequences of 4 calls"}
VALS = (-3.0, 0.0, 2.0, 7.0)
OUT = [(0, 1), (-1, 1), (2, 5), (1, -1), (0.25, 0.5)]


def plan(tier):
    th = tier == "thorough"
    shapes = [(2,), (3,), (4,), (2, 1), (3, 1), (2, 2)] + ([(5,), (3, 2), (2, 2, 1)] if th else [(1, 2, 1)])
    return [dict(shape=list(s), out=list(o)) for s in shapes for o in OUT] + \
        [dict(kind="calls", out=list(o), depth=4 if th else 3) for o in OUT]


def affine(v, lo, hi, A, B):
    return A + (np.asarray(v, float) - lo) * (B - A) / (hi - lo)


def run(u, ctx):
    S = lib.rf().scalers
    A, B = u["out"]
    if u.get("kind") == "calls":
        return calls(u, ctx, S, A, B)
    shape = tuple(u["shape"])
    size = int(np.prod(shape))
    for vals in itertools.product(VALS, repeat=size):
        v = np.array(vals).reshape(shape)
        keep = v.copy()
        for axis in (None, 0):
            if axis == 0 and len(shape) > 2:
                try:
                    S.MinMax((A, B)).fit(v, axis=0)
                except ValueError:
                    ctx.trans()
                else:
                    ctx.fail("axis-3d", "axis=0 accepted for more than two dimensions")
                continue
            lo, hi = v.min(axis=axis), v.max(axis=axis)
            if np.any(lo == hi):
                continue
            s = S.MinMax((A, B))
            out = s.fit(v, axis=axis)
            if out is not s:
                ctx.fail("chain", "fit() does not return the scaler")
            t = s.transform(v)
            ctx.close("transform", t, affine(v, lo, hi, A, B), rtol=1e-12, atol=1e-12)
            ctx.close("inverse", s.inverse_transform(t), v, rtol=1e-12, atol=1e-12)
            ctx.close("fit-transform", S.MinMax((A, B)).fit_transform(v, axis), t, rtol=1e-12, atol=1e-12)
            ctx.eq("range", (round(float(np.min(t)), 12), round(float(np.max(t)), 12)), (min(A, B), max(A, B)))
            # values which were not part of the fit follow the same map
            ctx.close("other", s.transform(v + 1.5), affine(v + 1.5, lo, hi, A, B), rtol=1e-12, atol=1e-12)
            if axis is None:
                g = S.MinMax((A, B), input_range=(float(lo), float(hi)))
                ctx.close("given-range", g.transform(v), t, rtol=1e-12, atol=1e-12)
                ctx.close("given-range-inverse", g.inverse_transform(t), v, rtol=1e-12, atol=1e-12)
            ctx.state((shape, vals, axis, A, B))
        d = S.Dummy((A, B))
        for f in (d.transform, d.inverse_transform, d.fit_transform):
            ctx.close("dummy", f(v), keep, rtol=0)
        ctx.eq("dummy-chain", d.fit(v) is d and d.set_output_range((0, 1)) is d, True)
        ctx.close("input-unchanged", v, keep, rtol=0)
    ctx.trace()
    ctx.sample(u)


def calls(u, ctx, S, A, B):
    """Call sequences against (input range, output range)."""
    data = [np.array([1.0, 3.0, 2.0]), np.array([-4.0, 0.0]), np.array([[0.0], [8.0]])]
    alpha = [("fit", 0), ("fit", 1), ("ft", 2), ("range", (0, 1)), ("range", (-2, 2)), ("t", 0), ("i", 1)]
    for init in (None, (1.0, 9.0)):
        for seq in itertools.product(alpha, repeat=u["depth"]):
            s = S.MinMax((A, B), input_range=init)
            rng, out = init, (A, B)
            for op, x in seq:
                ctx.trans()
                if op == "fit":
                    s.fit(data[x], axis=None)
                    rng = (data[x].min(), data[x].max())
                elif op == "ft":
                    rng = (data[x].min(), data[x].max())
                    ctx.close("sequence", s.fit_transform(data[x], None), affine(data[x], *rng, *out), rtol=1e-12, atol=1e-12, seq=str(seq))
                elif op == "range":
                    s.set_output_range(x)
                    out = x
                else:
                    try:
                        got = s.transform(data[x]) if op == "t" else s.inverse_transform(data[x])
                    except ValueError:
                        if rng is not None:
                            ctx.fail("sequence-raise", f"{seq}: a fitted scaler raised")
                        continue
                    if rng is None:
                        ctx.fail("unfitted", f"{seq}: an unfitted scaler answered {got}")
                        continue
                    want = affine(data[x], *rng, *out) if op == "t" else affine(data[x], *out, *rng)
                    ctx.close("sequence", got, want, rtol=1e-12, atol=1e-12, seq=str(seq))
                ctx.state((init, rng, out))
            ctx.trace()
    ctx.sample(dict(u=u, seq=str(seq)))
