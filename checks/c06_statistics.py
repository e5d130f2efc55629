"""C06: statistics."""
import math

import numpy as np
import awkward as ak

from pbt.common import *
from pbt.model import *

META = {
    "title": "Statistics are computed over exactly the values that share a group",
    "statement": "ak.mean, ak.moment and ak.ptp along any axis, ak.var, ak.std, ak.covar, ak.corr and ak.linear_fit along the innermost axis, "
                 "and all of them for a whole array (axis=None) compute, for each group of values that share a position, the documented "
                 "formula of the group's values and weights: missing values (and their weights) do not count, empty groups are None (or nan if "
                 "mask_identity is false), keepdims keeps the dimension, and the NumPy functions of these names do the same. ak.softmax along the "
                 "innermost axis gives each value's share of the exponentials in its list and keeps the lists and missing values.",
    "text": "all arrays of numbers, weights, axes and options",
    "over": ["inputs", "configurations"],
    "why": "The tests compare with NumPy on rectangular arrays and a handful of nested ones; weights with missing values, keepdims "
           "and masks in combination, and other encodings are not sampled.",
    "files": ["src/awkward/operations/reducers.py", "src/awkward/_connect/_numpy.py"],
    "mechanism": [("mean, var, std, covar, corr, linear_fit, softmax, moment, ptp", "src/awkward/operations/reducers.py")],
    "technique": "reference model: the documented formulas over groups of Python numbers",
    "note": "Sampled; nesting up to three dimensions. var, std, covar, corr, linear_fit and softmax along an axis other than the innermost are "
            "not claimed for lists of variable length, nor with keepdims (finding K06), nor var, std, covar and corr for fixed-size dimensions, where "
            "NumPy's right-broadcasting applies (DESIGN.md).",
}
RULE = ("Arrays of numbers nested up to three deep, with missing values at any level and random encodings, with a second array and weights of the "
        "same structure; random statistic, axis, keepdims, mask_identity. Non-trivial: at least three numbers in at least two groups.")
COUNTS = {"quick": 48000, "thorough": 2000000}
CFG = Cfg(virtual=True, extremes=False)
nan = float("nan")


def div(a, b):
    if b == 0:
        return nan if a == 0 else math.copysign(float("inf"), a)
    return a / b


def mean(g, k):
    return div(sum(r[k] * r[2] for r in g), sum(r[2] for r in g))


def stat(name, g, kw):
    """g: [(x, y, weight)]."""
    if not g:
        if name == "ptp":
            return None if kw["mask"] else 0
        return None if kw["mask"] else nan
    sw = sum(r[2] for r in g)
    if name == "mean":
        return mean(g, 0)
    if name == "moment":
        return div(sum((r[0] * r[2]) ** kw["n"] for r in g), sw)
    if name == "ptp":
        return max(r[0] for r in g) - min(r[0] for r in g)
    xm, ym = mean(g, 0), mean(g, 1)
    sxx = sum(r[2] * (r[0] - xm) ** 2 for r in g)
    syy = sum(r[2] * (r[1] - ym) ** 2 for r in g)
    sxy = sum(r[2] * (r[0] - xm) * (r[1] - ym) for r in g)
    if name in ("var", "std"):
        v = div(sxx, sw)
        if kw["ddof"]:
            v = v * div(sw, sw - kw["ddof"])
        if name == "var":
            return v
        return nan if not v >= 0 else math.sqrt(v) if v != float("inf") else v
    if name == "covar":
        return div(sxy, sw)
    if name == "corr":
        if sxx * syy < 1e-9:
            raise Reject("0/0 up to rounding")
        return sxy / math.sqrt(sxx * syy)
    if name == "linear_fit":
        sx, sy = sum(r[2] * r[0] for r in g), sum(r[2] * r[1] for r in g)
        s2, sp = sum(r[2] * r[0] ** 2 for r in g), sum(r[2] * r[0] * r[1] for r in g)
        delta = sw * s2 - sx * sx
        if abs(delta) < 1e-6:
            raise Reject("degenerate fit")
        i, s = (s2 * sy - sx * sp) / delta, (sw * sp - sx * sy) / delta
        return {"intercept": i, "slope": s, "intercept_error": math.sqrt(s2 / delta) if s2 / delta >= 0 else nan,
                "slope_error": math.sqrt(sw / delta) if sw / delta >= 0 else nan}
    raise AssertionError(name)


def red(t, items, f):
    if isinstance(t, Opt):
        return red(t.c, [v for v in items if v is not None], f)
    if isinstance(t, (Lst, Reg)):
        if isinstance(t, Reg) and not items:
            raise Reject("no lists to take the size of a fixed-size dimension from")
        n = max([len(v) for v in items] or [0])
        return [red(t.c, [v[j] for v in items if j < len(v)], f) for j in range(n)]
    return f(items)


def reduce_axis(t, v, axis, f, keep):
    if isinstance(t, Opt):
        return None if v is None else reduce_axis(t.c, v, axis, f, keep)
    if axis == 0:
        out = red(t.c, v, f)
        return [out] if keep else out
    return [reduce_axis(t.c, x, axis - 1, f, keep) for x in v]


def triples(d, t, v, dts, wmax):
    """The same structure with (x, y, weight) for numbers."""
    if isinstance(t, Opt):
        return None if v is None else triples(d, t.c, v, dts, wmax)
    if isinstance(t, (Lst, Reg)):
        return [triples(d, t.c, x, dts, wmax) for x in v]
    out = []
    for dt in dts:
        out.append(d.i(-8, 8) if dt.startswith("int") else d.i(-32, 32) / 4.0)
    return out[0], out[1], d.i(1, wmax) if wmax > 1 else 1


def part(v, k):
    if v is None:
        return None
    if isinstance(v, list):
        return [part(x, k) for x in v]
    return v[k]


def retype(t, dt):
    if isinstance(t, Opt):
        return Opt(retype(t.c, dt))
    if isinstance(t, Lst):
        return Lst(retype(t.c, dt))
    if isinstance(t, Reg):
        return Reg(retype(t.c, dt), t.n)
    return Num(dt)


def groups(v):
    out = []

    def walk(x):
        if isinstance(x, list):
            if any(isinstance(y, tuple) for y in x):
                out.append(len(x))
            for y in x:
                walk(y)
    walk(v)
    return out


NEEDS_MEAN = ("var", "std", "covar", "corr")
INNER = ("var", "std", "covar", "corr", "linear_fit")


def case(d):
    name = d.weighted([(4, "mean"), (2, "moment"), (2, "ptp"), (4, "var"), (3, "std"), (2, "covar"), (2, "corr"), (2, "linear_fit")])
    levels = d.weighted([(4, 1), (2, 0), (3, 2)])
    dts = [d.choice(["float64", "int64", "int32", "float64"]) for _ in range(2)]
    t = gen_chain(d, levels, Num("int64"))
    weighted = name != "ptp" and d.b(40)
    shape = gen_values(d, t, CFG, gen_length(d, 6, 0.75))
    v = [triples(d, t, x, dts, 4 if weighted else 1) for x in shape]
    depth = levels + 1
    axis = None if d.b(25) else depth - 1 if name in INNER else d.i(0, depth - 1)
    kw = {"mask": True, "ddof": 0, "n": 0}
    args = {"axis": axis if axis is None or d.b(50) else axis - depth}
    keep = axis is not None and d.b(25)
    if keep:
        args["keepdims"] = True
    if axis is not None and d.b(30):
        args["mask_identity"] = kw["mask"] = d.b(50)
    if name in ("var", "std") and d.b(30):
        args["ddof"] = kw["ddof"] = d.i(1, 2)
    arrs = []
    for k, dt in enumerate(dts + ["int64"]):
        tt = retype(t, dt)
        arrs.append(ak.Array(encode(d, tt, [part(x, k) for x in v], CFG)))
    d.note("x", lambda: "%r :: %s" % ([part(x, 0) for x in v], retype(t, dts[0])))
    d.note("layout", lambda: show(arrs[0].layout))
    x, y, w = arrs
    pos = [x]
    if name in ("covar", "corr", "linear_fit"):
        pos.append(y)
        d.note("y", lambda: [part(z, 1) for z in v])
    if name == "moment":
        kw["n"] = d.i(0, 3)
        pos.append(kw["n"])
    if weighted:
        args["weight"] = w
        d.note("weight", lambda: [part(z, 2) for z in v])
    d.note("call", lambda: "%s(%s, %s)" % (name, kw["n"] if name == "moment" else "", dict((k, a) for k, a in args.items() if k != "weight")))
    d.label(name, "axis None" if axis is None else "axis %d of %d" % (axis, depth))
    g = groups([v])
    d.nontrivial(sum(g) >= 3 and len(g) >= 2)
    f = lambda rows: stat(name, rows, kw)  # noqa: E731
    if axis is None:
        rows = []

        def walk(z):
            if isinstance(z, tuple):
                rows.append(z)
            elif isinstance(z, list):
                for q in z:
                    walk(q)
        walk(v)
        if not rows:
            raise Reject("nothing at all")
        want = f(rows)
    else:
        want = reduce_axis(Lst(t), v, axis, f, keep)
        if depth == 1 and not groups([v]):
            raise Reject("a flat array with no values: the result is a scalar None")
    if name == "ptp" and args.get("mask_identity") is False:
        if depth == 1 or has_opt(t):
            raise Reject("fill_none would apply to a scalar, or to missing lists too")
    fn = getattr(ak, name)
    if name in ("mean", "var", "std", "ptp") and not weighted and d.b(20) and "mask_identity" not in args:
        fn = getattr(np, name)
        d.note("function", "np." + name)
    if name in NEEDS_MEAN and has_reg(t) and axis is not None:
        raise Reject("fixed-size dimensions follow NumPy's right-broadcasting")
    try:
        got = fn(*pos, **args)
    except ValueError as err:
        if keep and depth > 1 and name in NEEDS_MEAN and "cannot broadcast nested list" in str(err):
            d.known("K06")
        raise
    if name == "linear_fit":
        for k in ("intercept", "slope", "intercept_error", "slope_error"):
            expect_same(clean(got[k]), pick(want, k), "linear_fit, " + k, 1e-6)
    else:
        expect_same(clean(got), want, name, 1e-7)


def has_reg(t):
    return isinstance(t, Reg) or (isinstance(t, (Opt, Lst)) and has_reg(t.c))


def has_opt(t):
    return isinstance(t, Opt) or (isinstance(t, (Reg, Lst)) and has_opt(t.c))


def pick(v, k):
    if isinstance(v, list):
        return [pick(x, k) for x in v]
    return v[k] if isinstance(v, dict) else v


def clean(x):
    return tolist(x)


def softmax(d):
    t = gen_chain(d, d.weighted([(4, 1), (2, 2), (1, 0)]), Num("float64"))
    shape = gen_values(d, t, CFG, gen_length(d, 6, 0.75))
    v = [triples(d, t, x, ["float64", "float64"], 1) for x in shape]
    v = [part(x, 0) for x in v]
    lay = encode(d, t, v, CFG)
    note_array(d, "array", t, v, lay)

    def model(t, x):
        if isinstance(t, Opt):
            return None if x is None else model(t.c, x)
        if isinstance(unopt(t.c), (Lst, Reg)):
            return [model(t.c, y) for y in x]
        s = sum(math.exp(y) for y in x if y is not None)
        return [None if y is None else math.exp(y) / s for y in x]
    want = model(Lst(t), v)
    if not v or has_reg(t):
        raise Reject("fixed-size dimensions follow NumPy's right-broadcasting")
    dims = depth_of(t)
    kw = {"axis": dims - 1 if d.b(50) else -1}
    if d.b(30) and dims > 1:
        kw["keepdims"] = True
    d.nontrivial(count_scalars(v) >= 3)
    try:
        got = tolist(ak.softmax(ak.Array(lay), **kw))
    except ValueError as err:
        if "keepdims" in kw and "cannot broadcast nested list" in str(err):
            d.known("K06")
        raise
    expect_same(got, want, "softmax", 1e-7)


SUBS = [("statistic", 7, case), ("softmax", 1, softmax)]
