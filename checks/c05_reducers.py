"""C05: reducers along any axis."""
import numpy as np
import awkward as ak

from pbt.common import *
from pbt.model import *

META = {
    "title": "Reducers combine exactly the values that share a position",
    "statement": "Summing, multiplying, counting, any/all, minimum, maximum and their positions along any axis combine "
                 "exactly the values with the same coordinates apart from that axis, skipping missing values and ignoring "
                 "unreachable data, and put each result at those coordinates. Empty groups give the identity (or a missing "
                 "value if masking), and keepdims only adds a dimension of length one.",
    "text": "all arrays, encodings, number types, axes, keepdims and mask_identity settings",
    "over": ["inputs", "configurations"],
    "why": "Tests reduce a handful of arrays; the nonlocal algorithm depends on relative list lengths, empty groups, "
           "missing lists and offsets not starting at zero.",
    "files": ["src/libawkward/Reducer.cpp", "src/libawkward/array/ListOffsetArray.cpp", "src/libawkward/array/NumpyArray.cpp",
              "src/libawkward/array/IndexedArray.cpp", "src/libawkward/array/RegularArray.cpp",
              "src/awkward/operations/reducers.py", "src/cpu-kernels"],
    "mechanism": [("reduce_next", "src/libawkward/array/*.cpp"), ("Reducer::apply_*", "src/libawkward/Reducer.cpp"),
                  ("awkward_reduce_* kernels", "src/cpu-kernels"), ("completely_flatten", "src/awkward/_util.py")],
    "technique": "generated arrays vs a recursive Python reference of grouping and combining",
    "note": "Sampled; integer arithmetic modulo 2**64 modelled exactly; known finding K05 is accepted only if the result is "
            "exactly the one that finding predicts.",
}

RULE = ("A nested array of numbers, booleans or dates (1 to 4 dimensions, missing values at any level, all encodings), a "
        "reducer, an axis (positive, negative or None), keepdims and mask_identity; compared with a recursive reference "
        "that groups the values by position along the axis. Non-trivial: at least three numbers and two dimensions.")
COUNTS = {"quick": 300000, "thorough": 2500000}
CFG = Cfg(virtual=True, extremes=False)

IMAX = {}
for _k in INTS:
    IMAX[_k] = IRANGE[_k]


def wrap_int(x, dt):
    bits = 64
    x &= (1 << bits) - 1
    if dt == "int64" and x >= 1 << 63:
        x -= 1 << 64
    return x


def out_int(dt):
    return "uint64" if dt.startswith("u") else "int64"


def order(v):
    """Complex numbers are ordered as in NumPy: by the real, then the imaginary part."""
    return (v.real, v.imag) if isinstance(v, complex) else v


def apply(name, dt, items, mask_identity):
    """items: [(position, value)] without missing values."""
    vs = [v for _, v in items]
    if not vs and mask_identity:
        return None
    if name == "count":
        return len(vs)
    if name == "count_nonzero":
        return sum(1 for v in vs if bool(v))
    if name == "any":
        return any(bool(v) for v in vs)
    if name == "all":
        return all(bool(v) for v in vs)
    if name in ("sum", "prod"):
        if dt in IRANGE or dt == "bool":
            acc = 0 if name == "sum" else 1
            for v in vs:
                acc = acc + int(v) if name == "sum" else acc * int(v)
            return wrap_int(acc, out_int(dt))
        acc = 0.0 if name == "sum" else 1.0
        for v in vs:
            acc = acc + v if name == "sum" else acc * v
        return acc
    if name in ("min", "max"):
        if vs:
            return (min if name == "min" else max)(vs, key=order)
        if dt.startswith("complex"):
            raise Reject("the identity of complex numbers")
        if dt in IRANGE:
            return IRANGE[dt][1] if name == "min" else IRANGE[dt][0]
        if dt == "bool":
            return name == "min"
        return float("inf") if name == "min" else float("-inf")
    if not vs:
        return -1
    best = items[0]
    for p, v in items[1:]:
        if (order(v) < order(best[1])) if name == "argmin" else (order(v) > order(best[1])):
            best = (p, v)
    return best[0]


def red(t, items, name, mi, k05=False):
    """items: [(position along the axis, value)]: combine values of type t elementwise.
    k05: with the positions of the known finding K05 (lists dropped on the way
    down to the innermost list dimension are not counted)."""
    if isinstance(t, Opt):
        return red(t.c, [(p, v) for p, v in items if v is not None], name, mi, k05)
    if isinstance(t, (Lst, Reg)):
        if isinstance(t, Reg) and not items:
            raise Reject("no lists to take the size of a fixed-size dimension from")
        n = max([len(v) for _, v in items] or [0])
        renumber = k05 and isinstance(unopt(t.c), (Lst, Reg))
        out = []
        for j in range(n):
            sub = [(p, v[j]) for p, v in items if j < len(v)]
            if renumber:
                sub = list(enumerate(v for _, v in sub))
            out.append(red(t.c, sub, name, mi, k05))
        return out
    return apply(name, t.dt, items, mi)


def reduce_axis(t, v, axis, name, mi, keep, k05=False):
    if isinstance(t, Opt):
        return None if v is None else reduce_axis(t.c, v, axis, name, mi, keep, k05)
    if axis == 0:
        out = red(t.c, list(enumerate(v)), name, mi, k05)
        return [out] if keep else out
    return [reduce_axis(t.c, x, axis - 1, name, mi, keep, k05) for x in v]


NAMES = ["sum", "prod", "any", "all", "count", "count_nonzero", "min", "max", "argmin", "argmax"]


def leaf(d, name):
    k = [(10, "int64"), (8, "float64"), (3, "bool")] + [(1, x) for x in INTS[1:]] + [(2, "float32")]
    k += [(2, "complex128"), (1, "complex64")]
    return Num(d.weighted(k))


def case(d):
    name = d.choice(NAMES)
    levels = d.weighted([(3, 1), (3, 0), (4, 2), (2, 3)])
    t = gen_chain(d, levels, leaf(d, name))
    cfg = CFG.but(int_abs=3 if name == "prod" else 9, extremes=name in ("sum", "min", "max", "argmin", "argmax", "count") and d.b(30))
    vals = gen_values(d, t, cfg, gen_length(d, 6, 0.75))
    dt = leaf_of(t).dt
    if name in ("sum",) and dt.startswith(("float", "complex")):
        cfg = cfg.but(extremes=False)
        vals = gen_values(d, t, cfg, len(vals))
    layout = encode(d, t, vals, cfg)
    note_array(d, "array", t, vals, layout)
    depth = levels + 1
    axis = d.i(0, depth - 1)
    neg = d.b(40)
    keep = d.b(25)
    mi = d.b(25)
    default_mi = name in ("min", "max", "argmin", "argmax")
    kw = {"axis": axis - depth if neg else axis}
    if keep:
        kw["keepdims"] = True
    if mi:
        kw["mask_identity"] = d.b(50)
    use_mi = kw.get("mask_identity", default_mi)
    d.note("call", lambda: "%s(array, %s)" % (name, kw))
    d.label(name, dt, "axis-last" if axis == depth - 1 else "axis-inner", "depth%d" % depth)
    d.nontrivial(count_scalars(vals) >= 3 and depth >= 2)
    want = reduce_axis(Lst(t), vals, axis, name, use_mi, keep)
    got = tolist(getattr(ak, name)(ak.Array(layout), **kw))
    if name in ("argmin", "argmax") and not same(got, want):
        if same(got, reduce_axis(Lst(t), vals, axis, name, use_mi, keep, True)):
            d.known("K05")
    expect_same(got, want, name, 1e-5 if dt == "complex64" else 1e-12 if dt == "complex128" or name == "prod" else 0.0)


def whole(d):
    """axis=None reduces all the numbers there are, through records and lists."""
    name = d.choice(["sum", "prod", "any", "all", "count", "count_nonzero", "min", "max"])
    dt = d.choice(["int64", "float64", "bool", "int32", "uint8"])
    cfg = CFG.but(leaves=[(1, dt)], strings=False, bytes=False, unions=False, unknown=False,
                  int_abs=3 if name == "prod" else 9)
    t, vals, layout = make(d, cfg)
    flatv = []

    def walk(v):
        if isinstance(v, (list, tuple)):
            for x in v:
                walk(x)
        elif isinstance(v, dict):
            for x in v.values():
                walk(x)
        elif v is not None:
            flatv.append(v)
    walk(vals)
    d.note("call", "%s(array, axis=None)" % name)
    d.nontrivial(len(flatv) >= 3)
    want = apply(name, dt, list(enumerate(flatv)), name in ("min", "max"))
    got = getattr(ak, name)(ak.Array(layout))
    got = got.item() if isinstance(got, np.generic) else got
    if name == "count_nonzero":
        got = int(got)
    expect_same(got, want, name, 1e-12)


SUBS = [("axis", 6, case), ("whole", 1, whole)]
