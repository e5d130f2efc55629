"""C07: sort and argsort."""
import numpy as np
import awkward as ak

from pbt.common import *

META = {
    "title": "Sorting permutes each group into order; argsort is that permutation",
    "statement": "Sorting along any axis rearranges the values that share all other coordinates into ascending or descending "
                 "order, with missing values after the others, and changes nothing else: the shape of the data and the values "
                 "of each group stay the same. Argsort gives the positions (among the values of the group that are not missing) in "
                 "sorted order, and a stable argsort keeps equal values in their original order.",
    "text": "all arrays of numbers (without NaN), booleans and strings, encodings, axes, directions and stability settings",
    "over": ["inputs", "configurations"],
    "why": "Tests sort a few lists; grouping across lists of different lengths, missing values and offsets not starting at zero "
           "are sampled at single points.",
    "files": ["src/libawkward/array/ListOffsetArray.cpp", "src/libawkward/array/NumpyArray.cpp",
              "src/libawkward/array/IndexedArray.cpp", "src/cpu-kernels/awkward_sort.cpp", "src/cpu-kernels/awkward_argsort.cpp",
              "src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp"],
    "mechanism": [("sort_next/argsort_next", "src/libawkward/array/*.cpp"), ("awkward_sort, awkward_argsort", "src/cpu-kernels")],
    "technique": "generated arrays vs a Python reference of grouped sorting",
    "note": "Sampled; up to four dimensions.",
}
RULE = ("A nested array of numbers, booleans or strings with missing values in random encodings, an axis, a direction and "
        "a stability; sort and argsort compared with a recursive reference. Non-trivial: at least four values in at least "
        "two dimensions.")
COUNTS = {"quick": 250000, "thorough": 3000000}
CFG = Cfg(virtual=True, int_abs=4)


def order(vs, asc):
    idx = [i for i, v in enumerate(vs) if v is not None]
    idx.sort(key=lambda i: vs[i] if not isinstance(vs[i], str) else vs[i].encode("utf-8"), reverse=False)
    if not asc:
        # stable descending: equal values keep their order
        out = []
        i = 0
        groups = []
        for k in idx:
            if groups and vs[groups[-1][0]] == vs[k]:
                groups[-1].append(k)
            else:
                groups.append([k])
        idx = [k for g in reversed(groups) for k in g]
    return idx, [i for i, v in enumerate(vs) if v is None]


def is_list(t):
    return isinstance(unopt(t), (Lst, Reg))


def sort_here(t, v, asc, arg):
    """v: list whose elements (of type t) are combined elementwise along this list's dimension."""
    if not is_list(t):
        good, bad = order(v, asc)
        if arg:     # positions among the values that are not missing
            rank = {k: r for r, k in enumerate(sorted(good))}
            return [rank[k] for k in good] + [None] * len(bad)
        return [v[i] for i in good] + [None] * len(bad)
    inner = unopt(t)
    if isinstance(t, Opt) and any(x is None for x in v):
        raise Reject("missing lists in the sorted dimension")
    # columns: position j of every non-missing element list
    out = [None if x is None else [None] * len(x) for x in v]
    n = max([len(x) for x in v if x is not None] or [0])
    for j in range(n):
        rows = [i for i, x in enumerate(v) if x is not None and j < len(x)]
        col = sort_here(inner.c, [v[i][j] for i in rows], asc, arg)
        for i, y in zip(rows, col):
            out[i][j] = y
    return out


def model(t, v, axis, asc, arg):
    if v is None:
        return None
    t = unopt(t)
    if axis == 0:
        return sort_here(t.c, v, asc, arg)
    return [model(t.c, x, axis - 1, asc, arg) for x in v]


def case(d):
    lv = d.weighted([(4, 1), (2, 0), (3, 2), (1, 3)])
    kind = d.weighted([(6, "num"), (2, "str"), (1, "bool")])
    if kind == "num":
        leaf = Num(d.weighted([(5, "int64"), (4, "float64")] + [(1, x) for x in INTS[1:] + ["float32"]]))
    elif kind == "str":
        leaf = Str() if d.b(80) else Byt()
    elif kind == "bool":
        leaf = Num("bool")
    t = gen_chain(d, lv, leaf, optlist=15, optleaf=25, reg=20)
    cfg = CFG.but(extremes=d.b(20), inf=True)
    vals = gen_values(d, t, cfg, d.i(17, 40) if lv == 0 and d.b(15) else gen_length(d, 7, 0.78))
    layout = encode(d, t, vals, cfg)
    note_array(d, "array", t, vals, layout)
    axis = d.weighted([(2, lv), (1, d.i(0, lv))])
    asc = d.b(60)
    stable = d.b(60)
    neg = d.b(50)
    ax = axis - (lv + 1) if neg else axis
    arg = d.b(45)
    fn = "argsort" if arg else "sort"
    d.note("call", lambda: "%s(array, axis=%d, ascending=%s, stable=%s)" % (fn, ax, asc, stable))
    d.label(fn, kind, "last" if axis == lv else "inner", "asc" if asc else "desc")
    d.nontrivial(lv >= 1 and count_scalars(vals) >= 4)
    if kind == "str" and axis != lv:
        raise Reject("strings are only sorted along the last axis")
    want = model(Lst(t), vals, axis, asc, arg)
    got = tolist(getattr(ak, fn)(ak.Array(layout), axis=ax, ascending=asc, stable=stable))
    if arg and not stable:
        # any permutation that sorts
        wants = model(Lst(t), vals, axis, asc, False)
        check_perm(Lst(t), vals, got, wants, axis)
        return
    expect_same(got, want, fn)


def apply_perm(t, v, p):
    if not is_list(t):
        good = [x for x in v if x is not None]
        return [None if i is None else good[i] for i in p]
    inner = unopt(t)
    out = [None if x is None else [None] * len(x) for x in v]
    n = max([len(x) for x in v if x is not None] or [0])
    for j in range(n):
        rows = [i for i, x in enumerate(v) if x is not None and j < len(x)]
        col = apply_perm(inner.c, [v[i][j] for i in rows], [p[i][j] for i in rows])
        for i, y in zip(rows, col):
            out[i][j] = y
    return out


def check_perm(t, v, got, wants, axis):
    def go(t, v, g, w, axis, what):
        if v is None:
            check(g is None, "argsort of missing gives %s", clip(g))
            return
        t = unopt(t)
        check(isinstance(g, list) and len(g) == len(v), "argsort changed the shape: %s", clip(got))
        if axis == 0:
            try:
                s = apply_perm(t.c, v, g)
            except (IndexError, TypeError) as e:
                raise Violation("argsort is not an index: %s (%s)" % (clip(got), e))
            expect_same(s, w, "array[argsort]")
            check_distinct(t.c, g)
        else:
            for a, b, c in zip(v, g, w):
                go(t.c, a, b, c, axis - 1, what)

    def check_distinct(t, g):
        if not is_list(t):
            g = [x for x in g if x is not None]
            check(len(set(g)) == len(g), "argsort repeats a position: %s", clip(got))
    go(t, v, got, wants, axis, "")


SUBS = [("sort", 1, case)]
