"""C11: cartesian, argcartesian, combinations, argcombinations."""
import itertools

import numpy as np
import awkward as ak

from pbt.common import *

META = {
    "title": "Cartesian products and combinations enumerate each list's pairs exactly",
    "statement": "Cartesian products and n-combinations (with or without replacement) at any axis give, for every list "
                 "independently, exactly the tuples of items that a plain nested loop over that list would give, in the same "
                 "lexicographic order, no matter how the lists are stored; missing lists give no tuples and the requested "
                 "nesting and field names are used. The arg-versions give the positions of the same tuples.",
    "text": "all arrays, encodings, axes, numbers of arrays or items, nesting requests",
    "over": ["inputs"],
    "why": "The number of tuples and their grouping depend on every list's length and on how offsets, masks and fixed sizes "
           "are encoded; tests use a few contiguous arrays.",
    "files": ["src/awkward/operations/structure.py", "src/libawkward/array", "src/libawkward/Content.cpp", "src/cpu-kernels",
              "src/awkward/_util.py"],
    "mechanism": [("cartesian, argcartesian, combinations, argcombinations", "src/awkward/operations/structure.py"),
                  ("combinations of each node class", "src/libawkward/array/*.cpp"),
                  ("combinations kernels", "src/cpu-kernels/awkward_ListArray_combinations.cpp")],
    "technique": "generated arrays vs itertools reference",
    "note": "Sampled; up to four arrays or four items, three dimensions.",
}
RULE = ("One to four arrays (or one array and n up to 5) sharing the lists above the axis, in random encodings, with random "
        "axis, nesting, field names and replacement; compared with itertools. Non-trivial: at least four tuples expected.")
COUNTS = {"quick": 120000, "thorough": 2000000}
CFG = Cfg(virtual=True, maxlen=4)


def leaf(d):
    k = d.weighted([(5, 0), (1, 1), (1, 2), (1, 3)])
    if k == 0:
        t = Num(d.weighted(CFG.leaves))
    elif k == 1:
        t = Str()
    elif k == 2:
        t = Rec([("x", Num("int64")), ("y", Str())])
    else:
        t = Lst(Num("int64"))
    if d.b(15):
        t = Opt(t)
    return t


def shell(d, axis, n):
    """Lists above the axis: nested lists of placeholders; same for all arrays."""
    if axis == 0:
        return None
    out = []
    for _ in range(n):
        out.append(shell(d, axis - 1, d.geometric(3, 0.6)))
    return out


def fill(d, sh, axis, lt, ct, optl):
    """Puts one list in place of each placeholder."""
    if axis == 0:
        if optl and d.b(25):
            return None
        if isinstance(lt, Reg):
            return gen_values(d, ct, CFG, lt.n)
        return gen_values(d, ct, CFG, d.geometric(4, 0.6))
    return [fill(d, x, axis - 1, lt, ct, optl) for x in sh]


def loops(lists, make, chosen=()):
    """One dimension for each list; a missing list is a missing dimension."""
    if not lists:
        return make(chosen)
    if lists[0] is None:
        return None
    return [loops(lists[1:], make, chosen + (x,)) for x in lists[0]]


def merge(v, i):
    """Concatenates dimension i + 1 into dimension i."""
    if v is None:
        return None
    if i == 0:
        return [y for x in v if x is not None for y in x]
    return [merge(x, i - 1) for x in v]


def m_cart(vs, axis, nested, make, arg):
    if axis == 0:
        if arg:
            vs = [None if v is None else range(len(v)) for v in vs]
        out = loops(list(vs), make)
        for i in range(len(vs) - 2, -1, -1):
            if i not in nested:
                out = merge(out, i)
        return out
    return [m_cart(x, axis - 1, nested, make, arg) for x in zip(*vs)]


def count_tuples(v):
    if isinstance(v, list):
        return sum(count_tuples(x) for x in v)
    return 1


def cartesian(d):
    axis = d.weighted([(4, 1), (2, 0), (2, 2)])
    k = d.weighted([(5, 2), (3, 3), (1, 1), (1, 4)])
    arg = d.b(30)
    sh = shell(d, axis, d.geometric(4, 0.75))
    # outer lists: the same type in all arrays or not, all of the same lengths
    arrays, allvals = [], []
    for i in range(k):
        ct = leaf(d)
        lt = Reg(ct, d.i(0, 3)) if axis > 0 and d.b(20) else Lst(ct)
        optl = axis > 0 and d.b(20)
        if axis == 0:
            v = gen_values(d, ct, CFG, d.geometric(4, 0.7))
            t = ct
        else:
            v = fill(d, sh, axis, lt, ct, optl)
            t = Opt(lt) if optl else lt
            for _ in range(axis - 1):
                t = Lst(t)
        layout = encode(d, t, v, CFG)
        if k == 2 and d.b(5) and not arg and axis > 0:
            pass
        note_array(d, "array%d" % i, t, v, layout)
        arrays.append(ak.Array(layout))
        allvals.append(plain(v))
    keys = None
    if d.b(25):
        keys = d.shuffle(["x", "y", "z", "w"])[:k]
    ntype = d.weighted([(3, "none"), (1, "true"), (2, "some")])
    nested = [i for i in range(k - 1) if d.b(50)] if ntype == "some" else (list(range(k - 1)) if ntype == "true" else [])
    kw = {}
    if ntype == "true":
        kw["nested"] = True
    elif ntype == "some":
        kw["nested"] = [keys[i] for i in nested] if keys else nested
    if d.b(15):
        kw["with_name"] = "Pt"
    ax = axis
    if not arg and d.b(10) and axis > 0 and False:
        ax = axis
    d.note("call", "%scartesian axis=%r keys=%r %r" % ("arg" if arg else "", ax, keys, kw))
    if keys:
        def make(c):
            return dict(zip(keys, c))
    else:
        def make(c):
            return tuple(c)
    want = m_cart(allvals, axis, set(nested), make, arg)
    d.nontrivial(count_tuples(want) >= 4)
    d.label("cartesian%d" % k, "axis%d" % axis, "nested-" + ntype)
    f = ak.argcartesian if arg else ak.cartesian
    got = f(dict(zip(keys, arrays)) if keys else arrays, axis=ax, **kw)
    got_list = tolist(got)
    if axis == 0 and any(i in nested and i + 1 not in nested for i in range(k - 2)):
        pinned = m_cart(allvals, 0, (), make, arg)
        for i in range(k - 2, -1, -1):
            if i in nested:
                size = len(allvals[i + 1])
                pinned = [pinned[j * size:(j + 1) * size] for j in range(len(pinned) // size if size else
                                                                            int(np.prod([len(x) for x in allvals[:i + 1]])))]
        if same(got_list, pinned) and not same(got_list, want):
            d.known("K11")
    expect_same(got_list, want, "cartesian")
    if "with_name" in kw:
        check("Pt" in str(ak.type(got)), "the record name is lost: %s", ak.type(got))


def m_comb(v, axis, n, repl, make, arg):
    if v is None:
        return None
    if axis == 0:
        items = list(range(len(v))) if arg else v
        f = itertools.combinations_with_replacement if repl else itertools.combinations
        return [make(c) for c in f(items, n)]
    return [m_comb(x, axis - 1, n, repl, make, arg) for x in v]


def combinations(d):
    axis = d.weighted([(4, 1), (2, 0), (3, 2)])
    n = d.weighted([(5, 2), (3, 3), (1, 1), (1, 4), (1, 5)])
    repl = d.b(40)
    arg = d.b(30)
    lf = leaf(d)
    t = lf
    if axis == 0:
        t = lf
    else:
        t = Reg(lf, d.i(0, 4)) if d.b(20) else Lst(lf)
        if d.b(20):
            t = Opt(t)
        for _ in range(axis - 1):
            t = Reg(t, d.i(0, 3)) if d.b(20) else Lst(t)
            if d.b(15):
                t = Opt(t)
    cfg = CFG.but(maxlen=6)
    vals = gen_values(d, t, cfg, d.geometric(5, 0.75))
    layout = encode(d, t, vals, cfg)
    note_array(d, "array", t, vals, layout)
    keys = d.shuffle(["x", "y", "z", "w", "v"])[:n] if d.b(25) else None
    kw = {}
    if keys:
        kw["fields"] = keys

        def make(c):
            return dict(zip(keys, c))
    else:
        def make(c):
            return tuple(c)
    ax = axis
    if not arg and isinstance(unopt(lf), (Num, Str)) and d.b(20):
        lv = ndims(t)
        ax = axis - (lv + 1)
    d.note("call", "%scombinations n=%d axis=%d replacement=%r fields=%r" % ("arg" if arg else "", n, ax, repl, keys))
    want = m_comb(plain(vals), axis, n, repl, make, arg)
    d.nontrivial(count_tuples(want) >= 4)
    d.label("combinations%d" % n, "axis%d" % axis, "replacement" if repl else "without")
    f = ak.argcombinations if arg else ak.combinations
    got = f(ak.Array(layout), n, axis=ax, replacement=repl, **kw)
    expect_same(tolist(got), want, "combinations")


def ndims(t):
    n = 0
    while isinstance(t, (Lst, Reg, Opt)):
        n += not isinstance(t, Opt)
        t = t.c
    return n


SUBS = [("cartesian", 3, cartesian), ("combinations", 3, combinations)]
