"""C12: concatenation and merging."""
import numpy as np
import awkward as ak

from pbt.common import *
from checks.c09_missing import nobool

META = {
    "title": "Concatenation keeps every element, in order, whatever the types",
    "statement": "Concatenating arrays along any axis yields exactly the elements of the first, then of the second, and so on, "
                 "list by list: nothing is lost, repeated, reordered or moved to another list, missing values stay missing, and "
                 "values only change by NumPy's promotion to the common numeric type; types that cannot be merged become a union "
                 "that holds the same values. The result is a valid array however its inputs were encoded.",
    "text": "all combinations of types, encodings, axes and merging options",
    "over": ["inputs"],
    "why": "Merging dispatches on every pair of node types and index widths, with reversed and batched paths; tests cover "
           "selected pairs of small canonical arrays.",
    "files": ["src/awkward/operations/structure.py", "src/libawkward/array", "src/libawkward/Content.cpp",
              "src/cpu-kernels"],
    "mechanism": [("concatenate", "src/awkward/operations/structure.py"),
                  ("mergeable, merging_strategy, mergemany, reverse_merge, merge_as_union, simplify_uniontype",
                   "src/libawkward/array/*.cpp")],
    "technique": "generated arrays vs list concatenation in Python",
    "note": "Sampled; up to four arrays of up to four dimensions.",
}
RULE = ("One to four arrays, of the same type, of mergeable types (other numeric types, options, fixed or variable lists, permuted "
        "record fields) or of unrelated types, each in random encodings (also partitioned), concatenated at a random axis with "
        "random merge options, and scalars among them. Non-trivial: at least two non-empty arrays.")
COUNTS = {"quick": 120000, "thorough": 2500000}
CFG = Cfg(virtual=True, emptyrec=True)
NUMS = ["int64", "float64", "int32", "uint8", "bool", "float32", "int8", "uint64", "int16", "uint16", "uint32", "complex128"]


def canon(v):
    if isinstance(v, list):
        return [canon(x) for x in v]
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return {k: canon(v[k]) for k in sorted(v)}
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    return v


def vary(d, t):
    """A type that can be merged with t."""
    if isinstance(t, Opt):
        return vary(d, t.c) if d.b(30) else Opt(vary(d, t.c))
    if d.b(15) and not isinstance(t, Unk):
        return Opt(vary(d, t))
    if isinstance(t, Num):
        return Num(d.choice(NUMS)) if d.b(40) else t
    if isinstance(t, Lst):
        return Reg(vary(d, t.c), d.i(0, 3)) if d.b(20) and can_inhabit(t.c) else Lst(vary(d, t.c))
    if isinstance(t, Reg):
        return Lst(vary(d, t.c)) if d.b(30) else Reg(vary(d, t.c), t.n if d.b(60) else d.i(0, 3))
    if isinstance(t, Rec):
        f = [(k, vary(d, c)) for k, c in t.f]
        return Rec(d.shuffle(f) if d.b(30) else f, t.name)
    if isinstance(t, Tup):
        return Tup([vary(d, c) for c in t.f], t.name)
    if isinstance(t, Uni):
        if d.b(25):
            return t.a[d.i(0, len(t.a) - 1)]
        a = t.a if d.b(50) else d.shuffle(t.a)
        return Uni(a)
    return t


def exact(t, others):
    pass


def axis0(d):
    k = d.weighted([(5, 2), (3, 3), (1, 1), (1, 4)])
    t0 = gen_type(d, CFG, d.i(0, 3))
    rel = d.weighted([(4, "same"), (6, "vary"), (2, "any")])
    ts, vs, args = [t0], [], []
    for i in range(1, k):
        ts.append(t0 if rel == "same" else vary(d, t0) if rel == "vary" else gen_type(d, CFG, d.i(0, 2)))
    part = d.b(8)
    for i, t in enumerate(ts):
        v = gen_values(d, t, CFG, gen_length(d, 5, 0.7))
        if part and d.b(60):
            lay = partition(d, t, v, CFG.but(virtual=False))
            d.label("partitioned")
        else:
            lay = encode(d, t, v, CFG.but(virtual=False) if part else CFG)
        if not isinstance(lay, ak.partition.PartitionedArray):
            note_array(d, "array%d" % i, t, v, lay)
        else:
            d.note("array%d" % i, lambda t=t, v=v: "%r :: %s (partitioned)" % (v, t))
        vs.append(v)
        args.append(ak.Array(lay))
    kw = {}
    if d.b(20):
        kw["merge"] = False
    if d.b(30):
        kw["mergebool"] = False
    d.note("options", kw)
    d.label(rel, *kw)
    want = [x for v in vs for x in plain(v)]
    d.nontrivial(sum(1 for v in vs if v) >= 2)
    got = ak.concatenate(args, axis=0, **kw)
    expect_same(canon(tolist(got)), canon(want), "concatenate")
    check(len(got) == len(want), "length %d, expected %d", len(got), len(want))
    if not part:
        err = ak.validity_error(got)
        check(err is None or "simplify" in err, "the result is not valid: %s", err)
    if kw.get("mergebool") is False and not part:
        expect_bools(got, want)
    if all(isinstance(t, Num) for t in ts) and not part and not kw.get("merge") is False:
        dts = [t.dt for t in ts]
        if "mergebool" not in kw or len(set(x == "bool" for x in dts)) == 1:
            ref = np.result_type(*[NPDT[x] for x in dts])
            fold = NPDT[dts[0]]
            for x in dts[1:]:
                fold = np.promote_types(fold, NPDT[x])
            check(str(got.type.type) in (str(ref), str(np.dtype(fold))), "type %s, NumPy promotes %s to %s", got.type.type, dts, ref)
    # the inputs are as they were
    for a, v in zip(args, vs):
        expect_same(tolist(a), plain(v), "input afterwards")


def expect_bools(got, want):
    """With mergebool=False, booleans stay booleans."""
    def b(v):
        if isinstance(v, (list, tuple)):
            return sum(b(x) for x in v)
        if isinstance(v, dict):
            return sum(b(x) for x in v.values())
        return int(isinstance(v, (bool, np.bool_)))
    # only the outermost items are guaranteed
    g, w = tolist(got), want
    for x, y in zip(g, w):
        check(isinstance(x, (bool, np.bool_)) == isinstance(y, (bool, np.bool_)), "booleans were merged: %r became %r", y, x)


def axisn(d):
    k = d.weighted([(6, 2), (3, 3), (1, 1)])
    axis = d.weighted([(5, 1), (2, 2), (1, 3)])
    n = gen_length(d, 5, 0.75)
    leaf = lambda: d.weighted([(4, Num("int64")), (2, Num("float64")), (1, Num("bool")), (1, Str()), (1, Opt(Num("int64"))),
                               (1, Rec([("x", Num("int64")), ("y", Str())])), (1, Lst(Num("int64"))), (1, Num("int8")),
                               (1, Reg(Num("int64"), 2))])
    leaf0 = leaf()
    # the shell above the axis
    kinds = [d.i(1, 3) if d.b(20) else None for _ in range(axis - 1)]
    opts = [d.b(12) for _ in range(axis - 1)]

    def shell(ks, n):
        if not ks:
            return [0] * n
        return [shell(ks[1:], ks[0] if ks[0] is not None else d.geometric(3, 0.6)) for _ in range(n)]
    sh = shell(kinds, n)
    args, ts, vs = [], [], []
    for i in range(k):
        if i and d.b(12):
            c = d.choice([7, 2.5, True])
            d.note("scalar%d" % i, c)
            args.append(c)
            ts.append(None)
            vs.append(c)
            continue
        lf = leaf0 if d.b(60) else leaf()
        reg = d.i(0, 3) if d.b(20) else None
        t = Lst(lf) if reg is None else Reg(lf, reg)
        optl = d.b(15)
        if optl:
            t = Opt(t)

        def fill(s, j):
            if j == axis - 1:
                return gen_values(d, t, CFG, 1)[0]
            return [fill(x, j + 1) for x in s]
        tt = t
        v = [fill(s, 0) for s in sh]
        for j in range(axis - 2, -1, -1):
            tt = Reg(tt, kinds[j]) if kinds[j] is not None and d.b(70) else Lst(tt)
        lay = encode(d, tt, v, CFG)
        note_array(d, "array%d" % i, tt, v, lay)
        args.append(ak.Array(lay))
        ts.append(tt)
        vs.append(v)

    def cat(parts, j):
        if j == axis - 1:
            out = []
            for p in parts:
                if p is None:       # a missing list
                    continue
                out.extend(plain(p) if isinstance(p, list) else [p])
            return out
        m = [len(p) for p in parts if isinstance(p, list)][0]
        return [cat([p[i] if isinstance(p, list) else p for p in parts], j + 1) for i in range(m)]
    want = [cat([v[i] if isinstance(v, list) else v for v in vs], 0) for i in range(n)]
    kw = {}
    if d.b(15):
        kw["mergebool"] = d.b()
    d.note("axis", axis)
    d.label("axis%d" % axis)
    d.nontrivial(k >= 2 and count_scalars(want) >= 3)
    depths = set(axis + (1 if isinstance(leaf_(t), (Lst, Reg)) else 0) for t in ts if t is not None)
    ax = axis
    got = ak.concatenate(args, axis=ax, **kw)
    expect_same(canon(tolist(got)), canon(want), "concatenate")


def leaf_(t):
    return unopt(unopt(t).c)


SUBS = [("axis0", 3, axis0), ("axisn", 2, axisn)]
