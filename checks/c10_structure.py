"""C10: num, flatten, unflatten, local_index, run_lengths."""
import numpy as np
import awkward as ak

from pbt.common import *

META = {
    "title": "Counting, indexing, flattening and unflattening agree with the lists",
    "statement": "Counting list lengths, local indexes, flattening and run lengths at any axis report exactly the lists that "
                 "are there: flattening concatenates the lists of one dimension in order (dropping missing ones), counting "
                 "gives their lengths and local index their positions. Unflattening by those lengths restores the original, and "
                 "lengths that add up to more than there is are refused.",
    "text": "all arrays, encodings, axes and counts",
    "over": ["inputs"],
    "why": "Tests use contiguous lists built from Python; offsets with slack, missing lists, fixed-size lists of size zero and "
           "inner axes are hardly combined.",
    "files": ["src/awkward/operations/structure.py", "src/libawkward/array", "src/libawkward/Content.cpp"],
    "mechanism": [("num, flatten, unflatten, local_index, run_lengths", "src/awkward/operations/structure.py"),
                  ("offsets_and_flattened, num, localindex", "src/libawkward/array/*.cpp")],
    "technique": "generated arrays vs Python reference; flatten/unflatten round trip",
    "note": "Sampled; up to five dimensions.",
}
RULE = ("A nested array (lists, fixed-size lists, missing values, records, strings, unions at the leaves) in random encodings and "
        "an axis; num, flatten, local_index, unflatten and run_lengths compared with a Python reference. Non-trivial: at "
        "least three leaves in at least two dimensions.")
COUNTS = {"quick": 200000, "thorough": 3000000}
CFG = Cfg(virtual=True)


def chain(d, leafcfg=None):
    lv = d.weighted([(4, 1), (2, 0), (3, 2), (1, 3)])
    lc = d.weighted([(5, "num"), (1, "str"), (1, "rec"), (1, "uni")])
    if lc == "num":
        leaf = Num(d.weighted(CFG.leaves))
    elif lc == "str":
        leaf = Str()
    elif lc == "rec":
        leaf = Rec([("x", Num("int64")), ("y", d.choice([Str(), Num("float64"), Lst(Num("int64"))]))])
    else:
        leaf = Uni([Num("float64"), Str()])
    t = gen_chain(d, lv, leaf, optlist=20, optleaf=20, reg=25, reg0=True)
    vals = gen_values(d, t, CFG, gen_length(d, 6, 0.75))
    layout = encode(d, t, vals, CFG)
    note_array(d, "array", t, vals, layout)
    d.nontrivial(lv >= 1 and count_scalars(vals) >= 3)
    d.label(lc, "depth%d" % (lv + 1))
    return lv, t, vals, layout, lc


def m_num(v, axis):
    if v is None:
        return None
    if axis == 0:
        return len(v)
    return [m_num(x, axis - 1) for x in v]


def m_local(v, axis):
    if v is None:
        return None
    if axis == 0:
        return list(range(len(v)))
    return [m_local(x, axis - 1) for x in v]


def m_flat(v, axis):
    if v is None:
        return None
    if axis == 1:
        return [y for x in v if x is not None for y in x]
    return [m_flat(x, axis - 1) for x in v]


def num(d):
    lv, t, vals, layout, lc = chain(d)
    axis = d.i(0, lv)
    if lc == "rec" and axis == 0:
        raise Reject("records are counted field by field")
    ax = axis - (lv + 1) if lc in ("num", "str", "uni") and d.b(30) else axis
    d.note("axis", ax)
    which = d.b()
    if which:
        got = ak.num(ak.Array(layout), axis=ax)
        want = m_num(vals, axis)
    else:
        got = ak.local_index(ak.Array(layout), axis=ax)
        want = m_local(vals, axis)
    d.label("num" if which else "local_index")
    expect_same(tolist(got), want, "num" if which else "local_index")


def flatten(d):
    lv, t, vals, layout, lc = chain(d)
    axis = d.i(0, lv)
    ax = axis - (lv + 1) if lc in ("num", "str") and d.b(30) else axis
    d.note("axis", ax)
    got = tolist(ak.flatten(ak.Array(layout), axis=ax))
    if axis == 0:
        want = [x for x in plain(vals) if x is not None]
    else:
        want = m_flat(plain(vals), axis)
    expect_same(got, want, "flatten")


def flatten_all(d):
    """axis=None: all the numbers, in order."""
    lv = d.i(0, 3)
    t = gen_chain(d, lv, Num(d.weighted(CFG.leaves)), reg0=True)
    if d.b(30):
        t = Rec([("x", t), ("y", gen_chain(d, d.i(0, 2), Num("int64")))])
    vals = gen_values(d, t, CFG, gen_length(d, 6, 0.75))
    layout = encode(d, t, vals, CFG)
    note_array(d, "array", t, vals, layout)
    d.nontrivial(count_scalars(vals) >= 3)
    if isinstance(t, Rec):
        want = numbers([v["x"] for v in vals]) + numbers([v["y"] for v in vals])
    else:
        want = numbers(vals)
    got = tolist(ak.flatten(ak.Array(layout), axis=None))
    if isinstance(t, Rec):     # promoted to a common number type
        got, want = [float(x) for x in got], [float(x) for x in want]
    expect_same(got, want, "flatten")


def numbers(v):
    if v is None:
        return []
    if isinstance(v, list):
        return [y for x in v for y in numbers(x)]
    return [v]


def unflatten(d):
    inner = d.weighted([(3, 0), (1, 1)])
    t0 = gen_chain(d, d.i(0, 2), d.choice([Num("int64"), Num("float64"), Str(), Rec([("x", Num("int64")), ("y", Str())])]))
    opt = d.b(15)
    cfg = CFG
    rows = [[gen_values(d, t0, cfg, 1)[0] for _ in range(d.geometric(4, 0.6))] for _ in range(d.geometric(6, 0.75))]
    flat_ = [x for r in rows for x in r]
    layout = encode(d, t0, flat_, cfg)
    note_array(d, "flat", t0, flat_, layout)
    counts = [len(r) for r in rows]
    if inner == 0:
        want = list(rows)
        cv = list(counts)
        if opt:
            k = d.i(0, len(cv))
            cv.insert(k, None)
            want.insert(k, None)
        bad = d.b(8)
        if bad:
            cv = cv + [d.i(1, 3)]
        ct = Num(d.choice(["int64", "int32", "uint8"]))
        cl = ak.Array(encode(d, Opt(ct) if opt else ct, cv, cfg.but(virtual=False)))
        d.note("counts", cv)
        d.nontrivial(len(flat_) >= 3)
        try:
            got = tolist(ak.unflatten(ak.Array(layout), cl))
        except ValueError as e:
            if bad:
                d.label("refused")
                return
            raise
        check(not bad, "counts beyond the data were accepted: %s", clip(tolist(got)))
        expect_same(got, want, "unflatten")
        expect_same(tolist(ak.flatten(ak.Array(got), axis=1)) if flat_ and not opt else flat_, flat_, "flatten(unflatten)")
    else:
        # axis=1: the inner lists are regrouped; boundaries of the outer lists are kept
        outer = []
        cv = []
        want = []
        i = 0
        while i < len(rows):
            k = d.i(0, min(3, len(rows) - i))
            grp = rows[i:i + k] if k else []
            outer.append([x for r in grp for x in r])
            want.append([r for r in grp])
            cv.extend(len(r) for r in grp)
            i += k
            if len(outer) > 8:
                break
        # optionally one more dimension above
        deeper = d.b(30)
        t1, arr = Lst(t0), outer
        if deeper:
            t1, arr, j = Lst(t1), [], 0
            while j < len(outer):
                k = d.i(0, 3)
                arr.append(outer[j:j + k])
                j += k
                if len(arr) > 8:
                    arr[-1] = arr[-1] + outer[j:]
                    break
        axis = 2 if deeper else 1
        ol = encode(d, t1, arr, cfg)
        note_array(d, "array", t1, arr, ol)
        d.note("counts", cv)
        d.nontrivial(len(flat_) >= 3)
        d.label("axis%d" % axis)
        got = tolist(ak.unflatten(ak.Array(ol), np.array(cv, dtype=np.int64), axis=axis))
        if deeper:
            expect_same([len(x) for x in got], [len(x) for x in arr], "outer lengths")
            got = [x for y in got for x in y]
        # empty lists at a boundary may belong to the list on either side
        expect_same([[x for r in g for x in r] for g in got], outer, "flattened unflatten(axis=%d)" % axis)
        if len(outer):
            expect_same([len(r) for g in got for r in g], cv, "list lengths")
        if not any(len(r) == 0 for w in want for r in w[:1] + w[-1:]) and all(want):
            expect_same(got, want, "unflatten(axis=%d)" % axis)


def unflatten_scalar(d):
    t0 = gen_chain(d, d.i(0, 1), Num("int64"))
    k = d.i(1, 4)
    n = d.i(0, 5) * k + (d.i(0, k - 1) if d.b(15) else 0)
    vals = gen_values(d, t0, CFG, n)
    layout = encode(d, t0, vals, CFG)
    note_array(d, "flat", t0, vals, layout)
    d.note("counts", k)
    d.nontrivial(n >= 3)
    try:
        a = ak.unflatten(ak.Array(layout), k)
    except ValueError:
        check(n % k != 0 or k > n, "refused")
        return
    got = tolist(a)
    want = [vals[i * k:(i + 1) * k] for i in range(n // k)]
    expect_same(got, want, "unflatten")


def run_lengths(d):
    leaf = d.choice([Num("int64"), Str(), Num("bool"), Num("float32")])
    lv = d.i(0, 1)
    t = leaf if lv == 0 else (Lst(leaf) if d.b(75) else Reg(leaf, d.i(1, 3)))
    cfg = CFG.but(int_abs=1, unicode=False, virtual=False)
    vals = gen_values(d, t, cfg, d.geometric(10, 0.85))
    if isinstance(leaf, Str):
        vals = [[x[:1] for x in v] if lv else v[:1] for v in vals]
    layout = encode(d, t, vals, cfg)
    note_array(d, "array", t, vals, layout)
    d.nontrivial(count_scalars(vals) >= 4)

    def runs(v):
        out = []
        last = object()
        for x in v:
            if out and x == last:
                out[-1] += 1
            else:
                out.append(1)
            last = x
        return out
    try:
        got = tolist(ak.run_lengths(ak.Array(layout)))
    except NotImplementedError:
        raise Reject("not implemented")
    want = [runs(v) for v in vals] if lv else runs(vals)
    expect_same(got, want, "run_lengths")


SUBS = [("num", 3, num), ("flatten", 3, flatten), ("flatten_all", 1, flatten_all), ("unflatten", 2, unflatten),
        ("unflatten_scalar", 1, unflatten_scalar), ("run_lengths", 1, run_lengths)]
