"""C09: missing values: mask, is_none, fill_none, pad_none, firsts, singletons, where, drop."""
import numpy as np
import awkward as ak

from pbt.common import *
from checks.c08_broadcasting import bc, Mismatch, isreg, depth, sizes_clash

META = {
    "title": "Missing-value operations touch exactly the missing positions",
    "statement": "mask, is_none, fill_none, pad_none, firsts, singletons and where act elementwise on the logical values: "
                 "exactly the positions that are missing (or that the mask or condition selects) are reported, filled, removed "
                 "or inserted, everything else is unchanged, and lists are padded or clipped to exactly the requested length. "
                 "It does not matter how missing values are encoded.",
    "text": "all arrays, option encodings, masks, axes, fill values and target lengths",
    "over": ["inputs"],
    "why": "There are five physical encodings of missing values, which nest with lists, records and unions; tests exercise each "
           "operation on one or two.",
    "files": ["src/awkward/operations/structure.py", "src/libawkward/array", "src/awkward/_util.py", "src/cpu-kernels"],
    "mechanism": [("mask, is_none, fill_none, pad_none, firsts, singletons, where", "src/awkward/operations/structure.py"),
                  ("fillna, rpad, rpad_and_clip, bytemask, project", "src/libawkward/array/*.cpp")],
    "technique": "generated arrays vs Python reference",
    "note": "Sampled; up to four dimensions.",
}
RULE = ("A nested array with missing values at random levels (lists, fixed-size lists, records, strings, unions at the leaves) "
        "in random option encodings and one of the operations with random arguments, compared with a Python reference. "
        "Non-trivial: at least one missing value (in or out) and three leaves.")
COUNTS = {"quick": 200000, "thorough": 3000000}
CFG = Cfg(virtual=True)


def leaf(d):
    k = d.weighted([(5, "num"), (1, "str"), (1, "rec"), (1, "uni")])
    if k == "num":
        return k, Num(d.weighted(CFG.leaves))
    if k == "str":
        return k, Str()
    if k == "rec":
        return k, Rec([("x", Num("int64")), ("y", d.choice([Str(), Opt(Num("float64")), Lst(Num("int64"))]))])
    return k, Uni([Num("float64"), Str()])


def chain(d, maxlv=3, kinds=None):
    lv = d.weighted([(4, 1), (2, 0), (3, 2), (1, 3)])
    lv = min(lv, maxlv)
    lc, lf = leaf(d) if kinds is None else kinds(d)
    t = gen_chain(d, lv, lf, optlist=30, optleaf=40, reg=20, reg0=True)
    vals = gen_values(d, t, CFG, gen_length(d, 6, 0.75))
    layout = encode(d, t, vals, CFG)
    note_array(d, "array", t, vals, layout)
    d.label(lc, "depth%d" % (lv + 1))
    return lv, lc, t, vals, layout


def nones(v):
    if isinstance(v, (list, tuple)):
        return sum(nones(x) for x in v)
    if isinstance(v, dict):
        return sum(nones(x) for x in v.values())
    return 1 if v is None else 0


def neg(d, lc, lv, axis):
    return axis - (lv + 1) if lc in ("num", "str") and d.b(25) else axis


def is_none(d):
    lv, lc, t, vals, layout = chain(d)
    axis = d.i(0, lv)
    ax = neg(d, lc, lv, axis)
    d.note("axis", ax)

    def m(v, a):
        if a == 0:
            return [x is None for x in v]
        return [None if x is None else m(x, a - 1) for x in v]
    want = m(vals, axis)
    d.nontrivial(nones(plain(vals)) and count_scalars(vals) >= 3)
    expect_same(tolist(ak.is_none(ak.Array(layout), axis=ax)), want, "is_none")


FILL = {"num": [0, 7, -1.5, True], "str": ["", "missing"], "rec": [3], "uni": [1.5, "zz"]}


def fill_none(d):
    lv, lc, t, vals, layout = chain(d)
    value = d.choice(FILL[lc])
    d.note("value", value)

    def m(t, v):
        # the outermost level of missing values on each path is filled
        if isinstance(t, Opt):
            return value if v is None else plain(v)
        if isinstance(t, (Lst, Reg)):
            return [m(t.c, x) for x in v]
        if isinstance(t, Rec):
            return {k: m(c, v[k]) for k, c in t.f}
        return plain(v)
    want = [m(t, v) for v in vals]
    got = tolist(ak.fill_none(ak.Array(layout), value))
    d.nontrivial(nones(plain(vals)) and count_scalars(vals) >= 3)
    expect_same(nobool(got), nobool(want), "fill_none")


def nobool(v):
    """Booleans and numbers may be merged into one type."""
    if isinstance(v, list):
        return [nobool(x) for x in v]
    if isinstance(v, dict):
        return {k: nobool(x) for k, x in v.items()}
    if isinstance(v, bool):
        return int(v)
    return v


def pad_none(d):
    lv, lc, t, vals, layout = chain(d)
    axis = d.i(0, lv)
    ax = neg(d, lc, lv, axis)
    target = d.i(0, 5)
    clip_ = d.b()
    d.note("call", "pad_none(target=%d, axis=%d, clip=%r)" % (target, ax, clip_))

    def m(v, a):
        if v is None:
            return None
        if a == 0:
            out = v + [None] * (target - len(v))
            return out[:target] if clip_ else out
        return [m(x, a - 1) for x in v]
    want = m(plain(vals), axis)
    got = ak.pad_none(ak.Array(layout), target, axis=ax, clip=clip_)
    d.nontrivial(nones(want) and count_scalars(vals) >= 3)
    expect_same(tolist(got), want, "pad_none")
    if clip_ and axis == 1 and len(vals):
        check(ak.type(got).type.__class__.__name__ in ("RegularType", "OptionType"), "clip=True gave %s", ak.type(got))


def firsts(d):
    lv, lc, t, vals, layout = chain(d)
    axis = d.i(0, lv)
    if lc == "rec" and axis == 0:
        lc = "rec"
    ax = neg(d, lc, lv, axis)
    d.note("axis", ax)

    def m(v, a):
        if v is None:
            return None
        if a == 0:
            return v[0] if v else None
        return [m(x, a - 1) for x in v]
    want = m(plain(vals), axis)
    d.nontrivial(count_scalars(vals) >= 3)
    expect_same(tolist(ak.firsts(ak.Array(layout), axis=ax)), want, "firsts")


def singletons(d):
    lv, lc, t, vals, layout = chain(d)

    def m(t, v):
        if isinstance(t, Opt):
            return [] if v is None else [plain(v)]
        if isinstance(t, (Lst, Reg)):
            return [m(t.c, x) for x in v]
        if isinstance(t, Rec):
            return {k: m(c, v[k]) for k, c in t.f}
        return plain(v)
    want = [m(t, v) for v in vals]
    d.nontrivial(nones(plain(vals)) and count_scalars(vals) >= 3)
    got = ak.singletons(ak.Array(layout))
    expect_same(tolist(got), want, "singletons")
    # firsts inverts singletons
    if isinstance(t, Opt):
        expect_same(tolist(ak.firsts(got)), plain(vals), "firsts(singletons)")


def shape_like(d, t, v, lv, dt, regok):
    """A (type, values) with the list lengths of v down to lv levels."""
    def rec(t, v, k):
        if k == 0:
            return gen_scalar(d, dt, CFG)
        t = unopt(t)
        return [rec(t.c, x, k - 1) for x in v]
    return [rec(t, x, lv) for x in v]


def has_missing_list(t, v, lv):
    if lv == 0:
        return False
    if v is None:
        return True
    t = unopt(t)
    return any(has_missing_list(t.c, x, lv - 1) for x in v)


def regular_shape(t, v, lv):
    pass


def masktype(d, t, lv, dt, opt=15):
    out = Num(dt)
    if opt and d.b(opt):
        out = Opt(out)
    kinds = []
    t = unopt(t)
    for _ in range(lv):
        kinds.append(t.n if isinstance(t, Reg) and d.b(70) else None)
        t = unopt(t.c)
    for k in reversed(kinds):
        out = Lst(out) if k is None else Reg(out, k)
    return out


def blank(d, t, v):
    """Puts missing values in optional leaves."""
    if isinstance(t, Opt):
        return None if d.b(20) else v
    if isinstance(t, (Lst, Reg)):
        return [blank(d, t.c, x) for x in v]
    return v


def mask(d):
    lv, lc, t, vals, layout = chain(d)
    ml = d.i(0, lv)
    if any(has_missing_list(t, v, ml) for v in vals):
        raise Reject("no counterpart for a missing list")
    mt = masktype(d, t, ml, "bool")
    mv = [blank(d, mt, x) for x in shape_like(d, t, vals, ml, "bool", True)]
    mlayout = encode(d, mt, mv, CFG)
    note_array(d, "mask", mt, mv, mlayout)
    valid_when = d.b(70)
    d.note("valid_when", valid_when)

    def m(t, v, mt, x):
        if isinstance(mt, Opt):
            return None if x is None else m(t, v, mt.c, x)
        if isinstance(mt, Num):
            return plain(v) if x == valid_when else None
        t = unopt(t)
        return [m(t.c, a, mt.c, b) for a, b in zip(v, x)]
    want = [m(t, v, mt, x) for v, x in zip(vals, mv)]
    got = ak.mask(ak.Array(layout), ak.Array(mlayout), valid_when=valid_when)
    d.nontrivial(nones(want) and count_scalars(vals) >= 3)
    expect_same(tolist(got), want, "mask")
    if lc != "uni" and d.b(20):
        got2 = ak.Array(layout).mask[ak.Array(mlayout)]
        expect_same(tolist(got2), want if valid_when else tolist(ak.mask(ak.Array(layout), ak.Array(mlayout))), ".mask[]")


def where(d):
    lv, lc, t, vals, layout = chain(d, 2)
    cl = d.i(0, lv)
    if any(has_missing_list(t, v, cl) for v in vals):
        raise Reject("no counterpart for a missing list")
    ct = masktype(d, t, cl, d.choice(["bool", "bool", "int64"]), 0)
    cdt = leaf_of(ct).dt
    cv = [blank(d, ct, x) for x in shape_like(d, t, vals, cl, cdt, True)]
    clayout = encode(d, ct, cv, CFG)
    note_array(d, "condition", ct, cv, clayout)
    # the other branch: same outer lists, its own leaf
    if d.b(25):
        other = d.choice([1, 2.5, True, -3])
        ot, ov = None, None
        d.note("other", other)
        arg = other
    else:
        lc2, lf2 = leaf(d)
        ot = lf2
        if d.b(30):
            ot = Opt(ot)
        kinds = []
        tt = unopt(t)
        for _ in range(cl):
            kinds.append(tt.n if isinstance(tt, Reg) and d.b(60) else None)
            tt = unopt(tt.c)
        for k in reversed(kinds):
            ot = Lst(ot) if k is None else Reg(ot, k)

        def fill(t, v, k, o):
            if k == 0:
                return gen_values(d, o, CFG, 1)[0]
            t = unopt(t)
            return [fill(t.c, x, k - 1, o.c) for x in v]
        ov = [fill(t, v, cl, ot) for v in vals]
        olayout = encode(d, ot, ov, CFG)
        note_array(d, "other", ot, ov, olayout)
        arg = ak.Array(olayout)
    swap = d.b()
    ts = [ct, t] + ([ot] if ot is not None else [])
    while not all(isreg(x) for x in ts) and all(isinstance(unopt(x), (Lst, Reg)) for x in ts):
        ts = [unopt(x).c for x in ts]
    if all(isreg(x) for x in ts) and len(set(depth(x) for x in ts)) > 1:
        raise Reject("rectangular arrays of different depth follow NumPy's broadcasting")

    def m(ct, c, t, v, ot, o):
        if isinstance(ct, Opt):
            return None if c is None else m(ct.c, c, t, v, ot, o)
        if isinstance(ct, Num):
            pick = bool(c) != swap
            return plain(v) if pick else (arg if ot is None else plain(o))
        t = unopt(t)
        return [m(ct.c, c[i], t.c, v[i], ot and ot.c, None if ot is None else o[i]) for i in range(len(c))]
    want = [m(ct, cv[i], t, vals[i], ot, None if ot is None else ov[i]) for i in range(len(vals))]
    a = ak.Array(layout)
    args = (arg, a) if swap else (a, arg)
    got = ak.where(ak.Array(clayout), *args)
    d.nontrivial(count_scalars(vals) >= 3)
    expect_same(nobool(tolist(got)), nobool(want), "where")


def nonzero(d):
    nd = d.i(1, 3)
    shape = [d.i(0, 4)] + [d.i(1, 3) for _ in range(nd - 1)]
    dt = d.choice(["bool", "int64", "float64"])
    a = np.array([gen_scalar(d, dt, CFG) for _ in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
    t = Num(dt)
    for x in shape[:0:-1]:
        t = Reg(t, x)
    layout = encode(d, t, a.tolist(), CFG)
    note_array(d, "array", t, a.tolist(), layout)
    d.nontrivial(a.size >= 3)
    got = ak.where(ak.Array(layout))
    want = np.nonzero(a)
    check(len(got) == len(want), "got %d arrays", len(got))
    for g, w in zip(got, want):
        expect_same(tolist(g), w.tolist(), "nonzero")


SUBS = [("is_none", 1, is_none), ("fill_none", 2, fill_none), ("pad_none", 2, pad_none), ("firsts", 1, firsts),
        ("singletons", 1, singletons), ("mask", 2, mask), ("where", 2, where), ("nonzero", 0.3, nonzero)]
