"""C03: slicing by nested (jagged) index and mask arrays, and by arrays with missing values."""
import numpy as np
import awkward as ak

from pbt.common import *
from pbt.model import *

META = {
    "title": "Nested and masked slices apply list by list and keep missing values",
    "statement": "Slicing by a nested integer or boolean array selects, within each list, exactly the items that list's own "
                 "index or mask names, in order, at any depth and followed by any further slice items; a missing index "
                 "yields a missing value and a missing list stays missing. Indexes out of range of their list or with the "
                 "wrong number of lists are refused.",
    "text": "all nested arrays and all index arrays shaped after them, with missing values in either",
    "over": ["inputs"],
    "why": "Tests use a few fixed shapes with one encoding; alignment of index and data after slicing, masking, gaps and "
           "unreachable content is not covered.",
    "files": ["src/libawkward/Content.cpp", "src/libawkward/array/ListArray.cpp", "src/libawkward/array/ListOffsetArray.cpp",
              "src/libawkward/array/IndexedArray.cpp", "src/libawkward/Slice.cpp"],
    "mechanism": [("getitem_next_jagged", "src/libawkward/array/ListArray.cpp"),
                  ("getitem_next_missing", "src/libawkward/Content.cpp"), ("asslice", "src/libawkward/array/*.cpp")],
    "technique": "generated array/index pairs vs a recursive Python reference",
    "note": "Sampled; known finding K03 (pinned by an existing test) is excluded only where its exact precondition holds.",
}

RULE = ("A nested array and a nested integer or boolean array shaped after it, down to a random depth, with missing "
        "entries and missing lists, in random encodings, sometimes out of range or of the wrong length; compared with "
        "a per-list reference. Non-trivial: the index holds at least three leaves.")
COUNTS = {"quick": 200000, "thorough": 3000000}
CFG = Cfg(virtual=True, maxdepth=4, unknown=False, unions=False, reg0=False)


def jag(t, v, ix, depth, tail=()):
    """depth: list levels of the index still below this one."""
    if isinstance(t, Opt):
        return None if v is None else jag(t.c, v, ix, depth, tail)
    if isinstance(t, Rec):
        return {k: jag(c, v[k], ix, depth, tail) for k, c in t.f}
    if isinstance(t, Tup):
        return tuple(jag(c, v[i], ix, depth, tail) for i, c in enumerate(t.f))
    if isinstance(t, (Str, Byt)):
        raise DontCare("characters of a string")
    if not isinstance(t, (Lst, Reg)):
        raise ModelError("too deep")
    if depth == 0:
        if any(isinstance(x, bool) for x in ix):
            if len(ix) != len(v):
                raise DontCare("mask of %d for list of %d" % (len(ix), len(v)))
            return [None if m is None else getitem(t.c, x, tail) for x, m in zip(v, ix) if m is None or m]
        return [None if i is None else getitem(t.c, at(v, i), tail) for i in ix]
    if len(ix) != len(v):
        raise ModelError("index of %d lists for %d" % (len(ix), len(v)))
    return [None if j is None else None if isinstance(t.c, Opt) and x is None else jag(t.c, x, j, depth - 1, tail)
            for x, j in zip(v, ix)]


def gen_ix(d, t, v, depth, kind, leafnone, listnone, err):
    """An index for value v of list type t."""
    while isinstance(t, Opt):
        t = t.c
    n = 0 if v is None or not isinstance(t, (Lst, Reg)) else len(v)
    if depth == 0:
        if kind == "bool":
            m = n + (1 if err and d.b(20) else 0)
            return [None if leafnone and d.b(20) else d.b() for _ in range(m)]
        m = d.geometric(5, 0.6)
        out = []
        for _ in range(m):
            if leafnone and d.b(25):
                out.append(None)
            elif n > 0 or (err and d.b(20)):
                i = d.i(0, max(n - 1, 0) + (1 if err and d.b(10) else 0))
                out.append(i - n if d.b(25) else i)
        return out
    out = []
    for j in range(n + (1 if err and d.b(5) else 0)):
        if listnone and d.b(15):
            out.append(None)
        else:
            out.append(gen_ix(d, t.c, v[min(j, n - 1)] if n else None, depth - 1, kind, leafnone, listnone, err))
    return out


def ix_type(depth, kind, leafnone, listnone, dt):
    t = Num("bool" if kind == "bool" else dt)
    if leafnone:
        t = Opt(t)
    for k in range(depth):
        t = Lst(t)
        if listnone:
            t = Opt(t)
    return t


def plain_depth(t):
    """List levels reachable without meeting a record."""
    n = 0
    while True:
        if isinstance(t, (Lst, Reg)):
            n += 1
            t = t.c
        elif isinstance(t, Opt):
            t = t.c
        else:
            return n


def jagged(d):
    t = gen_type(d, CFG, depth=d.i(1, 4))
    top = Lst(t)
    hi = plain_depth(top)
    if hi < 2 and not d.b(5):
        t = Lst(t)
        top = Lst(t)
        hi = plain_depth(top)
    vals = gen_values(d, t, CFG, gen_length(d, 5, 0.8))
    layout = encode(d, t, vals, CFG)
    note_array(d, "array", t, vals, layout)
    depth = d.i(1, max(1, hi - 1))
    kind = d.choice(["int", "int", "bool"])
    leafnone, listnone, err = d.b(30), d.b(25), d.b(8)
    ix = gen_ix(d, top, vals, depth, kind, leafnone, listnone, err)
    it = ix_type(depth, kind, leafnone, listnone, d.choice(["int64", "int32", "int8"]))
    icfg = CFG.but(regular=False, slack=d.b(60), virtual=False)
    ixl = encode(d, it, ix, icfg)
    note_array(d, "index", it, ix, ixl)
    d.nontrivial(count_scalars(ix) >= 3)
    d.label("depth%d" % depth, kind, "leafnone" if leafnone else "noleafnone", "listnone" if listnone else "nolistnone")
    tail = []
    while depth + len(tail) + 1 < hi and d.b(30):
        if d.b():
            tail.append(d.signed(2))
        else:
            tail.append(slice(d.choice([None, 1, -2]), d.choice([None, 2, -1]), d.choice([None, None, 2, -1])))
    if tail:
        d.note("then", tail)
        d.label("tail")
    compare(d, top, vals, layout, ix, ixl, depth, tail,
            (leafnone or listnone) and skips(top, vals, ix, depth))


def skips(t, v, ix, depth):
    """Does a missing list of the array stand where the index has a non-empty list?"""
    while isinstance(t, Opt):
        t = t.c
    if isinstance(t, Rec):
        return any(skips(c, None if v is None else v[k], ix, depth) for k, c in t.f)
    if isinstance(t, Tup):
        return any(skips(c, None if v is None else v[i], ix, depth) for i, c in enumerate(t.f))
    if v is None:
        return bool(ix)
    if depth == 0 or not isinstance(t, (Lst, Reg)) or ix is None:
        return False
    return any(skips(t.c, x, j, depth - 1) for x, j in zip(v, ix) if j is not None)


def compare(d, top, vals, layout, ix, ixl, depth, tail=(), k03=False):
    try:
        want = jag(top, vals, ix, depth, list(tail))
    except ModelError as e:
        want = ERR(str(e))
    except DontCare as e:
        want = None
    try:
        got = tolist(ak.Array(layout)[(ak.Array(ixl),) + tuple(tail) if tail else ak.Array(ixl)])
    except (ValueError, RuntimeError) as err:
        if isinstance(want, ERR):
            d.label("refused")
            return
        if want is None or (isinstance(err, ValueError) and ndims(top)[0] <= depth):
            return      # a type with too few dimensions may be refused even if empty
        if any(isinstance(i, int) and any(not -n <= i < n for n in reg_dims(top)) for i in tail):
            return      # so may an integer beyond a fixed-size dimension
        if k03:
            d.known("K03")
        raise Violation("refused: %s; expected %s" % (str(err)[:400], clip(want)))
    if want is None:
        return
    if isinstance(want, ERR):
        if k03:
            d.known("K03")
        raise Violation("expected a refusal (%s), got %s" % (want.why, clip(got)))
    if k03 and not same(got, want):
        d.known("K03")
    expect_same(got, want, "array[index]")


def missing(d):
    """One-dimensional index arrays with missing values, at the first dimension."""
    t, vals, layout = make(d, CFG)
    kind = d.choice(["int", "int", "bool"])
    ix = gen_ix(d, Lst(t), vals, 0, kind, True, False, d.b(8))
    it = Opt(Num("bool" if kind == "bool" else d.choice(["int64", "int32", "int8"])))
    ixl = encode(d, it, ix, CFG.but(virtual=False))
    note_array(d, "index", it, ix, ixl)
    d.nontrivial(len(ix) >= 3)
    if kind == "bool" and all(x is None for x in ix) and len(ix) != len(vals):
        raise Reject("mask of unknown kind")
    compare(d, Lst(t), vals, layout, ix, ixl, 0)


def newaxis(d):
    """array[index[:, np.newaxis]]: one list of integers for all lists of an element."""
    lf = gen_leaf(d, CFG)
    inner = Reg(lf, d.i(1, 3)) if d.b(15) else Lst(lf)
    if d.b(25):
        inner = Opt(inner)
    t = Reg(inner, d.i(1, 3)) if d.b(15) else Lst(inner)
    t, vals, layout = make(d, CFG, t, maxn=5)
    ixt = Lst(Opt(Num("int64")) if d.b(20) else Num("int64"))
    ix = []
    for v in vals:
        m = min([len(x) for x in v if x is not None] or [2])
        m = m + 1 if d.b(5) else m
        ix.append([None if isinstance(ixt.c, Opt) and d.b(25) else d.i(-m, m - 1) for _ in range(d.i(0, 3))] if m else [])
    if d.b(5):
        ix = ix[:-1]
    ixl = encode(d, ixt, ix, CFG.but(virtual=False))
    note_array(d, "index", ixt, ix, ixl)
    d.nontrivial(sum(map(len, ix)) >= 2 and len(vals) >= 2)
    bad = any(len(v) for v in vals[len(ix):])
    want = []
    if isinstance(ixt.c, Opt) and any(x is None for v in vals for x in v):
        raise Reject("K03")
    for v, i in zip(vals, ix + [[]] * (len(vals) - len(ix))):
        row = []
        for x in v:
            if x is None:
                row.append(None)
            elif any(j is not None and not -len(x) <= j < len(x) for j in i):
                bad = True
            else:
                row.append([None if j is None else x[j] for j in i])
        want.append(row)
    if any(x is None for v in vals for x in v):
        bad = bad or None       # may be refused
    try:
        got = tolist(ak.Array(layout)[ak.Array(ixl)[:, np.newaxis]])
    except (ValueError, RuntimeError) as err:
        if bad is False and count_scalars(vals) and len(ix):
            raise Violation("refused: %s; expected %s" % (str(err)[:400], clip(plain(want))))
        return
    if bad:
        if any(len(v) for v in vals):
            raise Violation("expected a refusal, got %s" % clip(got))
        return
    expect_same(got, plain(want), "array[index[:, np.newaxis]]")


SUBS = [("jagged", 5, jagged), ("missing", 2, missing), ("newaxis", 1, newaxis)]
