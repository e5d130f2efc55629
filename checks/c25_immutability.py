"""C25: arrays are immutable; copies are independent."""
import copy
import pickle

import numpy as np
import awkward as ak

from pbt.common import *
from pbt.ops import *
from pbt.walk import *

META = {
    "title": "Operations never change the arrays they are given",
    "statement": "No function of the library changes an array passed to it: after any sequence of operations, accepted or refused, every "
                 "array that existed before still has the same elements, the same type, parameters and fields, bit for bit in its "
                 "buffers, even where results share memory with their operands. Assigning a field to an array changes that array "
                 "object only, not others that share its data. ak.copy, copy.deepcopy and pickling give arrays that share no memory "
                 "with the original: overwriting the original's buffers does not show in them.",
    "text": "all arrays, all sequences of operations on them",
    "over": ["inputs", "histories"],
    "why": "The tests look at results, hardly ever at the operands afterwards; an in-place update of a shared buffer shows only in "
           "a particular encoding (a mask of the right dtype, a contiguous buffer) and only in the operand.",
    "files": ["src/awkward/operations", "src/awkward/_util.py", "src/awkward/highlevel.py", "src/libawkward/array"],
    "mechanism": [("functional operations on shared buffers", "src/libawkward/array/*.cpp"),
                  ("option-type masks in broadcasting", "src/awkward/_util.py"),
                  ("__setitem__, copies", "src/awkward/highlevel.py")],
    "technique": "invariant over generated histories of operations: snapshots of all buffers before and after",
    "note": "Sampled; chains of up to four operations. Materializing a virtual array is not a change.",
}
RULE = ("An array of a random type and encoding (also partitioned) goes through a random sequence of operations of a catalogue of 45 "
        "(results become operands); after each, the buffers, parameters, field names of all arrays made so far are compared with "
        "snapshots. Copies are checked by overwriting every buffer of the original. Non-trivial: at least one operation accepted "
        "and at least three scalars.")
COUNTS = {"quick": 100000, "thorough": 2000000}
CFG = Cfg(virtual=True, dates=False, complex=True, nan=True, unknown=True)


def arr(d, cfg=CFG):
    t = None
    if d.b(50):
        t = gen_chain(d, d.i(0, 2), Num(d.choice(["int64", "float64", "bool", "int8", "float32"])) if d.b(80) else Str(), optleaf=50, optlist=35)
    t, v, lay = make(d, cfg.but(virtual=d.b(10)), t, maxn=6)
    if d.b(10) and len(v) > 1:
        k = d.i(0, len(v))
        lay2 = encode(d, t, v[k:], cfg)
        lay = ak.partition.IrregularlyPartitionedArray([encode(d, t, v[:k], cfg), lay2])
    return t, v, ak.Array(lay)


def wrapped(x):
    return isinstance(x, ak.Array)


def history(d):
    t, v, a = arr(d)
    pool = [("a", a, snapshot(a.layout), str(ak.type(a)) if wrapped(a) else "")]
    done = 0
    for step in range(d.i(1, 4)):
        name, x, _, _ = d.choice(pool)
        desc, f = gen_op(d, t, len(x))
        desc2 = desc.replace("(a", "(" + name).replace("a[", name + "[")
        d.note("step %d" % step, desc2)
        d.label(desc.split("(")[0].split("[")[0])
        if "from_regular" in desc and "unknown" in str(x.type):
            raise Reject()
        try:
            res = f(x)
        except REFUSAL + (AssertionError,):
            d.label("refused")
            res = None
        else:
            done += 1
        for nm, y, snap, ty in pool:
            now = snapshot(y.layout)
            if now != snap:
                raise Violation("%s on %s changed %s: %s" % (desc, name, nm, difference(snap, now)))
            check(str(ak.type(y)) == ty, "%s on %s changed the type of %s: %s", desc, name, nm, str(ak.type(y)))
        for r in (res if isinstance(res, (tuple, list)) else [res]):
            if wrapped(r) and len(pool) < 5:
                try:
                    ty = str(ak.type(r))
                except Exception:
                    continue
                pool.append(("r%d" % step, r, snapshot(r.layout), ty))
    d.nontrivial(done > 0 and count_scalars(v) >= 3)


def pair(d):
    """Operations on two arrays with missing values."""
    lf = Num(d.choice(["int64", "float64", "bool"]))
    t1, t2 = [gen_chain(d, d.i(0, 2), lf, optleaf=70, optlist=60, reg=15) for _ in range(2)]
    cfg = CFG.but(virtual=False)
    n = d.i(0, 6)
    v1 = gen_values(d, t1, cfg, n)
    a = ak.Array(encode(d, t1, v1, cfg))
    if d.b(50):
        t2, v2 = t1, v1
    else:
        v2 = gen_values(d, t2, cfg, n)
    b = ak.Array(encode(d, t2, v2, cfg))
    note_array(d, "a", t1, v1, a.layout)
    note_array(d, "b", t2, v2, b.layout)
    m = ak.Array(encode(d, Num("bool"), [d.b(50) for _ in range(n)], cfg))
    mv = d.b(50)
    name, f = d.choice([
        ("a + b", lambda: a + b), ("a < b", lambda: a < b), ("zip", lambda: ak.zip({"p": a, "q": b})),
        ("zip1", lambda: ak.zip([a, b], depth_limit=1)), ("where", lambda: ak.where(m, a, b)), ("where a", lambda: ak.where(a, b, 1)),
        ("broadcast", lambda: ak.broadcast_arrays(a, b)), ("concatenate", lambda: ak.concatenate([a, b, a])),
        ("concatenate1", lambda: ak.concatenate([a, b], axis=1)), ("cartesian", lambda: ak.cartesian([a, b])),
        ("with_field", lambda: ak.with_field(ak.zip({"p": a}, depth_limit=1), b, "q")),
        ("isclose", lambda: ak.isclose(a, b)), ("mask", lambda: ak.mask(a, m, valid_when=mv)), ("mask b", lambda: ak.mask(a, b > 0, valid_when=mv)),
        ("slice", lambda: a[b > 0]), ("slice m", lambda: a[m]), ("local", lambda: a[ak.local_index(b)]), ("slice b", lambda: a[b]),
        ("argmax", lambda: a[ak.argmax(b, axis=-1, keepdims=True)]), ("mean", lambda: ak.mean(a, axis=-1, weight=b)),
        ("corr", lambda: ak.corr(a, b, axis=-1)), ("linear_fit", lambda: ak.linear_fit(a, b)), ("covar", lambda: ak.covar(a, b, weight=m)),
        ("std", lambda: ak.std(a, axis=-1)), ("softmax", lambda: ak.softmax(a, axis=-1)),
        ("argsort", lambda: a[ak.argsort(b, axis=-1)]), ("three", lambda: np.logical_and(a, b) | m), ("zip3", lambda: ak.zip([a, m, b])),
        ("unflatten", lambda: ak.unflatten(a, b)), ("pow", lambda: a ** 2), ("where m", lambda: ak.where(m, 1, a))])
    d.note("operation", name)
    d.label(name)
    sa, sb, sm = snapshot(a.layout), snapshot(b.layout), snapshot(m.layout)
    try:
        f()
    except REFUSAL + (AssertionError,):
        d.label("refused")
    else:
        d.nontrivial(n > 0)
    for nm, x, s in (("a", a, sa), ("b", b, sb), ("m", m, sm)):
        now = snapshot(x.layout)
        if now != s:
            raise Violation("%s changed %s: %s" % (name, nm, difference(s, now)))


def overwrite(d, layout):
    done = 0
    for p, b in list(buffers(layout)):
        if b.size and b.flags.writeable:
            b.view()[...] = b.dtype.type(1)
            done += b.size
    return done


def copies(d):
    t, v, lay = make(d, CFG.but(virtual=False, dates=False), maxn=6)
    a = ak.Array(lay)
    k = d.choice(["ak.copy", "copy.deepcopy", "pickle", "layout.deep_copy", "numpy"])
    d.note("copy", k)
    d.label(k)
    if k == "ak.copy":
        b = ak.copy(a)
    elif k == "copy.deepcopy":
        b = copy.deepcopy(a)
    elif k == "pickle":
        b = pickle.loads(pickle.dumps(a, -1))
    elif k == "layout.deep_copy":
        b = ak.Array(lay.deep_copy(True, True, True))
    else:
        x = np.asarray(gen_values(d, Num("int64"), CFG, 4), dtype=np.int64)
        a = ak.from_numpy(x)
        lay = a.layout
        b = ak.copy(a)
        v = x.tolist()
    want = plain(v)
    expect_same(tolist(b), want, k)
    done = overwrite(d, lay)
    d.nontrivial(done >= 3)
    expect_same(tolist(b), want, k + ", after overwriting the original")
    # and the other way around
    if k != "pickle":
        s = snapshot(a.layout)
        overwrite(d, b.layout)
        now = snapshot(a.layout)
        check(now == s, "overwriting the copy (%s) changed the original: %s", k, difference(s, now) if now != s else "")


def setitem(d):
    t = Rec([(k, gen_type(d, CFG, depth=1)) for k in ("x", "y")][:d.i(1, 2)])
    if d.b(30):
        t = Rec([("x", t), ("w", Num("int64"))])
    t, v, lay = make(d, CFG.but(virtual=d.b(20)), t, maxn=6)
    a = ak.Array(lay)
    others = [("another array of the layout", ak.Array(lay)), ("a slice of it", a[:]), ("a shallow copy", copy.copy(a)), ("a field", a["x"])]
    if len(v):
        others.append(("a record of it", a[0]))
    before = [tolist(x) for _, x in others]
    keys = [ak.fields(x) for _, x in others]
    snap = snapshot(lay)
    for _ in range(d.i(1, 3)):
        where = d.choice(["x", "y", "new", "z"])
        val = d.choice([1, 2.5, np.arange(len(v)), ak.Array([[i] for i in range(len(v))]) if v else 3])
        d.note("assignment", "[%r] = %s" % (where, val))
        try:
            if d.b(15) and isinstance(t.f[0][1], Rec):
                a["x", where] = val
            else:
                a[where] = val
        except REFUSAL:
            continue
    d.nontrivial(len(v) >= 2)
    check(snapshot(lay) == snap, "the layout changed: %s", difference(snap, snapshot(lay)))
    for (nm, x), w, k in zip(others, before, keys):
        check(ak.fields(x) == k, "%s: fields changed from %s to %s", nm, k, ak.fields(x))
        expect_same(tolist(x), w, nm)


SUBS = [("history", 5, history), ("pair", 4, pair), ("copies", 2, copies), ("setitem", 2, setitem)]
