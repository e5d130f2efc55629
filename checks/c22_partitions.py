"""C22: partitioned arrays."""
import re

import numpy as np
import awkward as ak

from pbt.common import *
from pbt.ops import *
from checks.c09_missing import nobool

META = {
    "title": "Partitioning an array does not change what any operation on it computes",
    "statement": "An array stored as any sequence of partitions (also empty ones, of different encodings) behaves as the single array "
                 "of their concatenation: it has the same length, elements, slices and fields, every operation gives the same values "
                 "on it, and repartitioning to any lengths, taking it apart into partitions and putting it together again, keep "
                 "the elements and their order. No operation changes the partitions it was given.",
    "text": "all arrays, all ways of partitioning them and all operations",
    "over": ["inputs", "configurations"],
    "why": "The tests partition two or three arrays by hand and try selected slices; partition boundaries inside slices, empty "
           "partitions, operations on several differently partitioned arrays are not sampled.",
    "files": ["src/awkward/partition.py", "src/libawkward/partition", "src/awkward/_util.py", "src/awkward/operations/structure.py",
              "src/awkward/operations/reducers.py"],
    "mechanism": [("PartitionedArray, IrregularlyPartitionedArray", "src/awkward/partition.py"),
                  ("getitem_at, getitem_range, repartition", "src/libawkward/partition/*.cpp"),
                  ("partition-wise application of operations", "src/awkward/_util.py")],
    "technique": "differential: each generated operation on the partitioned and on the whole array",
    "note": "Sampled; up to five partitions of up to nine elements. An operation may refuse partitioned arrays.",
}
RULE = ("An array of a random type is encoded whole and, independently, as one to five partitions with random boundaries (each with "
        "its own encoding); a random operation of a catalogue of 40 with random arguments (or a random slice, repartitioning, or "
        "an operation on two arrays partitioned differently) is applied to both. Non-trivial: at least two non-empty partitions.")
COUNTS = {"quick": 90000, "thorough": 2000000}
CFG = Cfg(virtual=True, dates=False, unknown=False)
REDUCERS = ("sum", "prod", "any", "all", "min", "max", "argmin", "argmax", "count", "count_nonzero")


def parts_of(d, t, vals, cfg):
    n = len(vals)
    k = d.weighted([(1, 0), (4, 1), (4, 2), (2, 3), (1, 4)])
    cuts = sorted(d.i(0, n) for _ in range(k))
    b = [0] + cuts + [n]
    return [encode(d, t, vals[x:y], cfg) for x, y in zip(b, b[1:])]


def setup(d, cfg=CFG, t=None):
    t = t if t is not None else gen_type(d, cfg)
    v = gen_values(d, t, cfg, d.geometric(9, 0.85))
    ps = parts_of(d, t, v, cfg)
    d.note("array", lambda: "%r :: %s" % (plain(v), t))
    d.note("partitions", lambda: [len(p) for p in ps])
    d.note("layouts", lambda: [show(p) for p in ps])
    d.nontrivial(sum(len(p) > 0 for p in ps) >= 2)
    return t, v, ps


def whole_of(t, v, d):
    return ak.Array(encode(d, t, v, Cfg(canonical=True)))


def reading(d):
    t, v, ps = setup(d)
    want = plain(v)
    p = ak.partitioned(ps)
    n = len(want)
    check(len(p) == n, "length %d, expected %d", len(p), n)
    expect_same(tolist(p), want, "to_list")
    check([x for x in ak.partitions(p) or [n] if x] == [len(x) for x in ps if len(x)], "partitions: %s", ak.partitions(p))
    expect_same([tolist(x) for x in p], want, "iteration")
    for i in range(-n, n):
        expect_same(tolist(p[i]), want[i], "[%d]" % i)
    for i in (n, -n - 1):
        try:
            p[i]
        except (ValueError, IndexError):
            continue
        raise Violation("[%d] is not refused" % i)
    s = gen_slice(d, n)
    d.note("slice", repr(s))
    q = p[s]
    expect_same(tolist(q), want[s], "slice")
    s2 = gen_slice(d, len(want[s]))
    d.note("second slice", repr(s2))
    expect_same(tolist(q[s2]), want[s][s2], "slice of the slice")
    expect_same(tolist(p), want, "to_list, afterwards")
    check(ak.is_valid(p), "not valid: %s", ak.validity_error(p))


def repartitioning(d):
    t, v, ps = setup(d)
    want = plain(v)
    n = len(want)
    p = ak.partitioned(ps)
    for _ in range(d.i(1, 3)):
        if d.b(60):
            m = d.i(1, max(1, n + 1))
            lens = [min(m, n - i) for i in range(0, n, m)]
            arg = m
        else:
            lens = []
            left = n
            while left:
                c = d.i(0, left)
                lens.append(c)
                left -= c
                if len(lens) > 5:
                    lens.append(left)
                    break
            arg = lens
            if not lens:
                break
        d.note("repartition", repr(arg))
        p = ak.repartition(p, arg)
        expect_same(tolist(p), want, "repartition(%r)" % (arg,))
        check(len(p) == n, "length")
        if n:
            lens = [x for x in lens if x]       # empty partitions are dropped
            check([x for x in ak.partitions(p) or [n] if x] == lens, "partitions after repartition(%r): %s, expected %s", arg, ak.partitions(p), lens)
        check(ak.is_valid(p), "not valid: %s", ak.validity_error(p))
    try:
        q = ak.repartition(p, None)
    except RuntimeError as err:
        if "more than 127 contents" in str(err):
            raise Reject()
        raise
    check(ak.partitions(q) is None, "repartition(None) leaves partitions")
    expect_same(tolist(q), want, "repartition(None)")
    if isinstance(p.layout, ak.partition.PartitionedArray):
        got = [tolist(x) for x in p.layout.partitions]
        expect_same(sum(got, []), want, "the partitions, together")


def describe(x):
    return x if isinstance(x, BaseException) else clip(value(x))


def operations(d):
    cfg = CFG.but(virtual=d.b(15))
    t = None
    if d.b(60):
        t = gen_chain(d, d.i(0, 2), Num(d.choice(["int64", "float64", "bool"])) if d.b(80) else Str())
    t, v, ps = setup(d, cfg, t)
    n = len(v)
    desc, f = gen_op(d, t, n)
    d.note("operation", desc)
    d.label(desc.split("(")[0].split("[")[0])
    if desc.startswith("num(") and isinstance(unopt(t), (Rec, Tup)):
        raise Reject()      # a record or a number, by the encoding
    if isinstance(unopt(t), (Rec, Tup)) and desc.split("(")[0] in REDUCERS:
        raise Reject()      # one record of arrays or an array of records, by the encoding
    if desc.startswith("zip") and "union" in str(t):
        raise Reject()
    if re.search("string|bytes", str(t)) and desc.split("(")[0] in REDUCERS + ("is_none", "nan_to_num", "pad_none"):
        raise Reject()      # not defined for strings
    if (re.search(r"-[12]\b", desc) and not desc.startswith("a[") or "sort" in desc) and re.search(r"[{(]|union", str(t)):
        raise Reject()      # negative axes and sorting with records depend on the encoding
    if desc.split("(")[0] in REDUCERS and re.search(r"\d\*", str(t)):
        raise Reject()      # what an empty list of fixed-size lists sums to depends on its neighbours
    if desc == "flatten(a, None)" and re.search(r"[{(]|union", str(t)):
        raise Reject()      # field by field, within each partition
    if desc.startswith("run_lengths") and re.search(r"[{(]|union|\d\*", str(t)):
        raise Reject()      # only for the innermost lists
    if desc.startswith("fill_none") and re.search("string|bytes", str(t)):
        raise Reject()      # partitions with and without missing values get different types
    if re.match(r"where|broadcast|mask", desc) and isinstance(unopt(t), Reg):
        raise Reject()      # NumPy broadcasting of the partitioned dimension
    whole = whole_of(t, v, d)
    try:
        want = value(f(whole))
    except REFUSAL:
        raise Reject()
    p = ak.partitioned(ps)
    try:
        res = f(p)
    except REFUSAL as err:
        allowed(d, desc, err, f, ps)
        return
    got = value(res)
    if desc.startswith(("concatenate", "fill_none")):
        got, want = nobool(got), nobool(want)
    if not same(got, want, 1e-6):
        raise Violation("partitioned: %s, whole: %s" % (clip(got), clip(want)))
    expect_same(tolist(p), plain(v), "the operand, afterwards")


def refuses(f, x):
    try:
        f(x)
    except REFUSAL:
        return True
    return False


def allowed(d, desc, err, f, ps):
    d.label("refused: " + desc.split("(")[0].split("[")[0])
    if any(refuses(f, ak.Array(x)) for x in ps if len(x)) or refuses(f, ak.repartition(ak.partitioned(ps), None)):
        raise Reject()      # not because of the partitions
    raise Violation("partitioned: refused with %s" % str(err)[:600])


def two(d):
    """Operations on two arrays that are partitioned differently."""
    t = gen_chain(d, d.i(0, 1), Num(d.choice(["int64", "float64"])), reg=0)
    cfg = CFG.but(virtual=d.b(15))
    v = gen_values(d, t, CFG, d.geometric(9, 0.85))
    ps = parts_of(d, t, v, cfg)
    w = [None if x is None else x for x in v]
    qs = parts_of(d, t, w, cfg) if d.b(80) else [encode(d, t, w, cfg)]
    d.note("array", lambda: "%r :: %s" % (plain(v), t))
    d.note("partitions", lambda: ([len(p) for p in ps], [len(q) for q in qs]))
    d.nontrivial(sum(len(p) > 0 for p in ps) >= 2)
    a, b = ak.partitioned(ps), ak.partitioned(qs) if len(qs) > 1 else ak.Array(qs[0])
    x, y = whole_of(t, v, d), whole_of(t, w, d)
    m = np.array([d.b(50) for _ in v], dtype=bool)
    name, f = d.choice([
        ("add", lambda a, b: a + b), ("less", lambda a, b: a < b), ("zip", lambda a, b: ak.zip({"p": a, "q": b})),
        ("zip1", lambda a, b: ak.zip([a, b], depth_limit=1)), ("where", lambda a, b: ak.where(m, a, b)),
        ("broadcast", lambda a, b: ak.broadcast_arrays(a, b)), ("concatenate", lambda a, b: ak.concatenate([a, b])),
        ("concatenate1", lambda a, b: ak.concatenate([a, b], axis=1)), ("cartesian", lambda a, b: ak.cartesian([a, b])),
        ("with_field", lambda a, b: ak.with_field(ak.zip({"p": a}, depth_limit=1), b, "q")),
        ("isclose", lambda a, b: ak.isclose(a, b)), ("mask", lambda a, b: ak.mask(a, ak.Array(m))),
        ("slice", lambda a, b: a[b > 0]), ("slice0", lambda a, b: a[ak.Array(m)]), ("argslice", lambda a, b: a[ak.local_index(b)]),
        ("argmax", lambda a, b: a[ak.argmax(b, axis=-1, keepdims=True)]),
        ("argsort", lambda a, b: a[ak.argsort(b, axis=-1)])])
    d.note("operation", name)
    d.label(name)
    if d.b(50):
        a, b, x, y = b, a, y, x
    if name == "argsort" and not all(any(z is not None for z in tolist(part)) for part in qs + ps):
        raise Reject()      # the type of ak.argsort of an empty array is not int64
    try:
        want = value(f(x, y))
    except REFUSAL:
        raise Reject()
    try:
        got = value(f(a, b))
    except REFUSAL as err:
        allowed(d, name, err, lambda x: f(x, x), ps)
        return
    if not same(got, want, 1e-6):
        raise Violation("partitioned: %s, whole: %s" % (clip(got), clip(want)))


SUBS = [("reading", 3, reading), ("repartitioning", 2, repartitioning), ("operations", 5, operations), ("two", 2, two)]
