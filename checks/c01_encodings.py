"""C01: every physical encoding of the same data reads back as the same values and type."""
import numpy as np
import awkward as ak

from pbt.common import *

META = {
    "title": "The physical encoding of an array does not change its meaning",
    "statement": "An array's values, type, length and the elements and fields it yields depend only on the logical data it "
                 "represents, never on which of the equivalent physical encodings (offsets or starts/stops, any index "
                 "integer width, index, byte or bit masks, indirection, strides, unreachable data, lazy or eager) holds it. "
                 "Every such encoding is reported as valid.",
    "text": "all logical values of all types crossed with all of their physical encodings",
    "over": ["inputs", "configurations"],
    "why": "The tests build a few hand-written layouts of each class; the product of nested encodings (slack, permuted "
           "indexes, U32/32/64, mask polarity and bit order, strides) is not sampled.",
    "files": ["src/libawkward/array", "src/libawkward/Content.cpp", "src/awkward/operations/convert.py",
              "src/awkward/operations/describe.py"],
    "mechanism": [("getitem_at/carry/project of each node class", "src/libawkward/array/*.cpp"),
                  ("to_list", "src/awkward/operations/convert.py"), ("validityerror", "src/libawkward/array/*.cpp")],
    "technique": "generated encodings of generated data, round trip to the data as oracle",
    "note": "Sampled, not exhaustive: nesting up to 4 constructors, lengths up to 8; the oracle is the generated Python data itself.",
}

RULE = ("A logical type (numbers of 11 dtypes, complex, dates, strings, bytes, nested/regular lists, options, records, "
        "tuples, unions, unknown) and values of it are generated, then one of the physical layouts that mean them "
        "(offset/start-stop lists with gaps and reordering, 32/U32/64-bit indexes, indexed, masked by byte/bit/index, "
        "strided and n-d NumPy buffers, unreachable elements, virtual nodes). Non-trivial: at least three scalars and "
        "at least two layout nodes.")
COUNTS = {"quick": 140000, "thorough": 3000000}
ASSUMPTIONS = ["to_list on 1-d NumPy buffers is trusted to NumPy"]

CFG = Cfg(virtual=True, complex=True, dates=True, emptyrec=True, extremes=True, nan=True, inf=True, maxdepth=5)


def _nontrivial(d, vals, layout):
    d.nontrivial(count_scalars(vals) >= 3 and len(classes_of(layout)) >= 2)
    for c in classes_of(layout):
        d.label(c)


def read_back(d):
    t, vals, layout = make(d, CFG)
    _nontrivial(d, vals, layout)
    want = plain(vals)
    expect_same(ak.to_list(layout), want, "to_list of the layout")
    arr = ak.Array(layout)
    check(len(arr) == len(want), "len is %d, expected %d", len(arr), len(want))
    expect_same(ak.to_list(arr), want, "to_list of the array")
    got = ak.type(layout)
    check(got == ak_type(t), "type is %s, expected %s", got, ak_type(t))
    ve = ak.validity_error(layout)
    check(ve is None, "validity_error on a valid array: %s", ve)
    check(ak.is_valid(layout), "is_valid is False")


def elementwise(d):
    t, vals, layout = make(d, CFG)
    _nontrivial(d, vals, layout)
    want = plain(vals)
    n = len(want)
    arr = ak.Array(layout)
    expect_same([tolist(x) for x in arr], want, "iteration")
    for i in range(n):
        expect_same(tolist(arr[i]), want[i], "array[%d]" % i)
        expect_same(tolist(arr[i - n]), want[i], "array[%d]" % (i - n))
    for bad in (n, -n - 1):
        try:
            x = arr[bad]
        except ValueError:
            pass
        else:
            raise Violation("array[%d] of an array of length %d gave %s" % (bad, n, clip(tolist(x))))


def nested_access(d):
    """Walking down by integers and field names reaches the same values."""
    t, vals, layout = make(d, CFG)
    _nontrivial(d, vals, layout)
    x, v, path = ak.Array(layout), plain(vals), []
    for _ in range(6):
        if isinstance(v, list):
            if not v:
                break
            i = d.i(0, len(v) - 1)
            if d.b():
                i -= len(v)
            x, v = x[i], v[i]
            path.append(i)
        elif isinstance(v, dict):
            if not v:
                break
            k = d.choice(list(v))
            x, v = x[k], v[k]
            path.append(k)
        elif isinstance(v, tuple):
            i = d.i(0, len(v) - 1)
            x, v = x[str(i)], v[i]
            path.append(str(i))
        else:
            break
        d.note("path", path)
        expect_same(tolist(x), v, "at path %r" % (path,))


def range_slices(d):
    """A range of an encoding is the encoding of the range, again and again."""
    t, vals, layout = make(d, CFG)
    _nontrivial(d, vals, layout)
    v = plain(vals)
    arr = ak.Array(layout)
    for _ in range(d.i(1, 3)):
        lo = d.weighted([(1, None), (4, d.signed(len(v) + 2))])
        hi = d.weighted([(1, None), (4, d.signed(len(v) + 2))])
        step = d.weighted([(5, None), (2, 1), (1, 2), (1, -1), (1, -2), (1, 3)])
        s = slice(lo, hi, step)
        d.note("slice", s)
        arr, v = arr[s], v[s]
        expect_same(ak.to_list(arr), v, "after slice %r" % (s,))
        check(len(arr) == len(v), "len after slice")
    check(ak.validity_error(arr) is None, "slice of a valid array is invalid: %s", ak.validity_error(arr))


def rebuild(d):
    """Python data -> array -> Python data."""
    cfg = CFG.but(virtual=False, reg0=False, regular=False, extremes=False)
    t = gen_type(d, cfg)
    vals = gen_values(d, t, cfg, gen_length(d))
    want = plain(vals)
    d.note("data", lambda: want)
    d.nontrivial(count_scalars(vals) >= 3)
    got = ak.to_list(ak.from_iter(want))
    expect_same(got, want, "to_list(from_iter(data))")
    if want:
        expect_same(ak.to_list(ak.Array(want)), want, "to_list(Array(data))")


SUBS = [("read_back", 4, read_back), ("elementwise", 3, elementwise), ("nested_access", 2, nested_access),
        ("range_slices", 3, range_slices), ("rebuild", 2, rebuild)]
