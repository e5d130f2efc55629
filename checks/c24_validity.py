"""C24: validity."""
import re

import numpy as np
import awkward as ak

from pbt.common import *
from pbt.ops import gen_op, REFUSAL
from pbt.walk import nodes, buffers

META = {
    "title": "Validity checks tell broken arrays; operations make valid ones",
    "statement": "ak.is_valid and ak.validity_error report an error exactly if some node's offsets, starts and stops, index or tags point outside of its "
                 "content (or offsets decrease, or a mask, index or content is too short), whichever node of whichever encoding it is; and slicing, "
                 "reducing, sorting, masking, padding, combining, zipping, packing and converting a valid array gives valid arrays only.",
    "text": "all layouts with arbitrary index values; all arrays and operations",
    "over": ["inputs", "histories"],
    "why": "The tests check validity of a handful of results and of a few broken layouts; which of the index values, in which encoding, is "
           "out of range, and by how much, cannot be sampled by hand.",
    "files": ["src/libawkward/array", "src/cpu-kernels/awkward_ListArray_validity.cpp", "src/cpu-kernels/awkward_IndexedArray_validity.cpp",
              "src/cpu-kernels/awkward_UnionArray_validity.cpp", "src/awkward/operations/describe.py"],
    "mechanism": [("validityerror of all layout classes", "src/libawkward/array/*.cpp"),
                  ("validity kernels", "src/cpu-kernels/awkward_*_validity.cpp"),
                  ("is_valid, validity_error", "src/awkward/operations/describe.py")],
    "technique": "reference model of validity over fault-injected layouts; invariant (validity) over results of generated operations",
    "note": "Sampled; one to three index values are overwritten in layouts of up to four levels.",
}
RULE = ("(a) In a generated layout, up to three index values of random nodes are overwritten by random (or boundary) numbers; ak.is_valid must "
        "agree with a model that checks every node in Python. (b) The result of a random operation on a generated array must be valid. "
        "Non-trivial: (a) an index value was overwritten, (b) the operation was accepted on at least three scalars.")
COUNTS = {"quick": 140000, "thorough": 2000000}
CFG = Cfg(virtual=False, complex=True, nan=True)


def broken(layout):
    """The first broken node, or None."""
    L = ak.layout
    for path, x in nodes(layout):
        nm = type(x).__name__
        if nm.startswith("ListOffsetArray"):
            o = np.asarray(x.offsets).astype(np.int64)
            if len(o) == 0:
                return path, "no offsets"
            a, b = o[:-1], o[1:]
        elif nm.startswith("ListArray"):
            a, b = np.asarray(x.starts).astype(np.int64), np.asarray(x.stops).astype(np.int64)
            if len(b) < len(a):
                return path, "stops are too short"
        else:
            a = None
        if a is not None:
            n = len(x.content)
            for i in range(len(a)):
                if a[i] != b[i] and not 0 <= a[i] <= b[i] <= n:
                    return path, "list %d: %d to %d of %d" % (i, a[i], b[i], n)
        elif nm.startswith("IndexedOptionArray"):
            i = np.asarray(x.index)
            if len(i) and int(i.max()) >= len(x.content):
                return path, "index"
        elif nm.startswith("IndexedArray"):
            i = np.asarray(x.index).astype(np.int64)
            if len(i) and (int(i.max()) >= len(x.content) or int(i.min()) < 0):
                return path, "index"
        elif nm.startswith("UnionArray"):
            t, i = np.asarray(x.tags), np.asarray(x.index).astype(np.int64)
            if len(i) < len(t):
                return path, "index too short"
            for k in range(len(t)):
                if not 0 <= t[k] < x.numcontents:
                    return path, "tag"
                if not 0 <= i[k] < len(x.contents[int(t[k])]):
                    return path, "index of tag %d" % t[k]
        elif isinstance(x, L.ByteMaskedArray):
            if len(x.content) < len(np.asarray(x.mask)):
                return path, "content too short"
    return None


def detection(d):
    t = gen_type(d, CFG)
    v = gen_values(d, t, CFG, gen_length(d))
    lay = encode(d, t, v, CFG)
    note_array(d, "array", t, v, lay)
    bufs = [(p, b) for p, b in buffers(lay) if p.split(".")[-1] in ("offsets", "starts", "stops", "index", "tags") and len(b)]
    hit = False
    if bufs:
        for _ in range(d.i(0, 3)):
            p, b = d.choice(bufs)
            k = d.i(0, len(b) - 1)
            old = int(b[k])
            info = np.iinfo(b.dtype)
            new = d.weighted([(3, old + d.i(-2, 2)), (3, d.i(-3, 12)), (1, info.max), (1, info.min), (1, d.i(0, 100))])
            new = min(max(new, int(info.min)), int(info.max))
            if not b.flags.writeable:
                raise Reject()
            b[k] = new
            hit = hit or new != old
            d.note("change", lambda p=p, k=k, old=old, new=new: "%s[%d]: %d -> %d" % (p, k, old, new))
    why = broken(lay)
    d.nontrivial(hit)
    d.label("broken" if why else "readable")
    got = ak.is_valid(lay if d.b(50) else ak.Array(lay))
    err = ak.validity_error(lay)
    check(got is (err is None), "is_valid is %s, validity_error %s", got, err)
    if why:
        check(not got, "not reported: %s", why)
        if d.b(20):
            try:
                ak.is_valid(lay, exception=True)
            except ValueError:
                pass
            else:
                raise Violation("is_valid(exception=True) did not raise")
            try:
                ak.Array(lay, check_valid=True)
            except ValueError:
                pass
            else:
                raise Violation("ak.Array(..., check_valid=True) did not raise")
    else:
        check(got, "a readable array is reported as broken: %s", err)
        tolist(ak.Array(lay))


STRINGS = ("broadcast_arrays", "is_none", "firsts", "nan_to_num", "pad_none", "flatten", "cartesian", "argcartesian", "concatenate", "combinations",
           "argcombinations", "local_index", "unflatten", "a")


def closure(d):
    cfg = CFG.but(virtual=d.b(20), unions=d.b(30))
    t = None
    if d.b(50):
        t = gen_chain(d, d.i(0, 3), Num(d.choice(["int64", "float64", "bool", "int8"])), optleaf=30, optlist=25)
    t, v, lay = make(d, cfg, t, maxn=6)
    a = ak.Array(lay)
    if not ak.is_valid(a):
        raise Violation("the generated array is not valid: %s" % ak.validity_error(a))
    desc, f = gen_op(d, t, len(a))
    op = desc.split("(")[0].split("[")[0]
    d.note("operation", desc)
    if re.search(r"(axis=|axis': |\(a, )-", desc) and ("{" in repr(t) or "(" in repr(t)):
        raise Reject("negative axes beside records are not claimed")
    try:
        out = f(a)
    except REFUSAL + (AssertionError,):
        d.label("refused")
        return
    d.label(desc.split("(")[0].split("[")[0])
    d.nontrivial(count_scalars(v) >= 3)
    for r in (out if isinstance(out, (tuple, list)) else [out]):
        if isinstance(r, ak.Array):
            err = ak.validity_error(r)
            if err is not None and "__array__" in err and op in STRINGS and ("string" in repr(t) or "bytes" in repr(t)):
                d.label("K24 " + op)
                d.known("K24")
            check(err is None, "%s: %s", desc.split("(")[0].split("[")[0], err)
            b = broken(r.layout)
            check(b is None, "%s: the model says broken: %s", desc, b)


SUBS = [("detection", 4, detection), ("closure", 6, closure)]
