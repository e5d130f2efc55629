"""C17: to_buffers / from_buffers, pickling, copying and packing."""
import copy
import json
import pickle
import numpy as np
import awkward as ak

from pbt.common import *

META = {
    "title": "Buffers, pickles and copies reproduce the array",
    "statement": "ak.from_buffers(*ak.to_buffers(a)) has the same values, type, parameters and form as a, for every layout, key "
                 "format, container, partitioning and lazy setting; pickling (protocol 2 and later), copy.copy, copy.deepcopy and "
                 "ak.packed give an array or record with the same values, type and parameters, and a packed array holds nothing "
                 "that cannot be reached. Buffers that are too short, or absent, are "
                 "refused (or never read).",
    "text": "all layouts, containers and key formats",
    "over": ["inputs"],
    "why": "Each of the 13 layout classes has its own branch in three functions (writing, reading, packing), with lengths passed "
           "down from parents; tests cover a few combinations.",
    "files": ["src/awkward/operations/convert.py", "src/awkward/operations/structure.py", "src/awkward/highlevel.py"],
    "mechanism": [("to_buffers, from_buffers, _form_to_layout", "src/awkward/operations/convert.py"),
                  ("_packed", "src/awkward/operations/structure.py"), ("__getstate__, __setstate__", "src/awkward/highlevel.py")],
    "technique": "round-trip testing over generated layouts",
    "note": "Sampled layouts of up to four levels; dates and times are not supported by to_buffers (refused).",
}
RULE = ("A generated array in a random encoding (all layout classes, parameters on random nodes, virtual and partitioned arrays) is "
        "written to buffers with random key formats and read back (eagerly or lazily, with buffers shortened), "
        "pickled, copied or packed; values, type, parameters and form are compared. Non-trivial: at least two layout nodes.")
COUNTS = {"quick": 100000, "thorough": 1500000}
CFG = Cfg(virtual=True, complex=True, nan=True)


def add_params(d, form):
    """Random parameters on random nodes of a form (as JSON)."""
    if isinstance(form, str):
        form = {"class": "NumpyArray", "primitive": form} if False else form
        return form
    out = dict(form)
    if d.b(25) and "__array__" not in form.get("parameters", {}):
        p = dict(out.get("parameters", {}))
        p[d.choice(["k", "note", "__doc__"])] = d.choice([1, "two", [1, 2], {"a": None}, 1.5, True])
        out["parameters"] = p
    if "content" in out and not out.get("parameters", {}).get("__array__") in ("string", "bytestring"):
        out["content"] = add_params(d, out["content"])
    if "contents" in out:
        c = out["contents"]
        out["contents"] = {k: add_params(d, x) for k, x in c.items()} if isinstance(c, dict) else [add_params(d, x) for x in c]
    return out


def build(d, cfg=CFG, partitioned=True):
    t = gen_type(d, cfg)
    v = gen_values(d, t, cfg, gen_length(d))
    if partitioned and d.b(12):
        lay = partition(d, t, v, cfg if d.b(30) else cfg.but(canonical=True, virtual=False))
        d.note("array", lambda: "%r :: %s (partitioned)" % (plain(v), t))
        d.label("partitioned")
    else:
        lay = encode(d, t, v, cfg)
        note_array(d, "array", t, v, lay)
    if d.b(30) and not isinstance(lay, ak.partition.PartitionedArray):
        form, n, cont = ak.to_buffers(lay)
        new = add_params(d, json.loads(form.tojson()))
        lay2 = ak.from_buffers(json.dumps(new), n, cont, highlevel=False)
        d.note("form", lambda: lay2.form.tojson(False, True))
        lay = lay2
        d.label("parameters")
    d.nontrivial(len(classes_of(lay)) >= 2)
    d.label(*classes_of(lay))
    return t, v, lay


def same_type(a, b, what):
    ta, tb = [ak.type(ak.Array(x) if isinstance(x, ak.layout.Content) else x) for x in (a, b)]
    check(ta == tb, "%s: type %s, expected %s", what, ta, tb)


def form_json(lay):
    """Form without form keys, virtual nodes seen through."""
    def strip(x):
        if isinstance(x, str):
            return json.loads(ak.forms.Form.fromjson(json.dumps(x)).tojson())
        x = dict(x)
        x.pop("form_key", None)
        x.pop("has_identities", None)
        if "content" in x:
            x["content"] = strip(x["content"])
        if "contents" in x:
            c = x["contents"]
            x["contents"] = {k: strip(y) for k, y in c.items()} if isinstance(c, dict) else [strip(y) for y in c]
        return x
    return strip(json.loads(lay.form.tojson(False, True)))


def keyfuncs(d):
    kw, rd = {}, {}
    k = d.i(0, 4)
    if k == 1:
        kw["key_format"] = rd["key_format"] = "{form_key}.{attribute}.{partition}"
    elif k == 2:
        def kf(form_key, attribute, partition, **rest):
            return (form_key, attribute, partition)
        kw["key_format"] = rd["key_format"] = lambda **v: "%s/%s/%s" % (v["partition"], v["attribute"], v["form_key"])
    k = d.i(0, 3)
    if k == 1:
        kw["form_key"] = "n-{id}-x"
    elif k == 2:
        kw["form_key"] = lambda **v: "q%s" % v["id"]
    if d.b(20):
        kw["partition_start"] = rd["partition_start"] = d.i(1, 3)
    return kw, rd


def raw(x):
    return bytes(x) if isinstance(x, (bytes, bytearray)) else np.ascontiguousarray(x).tobytes()


def buffers(d):
    t, v, lay = build(d)
    kw, rd = keyfuncs(d)
    if d.b(25):
        kw["container"] = {}
    try:
        form, n, cont = ak.to_buffers(ak.Array(lay) if d.b(50) else lay, **kw)
    except ValueError as e:
        if "differs from the first Form" in str(e):  # partitions with different encodings are refused
            raise Reject()
        raise
    if "container" in kw:
        check(cont is kw["container"], "to_buffers did not use the container it was given")
    if d.b(40):  # anything with the buffer protocol
        f = d.choice([bytes, bytearray, lambda x: np.frombuffer(x, np.uint8)])
        cont = {k: f(np.ascontiguousarray(x).tobytes()) for k, x in cont.items()}
        d.label("raw bytes")
    if d.b(50):
        form = form.tojson() if d.b(50) else json.loads(form.tojson())
    lazy = d.b(30)
    d.note("lazy", lazy)
    out = ak.from_buffers(form, n, cont, lazy=lazy, **rd)
    expect_same(tolist(out), plain(v), "from_buffers(to_buffers)")
    check(len(out) == len(v), "length %d, expected %d", len(out), len(v))
    if not isinstance(lay, ak.partition.PartitionedArray):
        same_type(out, lay, "from_buffers(to_buffers)")
        if not lazy and not classes_of(lay) & {"VirtualArray", "BitMaskedArray"}:
            a, b = form_json(out.layout), form_json(lay)
            check(a == b, "form %s, expected %s", json.dumps(a), json.dumps(b))
    err = ak.validity_error(out)
    check(err is None or ak.validity_error(lay) is not None, "the result is not valid: %s", err)
    if lazy:
        d.label("lazy")


def shortened(d):
    """A buffer that lacks its end is refused, or what is missing is never seen."""
    t, v, lay = build(d, partitioned=False)
    form, n, cont = ak.to_buffers(lay)
    keys = [k for k in sorted(cont) if np.asarray(cont[k]).nbytes > 0]
    if not keys:
        raise Reject()
    k = d.choice(keys)
    data = raw(cont[k])
    size = np.asarray(cont[k]).dtype.itemsize
    items = len(data) // size
    cut = d.i(1, items) if d.b(50) else 1
    cont[k] = data[: (items - cut) * size]
    gone = d.b(10)
    if gone:
        del cont[k]
    lazy = d.b(25)
    d.note("buffer", lambda: "%s %s; lazy=%s" % (k, "deleted" if gone else "without its last %d items" % cut, lazy))
    try:
        out = ak.from_buffers(form, n, cont, lazy=lazy)
        got = tolist(out)
    except REFUSALS:
        d.label("refused")
        return
    d.label("unneeded")
    expect_same(got, plain(v), "from_buffers with a shortened buffer")


def pickled(d):
    t, v, lay = build(d)
    a = ak.Array(lay)
    want = plain(v)
    rec = isinstance(t, (Rec, Tup)) and len(v) and d.b(40)
    if rec:
        i = d.i(0, len(v) - 1)
        d.note("item", i)
        a, want = a[i], want[i]
        d.label("record")
    how = d.i(2, 8)
    try:
        again(d, a, lay, want, how)
    except ValueError as e:
        if "differs from the first Form" in str(e):  # partitions with different encodings are refused
            raise Reject()
        raise


def again(d, a, lay, want, how):
    if how <= 5:
        d.note("how", "pickle protocol %d" % how)
        data = pickle.dumps(a, protocol=how)
        out = pickle.loads(data)
        d.label("pickle")
    elif how == 6:
        out = copy.copy(a)
        d.note("how", "copy")
    elif how == 7:
        out = copy.deepcopy(a)
        d.note("how", "deepcopy")
    else:
        b = pickle.loads(pickle.dumps(a))
        out = pickle.loads(pickle.dumps(b))
        d.note("how", "pickle twice")
    expect_same(tolist(out), want, "copy")
    check(isinstance(out, ak.Record) == isinstance(a, ak.Record), "%s became %s", type(a), type(out))
    if not isinstance(lay, ak.partition.PartitionedArray):
        same_type(out, a, "copy")


def reachable(lay, what):
    """Nothing in a packed layout is out of reach."""
    c = type(lay).__name__
    if c.startswith("ListOffsetArray"):
        off = np.asarray(lay.offsets)
        check(off[0] == 0 and off[-1] == len(lay.content), "packed %s has unreachable items", c)
        reachable(lay.content, what)
    elif c == "RegularArray":
        check(len(lay.content) == len(lay) * lay.size, "packed %s has unreachable items", c)
        reachable(lay.content, what)
    elif c.startswith("IndexedOption"):
        idx = np.asarray(lay.index)
        check(len(lay.content) == (idx >= 0).sum(), "packed %s has unreachable items", c)
        reachable(lay.content, what)
    elif c == "RecordArray":
        for x in lay.contents:
            check(len(x) == len(lay), "packed %s has unreachable items", c)
            reachable(x, what)
    elif c.startswith("UnionArray"):
        for i, x in enumerate(lay.contents):
            check(len(x) == (np.asarray(lay.tags) == i).sum(), "packed %s has unreachable items", c)
            reachable(x, what)
    elif c in ("BitMaskedArray", "ByteMaskedArray", "UnmaskedArray"):
        check(len(lay.content) == len(lay), "packed %s has unreachable items", c)
        reachable(lay.content, what)
    elif c == "NumpyArray":
        x = np.asarray(lay) if lay.format.upper()[0] != "M" else np.asarray(lay.view_int64)
        check(x.flags.c_contiguous, "packed %s is not contiguous", c)
    else:
        check(c == "EmptyArray", "a packed array contains %s", c)


def packing(d):
    t, v, lay = build(d)
    out = ak.packed(lay)
    expect_same(tolist(out), plain(v), "packed")
    if isinstance(lay, ak.partition.PartitionedArray):
        for p in out.layout.partitions:
            reachable(p, "packed")
        return
    same_type(out, lay, "packed")
    reachable(out.layout, "packed")
    err = ak.validity_error(out)
    check(err is None or ak.validity_error(lay) is not None, "the result is not valid: %s", err)
    if "BitMaskedArray" in classes_of(out.layout):  # a mask of bits may become one of bytes
        return
    again = ak.packed(out)
    a, b = form_json(again.layout), form_json(out.layout)
    check(a == b, "packing twice changes the form from %s to %s", json.dumps(b), json.dumps(a))


SUBS = [("buffers", 4, buffers), ("shortened", 2, shortened), ("pickled", 3, pickled), ("packing", 3, packing)]
