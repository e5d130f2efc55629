"""C21: virtual (lazy) arrays."""
import re

import numpy as np
import awkward as ak

from pbt.common import *
from pbt.ops import *
from checks.c09_missing import nobool

L = ak.layout
META = {
    "title": "Virtual arrays act as what they generate, at most once and only if needed",
    "statement": "An array with virtual parts gives the same values, types and lengths as the array with those parts replaced by what "
                 "their generators return, in every operation. While its cache keeps it, a part is generated at most once; with "
                 "a cache that forgets, or none, it is generated anew with the same result, and parts that share a cache are never "
                 "mixed up. A part whose length and form are known is not generated by asking for the length, type, fields, "
                 "a slice, a field, or for other parts of the array. A generator that returns another length or form than announced "
                 "is refused, and an error in a generator reaches the caller and leaves the array usable.",
    "text": "all arrays, all placements of virtual parts, operations, caches and cache evictions",
    "over": ["inputs", "histories", "faults"],
    "why": "The tests try single virtual arrays with one operation each; combinations of slices before materialization, forgetting "
           "caches, shared caches and failing generators are not sampled.",
    "files": ["src/libawkward/virtual", "src/libawkward/array/VirtualArray.cpp", "src/python/virtual.cpp", "src/awkward/operations/structure.py",
              "src/awkward/operations/convert.py"],
    "mechanism": [("VirtualArray", "src/libawkward/array/VirtualArray.cpp"), ("ArrayGenerator, SliceGenerator", "src/libawkward/virtual/ArrayGenerator.cpp"),
                  ("PyArrayCache", "src/python/virtual.cpp"), ("lazy reading", "src/awkward/operations/convert.py")],
    "technique": "differential against the materialized array; counting generators, fault-injecting caches and generators",
    "note": "Sampled. Which operations need a part is only claimed for the listed ones.",
}
RULE = ("An array of a random type and encoding in which random nodes are replaced by virtual ones (form and length known or not, cache: "
        "new, shared, forgetting, absent), put through a random sequence of slices and fields and one operation of a catalogue of "
        "40. Non-trivial: at least one virtual node was generated and the array has three scalars.")
REDUCERS = ("sum", "prod", "any", "all", "min", "max", "argmin", "argmax", "count", "count_nonzero")
COUNTS = {"quick": 120000, "thorough": 1500000}
CFG = Cfg(virtual=False, dates=False, unknown=False)


class Keep(dict):
    """A cache that keeps everything (a plain dict cannot be referenced weakly)."""


class Forgetting(dict):
    """A cache that drops entries at random (by the case's own choices)."""

    def __init__(self, d):
        self.d = d

    def __setitem__(self, k, v):
        if self.d.b(50):
            for key in list(self):
                if self.d.b(50):
                    dict.__delitem__(self, key)
        if self.d.b(70):
            dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        if k in self and self.d.b(20):
            dict.__delitem__(self, k)
        return dict.__getitem__(self, k)


class Source(object):
    """Generators that count how often they run."""

    def __init__(self, d, mode, known=None):
        self.d, self.mode, self.known = d, mode, known
        self.counts = {}
        self.nodes = {}
        self.maps = []
        self.shared = None
        self.fail = None
        if mode in ("shared", "forgetting"):
            self.shared = Keep() if mode == "shared" else Forgetting(d)

    def wrap(self, layout):
        i = len(self.counts)
        self.counts[i] = 0
        self.nodes[i] = layout
        known = self.known if self.known is not None else self.d.i(0, 3)

        def generate(i=i):
            if self.fail == i:
                raise OSError("injected failure %d" % i)
            self.counts[i] += 1
            return layout
        form = layout.form if known in (0, 1) else None
        if form is not None and '"form":null' in form.tojson(False, False):
            form = None
        length = len(layout) if known in (0, 2) else None
        gen = L.ArrayGenerator(generate, (), {}, form=form, length=length)
        if self.mode == "none":
            return L.VirtualArray(gen)
        m = self.shared
        if m is None:
            m = Keep()
        self.maps.append(m)         # the ArrayCache holds it by a weak reference only
        return L.VirtualArray(gen, L.ArrayCache(m))


def virtualize(d, x, src, p=35):
    """The same layout, with nodes replaced by virtual ones."""
    if not isinstance(x, (L.NumpyArray, L.EmptyArray)) and not x.parameter("__array__"):
        kw = {"parameters": x.parameters} if x.parameters else {}
        if isinstance(x, L.RecordArray):
            x = L.RecordArray([virtualize(d, c, src, p) for c in x.contents], x.keys() if not x.istuple else None, len(x), **kw)
        elif isinstance(x, (L.ListOffsetArray32, L.ListOffsetArray64, L.ListOffsetArrayU32)):
            x = type(x)(x.offsets, virtualize(d, x.content, src, p), **kw)
        elif isinstance(x, (L.ListArray32, L.ListArray64, L.ListArrayU32)):
            x = type(x)(x.starts, x.stops, virtualize(d, x.content, src, p), **kw)
        elif isinstance(x, L.RegularArray):
            x = L.RegularArray(virtualize(d, x.content, src, p), x.size, len(x), **kw)
        elif isinstance(x, (L.IndexedArray32, L.IndexedArray64, L.IndexedArrayU32, L.IndexedOptionArray32, L.IndexedOptionArray64)):
            rec = isinstance(x.content, L.RecordArray)
            x = type(x)(x.index, virtualize(d, x.content, src, 0 if rec else p), **kw)
        elif isinstance(x, L.ByteMaskedArray):
            rec = isinstance(x.content, L.RecordArray)
            x = L.ByteMaskedArray(x.mask, virtualize(d, x.content, src, 0 if rec else p), x.valid_when, **kw)
        elif isinstance(x, (L.UnionArray8_32, L.UnionArray8_U32, L.UnionArray8_64)):
            x = type(x)(x.tags, x.index, [virtualize(d, c, src, p) for c in x.contents], **kw)
    return src.wrap(x) if p and d.b(p) else x


def setup(d, t=None, mode=None, known=None):
    if t is None and d.b(60):
        t = gen_chain(d, d.i(0, 2), Num(d.choice(["int64", "float64", "bool"])) if d.b(80) else Str())
    t, v, lay = make(d, CFG, t, maxn=7)
    mode = mode or d.weighted([(5, "new"), (2, "shared"), (2, "forgetting"), (1, "none")])
    src = Source(d, mode, known)
    virt = virtualize(d, lay, src)
    if not src.counts:
        virt = src.wrap(lay)
    d.note("cache", mode)
    d.note("virtual", lambda: show(virt))
    d.label("cache " + mode)
    return t, v, lay, virt, src


def once(src, what):
    if src.mode in ("new", "shared"):
        for i, c in src.counts.items():
            check(c <= 1, "%s: part %s was generated %d times", what, show(src.nodes[i]), c)


def steps(d, x):
    """Slices and fields to apply before anything else."""
    out = []
    n = len(x)
    for _ in range(d.i(0, 3)):
        keys = ak.fields(x)
        if keys and d.b(50):
            out.append(d.choice(keys))
        else:
            out.append(d.choice([gen_slice(d, n), np.array([d.b(50) for _ in range(n)], dtype=bool),
                                 np.array([d.i(0, n - 1) for _ in range(d.i(0, 4))] if n else [], dtype=np.int64)]))
        try:
            x = x[out[-1]]
        except REFUSAL:
            out.pop()
        n = len(x)
    return out, x


def step(x, s):
    try:
        return x[s]
    except ValueError as err:
        if "UnionForm" in str(err):
            raise Reject()
        raise


def operations(d):
    t, v, lay, virt, src = setup(d)
    a, b = ak.Array(lay), ak.Array(virt)
    if d.b(50):
        path, a = steps(d, a)
        for s in path:
            d.note("step", repr(s))
            b = step(b, s)
        check(len(b) == len(a), "length %d, expected %d", len(b), len(a))
    desc, f = gen_op(d, t, len(a))
    d.note("operation", desc)
    d.label(desc.split("(")[0].split("[")[0])
    if (desc.split("(")[0] in REDUCERS or re.match(r"concatenate.*axis=[12]", desc)) and re.search(r"[{(]|union", str(t)):
        raise Reject()      # depends on the encoding
    try:
        want = value(f(a))
    except REFUSAL:
        raise Reject()
    try:
        res = f(b)
        got = value(res)
    except REFUSAL as err:
        d.label("refused: " + desc.split("(")[0].split("[")[0])
        if "UnionForm" in str(err) or desc.startswith("run_lengths"):
            raise Reject()
        raise Violation("virtual: refused with %s; expected %s" % (str(err)[:500], clip(want)))
    if not same(got, want, 1e-9):
        raise Violation("virtual: %s, expected %s" % (clip(got), clip(want)))
    once(src, desc)
    d.nontrivial(any(src.counts.values()) and count_scalars(v) >= 3)


def reading(d):
    t, v, lay, virt, src = setup(d)
    want = plain(v)
    n = len(want)
    b = ak.Array(virt)
    for _ in range(d.i(2, 5)):
        k = d.i(0, 6)
        if k == 0 and n:
            i = d.i(-n, n - 1)
            expect_same(tolist(b[i]), want[i], "[%d]" % i)
        elif k == 1:
            s = gen_slice(d, n)
            expect_same(tolist(b[s]), want[s], "[%s]" % s)
        elif k == 2:
            check(len(b) == n, "length %d, expected %d", len(b), n)
        elif k == 3:
            check(str(ak.type(b)) == str(ak.type(ak.Array(lay))), "type %s, expected %s", ak.type(b), ak.type(ak.Array(lay)))
        elif k == 4:
            expect_same([tolist(x) for x in b], want, "iteration")
        elif k == 5:
            check(ak.is_valid(b), "not valid: %s", ak.validity_error(b))
        else:
            expect_same(tolist(ak.materialized(b)), want, "materialized")
            check("VirtualArray" not in classes_of(ak.materialized(b, highlevel=False)), "materialized: virtual parts remain")
    expect_same(tolist(b), want, "to_list")
    once(src, "reading")
    d.nontrivial(any(src.counts.values()) and count_scalars(v) >= 3)


def lazy(d):
    """With known lengths and forms, nothing is generated before it is looked at."""
    fields = ["x", "y", "z"][:d.i(1, 3)]
    cfg = CFG.but(maxdepth=2)
    ts = [gen_type(d, cfg) for _ in fields]
    n = d.i(0, 6)
    vs = [gen_values(d, t, cfg, n) for t in ts]
    lays = [encode(d, t, v, cfg) for t, v in zip(ts, vs)]
    src = Source(d, d.choice(["new", "shared"]), 0)
    virts = [src.wrap(x) for x in lays]
    d.note("fields", lambda: [(k, plain(v), str(t)) for k, v, t in zip(fields, vs, ts)])
    kind = d.i(0, 2)
    if kind == 0:
        rec = ak.Array(L.RecordArray(virts, fields, n))
    elif kind == 1:
        rec = ak.zip(dict(zip(fields, [ak.Array(x) for x in virts])), depth_limit=1)
    else:
        rec = ak.Array(dict(zip(fields, [ak.Array(x) for x in virts])))
    rows = [dict((k, plain(v)[i]) for k, v in zip(fields, vs)) for i in range(n)]

    def none(what):
        check(not any(src.counts.values()), "%s generated the array", what)
    cur, want = rec, rows
    for _ in range(d.i(1, 4)):
        k = d.i(0, 6)
        if k == 0:
            s = slice(*sorted([d.i(0, len(want)), d.i(0, len(want))]))
            d.note("step", repr(s))
            cur, want = cur[s], want[s]
            none("slicing")
        elif k == 1:
            check(len(cur) == len(want), "length %d, expected %d", len(cur), len(want))
            none("len")
        elif k == 2:
            str(ak.type(cur))
            none("type")
        elif k == 3:
            check(ak.fields(cur) == fields, "fields: %s", ak.fields(cur))
            none("fields")
        elif k == 4:
            cur = cur[list(fields)]
            none("selecting fields")
        elif k == 5:
            cur = ak.with_field(cur, np.arange(len(want)), "new") if "new" not in ak.fields(cur) else cur
            cur = cur[fields]
            none("with_field")
        else:
            cur[d.choice(fields)]
            none("a field")
    k = d.i(0, len(fields) - 1)
    d.note("field looked at", fields[k])
    expect_same(tolist(cur[fields[k]]), [r[fields[k]] for r in want], "field %s" % fields[k])
    for i, c in src.counts.items():
        if i != k:
            check(c == 0, "looking at field %s generated field %s", fields[k], fields[i])
        else:
            check(c <= 1, "field generated %d times", c)
    expect_same(tolist(cur), want, "all of it")
    once(src, "reading")
    d.nontrivial(n >= 2)


def faults(d):
    """Generators that fail, or return something else than announced."""
    kind = d.choice(["error", "length", "form", "length ok", "longer"])
    d.note("fault", kind)
    d.label(kind)
    t, v, lay = make(d, CFG.but(maxdepth=3), maxn=5)
    n = len(v)
    want = plain(v)
    if kind == "error":
        src = Source(d, d.choice(["new", "shared", "none"]))
        virt = virtualize(d, lay, src)
        if not src.counts:
            virt = src.wrap(lay)
        src.fail = d.i(0, len(src.counts) - 1)
        a = ak.Array(virt)
        try:
            got = tolist(a)
        except OSError as err:
            check("injected" in str(err), "error: %s", err)
            d.nontrivial(n > 0)
        except Exception as err:
            raise Violation("the generator's error became %s: %s" % (type(err).__name__, str(err)[:300]))
        else:
            expect_same(got, want, "the part was not needed")
        src.fail = None
        expect_same(tolist(a), want, "after the failure")
        return
    if kind in ("length", "longer"):
        m = d.i(n + 1, n + 4) if kind == "length" else d.i(0, n) - 1
        if m < 0:
            raise Reject()
        gen = L.ArrayGenerator(lambda: lay, (), {}, form=lay.form if d.b(50) else None, length=m)
        a = ak.Array(L.VirtualArray(gen))
        try:
            got = tolist(a)
        except ValueError:
            d.nontrivial(n > 0)
            return
        if kind == "longer":
            expect_same(got, want[:m], "a generator that returns more")
            return
        raise Violation("an array of length %d, announced as %d, was accepted: %s" % (n, m, clip(got)))
    t2 = gen_type(d, CFG.but(maxdepth=2))
    lay2 = encode(d, t2, gen_values(d, t2, CFG, n), CFG)
    a = ak.Array(L.VirtualArray(L.ArrayGenerator(lambda: lay, (), {}, form=lay2.form if kind == "form" else lay.form, length=n)))
    d.note("announced", lambda: show(lay2))
    try:
        got = tolist(a)
    except ValueError:
        check(kind == "form", "refused although it conforms to its form")
        d.nontrivial(n > 0)
        return
    if kind == "form" and str(lay.form.type({})) != str(lay2.form.type({})):
        raise Violation("an array of form %s, announced as %s, was accepted" % (show(lay), show(lay2)))
    expect_same(got, want, "conforming generator")


class Container(dict):
    def __init__(self, x):
        dict.__init__(self, x)
        self.read = set()

    def __getitem__(self, k):
        self.read.add(k)
        return dict.__getitem__(self, k)


def buffers(d):
    """ak.from_buffers(lazy=True) reads the same array, and only what is looked at."""
    t, v, lay = make(d, CFG, maxn=6)
    n = len(v)
    form, length, cont = ak.to_buffers(ak.Array(lay))
    box = Container(cont)
    box2 = dict((k, np.asarray(x)) for k, x in cont.items())
    for k in box2:
        dict.__setitem__(box, k, box2[k])
    mode = d.choice(["new", None, "own"])
    own = Keep()
    a = ak.from_buffers(form, length, box, lazy=True, lazy_cache=own if mode == "own" else mode)
    d.note("lazy_cache", repr(mode))
    check(len(a) == n, "length")
    if isinstance(t, (Rec, Tup)):
        check(not box.read, "opening read %s", box.read)
        ks = ak.fields(a)
        if ks:
            k = d.choice(ks)
            d.note("field", k)
            got = tolist(a[k])
            expect_same(got, [x[k] if isinstance(x, dict) else x[int(k)] for x in plain(v)], "field %s" % k)
    whole = ak.from_buffers(form, length, cont)
    path, w = steps(d, whole)
    x = a
    for s in path:
        d.note("step", repr(s))
        x = step(x, s)
    expect_same(tolist(x), tolist(w), "after the same steps")
    expect_same(tolist(a), plain(v), "all of it")
    d.nontrivial(count_scalars(v) >= 3)


SUBS = [("operations", 6, operations), ("reading", 2, reading), ("lazy", 3, lazy), ("faults", 2, faults), ("buffers", 1, buffers)]
