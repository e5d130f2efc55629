"""C14: ArrayBuilder histories vs. a model of what was appended."""
import numpy as np
import awkward as ak

from pbt.common import *

META = {
    "title": "ArrayBuilder collects exactly what was appended",
    "statement": "For every sequence of ArrayBuilder calls, a snapshot holds exactly the items completed so far, in order, with "
                 "their values, nesting, field names, missing values and kinds preserved (numbers may only widen: int to float to "
                 "complex; fields not given in a record are None). Taking a snapshot has no effect on the builder, snapshots "
                 "already taken never change, an illegal call raises and leaves the builder as it was, and the buffer growth "
                 "options make no difference.",
    "text": "all histories of builder calls",
    "over": ["histories"],
    "why": "Builders change their own structure while being filled (unknown to typed, to optional, to union); the number of "
           "transition sequences is exponential and tests follow only a few of them.",
    "files": ["src/libawkward/builder", "src/awkward/highlevel.py", "src/python/content.cpp"],
    "mechanism": [("Builder state machine", "src/libawkward/builder/*.cpp"), ("fromiter", "src/python/content.cpp"),
                  ("ak.ArrayBuilder", "src/awkward/highlevel.py")],
    "technique": "model-based testing of call histories",
    "note": "Sampled histories of up to about 120 calls.",
}
RULE = ("A random history of builder calls (values of every kind, nested lists, tuples and named records in progress, Python objects "
        "and existing arrays appended, illegal calls, clearing, snapshots at any moment including inside unfinished items, random "
        "growth options) against a model of the values; every snapshot is compared when taken and again at the end. "
        "Non-trivial: at least two kinds of value or one nested item, and four calls.")
COUNTS = {"quick": 200000, "thorough": 4000000}
KEYS = ["x", "y", "z", "x y", ""]


class Node(object):
    """A place where values meet: remembers the record fields seen there."""

    def __init__(self):
        self.lst = None
        self.tup = {}
        self.rec = {}

    def list_child(self):
        if self.lst is None:
            self.lst = Node()
        return self.lst

    def tuple_children(self, n):
        return self.tup.setdefault(n, [Node() for _ in range(n)])

    def record_fields(self, name):
        return self.rec.setdefault(name, {})


class L(object):
    def __init__(self, items):
        self.items = items


class TV(object):
    def __init__(self, n):
        self.slots = [None] * n


class RV(object):
    def __init__(self, fields, name):
        self.fields, self.name, self.vals = fields, name, {}


def render(v):
    if isinstance(v, L):
        return [render(x) for x in v.items]
    if isinstance(v, TV):
        return tuple(render(x) for x in v.slots)
    if isinstance(v, RV):
        return {k: render(v.vals.get(k)) for k in v.fields}
    return v


def anyorder(v):
    if isinstance(v, list):
        return [anyorder(x) for x in v]
    if isinstance(v, tuple):
        return tuple(anyorder(x) for x in v)
    if isinstance(v, dict):
        return {k: anyorder(v[k]) for k in sorted(v)}
    return v


class Frame(object):
    def __init__(self, kind, value, node):
        self.kind, self.value, self.node = kind, value, node
        self.cur = None
        self.used = set()


SCALARS = [(6, "int"), (5, "float"), (3, "null"), (3, "str"), (2, "bool"), (1, "bytes"), (1, "complex"), (1, "datetime"),
           (1, "timedelta")]


def scalar(d, kinds):
    k = d.choice(kinds)
    if k == "int":
        return k, d.signed(20) if d.b(90) else d.choice([2**53, -2**53, 2**31, -2**31 - 1])
    if k == "float":
        return k, d.choice([0.5, -1.25, 2.0, 1e300, float("inf"), float("-inf"), float("nan"), -0.0, 3.75])
    if k == "null":
        return k, None
    if k == "str":
        return k, d.choice(["", "a", "bc", "héllo", "\x00z", "日本", "abcdefghijklmnopqrstuvwxyz"])
    if k == "bool":
        return k, d.b(50)
    if k == "bytes":
        return k, d.choice([b"", b"a", b"\x00\xff", b"bc"])
    if k == "complex":
        return k, complex(d.signed(4), d.choice([0.0, 0.5, -2.0]))
    if k == "datetime":
        return k, np.datetime64(d.signed(1000), d.choice(["s", "s", "ms", "D"]))
    return k, np.timedelta64(d.signed(1000), d.choice(["s", "s", "ms", "D"]))


def put(b, k, v, d):
    if k in ("datetime", "timedelta"):
        m = getattr(b, k)
    else:
        m = {"int": b.integer, "float": b.real, "str": b.string, "bool": b.boolean, "bytes": b.bytestring,
             "complex": b.complex}.get(k)
    if d.b(25):
        b.append(v)
    elif k == "null":
        b.null()
    else:
        m(v)


def pyobj(d, kinds, depth):
    """A Python object for append()."""
    r = d.i(0, 9)
    if depth == 0 or r < 5:
        return scalar(d, kinds)[1]
    if r < 8:
        return [pyobj(d, kinds, depth - 1) for _ in range(d.geometric(4, 0.6))]
    if r == 8:
        return tuple(pyobj(d, kinds, depth - 1) for _ in range(d.i(0, 2)))
    return {k: pyobj(d, kinds, depth - 1) for k in d.shuffle(KEYS[:3])[: d.i(0, 2)]}


def absorb(node, o):
    """Model of a Python object entering at node."""
    if isinstance(o, list):
        c = node.list_child()
        return L([absorb(c, x) for x in o])
    if isinstance(o, tuple):
        cs = node.tuple_children(len(o))
        v = TV(len(o))
        v.slots = [absorb(c, x) for c, x in zip(cs, o)]
        return v
    if isinstance(o, dict):
        f = node.record_fields(None)
        v = RV(f, None)
        for k, x in o.items():
            if k not in f:
                f[k] = Node()
            v.vals[k] = absorb(f[k], x)
        return v
    return o


class Log(list):
    def __init__(self, d):
        self.d = d

    def append(self, x):
        list.append(self, x)
        self.d.note("call%03d" % len(self), x)


def show_val(x):
    return repr(x)


def histories(d):
    opts = {}
    if d.b(70):
        opts = {"initial": d.i(1, 4), "resize": d.choice([1.5, 1.1, 2.0, 3.0])}
    b = ak.ArrayBuilder(**opts)
    kinds = [d.weighted(SCALARS) for _ in range(d.weighted([(3, 1), (3, 2), (2, 3), (1, 5)]))]
    nest = [x for x in ("list", "tuple", "record") if d.b(65)]
    if d.b(10):
        nest = []
    names = [None] + (["P"] if d.b(30) else []) + (["Q"] if d.b(15) else [])
    keys = KEYS[: d.i(1, 5)]
    tsizes = [d.i(0, 3) for _ in range(d.i(1, 2))]
    refs = d.b(15)
    illegal = d.b(40)
    clears = d.b(10)
    root = Node()
    out = []
    stack = []
    log = Log(d)
    snaps = []
    d.note("options", repr(opts))
    source = None
    if refs:
        t = gen_type(d, Cfg(virtual=False, unions=False), 1)
        sv = gen_values(d, t, Cfg(virtual=False), d.i(1, 4))
        if not sv:
            raise Reject()
        source = (ak.Array(encode(d, t, sv, Cfg(virtual=False))), plain(sv))
        d.note("source", lambda: repr(source[1]))

    def place():
        """(node, setter) where the next value goes, or None if there is none yet."""
        if not stack:
            return root, out.append
        f = stack[-1]
        if f.kind == "list":
            return f.node.list_child(), f.value.items.append
        if f.cur is None:
            return None
        if f.kind == "tuple":
            def st(v, f=f, i=f.cur):
                f.value.slots[i] = v
            return f.node.tuple_children(len(f.value.slots))[f.cur], st
        def st(v, f=f, i=f.cur):
            f.value.vals[i] = v
        return f.value.fields[f.cur], st

    def advance():
        """Makes sure the innermost item can take a value; False if it is full."""
        if not stack or stack[-1].kind == "list":
            return True
        f = stack[-1]
        if f.kind == "tuple":
            left = [i for i in range(len(f.value.slots)) if i not in f.used]
        else:
            left = [k for k in keys if k not in f.used]
        if not left or d.b(15):
            return False
        f.cur = d.choice(left)
        f.used.add(f.cur)
        if f.kind == "tuple":
            log.append("index(%d)" % f.cur)
            b.index(f.cur)
        else:
            log.append("field(%r)" % f.cur)
            if f.cur not in f.value.fields:
                f.value.fields[f.cur] = Node()
            b.field(f.cur)
        return True

    pending = []

    def end():
        f = stack.pop()
        setter = pending.pop()
        log.append("end_" + f.kind)
        getattr(b, "end_" + f.kind)()
        setter(f.value)
        if stack:
            stack[-1].cur = None if stack[-1].kind == "list" else stack[-1].cur

    def illegal_call():
        cand = []
        top = stack[-1] if stack else None
        for k in ("list", "tuple", "record"):
            if top is None or top.kind != k:
                cand.append(("end_" + k, ()))
        if top is None or top.kind != "tuple":
            cand.append(("index", (0,)))
        else:
            cand.append(("index", (len(top.value.slots) + d.i(0, 2),)))
            cand.append(("index", (-1,)))
        if top is None or top.kind != "record":
            cand.append(("field", ("x",)))
        if top is not None and top.kind != "list" and top.cur is None:
            cand += [("null", ()), ("integer", (1,)), ("string", ("s",)), ("begin_list", ()), ("begin_tuple", (1,)),
                     ("begin_record", ()), ("boolean", (True,)), ("real", (1.5,))]
        m, a = d.choice(cand)
        log.append("illegal %s%r" % (m, a))
        try:
            getattr(b, m)(*a)
        except REFUSALS:
            return
        raise Violation("%s%r at this point must raise an error" % (m, a))

    def snapshot(keep=True):
        log.append("snapshot")
        s = b.snapshot()
        want = [render(v) for v in out]
        got = tolist(s)
        if refs:  # records from elsewhere may be merged with the ones built here
            want, got = anyorder(want), anyorder(got)
        check(len(b) == len(want), "len(builder) is %d after %d complete items", len(b), len(want))
        expect_same(got, want, "snapshot")
        strict(got, want, not d_float[0])
        err = ak.validity_error(s)
        check(err is None or "simplify" in err, "the snapshot is not valid: %s", err)
        if keep:
            snaps.append((s, want))

    d_float = [any(k in ("float", "complex") for k in kinds) or refs]
    steps = d.weighted([(5, 12), (3, 30), (1, 90)])
    nested = False
    for _ in range(d.i(1, steps)):
        a = d.weighted([(10, "value"), (5, "begin"), (5, "end"), (2, "object"), (2, "snapshot")]
                       + ([(2, "illegal")] if illegal else []) + ([(3, "ref")] if refs else []) + ([(1, "clear")] if clears else []))
        if a == "snapshot":
            snapshot()
        elif a == "illegal":
            illegal_call()
            d.label("illegal")
        elif a == "clear":
            if stack:
                continue
            log.append("clear")
            b._layout.clear()
            out.clear()
            d.label("clear")
        elif a == "end":
            if stack:
                end()
        else:
            if not advance():
                if stack:
                    end()
                continue
            node, setter = place()
            if a == "value":
                k, v = scalar(d, kinds)
                log.append("%s %s" % (k, show_val(v)))
                put(b, k, v, d)
                setter(v)
                d.label(k)
            elif a == "object":
                if not nest:
                    continue_obj = scalar(d, kinds)[1]
                else:
                    continue_obj = pyobj(d, kinds, 2)
                log.append("append(%s)" % show_val(continue_obj))
                b.append(continue_obj)
                setter(absorb(node, continue_obj))
                d.label("object")
                nested = nested or isinstance(continue_obj, (list, tuple, dict))
            elif a == "ref":
                arr, sv = source
                i = d.i(0, len(sv) - 1)
                w = d.i(0, 3) if stack and stack[-1].kind == "list" or not stack else 0
                if w <= 1:
                    j = i if w == 0 else i - len(sv)
                    log.append("append(source, %d)" % j)
                    b.append(arr, j)
                    setter(sv[i])
                elif w == 2:
                    log.append("extend(source)")
                    b.extend(arr)
                    for x in sv:
                        setter(x)
                else:
                    log.append("append(source)")
                    b.append(arr)
                    node.list_child()
                    setter(L(list(sv)))
                d.label("reference")
            else:
                if not nest or len(stack) >= 4:
                    continue
                k = d.choice(nest)
                nested = True
                d.label(k)
                if k == "list":
                    fr = Frame(k, L([]), node)
                    log.append("begin_list")
                    b.begin_list()
                elif k == "tuple":
                    n = d.choice(tsizes)
                    fr = Frame(k, TV(n), node)
                    node.tuple_children(n)
                    log.append("begin_tuple(%d)" % n)
                    b.begin_tuple(n)
                else:
                    nm = d.choice(names)
                    fr = Frame(k, RV(node.record_fields(nm), nm), node)
                    log.append("begin_record(%r)" % (nm,))
                    b.begin_record(nm)
                stack.append(fr)
                pending.append(setter)
    if d.b(60):
        while stack:
            end()
    snapshot(False)
    for s, want in snaps:
        expect_same(anyorder(tolist(s)) if refs else tolist(s), want, "earlier snapshot, after later calls")
    if d.b(30):
        snapshot(False)
    d.nontrivial(len(log) >= 4 and (nested or len(set(kinds)) >= 2))
    d.label("depth%d" % len(stack), "snapshots" if snaps else "one snapshot")


def strict(got, want, ints_only):
    """Integers stay integers when no other number was given."""
    if not ints_only:
        return
    if isinstance(want, dict):
        for k in want:
            strict(got[k], want[k], True)
    elif isinstance(want, (list, tuple)):
        for x, y in zip(got, want):
            strict(x, y, True)
    elif isinstance(want, int) and not isinstance(want, bool):
        check(isinstance(got, int), "integer %r became %r", want, got)


def iterables(d):
    """from_iter of a whole Python object."""
    kinds = [d.weighted(SCALARS) for _ in range(d.i(1, 4))]
    o = [pyobj(d, kinds, d.i(0, 4)) for _ in range(gen_length(d, 8))]
    d.note("iterable", repr(o))
    root = Node()
    vs = [absorb(root, x) for x in o]
    want = [render(v) for v in vs]
    how = d.i(0, 3)
    src = (x for x in o) if how == 1 else o
    kw = {} if d.b(50) else {"initial": d.i(1, 5), "resize": d.choice([1.2, 1.5, 4.0])}
    got = ak.from_iter(src, **kw)
    expect_same(tolist(got), want, "from_iter")
    check(len(got) == len(want), "length %d, expected %d", len(got), len(want))
    err = ak.validity_error(got)
    check(err is None or "simplify" in err, "the result is not valid: %s", err)
    expect_same(tolist(ak.from_iter(tolist(got))), want, "from_iter(to_list(from_iter))")
    if not any(isinstance(x, (bytes, np.datetime64, np.timedelta64)) for x in o):
        expect_same(tolist(ak.Array(o)), want, "ak.Array")
    d.nontrivial(count_scalars(want) >= 3)
    d.label("from_iter")


SUBS = [("histories", 4, histories), ("iterables", 1, iterables)]
