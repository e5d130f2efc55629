"""C13: building records and taking them apart."""
import numpy as np
import awkward as ak

from pbt.common import *

META = {
    "title": "Records are assembled and taken apart without mixing anything up",
    "statement": "ak.zip pairs the items of arrays position by position (repeating shallower arrays in the nested lists of deeper "
                 "ones, down to depth_limit) and refuses lists that do not match; ak.unzip, array[field], array.field and "
                 "array[[fields]] give each field's values back in order, at any nesting, and commute with selecting rows; other field names are refused; "
                 "ak.with_field and array[field] = value set exactly the given field (at any path) and leave all others, the "
                 "missing records and the original array as they were; ak.with_name, ak.with_parameter and "
                 "ak.without_parameters change no value.",
    "text": "all records, fields and paths",
    "over": ["inputs"],
    "why": "Records may be nested in lists, missing values and other records in any of the encodings, and fields may be longer than "
           "the record array; tests pair a few small arrays.",
    "files": ["src/awkward/operations/structure.py", "src/awkward/highlevel.py", "src/awkward/_util.py",
              "src/libawkward/array/RecordArray.cpp"],
    "mechanism": [("zip, unzip, with_field, with_name", "src/awkward/operations/structure.py"),
                  ("Array.__setitem__, __getattr__", "src/awkward/highlevel.py"),
                  ("RecordArray::getitem_field(s)", "src/libawkward/array/RecordArray.cpp")],
    "technique": "property-based testing against a model on Python lists",
    "note": "Sampled arrays of up to three list levels and three record levels.",
}
RULE = ("Random arrays of a common list structure (in any encoding) are zipped, or records nested in lists, options and records are "
        "projected, sliced, given new or replaced fields, names and parameters; results are compared with a model on Python lists, "
        "and the original with itself. Non-trivial: at least three scalars involved.")
COUNTS = {"quick": 80000, "thorough": 3000000}
CFG = Cfg(virtual=True)
LEAF = Cfg(virtual=True, lists=False, regular=False, options=False, records=False, tuples=False, unions=False, unknown=False)


class Mismatch(Exception):
    pass


def leaf_type(d):
    return gen_leaf(d, LEAF)


def like(d, shell, levels, t):
    """Values of type t at every position of the shell, `levels` deep (None stays None)."""
    if shell is None:
        return None
    if levels == 0:
        return gen_value(d, t, CFG)
    return [like(d, x, levels - 1, t) for x in shell]


def shell(d, kinds, n):
    if not kinds:
        return [0] * n
    out = []
    for _ in range(n):
        k = kinds[0] if kinds[0] is not None else d.geometric(4, 0.62)
        out.append(shell(d, kinds[1:], k))
    return out


def list_type(d, kinds, t):
    for k in reversed(kinds):
        t = Lst(t) if k is None or d.b(30) else Reg(t, k)
    return t


def perturb(d, v, levels):
    """Changes the length of one list, if there is one."""
    if levels == 0 or not v:
        return v + v[:1] if v else v
    i = d.i(0, len(v) - 1)
    return v[:i] + [perturb(d, v[i], levels - 1)] + v[i + 1:]


def flat(t):
    return not isinstance(unopt(t), (Lst, Reg))


def bc(ts, vs, stop, leaf, depth=1):
    """What zip and with_field do: lists in parallel, shallower values repeated, missing lists are missing."""
    if stop(ts, depth):
        return leaf(ts, vs)
    if any(isinstance(t, Opt) for t in ts):
        if any(isinstance(t, Opt) and v is None for t, v in zip(ts, vs)):
            return None
        return bc([t.c if isinstance(t, Opt) else t for t in ts], vs, stop, leaf, depth)
    lens = set(len(v) for t, v in zip(ts, vs) if isinstance(t, (Lst, Reg)))
    if not lens:
        raise AssertionError("nothing to broadcast")
    if len(lens) > 1:
        raise Mismatch()
    n = lens.pop()
    return [bc([t.c if isinstance(t, (Lst, Reg)) else t for t in ts],
               [v[i] if isinstance(t, (Lst, Reg)) else v for t, v in zip(ts, vs)], stop, leaf, depth + 1) for i in range(n)]


def zipping(d):
    nl = d.weighted([(3, 0), (5, 1), (4, 2), (1, 3)])
    kinds = [(d.i(1, 3) if d.b(25) else None) for _ in range(nl)]
    n = d.geometric(5, 0.75)
    sh = shell(d, kinds, n)
    k = d.weighted([(5, 2), (2, 1), (3, 3)])
    ts, vs, lays = [], [], []
    for i in range(k):
        lo = nl if d.b(65) else d.i(0, nl)
        t = leaf_type(d)
        if d.b(20):
            t = Opt(t)
        elif d.b(10):
            t = Rec([("p", t), ("q", Num("int64"))])
        v = [like(d, x, lo, t) for x in sh]
        t = list_type(d, kinds[:lo], t)
        if lo and d.b(15):
            t = Opt(t)
            v = [None if d.b(25) else x for x in v]
        ts.append(t)
        vs.append(v)
    bad = d.b(6)
    if bad:
        i = d.i(0, k - 1)
        if not has_reg(ts[i]) and not isinstance(ts[i], Opt):
            lv = 0
            t = ts[i]
            while isinstance(t, Lst):
                lv += 1
                t = t.c
            vs[i] = perturb(d, vs[i], d.i(0, lv))
    for i in range(k):
        lays.append(encode(d, ts[i], vs[i], CFG))
        note_array(d, "array%d" % i, ts[i], vs[i], lays[-1])
    limit = d.i(1, nl + 1) if d.b(30) else None
    istup = d.b(35)
    name = d.choice(["Point", "P Q"]) if d.b(25) else None
    d.note("call", "zip(%s, depth_limit=%s, with_name=%s)" % ("tuple" if istup else "dict", limit, name))
    d.nontrivial(count_scalars(vs) >= 3)
    keys = ["x", "y", "z"][:k]

    def stop(us, depth):
        if limit is not None and depth - 1 == limit:
            return True
        return all(flat(u) for u in us)

    def leaf(us, xs):
        return tuple(xs) if istup else dict(zip(keys, xs))
    try:
        if len(set(len(v) for v in vs)) > 1:
            raise Mismatch()
        top = [bc(list(ts), [v[i] for v in vs], stop, leaf, 2) for i in range(len(vs[0]))]
        err = None
    except Mismatch:
        err = True
    arrays = [ak.Array(x) if d.b(60) else x for x in lays]
    try:
        got = ak.zip(tuple(arrays) if istup else dict(zip(keys, arrays)), depth_limit=limit, with_name=name)
    except REFUSALS:
        if err is None:
            raise
        d.label("refused")
        return
    check(err is None, "lists of different lengths were zipped: %s", clip(tolist(got)))
    expect_same(tolist(got), plain(top), "zip")
    check(ak.validity_error(got) is None, "zip is not valid: %s", ak.validity_error(got))
    if name is not None:
        check(got.layout.purelist_parameter("__record__") == name, "the name is %r", got.layout.purelist_parameter("__record__"))
    d.label("limit" if limit else "no limit")
    # and apart again
    if limit is None and not any(isinstance(t, Opt) for t in ts):
        parts = ak.unzip(got)
        check(len(parts) == k, "unzip gives %d arrays", len(parts))

        def proj(v, f):
            if isinstance(v, list):
                return [proj(x, f) for x in v]
            return None if v is None else v[f]
        for i in range(k):
            if istup:
                want = proj_any(top, i)
            else:
                want = proj_any(top, keys[i])
            expect_same(tolist(parts[i]), plain(want), "unzip, field %d" % i)
        check(ak.fields(got) == (["0", "1", "2"][:k] if istup else keys), "fields: %s", ak.fields(got))


def proj_any(v, f):
    if isinstance(v, list):
        return [proj_any(x, f) for x in v]
    return None if v is None else v[f]


def gen_records(d, level=0, tuples=True):
    """A record type with fields of any type, some of them records."""
    k = d.weighted([(4, 2), (3, 3), (2, 1)])
    fs = []
    for i in range(k):
        if level < 2 and d.b(25):
            c = gen_records(d, level + 1, tuples)
            if d.b(25):
                c = Lst(c)
        else:
            c = gen_type(d, CFG.but(maxdepth=2, unions=d.b(20)))
        fs.append(c)
    if tuples and d.b(25):
        t = Tup(fs)
    else:
        t = Rec(list(zip(["x", "y", "z"], fs)))
    if level and d.b(15):
        t = Opt(t)
    return t


def gen_nest(d, tuples=True):
    rt = gen_records(d, 0, tuples)
    t = Opt(rt) if d.b(20) else rt
    lv = d.weighted([(4, 0), (4, 1), (2, 2)])
    for _ in range(lv):
        t = Reg(t, d.i(0, 3)) if d.b(25) else Lst(t)
        if d.b(15):
            t = Opt(t)
    return t, rt, lv


def rec_fields(t):
    t = unopt(t)
    return [(k, c) for k, c in t.f] if isinstance(t, Rec) else [(str(i), c) for i, c in enumerate(t.f)]


def get(t, v, key):
    """Field of the records that are reached first."""
    if v is None:
        return None
    u = unopt(t)
    if isinstance(u, (Lst, Reg)):
        return [get(u.c, x, key) for x in v]
    if isinstance(u, Rec):
        return v[key]
    if isinstance(u, Tup):
        return v[int(key)]
    raise AssertionError(t)


def get_t(t, key):
    """Type of that field (options gathered)."""
    if isinstance(t, Opt):
        c = get_t(t.c, key)
        return c if isinstance(c, Opt) else Opt(c)
    if isinstance(t, Lst):
        return Lst(get_t(t.c, key))
    if isinstance(t, Reg):
        return Reg(get_t(t.c, key), t.n)
    return dict(rec_fields(t))[key]


def reach(t):
    """Record type that is reached through lists and options only, or None."""
    u = unopt(t)
    while isinstance(u, (Lst, Reg)):
        u = unopt(u.c)
    return u if isinstance(u, (Rec, Tup)) else None


def rows(d, n):
    """A row selection: (slice, list -> list)."""
    k = d.i(0, 4)
    if k == 0:
        a, b, c = [d.i(-n - 1, n + 1) if d.b(60) else None for _ in range(2)] + [d.choice([None, 1, 2, -1, -2])]
        s = slice(a, b, c)
        return s, lambda v: v[s]
    if k == 1:
        ix = [d.i(-n, n - 1) for _ in range(d.i(0, 4))] if n else []
        return np.array(ix, dtype=np.int64), lambda v: [v[i] for i in ix]
    if k == 2:
        m = [d.b(50) for _ in range(n)]
        return np.array(m, dtype=bool), lambda v: [x for x, y in zip(v, m) if y]
    if k == 3 and n:
        i = d.i(-n, n - 1)
        return i, lambda v: v[i]
    ix = [None if d.b(30) else d.i(0, n - 1) for _ in range(d.i(1, 4))] if n else []
    if not any(x is None for x in ix):
        return slice(None), lambda v: v
    return ak.Array(ix), lambda v: [None if i is None else v[i] for i in ix]


def projecting(d):
    t, rt, lv = gen_nest(d)
    v = gen_values(d, t, CFG, d.geometric(6, 0.75))
    lay = encode(d, t, v, CFG)
    note_array(d, "array", t, v, lay)
    a = ak.Array(lay)
    d.nontrivial(count_scalars(v) >= 3)
    keys = [k for k, _ in rec_fields(rt)]
    check(ak.fields(a) == keys, "fields: %s, expected %s", ak.fields(a), keys)
    # a path of fields
    path, pt, pv = [], t, v
    while reach(pt) is not None and (not path or d.b(60)):
        k = d.choice([k for k, _ in rec_fields(reach(pt))])
        pv = get(Lst(pt), pv, k)
        pt = get_t(pt, k)
        path.append(k)
    d.note("path", path)
    how = d.i(0, 4)
    if how == 0 and len(path) == 1:
        got = a[path[0]]
    elif how == 1:
        got = a[tuple(path)]
    elif how == 2 and path[0].isalpha():
        got = a
        for k in path:
            got = getattr(got, k) if k.isalpha() else got[k]
        d.label("attribute")
    else:
        got = a
        for k in path:
            got = got[k]
    expect_same(tolist(got), plain(pv), "projection")
    check(len(got) == len(v), "length %d, expected %d", len(got), len(v))
    check(ak.validity_error(got) is None, "projection is not valid: %s", ak.validity_error(got))
    # rows first or fields first
    s, f = rows(d, len(v))
    d.note("rows", lambda: repr(s))
    one = tolist(a[s][path[0]] if a[s] is not None else None)
    two = tolist(a[path[0]][s])
    want = f(get(Lst(t), v, path[0]))
    expect_same(one, plain(want), "array[rows][field]")
    expect_same(two, plain(want), "array[field][rows]")
    # several fields, in any order
    some = [k for k in keys if d.b(60)]
    if d.b(50):
        some = some[::-1]
    if some:
        got = a[some]

        def sub(t, v):
            if v is None:
                return None
            u = unopt(t)
            if isinstance(u, (Lst, Reg)):
                return [sub(u.c, x) for x in v]
            if isinstance(u, Rec):
                return {k: v[k] for k in some}
            return tuple(v[int(k)] for k in some)
        try:
            expect_same(tolist(got), plain(sub(Lst(t), v)), "array[%s]" % some)
        except Violation:
            # a selection of a tuple's slots may also be a record named by the slots
            if not isinstance(rt, Tup):
                raise
            def named(x):
                if isinstance(x, tuple):
                    return dict(zip(some, x))
                return [named(y) for y in x] if isinstance(x, list) else x
            expect_same(tolist(got), plain(named(sub(Lst(t), v))), "array[%s]" % some)
        check(ak.validity_error(got) is None, "array[fields] is not valid")
    parts = ak.unzip(a)
    check(len(parts) == len(keys), "unzip gives %d arrays", len(parts))
    for k, x in zip(keys, parts):
        expect_same(tolist(x), plain(get(Lst(t), v, k)), "unzip, field %s" % k)


def setting(d):
    t, rt, lv = gen_nest(d, tuples=d.b(40))
    v = gen_values(d, t, CFG, d.geometric(6, 0.75))
    lay = encode(d, t, v, CFG)
    note_array(d, "array", t, v, lay)
    a = ak.Array(lay)
    d.nontrivial(count_scalars(v) >= 3)
    before = plain(v)
    # where: a path through records (named fields only for the last step)
    path, pt = [], t
    if d.b(30):
        inner = [(k, c) for k, c in rec_fields(rt) if isinstance(c, Rec)]
        if inner and isinstance(rt, Rec):
            k, c = d.choice(inner)
            path.append(k)
    tgt = unopt(dict(rec_fields(rt))[path[0]]) if path else rt
    names = [k for k, _ in rec_fields(tgt)]
    istup = isinstance(tgt, Tup)
    k = d.i(0, 9)
    if k < 4:
        key = d.choice(names)
    elif k < 9 or path:
        key = d.choice(["new", "a b", "x", "y"])
    else:
        key = None
    # what: scalars, or values for the shape of the lists down to some level
    kind = d.i(0, 9)
    wt = None
    if kind == 0:
        what = gen_scalar(d, d.choice(["int64", "float64", "bool"]), CFG)
        d.note("what", what)
        arg = what
        fill = lambda idx: what
    elif kind == 1:
        what = arg = None
        d.note("what", None)
        fill = lambda idx: None
    else:
        lo = d.i(0, lv)
        lt = leaf_type(d) if d.b(60) else gen_type(d, CFG.but(maxdepth=2, unions=False, unknown=False))
        if lo < lv:
            lt = leaf_type(d)
        tt = t
        wv = like_base(d, t, v, lo, lt)
        if wv is None:
            raise Reject()
        wt = lt
        kinds = []
        u = t
        for _ in range(lo):
            u = unopt(u)
            kinds.append(u)
            u = u.c
        for c in reversed(kinds):
            wt = Reg(wt, c.n) if isinstance(c, Reg) and d.b(60) else Lst(wt)
        wl = encode(d, wt, wv, CFG)
        note_array(d, "what", wt, wv, wl)
        arg = ak.Array(wl) if d.b(70) else wl

        def fill(idx):
            x = wv
            for i in idx[: lo + 1]:
                x = x[i]
            return x

    def update(t, v, idx):
        """v with the field set, idx: position in the lists."""
        if v is None:
            return None
        u = unopt(t)
        if isinstance(u, (Lst, Reg)):
            return [update(u.c, x, idx + [i]) for i, x in enumerate(v)]
        return put(u, v, path + [key], fill(idx))

    def put(u, v, keys, x):
        if v is None:
            return None
        if len(keys) > 1:
            c = dict(rec_fields(u))[keys[0]]
            new = put(unopt(c), v[keys[0]], keys[1:], x)
            keys = keys[:1]
            x = new
        k = keys[0]
        if isinstance(u, Tup):
            if k is None:
                return tuple(v) + (x,)
            out = {str(i): y for i, y in enumerate(v)}
        else:
            out = dict(v)
        if k is None:
            k = str(len(out))
        out.pop(k, None)
        out[k] = x
        return out
    if path and isinstance(dict(rec_fields(rt))[path[0]], Opt):
        raise Reject()
    want = update(Lst(t), v, [])
    inplace = key is not None and d.b(35)
    where = path + [key] if path else key
    d.note("where", where)
    d.label("in place" if inplace else "with_field", "path" if path else "direct",
            "replace" if key in names else "new" if key is not None else "slot")
    if inplace:
        b = ak.Array(a.layout)
        view = a[:]
        b[tuple(where) if path else where] = arg
        got = b
        expect_same(tolist(view), before, "a view taken before")
    else:
        got = ak.with_field(a, arg, where)
    expect_same(tolist(got), plain(want), "with_field")
    expect_same(tolist(a), before, "the original array")
    check(ak.validity_error(got) is None, "the result is not valid: %s", ak.validity_error(got))


def like_base(d, t, v, levels, lt, opt=None):
    """Values of type lt for the items of the array (as many levels down as asked); None if a list on the way may be missing."""
    if levels == 0:
        return [gen_value(d, lt, CFG) for _ in v]
    u = t
    if isinstance(u, Opt):
        return None
    out = []
    for x in v:
        y = like_base(d, u.c, x, levels - 1, lt)
        if y is None:
            return None
        out.append(y)
    # the type below may be optional, even with no items
    c = u.c
    for _ in range(levels - 1):
        if isinstance(c, Opt):
            return None
        c = c.c
    return out


def naming(d):
    t, rt, lv = gen_nest(d)
    v = gen_values(d, t, CFG, d.geometric(6, 0.75))
    lay = encode(d, t, v, CFG)
    note_array(d, "array", t, v, lay)
    a = ak.Array(lay)
    d.nontrivial(count_scalars(v) >= 3)
    got = ak.with_name(a, "Name")
    expect_same(tolist(got), plain(v), "with_name")
    check(got.layout.purelist_parameter("__record__") == "Name", "the name is %r", got.layout.purelist_parameter("__record__"))
    val = d.choice([1, "two", None, [1, {"a": 2}]])
    got = ak.with_parameter(got, "key", val)
    expect_same(tolist(got), plain(v), "with_parameter")
    if not isinstance(got.layout, ak.layout.VirtualArray):
        check(ak.parameters(got).get("key") == val, "parameter %r, expected %r", ak.parameters(got), val)
    got = ak.without_parameters(got)
    check(got.layout.purelist_parameter("__record__") is None, "the name is still %r", got.layout.purelist_parameter("__record__"))
    if not has_text(t):
        expect_same(tolist(got), plain(v), "without_parameters")


def has_text(t):
    return "string" in repr(t) or "bytes" in repr(t)


def nofield(d):
    """A field that does not exist is refused, whatever its name looks like."""
    t, rt, lv = gen_nest(d)
    v = gen_values(d, t, CFG, d.geometric(6, 0.75))
    lay = encode(d, t, v, CFG)
    note_array(d, "array", t, v, lay)
    name = d.choice(["w", "1abc", "0_", "x ", "X", "", "xx", "-1", "17", "x.y"])
    d.note("field", lambda: repr(name))
    d.nontrivial(count_scalars(v) >= 3)
    a = ak.Array(lay)
    check(name not in ak.fields(a), "ak.fields gives %s", ak.fields(a))
    got = None
    try:
        got = a[name] if d.b(60) else a[[name]]
    except (ValueError, IndexError):
        return
    raise Violation("array[%r] gave %s" % (name, clip(tolist(got))))


SUBS = [("nofield", 1, nofield), ("zipping", 4, zipping), ("projecting", 3, projecting), ("setting", 4, setting), ("naming", 1, naming)]
