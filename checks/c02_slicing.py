"""C02: slicing by integers, ranges, ellipsis, newaxis, fields and index arrays."""
import numpy as np
import awkward as ak

from pbt.common import *
from pbt.model import *

META = {
    "title": "Slicing selects exactly the elements NumPy's rules say",
    "statement": "Any slice (integers, ranges with any step, ellipsis, newaxis, field names, lists of field names, integer "
                 "and boolean index arrays, and tuples of these) of any nested array selects exactly the elements that "
                 "NumPy's indexing rules, generalised to lists of different lengths, records and missing values, select, "
                 "in that order. A slice with no meaning is refused, never answered with other elements.",
    "text": "all arrays, encodings and slice tuples",
    "over": ["inputs"],
    "why": "The tests apply a few dozen hand-picked slice tuples to fixed arrays; interactions of several items with "
           "records, missing values, strides, negative steps and out-of-range bounds are not enumerated.",
    "files": ["src/libawkward/Content.cpp", "src/libawkward/Slice.cpp", "src/libawkward/array", "src/cpu-kernels",
              "src/python/content.cpp"],
    "mechanism": [("getitem / getitem_next", "src/libawkward/array/*.cpp"), ("toslice", "src/python/content.cpp"),
                  ("regularize_rangeslice and getitem_next kernels", "src/cpu-kernels")],
    "technique": "generated slices vs a recursive Python reference and vs NumPy",
    "note": "Sampled; reference written independently in Python, cross-checked against NumPy on rectangular data.",
}

RULE = ("An array (all encodings, options, records, unions) and a slice tuple of integers, ranges with steps, ellipsis, "
        "newaxis, field names, n-d integer arrays that broadcast together and boolean arrays are generated, mostly in "
        "range, sometimes out of it; compared with a recursive per-list reference (and with NumPy on rectilinear data). "
        "Non-trivial: the slice has at least two items or an array, and the data at least three scalars.")
COUNTS = {"quick": 130000, "thorough": 3000000}
CFG = Cfg(virtual=True, maxdepth=5, unknown=False)


def rng_slice(d, n):
    lo = d.weighted([(2, None), (4, d.signed(n + 2))])
    hi = d.weighted([(2, None), (4, d.signed(n + 2))])
    step = d.weighted([(6, None), (2, 1), (1, 2), (1, -1), (1, -2), (1, 3)])
    return slice(lo, hi, step)


def gen_int_array(d, lo_len, shape, dtype):
    n = int(np.prod(shape))
    a = [d.i(0, max(lo_len - 1, 0)) - (lo_len if (dtype[0] == "i" and d.b(25)) else 0) for _ in range(n)]
    a = np.array(a, dtype=dtype).reshape(shape)
    k = d.i(0, 3)
    if k == 3 and a.ndim == 2:
        a = np.asfortranarray(a)
    elif k == 2:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    elif k == 1:
        a = np.ascontiguousarray(a[::-1])[::-1]
    return a


def gen_slice(d, t, vals, strings=True):
    """(items given to the library, items for the model)"""
    top = Lst(t)
    cur = [(top, vals)]
    lo, hi = ndims(top)
    n = d.weighted([(2, 1), (4, 2), (3, 3), (2, 4)])
    use_arr = d.b(55)
    arr_at = d.i(0, max(0, min(n, hi) - 1)) if use_arr else -1
    arr_len = d.i(1, 2) if use_arr else 0
    shape = None
    lib, mod = [], []
    dims = 0
    used_ellipsis = False
    j = 0
    while j < n:
        if not use_arr or not (arr_at < dims < arr_at + arr_len):   # nothing between adjacent arrays
            if d.b(8):
                lib.append(np.newaxis if d.b() else None)
                mod.append(None)
            if d.b(6) and not used_ellipsis:
                used_ellipsis = True
                lib.append(Ellipsis)
                mod.append(Ellipsis)
                # generate the rest for the innermost dimensions: skip to the right depth
                left = max(0, min(n - j, lo - dims))
                skip = (lo - dims) - left
                for _ in range(skip):
                    cur = reach(cur, slice(None))
                    dims += 1
                if use_arr and dims > arr_at:
                    use_arr = False
            if strings and not used_ellipsis and d.b(12):
                keys = set()
                for tt, _v in cur:
                    keys |= set(fields_of(tt))
                if keys:
                    k = d.choice(sorted(keys))
                    lib.append(k)
                    mod.append(k)
                    nxt = []
                    for tt, v in cur:
                        c = project_type(tt, k)
                        if c is not None and not isinstance(v, UV):
                            nxt.append((c, project(tt, v, k)))
                    cur = nxt
                    lo = hi = max([ndims(tt)[1] for tt, _ in cur] or [0]) + dims
        if dims >= hi and not d.b(2):
            break
        ls = lists_at(cur)
        m = min([len(x) for x in ls]) if ls else 3
        if use_arr and arr_at <= dims < arr_at + arr_len:
            if shape is None:
                shape = d.weighted([(5, (d.i(1, 4),)), (2, (d.i(1, 2), d.i(1, 3))), (1, (2, 1, 2)), (0.5, (0,)), (0.3, (2, 0))])
            if m == 0 and np.prod(shape) != 0 and not d.b(3):
                item = slice(None)
                use_arr = False
                lib.append(item)
                mod.append(item)
            else:
                sh = list(shape)
                if d.b(15):
                    q = d.i(0, len(sh) - 1)
                    if sh[q] > 0:
                        sh[q] = 1
                kind = d.weighted([(6, "int"), (2, "bool"), (2, "at")])
                ln = m if not d.b(2) else m + 1
                if kind == "at":
                    i = d.i(0, max(ln - 1, 0)) - (ln if d.b(30) else 0)
                    lib.append(i)
                    mod.append(i)
                elif kind == "bool" and len(shape) == 1 and len(ls) > 0 and all(len(x) == m for x in ls):
                    mask = np.zeros(m, dtype=bool)
                    # as many True as the others have positions
                    want = min(m, shape[0]) if arr_len == 1 else (shape[0] if shape[0] <= m else 1)
                    for q in d.shuffle(range(m))[:want]:
                        mask[q] = True
                    lib.append(mask if d.b(70) else mask.tolist() if m and d.b() else ak.Array(mask))
                    mod.append(np.nonzero(mask)[0])
                else:
                    a = gen_int_array(d, ln, tuple(sh), d.choice(["int64", "int64", "int32", "uint8", "int8"]))
                    f = d.weighted([(5, 0), (2, 1), (2, 2)])
                    if f == 0 or a.size == 0:
                        lib.append(a)
                    elif f == 1:
                        lib.append(a.tolist())
                    else:
                        lib.append(ak.Array(a))
                    mod.append(a.astype(np.int64))
                item = mod[-1]
        elif d.b(35) and (m > 0 or d.b(3)):
            ln = m if not d.b(3) else m + 1
            item = d.i(0, max(ln - 1, 0)) - (ln if d.b(30) else 0)
            lib.append(item if d.b(80) else np.int64(item))
            mod.append(item)
        else:
            item = rng_slice(d, max([len(x) for x in ls] or [2]))
            lib.append(item)
            mod.append(item)
        if isinstance(item, np.ndarray) and item.ndim == 0:
            item = int(item)
        cur = reach(cur, item)
        dims += 1
        j += 1
    # broadcast the arrays together, as the library must
    arrs = [x for x in mod if isinstance(x, np.ndarray)]
    bad = False
    if arrs:
        if len(set(x.ndim for x in arrs)) != 1:
            raise Reject("arrays of different ndim")
        try:
            bs = np.broadcast(*arrs).shape if len(arrs) > 1 else arrs[0].shape
        except ValueError:
            bad = True
        else:
            mod = [np.broadcast_to(x, bs) if isinstance(x, np.ndarray) else x for x in mod]
        adv = [k for k, x in enumerate(mod) if isinstance(x, (int, np.integer, np.ndarray))]
        if adv and adv[-1] - adv[0] != len(adv) - 1:
            bad = True          # separated advanced indexes must be refused
        elif not bad:           # integers broadcast together with the arrays
            mod = [np.broadcast_to(np.int64(x), bs) if isinstance(x, (int, np.integer)) else x for x in mod]
    if not lib:
        lib, mod = [slice(None)], [slice(None)]
    return lib, mod, bad


def fields_of(t):
    if isinstance(t, Rec):
        return [k for k, _ in t.f]
    if isinstance(t, Tup):
        return [str(i) for i in range(len(t.f))]
    if isinstance(t, (Lst, Reg, Opt)):
        return fields_of(t.c)
    return []


def show_items(lib):
    return ", ".join(repr(x) if not isinstance(x, ak.Array) else "ak.Array(%r)" % (x.tolist(),) for x in lib)


def oob_on_regular(t, mod):
    """An integer beyond some regular dimension, or a zero-size index: errors may be raised or not."""
    dims = reg_dims(t)
    for x in mod:
        if isinstance(x, np.ndarray) and x.size == 0:
            return True
    for x in mod:
        if isinstance(x, (int, np.integer, np.ndarray)):
            for i in np.asarray(x).reshape(-1):
                if any(not -n <= i < n for n in dims):
                    return True
    return False


def has_uni(t):
    if isinstance(t, Uni):
        return True
    if isinstance(t, (Lst, Reg, Opt)):
        return has_uni(t.c)
    if isinstance(t, Rec):
        return any(has_uni(c) for _, c in t.f)
    if isinstance(t, Tup):
        return any(has_uni(c) for c in t.f)
    return False


def has_str(t):
    if isinstance(t, (Lst, Reg, Opt)):
        return has_str(t.c)
    if isinstance(t, (Rec, Tup, Uni)):
        return any(has_str(c) for c in (t.a if isinstance(t, Uni) else t.f if isinstance(t, Tup) else [c for _, c in t.f]))
    return isinstance(t, (Str, Byt))


def run_one(d, t, vals, layout, lib, mod, bad):
    d.note("slice", lambda: show_items(lib))
    d.nontrivial((len(mod) >= 2 or any(isinstance(x, np.ndarray) for x in mod)) and count_scalars(vals) >= 3)
    for x in mod:
        d.label("item:" + ("array%d" % x.ndim if isinstance(x, np.ndarray) else "newaxis" if x is None else type(x).__name__))
    where = tuple(lib) if (len(lib) != 1 or d.b(50)) else lib[0]
    if has_str(t) and consumes(mod) > ndims(Lst(t))[0]:
        raise Reject("slicing the characters of strings is not settled")
    if bad:
        want = ERR("broadcast")
    else:
        try:
            # field names commute with positional items and select from the outermost record
            front = [x for x in mod if isinstance(x, str)]
            tt = Lst(t)
            for k in front:
                tt = project_type(tt, k) if tt is not None else None
            if front and tt is None:
                raise DontCare("field of an inner record")
            want = getitem(Lst(t), vals, front + [x for x in mod if not isinstance(x, str)])
        except ModelError as err:
            want = ERR(str(err))
        except DontCare:
            want = None
            d.label("dont-care")
            raise Reject("dont care")
    try:
        got = tolist(ak.Array(layout)[where])
    except ValueError as err:
        if isinstance(want, ERR):
            d.label("refused")
            return
        if oob_on_regular(t, mod):
            d.label("refused: regular dimension")
            return
        if Ellipsis in [x for x in mod if not isinstance(x, np.ndarray)] and ndims(t)[0] != ndims(t)[1]:
            d.label("refused: ellipsis on different depths")
            return
        if consumes(mod) > ndims(Lst(t))[0]:
            d.label("refused: too many items for the type")
            return
        last = max([0] + [k + 1 for k, x in enumerate(mod) if isinstance(x, str)])
        if last:
            # the items before a field name must be valid for the other fields, too
            try:
                getitem(Lst(t), vals, [x for x in mod[:last] if not isinstance(x, str)])
            except (ModelError, DontCare):
                d.label("refused: another field")
                return
        raise Violation("refused a valid slice: %s" % str(err)[:400])
    if isinstance(want, ERR):
        if any(isinstance(x, np.ndarray) and x.size == 0 for x in mod):
            return
        raise Violation("expected a refusal (%s), got %s" % (want.why, clip(got)))
    expect_same(got, want, "array[%s]" % show_items(lib))


def nested(d):
    t, vals, layout = make(d, CFG.but(unions=False))
    lib, mod, bad = gen_slice(d, t, vals)
    run_one(d, t, vals, layout, lib, mod, bad)


def with_unions(d):
    t, vals, layout = make(d, CFG)
    lib, mod, bad = gen_slice(d, t, vals, strings=not has_uni(t))
    run_one(d, t, vals, layout, lib, mod, bad)


def rectilinear(d):
    """On rectilinear data of every encoding, slicing is NumPy's."""
    shape = [d.i(0, 4)] + [d.weighted([(4, 2), (3, 3), (2, 1), (1, 0)]) for _ in range(d.i(0, 3))]
    a = np.arange(int(np.prod(shape)), dtype=np.int64).reshape(shape) * 10
    t = Num("int64")
    for n in reversed(shape[1:]):
        t = Reg(t, n)
    vals = a.tolist()
    layout = encode(d, t, vals, CFG)
    note_array(d, "array", t, vals, layout)
    lib, mod, bad = gen_slice(d, t, vals, strings=False)
    d.note("slice", lambda: show_items(lib))
    d.nontrivial(len(mod) >= 2 and a.size >= 3)
    if bad:
        raise Reject("not for NumPy")
    adv = [k for k, x in enumerate(mod) if isinstance(x, np.ndarray)]
    try:
        want = a[tuple(mod)]
    except IndexError:
        want = ERR("NumPy IndexError")
    try:
        got = ak.Array(layout)[tuple(lib)]
        gotlist = tolist(got)
    except ValueError as err:
        if isinstance(want, ERR):
            return
        if a.size == 0 or want.size == 0 or any(np.asarray(x).size == 0 for x in mod if isinstance(x, np.ndarray)):
            return
        raise Violation("refused a slice that NumPy accepts: %s" % str(err)[:300])
    if isinstance(want, ERR):
        if count_scalars(gotlist) == 0:
            return      # nothing was indexed out of range
        raise Violation("NumPy refuses, awkward gave %s" % clip(gotlist))
    expect_same(gotlist, want.tolist(), "value")
    if isinstance(want, np.ndarray):
        back = ak.to_numpy(got)
        check(0 in want.shape or back.shape == want.shape, "shape %r, NumPy has %r", back.shape, want.shape)


def twice(d):
    """A slice of a slice: the second applies to the result of the first."""
    t, vals, layout = make(d, CFG.but(unions=False))
    arr = ak.Array(layout)
    v = plain(vals)
    for _ in range(d.i(2, 3)):
        k = d.weighted([(3, "range"), (3, "ints"), (2, "mask")])
        if k == "range":
            s = rng_slice(d, len(v))
            w = v[s]
        elif k == "ints":
            if not v:
                break
            s = np.array([d.i(0, len(v) - 1) - (len(v) if d.b(20) else 0) for _ in range(d.i(0, 6))], dtype=np.int64)
            w = [v[i] for i in s.tolist()]
        else:
            s = np.array([d.b() for _ in v], dtype=bool)
            w = [x for x, m in zip(v, s.tolist()) if m]
        d.note("slice", s)
        arr, v = arr[s], w
        expect_same(tolist(arr), v, "after %r" % (s,))
    d.nontrivial(len(vals) >= 3)


SUBS = [("nested", 5, nested), ("with_unions", 2, with_unions), ("rectilinear", 2, rectilinear), ("twice", 2, twice)]
