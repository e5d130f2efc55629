"""A catalogue of high-level operations on one array, with random arguments."""
import numpy as np
import awkward as ak

from pbt.common import *  # noqa: F401,F403

REFUSAL = (ValueError, TypeError, IndexError, KeyError, NotImplementedError, AttributeError, RuntimeError, ZeroDivisionError)


def gen_slice(d, n):
    f = lambda: None if d.b(35) else d.i(-n - 1, n + 1)  # noqa: E731
    return slice(f(), f(), d.weighted([(6, None), (2, 2), (2, -1), (1, -2)]))


def gen_row(d, n):
    k = d.i(0, 6)
    if k == 0 and n:
        return d.i(-n, n - 1)
    if k == 1:
        ix = [d.i(-n, n - 1) for _ in range(d.i(0, 5))] if n else []
        return np.array(ix, dtype=np.int64)
    if k == 2:
        return np.array([d.b(50) for _ in range(n)], dtype=bool)
    if k == 3 and n:
        ix = [None if d.b(30) else d.i(0, n - 1) for _ in range(d.i(1, 5))]
        return ak.Array(ix) if any(x is not None for x in ix) else slice(None)
    if k == 4:
        return d.choice([np.newaxis, Ellipsis])
    return gen_slice(d, n)


def gen_op(d, t, n, which=None):
    """(description, function of an array). The same function may be applied to several encodings of one array."""
    k = which or d.weighted([(14, "getitem"), (5, "field"), (10, "reduce"), (5, "sort"), (4, "argsort"), (4, "num"), (4, "flatten"),
                             (4, "is_none"), (4, "fill_none"), (5, "pad_none"), (2, "firsts"), (1, "singletons"), (4, "local_index"),
                             (4, "combinations"), (3, "argcombinations"), (3, "cartesian"), (4, "concatenate"), (3, "ufunc"),
                             (3, "binary"), (2, "zip"), (2, "with_field"), (2, "mask"), (2, "where"), (2, "broadcast"),
                             (2, "nan_to_num"), (2, "astype"), (2, "regular"), (2, "packed"), (1, "copy"), (2, "like"),
                             (1, "run_lengths"), (2, "unflatten"), (1, "with_name"), (1, "json"), (1, "str"), (1, "materialized"),
                             (1, "unzip"), (1, "compare"), (1, "size"), (1, "with_parameter")])
    ax = d.weighted([(4, -1), (4, 1), (3, 0), (2, 2), (1, -2), (1, 3)])
    if k == "getitem":
        s = gen_row(d, n)
        if d.b(40):
            tail = []
            for _ in range(d.i(1, 2)):
                tail.append(d.weighted([(4, gen_slice(d, 3)), (2, d.i(-2, 2)), (1, Ellipsis), (1, np.newaxis)]))
            s = (s,) + tuple(tail)
        return "a[%r]" % (s,), lambda a: a[s]
    if k == "field":
        f = d.choice(["x", "y", "z", "0", "1"])
        if d.b(30):
            f = [f, d.choice(["x", "y", "1"])]
        return "a[%r]" % (f,), lambda a: a[f]
    if k == "reduce":
        name = d.choice(["sum", "prod", "any", "all", "min", "max", "argmin", "argmax", "count", "count_nonzero"])
        kw = {"axis": ax if d.b(85) else None, "keepdims": d.b(25)}
        if d.b(30):
            kw["mask_identity"] = d.b(50)
        return "%s(a, **%r)" % (name, kw), lambda a: getattr(ak, name)(a, **kw)
    if k in ("sort", "argsort"):
        kw = {"axis": ax, "ascending": d.b(60)}
        return "%s(a, **%r)" % (k, kw), lambda a: getattr(ak, k)(a, **kw)
    if k == "num":
        return "num(a, %r)" % ax, lambda a: ak.num(a, axis=ax)
    if k == "flatten":
        x = ax if d.b(80) else None
        return "flatten(a, %r)" % x, lambda a: ak.flatten(a, axis=x)
    if k == "is_none":
        return "is_none(a, %r)" % ax, lambda a: ak.is_none(a, axis=ax)
    if k == "fill_none":
        v = d.choice([0, -1.5, True, "s"])
        return "fill_none(a, %r)" % v, lambda a: ak.fill_none(a, v)
    if k == "pad_none":
        m, c = d.i(0, 5), d.b(50)
        return "pad_none(a, %r, axis=%r, clip=%r)" % (m, ax, c), lambda a: ak.pad_none(a, m, axis=ax, clip=c)
    if k == "firsts":
        return "firsts(a, %r)" % ax, lambda a: ak.firsts(a, axis=ax)
    if k == "singletons":
        return "singletons(a)", lambda a: ak.singletons(a)
    if k == "local_index":
        return "local_index(a, %r)" % ax, lambda a: ak.local_index(a, axis=ax)
    if k in ("combinations", "argcombinations"):
        m, r = d.i(1, 3), d.b(40)
        f = getattr(ak, k)
        return "%s(a, %d, axis=%r, replacement=%r)" % (k, m, ax, r), lambda a: f(a, m, axis=ax, replacement=r)
    if k == "cartesian":
        nested = d.b(40)
        f = d.choice([ak.cartesian, ak.argcartesian])
        return "%s([a, a], axis=%r, nested=%r)" % (f.__name__, ax, nested), lambda a: f([a, a], axis=ax, nested=nested)
    if k == "concatenate":
        other = d.choice([None, [1.5, None], ["s"], [[1], []]])
        x = d.weighted([(3, 0), (2, 1), (1, 2)]) if other is None else 0
        return ("concatenate([a, %r], axis=%d)" % (other, x),
                lambda a: ak.concatenate([a, a if other is None else ak.Array(other)], axis=x))
    if k == "ufunc":
        f = d.choice([np.negative, np.absolute, np.sqrt, np.logical_not, np.square, np.isfinite])
        return "%s(a)" % f.__name__, lambda a: f(a)
    if k == "binary":
        f = d.choice([np.add, np.multiply, np.equal, np.less, np.logical_and])
        o = d.choice([2, 0.5, True, None])
        return "%s(a, %r)" % (f.__name__, o), lambda a: f(a, a if o is None else o)
    if k == "zip":
        lim = d.choice([None, 1, 2])
        return "zip(p=a, q=a, depth_limit=%r)" % lim, lambda a: ak.zip({"p": a, "q": a}, depth_limit=lim)
    if k == "with_field":
        f, v = d.choice(["x", "y", "new"]), d.choice([1, 2.5])
        return "with_field(a, %r, %r)" % (v, f), lambda a: ak.with_field(a, v, f)
    if k == "mask":
        m = np.array([d.b(50) for _ in range(n)], dtype=bool)
        vw = d.b(50)
        return "mask(a, %r, %r)" % (m.tolist(), vw), lambda a: ak.mask(a, m, valid_when=vw)
    if k == "where":
        m = np.array([d.b(50) for _ in range(n)], dtype=bool)
        o = d.choice([0, 1.5, None])
        return "where(%r, a, %r)" % (m.tolist(), o), lambda a: ak.where(m, a, a if o is None else o)
    if k == "broadcast":
        m = np.arange(n)
        return "broadcast_arrays(a, arange)", lambda a: ak.broadcast_arrays(a, m)
    if k == "nan_to_num":
        return "nan_to_num(a)", lambda a: ak.nan_to_num(a)
    if k == "astype":
        to = d.choice([np.float32, np.int64, np.int8, np.float64, bool])
        return "values_astype(a, %s)" % to.__name__, lambda a: ak.values_astype(a, to)
    if k == "regular":
        f = d.choice([ak.to_regular, ak.from_regular])
        x = d.choice([1, 2, None]) if f is ak.from_regular else d.choice([1, 2])
        return "%s(a, %r)" % (f.__name__, x), lambda a: f(a, axis=x)
    if k == "packed":
        return "packed(a)", lambda a: ak.packed(a)
    if k == "copy":
        return "copy(a)", lambda a: ak.copy(a)
    if k == "like":
        f = d.choice([ak.zeros_like, ak.ones_like])
        return "%s(a)" % f.__name__, lambda a: f(a)
    if k == "run_lengths":
        return "run_lengths(a)", lambda a: ak.run_lengths(a)
    if k == "unflatten":
        counts, left = [], n
        while left:
            c = d.i(0, left)
            counts.append(c)
            left -= c
            if len(counts) > 8:
                counts.append(left)
                break
        counts = np.array(counts, dtype=np.int64)
        return "unflatten(a, %r)" % counts.tolist(), lambda a: ak.unflatten(a, counts)
    if k == "with_name":
        return "with_name(a, 'N')", lambda a: ak.with_name(a, "N")
    if k == "json":
        return "to_json(a)", lambda a: ak.to_json(a)
    if k == "str":
        return "str(a)", lambda a: str(a)
    if k == "materialized":
        return "materialized(a)", lambda a: ak.materialized(a)
    if k == "unzip":
        return "unzip(a)", lambda a: ak.unzip(a)
    if k == "compare":
        o = d.choice(["x", 1, None])
        return "a == %r" % (o,), lambda a: a == (a if o is None else o)
    if k == "size":
        return "size(a, %r)" % ax, lambda a: ak.size(a, axis=ax)
    if k == "with_parameter":
        return "with_parameter(a)", lambda a: ak.with_parameter(a, "p", {"q": 1})
    raise AssertionError(k)


def value(x):
    """Python data of a result."""
    if isinstance(x, (tuple, list)):
        return type(x)(value(y) for y in x)
    return tolist(x)


def is_error(err):
    """The refusal of an operation (anything else, an internal error, is reported)."""
    return isinstance(err, REFUSAL)
