"""Generators: logical types, logical values, and physical layouts.

A *logical type* is one of the small classes below; a *logical value* is plain
Python data (None, bool, int, float, complex, numpy datetime scalars, str,
bytes, list, dict, tuple), with `UV(tag, value)` marking the alternative of a
union.  `encode` turns (type, values) into one of the many physical layouts
that mean the same thing: that is what `plain(values)` must equal when the
array is converted back to Python.
"""
import numpy as np
import awkward as ak

L = ak.layout


class T(object):
    __slots__ = ()

    def __eq__(self, other):
        return repr(self) == repr(other)

    def __ne__(self, other):
        return repr(self) != repr(other)

    def __hash__(self):
        return hash(repr(self))


class Num(T):
    __slots__ = ("dt",)

    def __init__(self, dt):
        self.dt = dt

    def __repr__(self):
        return self.dt


class Str(T):
    __slots__ = ()

    def __repr__(self):
        return "string"


class Byt(T):
    __slots__ = ()

    def __repr__(self):
        return "bytes"


class Unk(T):
    __slots__ = ()

    def __repr__(self):
        return "unknown"


class Lst(T):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "var*" + repr(self.c)


class Reg(T):
    __slots__ = ("c", "n")

    def __init__(self, c, n):
        self.c = c
        self.n = n

    def __repr__(self):
        return "%d*%r" % (self.n, self.c)


class Opt(T):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "?" + repr(self.c)


class Rec(T):
    __slots__ = ("f", "name")

    def __init__(self, f, name=None):
        self.f = list(f)       # [(key, type)]
        self.name = name

    def __repr__(self):
        return (self.name or "") + "{" + ", ".join("%s:%r" % kv for kv in self.f) + "}"


class Tup(T):
    __slots__ = ("f", "name")

    def __init__(self, f, name=None):
        self.f = list(f)
        self.name = name

    def __repr__(self):
        return (self.name or "") + "(" + ", ".join(map(repr, self.f)) + ")"


class Uni(T):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = list(a)

    def __repr__(self):
        return "union[" + ", ".join(map(repr, self.a)) + "]"


class UV(object):
    __slots__ = ("tag", "v")

    def __init__(self, tag, v):
        self.tag = tag
        self.v = v

    def __repr__(self):
        return "<%d:%r>" % (self.tag, self.v)


INTS = ["int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64"]
FLOATS = ["float64", "float32"]
REALS = INTS + FLOATS
COMPLEX = ["complex128", "complex64"]
NPDT = {}
for _d in ["bool"] + REALS + COMPLEX:
    NPDT[_d] = np.dtype(_d)
for _u in ["s", "ms", "us", "ns", "D", "h"]:
    NPDT["datetime64[%s]" % _u] = np.dtype("datetime64[%s]" % _u)
    NPDT["timedelta64[%s]" % _u] = np.dtype("timedelta64[%s]" % _u)
DATES = ["datetime64[s]", "datetime64[ns]", "datetime64[us]", "timedelta64[s]", "timedelta64[ns]"]

IRANGE = {}
for _d in INTS:
    _i = np.iinfo(_d)
    IRANGE[_d] = (int(_i.min), int(_i.max))


def plain(v):
    """Strip union tags."""
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, UV):
        return plain(v.v)
    return v


# --------------------------------------------------------------------------
# types

class Cfg(object):
    """What the type generator may produce."""

    def __init__(self, **kw):
        self.leaves = [(6, "int64"), (5, "float64"), (2, "bool"), (1, "int32"), (1, "uint8"), (1, "int8"),
                       (1, "int16"), (1, "uint16"), (1, "uint32"), (1, "uint64"), (1, "float32")]
        self.complex = False
        self.dates = False
        self.strings = True
        self.bytes = True
        self.lists = True
        self.regular = True
        self.reg0 = True            # regular dimension of size zero
        self.options = True
        self.records = True
        self.tuples = True
        self.unions = True
        self.unknown = True
        self.maxdepth = 4           # nesting of constructors
        self.maxlen = 6             # of one list
        self.nan = False
        self.inf = False
        self.extremes = False
        self.int_abs = 6
        self.names = True
        self.emptyrec = False
        self.unicode = True
        # layouts
        self.indexed = True
        self.virtual = False
        self.oob_empty = True       # ListArray: empty lists pointing anywhere
        self.strided = True
        self.ndarray = True         # regular dimensions inside NumpyArray
        self.slack = True           # unreachable elements
        self.sliced = True          # views into longer arrays
        self.masks = True
        self.bitmask = True
        self.canonical = False      # plain encodings only
        self.params = False
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)

    def but(self, **kw):
        out = Cfg()
        out.__dict__.update(self.__dict__)
        for k, v in kw.items():
            assert hasattr(out, k), k
            setattr(out, k, v)
        return out


KEYS = ["x", "y", "z", "w"]


def gen_leaf(d, cfg):
    opts = [(10, "num")]
    if cfg.strings:
        opts.append((3, "str"))
    if cfg.bytes:
        opts.append((1, "byt"))
    if cfg.complex:
        opts.append((1, "cplx"))
    if cfg.dates:
        opts.append((2, "date"))
    if cfg.unknown:
        opts.append((1, "unk"))
    k = d.weighted(opts)
    if k == "num":
        return Num(d.weighted(cfg.leaves))
    if k == "str":
        return Str()
    if k == "byt":
        return Byt()
    if k == "cplx":
        return Num(d.choice(COMPLEX))
    if k == "date":
        return Num(d.choice(DATES))
    return Unk()


def gen_type(d, cfg, depth=None, opt=True, uni=True):
    if depth is None:
        depth = d.i(0, cfg.maxdepth)
    if depth <= 0:
        if opt and cfg.options and d.b(15):
            return Opt(gen_leaf(d, cfg))
        return gen_leaf(d, cfg)
    opts = []
    if cfg.lists:
        opts.append((8, "list"))
    if cfg.regular:
        opts.append((3, "reg"))
    if cfg.options and opt:
        opts.append((3, "opt"))
    if cfg.records:
        opts.append((3, "rec"))
    if cfg.tuples:
        opts.append((1, "tup"))
    if cfg.unions and uni:
        opts.append((1.5, "uni"))
    if not opts:
        return gen_leaf(d, cfg)
    k = d.weighted(opts)
    if k == "list":
        return Lst(gen_type(d, cfg, depth - 1))
    if k == "reg":
        n = d.weighted([(4, 2), (3, 1), (3, 3)] + ([(1, 0)] if cfg.reg0 else []))
        return Reg(gen_type(d, cfg, depth - 1), n)
    if k == "opt":
        return Opt(gen_type(d, cfg, depth - 1, opt=False, uni=uni))
    if k == "rec":
        n = d.weighted([(3, 1), (5, 2), (2, 3)] + ([(1, 0)] if cfg.emptyrec else []))
        return Rec([(KEYS[i], gen_type(d, cfg, d.i(0, depth - 1))) for i in range(n)])
    if k == "tup":
        n = d.weighted([(3, 1), (5, 2), (2, 3)])
        return Tup([gen_type(d, cfg, d.i(0, depth - 1)) for i in range(n)])
    return gen_union(d, cfg, depth)


def gen_union(d, cfg, depth):
    """Alternatives that cannot be merged into each other."""
    kinds = ["num"]
    if cfg.strings:
        kinds.append("str")
    if cfg.lists:
        kinds.append("list")
    if cfg.records:
        kinds.append("rec")
    kinds = d.shuffle(kinds)
    n = min(len(kinds), d.weighted([(4, 2), (1, 3)]))
    alts = []
    for k in kinds[:n]:
        if k == "num":
            alts.append(Num(d.weighted(cfg.leaves)))
        elif k == "str":
            alts.append(Str())
        elif k == "list":
            alts.append(Lst(gen_type(d, cfg, min(depth - 1, 1), uni=False)))
        else:
            alts.append(Rec([(KEYS[i], gen_type(d, cfg, 0, uni=False)) for i in range(d.i(1, 2))]))
    if len(alts) < 2:
        return alts[0]
    return Uni(alts)


# --------------------------------------------------------------------------
# values

WORDS = ["", "a", "b", "ab", "hello", "one", "two", "three", "\u00e9", "\u00b5\u00df", "\U0001f600x", " ", "aa", "zz\n\"q\"", "\\"]
AWORDS = ["", "a", "b", "ab", "hello", "one", "two", "three", "aa", " "]


def gen_scalar(d, dt, cfg):
    if dt == "bool":
        return d.b(50)
    if dt in IRANGE:
        lo, hi = IRANGE[dt]
        if cfg.extremes and d.b(12):
            return d.choice([hi, lo, hi - 1, lo + 1, hi // 2 + 1])
        v = d.signed(cfg.int_abs)
        if v < lo:
            v = -v
        return v
    if dt in ("float64", "float32"):
        k = d.weighted([(10, 0), (6, 1)] + ([(2, 2)] if cfg.nan else []) + ([(2, 3)] if cfg.inf else [])
                       + ([(1, 4)] if cfg.extremes else []))
        if k == 0:
            return float(d.signed(cfg.int_abs))
        if k == 1:
            return d.signed(4 * cfg.int_abs) / 4.0
        if k == 2:
            return float("nan")
        if k == 3:
            return float("inf") if d.b() else float("-inf")
        if dt == "float64":
            return d.choice([1e300, -1e300, 5e-324, 0.1, -0.0, 2.0**53 + 1, 1 / 3.0])
        return d.choice([float(np.float32(0.1)), -0.0, 1e30 if False else float(np.float32(1e30)), 16777216.0])
    if dt in ("complex128", "complex64"):
        return complex(d.signed(4) / 2.0, d.signed(4) / 2.0)
    if dt.startswith("datetime64"):
        return np.datetime64(d.signed(1000) * (1 if not cfg.extremes else 10**6), dt[11:-1])
    if dt.startswith("timedelta64"):
        return np.timedelta64(d.signed(1000), dt[12:-1])
    raise AssertionError(dt)


def gen_value(d, t, cfg):
    if isinstance(t, Num):
        return gen_scalar(d, t.dt, cfg)
    if isinstance(t, Str):
        return d.choice(WORDS if cfg.unicode else AWORDS)
    if isinstance(t, Byt):
        return d.choice([b"", b"a", b"ab", b"\x00", b"\xff\x80", b"hello", b"a\x00b", b"a\x00a"])
    if isinstance(t, Lst):
        if isinstance(t.c, Unk):
            return []
        n = d.geometric(cfg.maxlen, 0.62)
        return [gen_value(d, t.c, cfg) for _ in range(n)]
    if isinstance(t, Reg):
        if has_unk(t.c):
            if not can_inhabit(t.c) and t.n > 0:
                raise AssertionError("uninhabited")
        return [gen_value(d, t.c, cfg) for _ in range(t.n)]
    if isinstance(t, Opt):
        if not can_inhabit(t.c):
            return None
        if d.b(30):
            return None
        return gen_value(d, t.c, cfg)
    if isinstance(t, Rec):
        return {k: gen_value(d, c, cfg) for k, c in t.f}
    if isinstance(t, Tup):
        return tuple(gen_value(d, c, cfg) for c in t.f)
    if isinstance(t, Uni):
        ok = [i for i, c in enumerate(t.a) if can_inhabit(c)]
        i = d.choice(ok)
        return UV(i, gen_value(d, t.a[i], cfg))
    raise AssertionError(t)


def can_inhabit(t):
    """Whether at least one value of this type exists (unknown has none)."""
    if isinstance(t, Unk):
        return False
    if isinstance(t, Reg):
        return t.n == 0 or can_inhabit(t.c)
    if isinstance(t, Rec):
        return all(can_inhabit(c) for _, c in t.f)
    if isinstance(t, Tup):
        return all(can_inhabit(c) for c in t.f)
    if isinstance(t, Uni):
        return any(can_inhabit(c) for c in t.a)
    return True     # Num, Str, Byt, Lst (empty list), Opt (None)


def has_unk(t):
    if isinstance(t, Unk):
        return True
    if isinstance(t, (Lst, Reg, Opt)):
        return has_unk(t.c)
    if isinstance(t, Rec):
        return any(has_unk(c) for _, c in t.f)
    if isinstance(t, Tup):
        return any(has_unk(c) for c in t.f)
    if isinstance(t, Uni):
        return any(has_unk(c) for c in t.a)
    return False


def gen_values(d, t, cfg, n):
    if not can_inhabit(t):
        return []
    return [_gen_val_inh(d, t, cfg) for _ in range(n)]


def _gen_val_inh(d, t, cfg):
    # lists of uninhabited types hold empty lists only
    if isinstance(t, Lst):
        if not can_inhabit(t.c):
            return []
        n = d.geometric(cfg.maxlen, 0.62)
        return [_gen_val_inh(d, t.c, cfg) for _ in range(n)]
    if isinstance(t, Reg):
        return [_gen_val_inh(d, t.c, cfg) for _ in range(t.n)]
    if isinstance(t, Opt):
        if not can_inhabit(t.c) or d.b(30):
            return None
        return _gen_val_inh(d, t.c, cfg)
    if isinstance(t, Rec):
        return {k: _gen_val_inh(d, c, cfg) for k, c in t.f}
    if isinstance(t, Tup):
        return tuple(_gen_val_inh(d, c, cfg) for c in t.f)
    if isinstance(t, Uni):
        ok = [i for i, c in enumerate(t.a) if can_inhabit(c)]
        i = d.choice(ok)
        return UV(i, _gen_val_inh(d, t.a[i], cfg))
    return gen_value(d, t, cfg)


def gen_length(d, hi=8, p=0.72):
    return d.geometric(hi, p)


# --------------------------------------------------------------------------
# layouts

_IDX = {"64": (L.Index64, np.int64), "32": (L.Index32, np.int32), "U32": (L.IndexU32, np.uint32)}


def index64(a):
    return L.Index64(np.asarray(a, dtype=np.int64))


def mkindex(kind, a):
    cls, dt = _IDX[kind]
    return cls(np.asarray(a, dtype=dt))


def np_leaf(t, vals):
    if t.dt.startswith("datetime64") or t.dt.startswith("timedelta64"):
        return np.array(vals, dtype=NPDT[t.dt]) if len(vals) else np.empty(0, NPDT[t.dt])
    return np.array(vals, dtype=NPDT[t.dt])


def params_of(t, extra=None):
    out = {}
    if isinstance(t, (Rec, Tup)) and t.name is not None:
        out["__record__"] = t.name
    if extra:
        out.update(extra)
    return out or None


def reg_chain(t):
    """(shape, leaf) if t is a chain of regular dimensions over numbers."""
    shape = []
    while isinstance(t, Reg):
        shape.append(t.n)
        t = t.c
    if shape and isinstance(t, Num):
        return shape, t
    return None


def flat(v, n):
    for _ in range(n):
        v = [x for y in v for x in y]
    return v


def encode(d, t, vals, cfg, noindex=False, top=False):
    """A physical layout for these values."""
    if cfg.virtual and not cfg.canonical and d.b(8):
        inner = encode(d, t, vals, cfg.but(virtual=False), noindex)
        return wrap_virtual(d, inner)
    if cfg.sliced and not cfg.canonical and not isinstance(t, Unk) and d.b(7) and (can_inhabit(t) or not vals):
        pre = gen_values(d, t, cfg, d.i(0, 2)) if can_inhabit(t) else []
        post = gen_values(d, t, cfg, d.i(0, 2)) if can_inhabit(t) else []
        inner = encode(d, t, pre + list(vals) + post, cfg.but(sliced=False), noindex)
        return inner[len(pre):len(pre) + len(vals)]
    if (cfg.indexed and not cfg.canonical and not noindex and not isinstance(t, (Opt, Unk)) and d.b(14)):
        return enc_indexed(d, t, vals, cfg)
    if isinstance(t, Num):
        return enc_num(d, t, vals, cfg)
    if isinstance(t, Unk):
        assert len(vals) == 0
        return L.EmptyArray()
    if isinstance(t, Str):
        return enc_list(d, None, [x.encode("utf-8") for x in vals], cfg, kind="string")
    if isinstance(t, Byt):
        return enc_list(d, None, vals, cfg, kind="bytestring")
    if isinstance(t, Lst):
        return enc_list(d, t.c, vals, cfg)
    if isinstance(t, Reg):
        return enc_reg(d, t, vals, cfg)
    if isinstance(t, Opt):
        return enc_opt(d, t, vals, cfg)
    if isinstance(t, (Rec, Tup)):
        return enc_rec(d, t, vals, cfg)
    if isinstance(t, Uni):
        return enc_uni(d, t, vals, cfg)
    raise AssertionError(t)


def junk(d, t, cfg, maxn=2):
    """A few unreachable values."""
    if not cfg.slack or not can_inhabit(t):
        return []
    n = d.geometric(maxn, 0.35)
    return gen_values(d, t, cfg, n)


def enc_num(d, t, vals, cfg):
    a = np_leaf(t, vals)
    if cfg.strided and not cfg.canonical and d.b(20):
        k = d.i(0, 2)
        if k == 0:
            b = np.zeros(len(a) * 2 + 1, dtype=a.dtype)
            b[1:1 + 2 * len(a):2] = a
            a = b[1:1 + 2 * len(a):2]
        elif k == 1:
            a = np.ascontiguousarray(a[::-1])[::-1]
        else:
            b = np.zeros(len(a) + 3, dtype=a.dtype)
            b[2:2 + len(a)] = a
            a = b[2:2 + len(a)]
    return L.NumpyArray(a)


def char_layout(data, kind):
    return L.NumpyArray(np.array(bytearray(data), dtype=np.uint8),
                        parameters={"__array__": "char" if kind == "string" else "byte"})


def enc_list(d, ct, vals, cfg, kind=None):
    par = {"__array__": kind} if kind else None
    n = len(vals)

    def content(parts):
        if kind:
            return char_layout(b"".join(parts), kind)
        return encode(d, ct, [x for p in parts for x in p], cfg)

    def mkjunk():
        if kind:
            return d.choice([b"", b"#", b"##"]) if cfg.slack else b""
        return junk(d, ct, cfg)

    scheme = 0 if cfg.canonical else d.weighted([(5, 0), (3, 1), (4, 2)])
    if scheme == 0:
        offs = [0]
        for v in vals:
            offs.append(offs[-1] + len(v))
        return L.ListOffsetArray64(index64(offs), content(vals), parameters=par)
    if scheme == 1:
        ik = d.choice(["64", "32", "U32"])
        pre = mkjunk()
        post = mkjunk()
        offs = [len(pre)]
        for v in vals:
            offs.append(offs[-1] + len(v))
        cls = {"64": L.ListOffsetArray64, "32": L.ListOffsetArray32, "U32": L.ListOffsetArrayU32}[ik]
        return cls(mkindex(ik, offs), content([pre] + list(vals) + [post]), parameters=par)
    ik = d.choice(["64", "32", "U32"])
    order = d.shuffle(range(n)) if d.b(60) else list(range(n))
    starts = [0] * n
    stops = [0] * n
    parts = []
    pos = 0
    for i in order:
        if d.b(25):
            j = mkjunk()
            parts.append(j)
            pos += len(j)
        starts[i] = pos
        parts.append(vals[i])
        pos += len(vals[i])
        stops[i] = pos
    j = mkjunk()
    parts.append(j)
    pos += len(j)
    if cfg.oob_empty and d.b(20):
        for i in range(n):
            if len(vals[i]) == 0:
                starts[i] = stops[i] = d.i(0, pos + 3)
    cls = {"64": L.ListArray64, "32": L.ListArray32, "U32": L.ListArrayU32}[ik]
    if d.b(10):
        stops = stops + [d.i(0, 3)]
    return cls(mkindex(ik, starts), mkindex(ik, stops), content(parts), parameters=par)


def enc_reg(d, t, vals, cfg):
    n = len(vals)
    chain = reg_chain(t)
    if chain and cfg.ndarray and not cfg.canonical and d.b(35):
        shape, leaf = chain
        a = np_leaf(leaf, flat(vals, len(shape))).reshape([n] + shape)
        if cfg.strided and d.b(30) and a.size:
            k = d.i(0, 3)
            if k == 0:
                a = np.asfortranarray(a)
            elif k == 1:
                b = np.zeros((n * 2,) + tuple(shape), dtype=a.dtype)
                b[::2] = a
                a = b[::2]
            elif k == 2:
                b = np.zeros((n,) + tuple(shape[:-1]) + (shape[-1] * 2,), dtype=a.dtype)
                b[..., ::2] = a
                a = b[..., ::2]
            else:
                a = np.ascontiguousarray(a[::-1])[::-1]
        return L.NumpyArray(a)
    content_vals = [x for v in vals for x in v]
    if not cfg.canonical and t.n > 0 and cfg.slack and can_inhabit(t.c):
        extra = gen_values(d, t.c, cfg, d.geometric(t.n - 1, 0.25))
        content_vals = content_vals + extra
    c = encode(d, t.c, content_vals, cfg)
    return L.RegularArray(c, t.n, zeros_length=n)


def enc_indexed(d, t, vals, cfg):
    ik = d.choice(["64", "32", "U32"])
    idx, content_vals = scatter(d, t, vals, cfg)
    c = encode(d, t, content_vals, cfg, noindex=True)
    cls = {"64": L.IndexedArray64, "32": L.IndexedArray32, "U32": L.IndexedArrayU32}[ik]
    return cls(mkindex(ik, idx), c)


def scatter(d, t, vals, cfg):
    """Places values in a content in some order, with unreachable ones between."""
    n = len(vals)
    order = d.shuffle(range(n)) if (n > 1 and d.b(60)) else list(range(n))
    idx = [0] * n
    content = []
    for i in order:
        if cfg.slack and d.b(15):
            content.extend(junk(d, t, cfg, 1))
        idx[i] = len(content)
        content.append(vals[i])
    content.extend(junk(d, t, cfg, 1))
    return idx, content


def enc_opt(d, t, vals, cfg):
    n = len(vals)
    opts = [(5, "io64")]
    if not cfg.canonical and cfg.masks:
        opts.append((2, "io32"))
        if can_inhabit(t.c) or n == 0:
            opts.append((3, "byte"))
            if cfg.bitmask:
                opts.append((3, "bit"))
        if all(v is not None for v in vals):
            opts.append((3, "unmasked"))
    k = d.weighted(opts) if len(opts) > 1 else "io64"
    if k in ("io64", "io32"):
        good = [v for v in vals if v is not None]
        if cfg.canonical:
            idx, content = list(range(len(good))), good
        else:
            idx, content = scatter(d, t.c, good, cfg)
        out = []
        j = 0
        for v in vals:
            if v is None:
                out.append(-1 if cfg.canonical or not d.b(10) else -2)
            else:
                out.append(idx[j])
                j += 1
        c = encode(d, t.c, content, cfg, noindex=True)
        if k == "io64":
            return L.IndexedOptionArray64(mkindex("64", out), c)
        return L.IndexedOptionArray32(mkindex("32", out), c)
    if k == "unmasked":
        return L.UnmaskedArray(encode(d, t.c, list(vals), cfg, noindex=True))
    content = [v if v is not None else gen_values(d, t.c, cfg, 1)[0] for v in vals]
    valid_when = d.b(50)
    mask = [(v is not None) == valid_when for v in vals]
    if k == "byte":
        content = content + junk(d, t.c, cfg)
        c = encode(d, t.c, content, cfg, noindex=True)
        return L.ByteMaskedArray(L.Index8(np.array(mask, dtype=np.int8)), c, valid_when)
    lsb = d.b(50)
    content = content + junk(d, t.c, cfg)
    c = encode(d, t.c, content, cfg, noindex=True)
    bits = np.packbits(np.array(mask, dtype=np.uint8), bitorder="little" if lsb else "big")
    if d.b(15):
        bits = np.concatenate([bits, np.array([d.i(0, 255)], dtype=np.uint8)])
    if len(bits) and n % 8 and d.b(40):       # padding bits may be anything
        pad = np.zeros(8, np.uint8)
        pad[n % 8:] = 1
        bits = bits.copy()
        bits[n // 8] |= np.packbits(pad, bitorder="little" if lsb else "big")[0]
    return L.BitMaskedArray(L.IndexU8(bits), c, valid_when, n, lsb)


def enc_rec(d, t, vals, cfg):
    n = len(vals)
    contents = []
    if isinstance(t, Rec):
        items = [(c, [v[k] for v in vals]) for k, c in t.f]
        keys = [k for k, _ in t.f]
    else:
        items = [(c, [v[i] for v in vals]) for i, c in enumerate(t.f)]
        keys = None
    for c, vs in items:
        if not cfg.canonical:
            vs = vs + junk(d, c, cfg)
        contents.append(encode(d, c, vs, cfg))
    return L.RecordArray(contents, keys, n, None, params_of(t))


def enc_uni(d, t, vals, cfg):
    n = len(vals)
    per = [[] for _ in t.a]
    where = []
    for v in vals:
        where.append((v.tag, len(per[v.tag])))
        per[v.tag].append(v.v)
    idxs = []
    contents = []
    for c, vs in zip(t.a, per):
        if cfg.canonical:
            idx, content = list(range(len(vs))), vs
        else:
            idx, content = scatter(d, c, vs, cfg)
        idxs.append(idx)
        contents.append(encode(d, c, content, cfg))
    tags = [tg for tg, _ in where]
    index = [idxs[tg][i] for tg, i in where]
    ik = "64" if cfg.canonical else d.choice(["64", "32", "U32"])
    if not cfg.canonical and d.b(10):
        index = index + [d.i(0, 3)]
    cls = {"64": L.UnionArray8_64, "32": L.UnionArray8_32, "U32": L.UnionArray8_U32}[ik]
    return cls(L.Index8(np.array(tags, dtype=np.int8)), mkindex(ik, index), contents)


def wrap_virtual(d, layout, form=None):
    k = d.i(0, 2)
    n = len(layout)
    if k == 0:
        gen = L.ArrayGenerator(lambda: layout, (), {}, form=layout.form, length=n)
    elif k == 1:
        gen = L.ArrayGenerator(lambda: layout, (), {}, form=None, length=n)
    else:
        gen = L.ArrayGenerator(lambda: layout, (), {})
    return L.VirtualArray(gen)


def partition(d, t, vals, cfg):
    """A partitioned layout of the values."""
    n = len(vals)
    k = d.i(1, 3)
    cuts = sorted(d.i(0, n) for _ in range(k))
    bounds = [0] + cuts + [n]
    parts = [encode(d, t, vals[a:b], cfg) for a, b in zip(bounds, bounds[1:])]
    return ak.partition.IrregularlyPartitionedArray(parts)


# --------------------------------------------------------------------------
# expected types

def ak_type(t):
    X = ak.types
    if isinstance(t, Num):
        return X.PrimitiveType(t.dt)
    if isinstance(t, Unk):
        return X.UnknownType()
    if isinstance(t, Str):
        return X.ListType(X.PrimitiveType("uint8", {"__array__": "char"}, "char"), {"__array__": "string"}, "string")
    if isinstance(t, Byt):
        return X.ListType(X.PrimitiveType("uint8", {"__array__": "byte"}, "byte"), {"__array__": "bytestring"}, "bytes")
    if isinstance(t, Lst):
        return X.ListType(ak_type(t.c))
    if isinstance(t, Reg):
        return X.RegularType(ak_type(t.c), t.n)
    if isinstance(t, Opt):
        return X.OptionType(ak_type(t.c))
    if isinstance(t, Rec):
        return X.RecordType([ak_type(c) for _, c in t.f], [k for k, _ in t.f], params_of(t) or {})
    if isinstance(t, Tup):
        return X.RecordType([ak_type(c) for c in t.f], None, params_of(t) or {})
    if isinstance(t, Uni):
        return X.UnionType([ak_type(c) for c in t.a])
    raise AssertionError(t)


# --------------------------------------------------------------------------
# comparison of Python data

def same(a, b, tol=0.0):
    """Structural equality; NaN equals NaN; bool is not a number; int and
    float of the same value are the same; tuples are not lists."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return type(a) == type(b) and a == b
    if isinstance(a, (np.datetime64, np.timedelta64)) or isinstance(b, (np.datetime64, np.timedelta64)):
        if type(a) != type(b):
            return False
        if np.isnat(a) or np.isnat(b):
            return bool(np.isnat(a) and np.isnat(b))
        return bool(a == b)
    try:
        if a != a:
            return b != b
        if a == b:
            return True
        if tol:
            return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        return False
    except Exception:
        return False
