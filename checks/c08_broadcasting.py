"""C08: broadcasting and NumPy ufuncs."""
import numpy as np
import awkward as ak

from pbt.common import *

META = {
    "title": "Elementwise functions broadcast nested arrays by the documented rules",
    "statement": "A NumPy universal function (or operator) applied to any combination of nested arrays, flat arrays and scalars "
                 "gives, at every position of the common nested structure, NumPy's result for the numbers at that position: "
                 "shallower arrays are duplicated into deeper lists, dimensions of size one stretch, missing values stay missing "
                 "and list lengths that do not match are refused. Purely rectangular arrays follow NumPy's own rules, and "
                 "broadcast_arrays exposes the same structure.",
    "text": "all operands, encodings, numeric types and ufuncs",
    "over": ["inputs"],
    "why": "Broadcasting dispatches on the combination of the operands' node types at each level; tests cover a few of the "
           "combinations and small contiguous arrays.",
    "files": ["src/awkward/_util.py", "src/awkward/_connect/_numpy.py", "src/libawkward/array",
              "src/awkward/operations/structure.py"],
    "mechanism": [("broadcast_and_apply", "src/awkward/_util.py"), ("array_ufunc", "src/awkward/_connect/_numpy.py"),
                  ("broadcast_tooffsets64, compact_offsets64", "src/libawkward/array/*.cpp")],
    "technique": "generated operands vs Python reference and vs NumPy",
    "note": "Sampled; one to three operands of up to four dimensions; real numbers, booleans and complex numbers.",
}
RULE = ("One to three operands with a common nested structure, each truncated to a random depth, with random fixed/variable "
        "dimensions, size-one dimensions, missing values and encodings, or Python/NumPy scalars; a random ufunc. Also pairs "
        "with mismatched lists (must be refused) and rectangular operands compared with NumPy. Non-trivial: at least three "
        "results in at least two dimensions, or a refusal.")
COUNTS = {"quick": 200000, "thorough": 3000000}
CFG = Cfg(virtual=True)

UNARY = [np.negative, np.absolute, np.sqrt, np.isfinite, np.sign, np.square, np.exp]
BINARY = [np.add, np.subtract, np.multiply, np.maximum, np.minimum, np.equal, np.less, np.greater_equal, np.logical_and,
          np.arctan2, np.true_divide, np.not_equal]


class Mismatch(Exception):
    pass


def isreg(t):
    if isinstance(t, Opt):
        return isreg(t.c)
    if isinstance(t, Reg):
        return isreg(t.c)
    return not isinstance(t, Lst)


def depth(t):
    n = 0
    while isinstance(t, (Lst, Reg, Opt)):
        n += not isinstance(t, Opt)
        t = t.c
    return n


def bc(ts, vs, leaf, right=True):
    """ts: types (None for a scalar), vs: values at one position."""
    # right-broadcasting
    if right and any(isinstance(t, (Lst, Reg)) for t in ts):
        m = max(depth(t) for t in ts if t is not None)
        if all(isreg(t) for t in ts if t is not None) and any(t is not None and depth(t) < m for t in ts):
            ts, vs = list(ts), list(vs)
            for i, t in enumerate(ts):
                if t is not None:
                    for _ in range(m - depth(t)):
                        ts[i], vs[i] = Reg(ts[i], 1), [vs[i]]
            return bc(ts, vs, leaf, right)
    if any(isinstance(t, Opt) for t in ts):
        if any(isinstance(t, Opt) and v is None for t, v in zip(ts, vs)):
            return None
        return bc([t.c if isinstance(t, Opt) else t for t in ts], vs, leaf, right)
    lists = [(t, v) for t, v in zip(ts, vs) if isinstance(t, (Lst, Reg))]
    if not lists:
        return leaf(ts, vs)
    var = [len(v) for t, v in lists if isinstance(t, Lst)]
    if var:
        n = var[0]
        if any(x != n for x in var):
            raise Mismatch()
    else:
        sizes = [t.n for t, v in lists]
        big = [x for x in sizes if x != 1]
        n = big[0] if big else 1
    out = []
    rows = []
    nts = []
    for t, v in zip(ts, vs):
        if isinstance(t, Lst):
            nts.append(t.c)
            rows.append(v)
        elif isinstance(t, Reg):
            nts.append(t.c)
            if t.n == n:
                rows.append(v)
            elif t.n == 1:
                rows.append(v * n)
            else:
                raise Mismatch()
        else:
            nts.append(t)
            rows.append([v] * n)
    for i in range(n):
        out.append(bc(nts, [r[i] for r in rows], leaf, right))
    return out


def np_leaf_fn(uf):
    def leaf(ts, vs):
        args = [np.array([v], dtype=NPDT[t.dt]) if t is not None else v for t, v in zip(ts, vs)]
        with np.errstate(all="ignore"):
            r = uf(*args)
        return r[0].item()
    return leaf


def shell(d, kinds, n):
    """Nested lists with lengths; kinds: int for a fixed size, None for variable."""
    if not kinds:
        return [0] * n
    out = []
    for _ in range(n):
        k = kinds[0] if kinds[0] is not None else d.geometric(4, 0.62)
        out.append(shell(d, kinds[1:], k))
    return out


def operand(d, kinds, sh, dt, n):
    """An operand that fits the common structure; (type, values)."""
    L_ = d.weighted([(5, len(kinds)), (2, d.i(0, len(kinds)))])
    levels = []         # per level below the top: ("var"|"reg"|"one", optional?)
    for i in range(L_):
        if d.b(10):
            kd = "one"
        elif kinds[i] is not None and d.b(70):
            kd = "reg"
        else:
            kd = "var"
        levels.append((kd, d.b(15)))
    leafopt = d.b(20)
    toplen1 = d.b(6)

    def build(s, i):
        """s: the shell element at this position."""
        if i == L_:
            if leafopt and d.b(30):
                return None
            return gen_scalar(d, dt, CFG)
        kd, opt = levels[i]
        if opt and d.b(25):
            return None
        if kd == "one":
            # the shell below differs per item, so only scalars may follow
            return [build_flat(i + 1)]
        return [build(x, i + 1) for x in s]

    def build_flat(i):
        if i == L_:
            return None if leafopt and d.b(30) else gen_scalar(d, dt, CFG)
        return [build_flat(i + 1)]
    # after a "one" level, all further levels are "one" as well
    seen = False
    for i in range(L_):
        if levels[i][0] == "one":
            seen = True
        if seen:
            levels[i] = ("one", False if i and levels[i - 1][0] == "one" else levels[i][1])
    t = Num(dt)
    if leafopt:
        t = Opt(t)
    for i in range(L_ - 1, -1, -1):
        kd, opt = levels[i]
        if kd == "one":
            t = Reg(t, 1)
        elif kd == "reg":
            t = Reg(t, kinds[i])
        else:
            t = Lst(t)
        if opt:
            t = Opt(t)
    if toplen1 and all(k is not None for k in kinds[:L_]):
        v = [build(shell(d, kinds, 1)[0], 0)]
    else:
        v = [build(x, 0) for x in sh]
    return t, v


def gen_operands(d, k, dts):
    nl = d.weighted([(4, 1), (2, 0), (3, 2), (1, 3)])
    kinds = [(d.weighted([(4, 2), (2, 3), (1, 1), (1, 0)]) if d.b(30) else None) for _ in range(nl)]
    n = d.geometric(5, 0.75)
    sh = shell(d, kinds, n)
    ops = []
    for i in range(k):
        dt = dts(d)
        if k > 1 and d.b(12) and any(o[0] is not None for o in ops + [(0,)] if o[0] != 0) or (k > 1 and i == k - 1 and d.b(10)
                                                                                             and any(o[0] is not None for o in ops)):
            ops.append((None, scalar(d, dt)))
        else:
            ops.append(operand(d, kinds, sh, dt, n))
    return kinds, n, ops


def scalar(d, dt):
    v = gen_scalar(d, dt, CFG)
    return v if d.b(60) else NPDT[dt].type(v)


def real_dt(d):
    return d.weighted([(6, "float64"), (5, "int64"), (1, "int32"), (1, "uint8"), (1, "float32"), (1, "bool"), (1, "int8"),
                       (1, "uint64"), (1, "complex128")])


def wrap_top(t, v):
    return Reg(t, len(v)), v


def to_operands(d, ops):
    out = []
    for i, (t, v) in enumerate(ops):
        if t is None:
            d.note("scalar%d" % i, v)
            out.append(v)
        else:
            lay = encode(d, t, v, CFG)
            note_array(d, "array%d" % i, t, v, lay)
            out.append(ak.Array(lay))
    return out


def ufunc(d):
    k = d.weighted([(1, 1), (6, 2)])
    uf = d.choice(UNARY if k == 1 else BINARY)
    kinds, n, ops = gen_operands(d, k, real_dt)
    if d.b(8):          # perturb: another length somewhere
        i = d.i(0, k - 1)
        if ops[i][0] is not None:
            ops[i] = (ops[i][0], perturb(d, ops[i][0], ops[i][1]))
    args = to_operands(d, ops)
    d.note("ufunc", uf.__name__)
    try:
        uf(*[np.ones(1, dtype=NPDT[leaf_of(t).dt]) if t is not None else v for t, v in ops])
    except TypeError:
        raise Reject("the ufunc does not take these types")
    ts, vs = zip(*[(t, v) if t is None else wrap_top(t, v) for t, v in ops])
    try:
        want = bc(ts, vs, np_leaf_fn(uf))
    except Mismatch:
        want = Mismatch
    d.label(uf.__name__)
    try:
        with np.errstate(all="ignore"):
            got = uf(*args)
    except ValueError as e:
        if want is Mismatch:
            d.nontrivial()
            d.label("refused")
            return
        if sizes_clash(ts):
            raise Reject("fixed sizes that do not match, without data")
        raise
    check(want is not Mismatch, "mismatched lengths were accepted: %s", clip(tolist(got)))
    d.nontrivial(len(kinds) >= 1 and count_scalars(want) >= 3)
    expect_same(tolist(got), want, "result", 1e-12)
    if count_scalars(want) and not all(t is None for t, _ in ops) and isinstance(got, ak.Array):
        res = np.asarray(ak.to_numpy(ak.flatten(got, axis=None)))
        if res.size:
            ref = uf(*[np.ones(1, dtype=NPDT[leaf_of(t).dt]) if t is not None else v for t, v in ops])
            check(res.dtype == ref.dtype, "result type %s, NumPy gives %s", res.dtype, ref.dtype)


def perturb(d, t, v):
    """Drops or adds an item of one variable list (or of the array itself)."""
    def rec(t, v):
        if v is None:
            return v
        if isinstance(t, Opt):
            return rec(t.c, v)
        if isinstance(t, (Lst, Reg)):
            if isinstance(t, Lst) and d.b(40):
                return v[:-1] if v and d.b() else v + gen_values(d, t.c, CFG, 1)
            if v:
                i = d.i(0, len(v) - 1)
                return v[:i] + [rec(t.c, v[i])] + v[i + 1:]
        return v
    return rec(Lst(t), v)


def sizes_clash(ts):
    """Whether two operands have different fixed sizes (not 1) somewhere, or fixed sizes meet variable lists."""
    regs = set()
    every = all(t is None or isreg(t) for t in ts)
    for t in ts:
        first = not every
        while isinstance(t, (Lst, Reg, Opt)):
            if isinstance(t, Reg) and not first:
                regs.add(t.n)
            first = False
            t = t.c
    return len(regs - {1}) > 1


def rectangular(d):
    """All dimensions fixed: NumPy's broadcasting."""
    k = d.weighted([(6, 2), (1, 3)])
    nd = d.i(1, 4)
    shape = [d.weighted([(4, 2), (3, 3), (2, 1), (1, 0)]) for _ in range(nd)]
    uf = d.choice(BINARY)
    arrs, args = [], []
    for i in range(2):
        m = d.weighted([(4, nd), (3, d.i(1, nd))])
        s = [x if not d.b(20) else 1 for x in shape[nd - m:]]
        if d.b(4):
            s[d.i(0, m - 1)] = d.i(0, 4)
        dt = real_dt(d)
        flatv = [gen_scalar(d, dt, CFG) for _ in range(int(np.prod(s)))]
        a = np.array(flatv, dtype=NPDT[dt]).reshape(s)
        t = Num(dt)
        for x in s[:0:-1]:
            t = Reg(t, x)
        lay = encode(d, t, a.tolist(), CFG)
        note_array(d, "array%d" % i, t, a.tolist(), lay)
        arrs.append(a)
        args.append(ak.Array(lay))
    d.note("ufunc", uf.__name__)
    try:
        with np.errstate(all="ignore"):
            want = uf(*arrs)
    except ValueError:
        want = None
    except TypeError:
        raise Reject("the ufunc does not take these types")
    try:
        with np.errstate(all="ignore"):
            got = uf(*args)
    except ValueError as e:
        if want is None:
            d.nontrivial()
            d.label("refused")
            return
        raise
    check(want is not None, "shapes that NumPy refuses were accepted: %s", clip(tolist(got)))
    d.nontrivial(want.size >= 3 and want.ndim >= 2)
    expect_same(tolist(got), want.tolist(), "result", 1e-12)
    if want.size:
        g = ak.to_numpy(got)
        check(g.shape == want.shape and g.dtype == want.dtype, "shape and type %s %s, NumPy gives %s %s", g.shape, g.dtype,
              want.shape, want.dtype)


def broadcast(d):
    k = d.weighted([(6, 2), (2, 3)])
    rec = d.b(20)
    kinds, n, ops = gen_operands(d, k, real_dt)
    ops = [o if o[0] is not None else (Num("float64"), [1.5]) for o in ops]
    args = to_operands(d, ops)
    ts, vs = zip(*[wrap_top(t, v) for t, v in ops])
    right = not d.b(15)
    try:
        want = [bc(ts, vs, lambda _t, v, i=i: v[i], right) for i in range(k)]
    except Mismatch:
        want = None
    kw = {} if right else {"right_broadcast": False}
    d.note("right", right)
    try:
        got = ak.broadcast_arrays(*args, **kw)
    except ValueError:
        if want is None:
            return
        if sizes_clash(ts):
            raise Reject("fixed sizes that do not match, without data")
        raise
    check(want is not None, "mismatched lengths were accepted")
    d.nontrivial(len(kinds) >= 1 and count_scalars(want[0]) >= 3)
    for i in range(k):
        expect_same(tolist(got[i]), want[i], "array %d" % i)


def records(d):
    """Records are broadcast field by field."""
    kinds, n, ops = gen_operands(d, 2, real_dt)
    nl = len(kinds)
    lv = d.i(0, nl)
    ct1, ct2 = d.choice(["int64", "float64"]), d.choice(["int64", "bool"])
    rt = Rec([("x", Num(ct1)), ("y", Num(ct2))])
    t = rt
    for _ in range(lv):
        t = Lst(t)
    if lv and d.b(20):
        t = Opt(t)
    vals = gen_values(d, t, CFG, d.geometric(5, 0.75))
    lay = encode(d, t, vals, CFG)
    note_array(d, "records", t, vals, lay)
    dt = real_dt(d)
    other = lists_like(d, vals, lv, dt)
    ot = Num(dt)
    lo = d.i(0, lv)
    for _ in range(lo):
        ot = Lst(ot)
    other = lists_like(d, vals, lo, dt)
    if has_none(other):
        raise Reject("no counterpart for a missing list")
    olay = encode(d, ot, other, CFG)
    note_array(d, "other", ot, other, olay)
    d.nontrivial(count_scalars(vals) >= 4)
    got = ak.broadcast_arrays(ak.Array(lay), ak.Array(olay))

    def pair(t, v, o):
        if v is None:
            return None, None
        if isinstance(t, Opt):
            return pair(t.c, v, o)
        if isinstance(t, Lst):
            ps = [pair(t.c, x, o[i] if isinstance(o, list) else o) for i, x in enumerate(v)]
            return [p[0] for p in ps], [p[1] for p in ps]
        return v, {k: o for k in v}
    want = pair(Lst(t), vals, other)
    expect_same(tolist(got[0]), want[0], "records")
    expect_same(tolist(got[1]), want[1], "other")


def lists_like(d, v, lv, dt):
    if lv == 0:
        return [gen_scalar(d, dt, CFG) for _ in v]
    return [None if x is None else lists_like(d, x, lv - 1, dt) for x in v]


def has_none(v):
    return v is None or (isinstance(v, list) and any(has_none(x) for x in v))


SUBS = [("ufunc", 6, ufunc), ("rectangular", 2, rectangular), ("broadcast", 2, broadcast), ("records", 1, records)]
