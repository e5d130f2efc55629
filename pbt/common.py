"""Helpers shared by the checks."""
import numpy as np
import awkward as ak

from pbt.engine import D, Reject, Violation, Excluded  # noqa: F401
from pbt.gen import *  # noqa: F401,F403
from pbt import gen as G


def tolist(x):
    """Python data of an awkward result (array, record, scalar or None)."""
    if isinstance(x, (np.generic,)) and not isinstance(x, (np.datetime64, np.timedelta64)):
        return x.item()
    return ak.to_list(x)


def show(layout):
    """Compact picture of a layout (for notes)."""
    try:
        s = layout.form.tojson(False, False)
    except Exception:
        s = "?"
    return s


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_same(got, want, what, tol=0.0):
    if not same(got, want, tol):  # noqa: F405
        raise Violation("%s: got %s, expected %s" % (what, clip(got), clip(want)))


def clip(x, n=700):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# what the library raises for a refused request
REFUSALS = (ValueError, TypeError, IndexError, KeyError, NotImplementedError, AssertionError, RuntimeError,
            ZeroDivisionError, OverflowError)


class ERR(object):
    """The reference model says: this request has no answer."""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "ERR(%s)" % self.why


class ModelError(Exception):
    pass


def make(d, cfg, t=None, n=None, maxn=8):
    """(type, values, layout), with notes."""
    if t is None:
        t = gen_type(d, cfg)  # noqa: F405
    vals = gen_values(d, t, cfg, gen_length(d, maxn) if n is None else n)  # noqa: F405
    layout = encode(d, t, vals, cfg)  # noqa: F405
    note_array(d, "array", t, vals, layout)
    return t, vals, layout


def note_array(d, name, t, vals, layout):
    d.note(name, lambda: "%r :: %s" % (plain(vals), t))  # noqa: F405
    d.note(name + ".layout", lambda: show(layout))


def classes_of(layout):
    """Class names of the nodes of a layout."""
    out = set()

    def walk(x):
        out.add(type(x).__name__)
        if isinstance(x, ak.layout.VirtualArray):
            return
        for nm in ("content",):
            y = getattr(x, nm, None)
            if isinstance(y, ak.layout.Content):
                walk(y)
        if hasattr(x, "contents"):
            for y in x.contents:
                walk(y)
    if isinstance(layout, ak.partition.PartitionedArray):
        for p in layout.partitions:
            walk(p)
        out.add("PartitionedArray")
    else:
        walk(layout)
    return out


def count_scalars(v):
    if isinstance(v, (list, tuple)):
        return sum(count_scalars(x) for x in v)
    if isinstance(v, dict):
        return sum(count_scalars(x) for x in v.values())
    if isinstance(v, UV):  # noqa: F405
        return count_scalars(v.v)
    return 1


def depth_of(t):
    """Number of list dimensions, including the outermost; None if ambiguous."""
    if isinstance(t, (Lst, Reg)):  # noqa: F405
        x = depth_of(t.c)
        return None if x is None else x + 1
    if isinstance(t, Opt):  # noqa: F405
        return depth_of(t.c)
    if isinstance(t, Rec):  # noqa: F405
        ds = set(depth_of(c) for _, c in t.f)
        return ds.pop() if len(ds) == 1 else None
    if isinstance(t, Tup):  # noqa: F405
        ds = set(depth_of(c) for c in t.f)
        return ds.pop() if len(ds) == 1 else None
    if isinstance(t, Uni):  # noqa: F405
        ds = set(depth_of(c) for c in t.a)
        return ds.pop() if len(ds) == 1 else None
    return 1


def gen_chain(d, levels, leaf, optlist=20, optleaf=30, reg=25, reg0=False):
    """A type of `levels` list dimensions over leaf (the outermost one not counted)."""
    t = leaf
    if d.b(optleaf):
        t = Opt(t)  # noqa: F405
    for _ in range(levels):
        if d.b(reg):
            t = Reg(t, d.weighted([(4, 2), (3, 1), (3, 3)] + ([(1, 0)] if reg0 else [])))  # noqa: F405
        else:
            t = Lst(t)  # noqa: F405
        if d.b(optlist):
            t = Opt(t)  # noqa: F405
    return t


def leaf_of(t):
    while isinstance(t, (Lst, Reg, Opt)):  # noqa: F405
        t = t.c
    return t


def has_reg(t):
    while isinstance(t, (Lst, Reg, Opt)):  # noqa: F405
        if isinstance(t, Reg):  # noqa: F405
            return True
        t = t.c
    return False


def unopt(t):
    while isinstance(t, Opt):  # noqa: F405
        t = t.c
    return t
