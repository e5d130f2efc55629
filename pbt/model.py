"""Reference semantics on plain Python values (slow and obvious)."""
import numpy as np

from pbt.gen import *  # noqa: F401,F403


class ModelError(Exception):
    """The request has no answer: the library must refuse it."""


class DontCare(Exception):
    """The documented behaviour does not settle this request."""


def ndims(t):
    """Number of list dimensions below (and including) t; (min, max)."""
    if isinstance(t, (Lst, Reg)):
        a, b = ndims(t.c)
        return a + 1, b + 1
    if isinstance(t, Opt):
        return ndims(t.c)
    if isinstance(t, Rec):
        ds = [ndims(c) for _, c in t.f] or [(0, 0)]
        return min(a for a, _ in ds), max(b for _, b in ds)
    if isinstance(t, Tup):
        ds = [ndims(c) for c in t.f] or [(0, 0)]
        return min(a for a, _ in ds), max(b for _, b in ds)
    if isinstance(t, Uni):
        ds = [ndims(c) for c in t.a]
        return min(a for a, _ in ds), max(b for _, b in ds)
    return 0, 0


def consumes(items):
    return sum(1 for x in items if not (x is None or x is Ellipsis or isinstance(x, str)
                                        or (isinstance(x, list) and x and isinstance(x[0], str))))


def project_type(t, key):
    """Type after selecting one field; None if there is no such field."""
    if isinstance(t, Rec):
        for k, c in t.f:
            if k == key:
                return c
        return None
    if isinstance(t, Tup):
        if key.isdigit() and int(key) < len(t.f):
            return t.f[int(key)]
        return None
    if isinstance(t, Lst):
        c = project_type(t.c, key)
        return None if c is None else Lst(c)
    if isinstance(t, Reg):
        c = project_type(t.c, key)
        return None if c is None else Reg(c, t.n)
    if isinstance(t, Opt):
        c = project_type(t.c, key)
        if c is None:
            return None
        return c if isinstance(c, Opt) else Opt(c)
    return None


def project(t, v, key):
    if v is None:
        return None
    if isinstance(t, Rec):
        return v[key]
    if isinstance(t, Tup):
        return v[int(key)]
    if isinstance(t, (Lst, Reg)):
        return [project(t.c, x, key) for x in v]
    if isinstance(t, Opt):
        return project(t.c, v, key)
    raise ModelError("no field")


def getitem(t, v, items, pos=None):
    """v: a value of type t; items: remaining slice items; pos: position in
    the broadcast advanced index, once the first one has been met."""
    if isinstance(v, UV):
        while isinstance(t, Opt):
            t = t.c
        return getitem(t.a[v.tag], v.v, items, pos)
    if not items:
        return plain(v)
    if items[0] is None:
        return [getitem(t, v, items[1:], pos)]
    if isinstance(t, Opt):
        return None if v is None else getitem(t.c, v, items, pos)
    head, rest = items[0], items[1:]
    if isinstance(head, str):
        c = project_type(t, head)
        if c is None:
            raise ModelError("no field %r" % head)
        return getitem(c, project(t, v, head), rest, pos)
    if head is None:
        return [getitem(t, v, rest, pos)]
    if isinstance(t, Rec):
        return {k: getitem(c, v[k], items, pos) for k, c in t.f}
    if isinstance(t, Tup):
        return tuple(getitem(c, v[i], items, pos) for i, c in enumerate(t.f))
    if head is Ellipsis:
        lo, hi = ndims(t)
        if lo == hi == consumes(rest):
            return getitem(t, v, rest, pos)
        if not isinstance(t, (Lst, Reg)) or hi < consumes(rest) or lo != hi:
            raise DontCare("ellipsis")
        return [getitem(t.c, x, items, pos) for x in v]
    if isinstance(t, (Str, Byt)):
        raise DontCare("slicing the characters of a string")
    if not isinstance(t, (Lst, Reg)):
        raise ModelError("too many dimensions")
    if isinstance(head, (int, np.integer)):
        return getitem(t.c, at(v, head), rest, pos)
    if isinstance(head, slice):
        return [getitem(t.c, x, rest, pos) for x in v[head]]
    if isinstance(head, np.ndarray):
        if pos is not None:
            return getitem(t.c, at(v, head[pos]), rest, pos)

        def fan(prefix):
            if len(prefix) == head.ndim:
                return getitem(t.c, at(v, head[prefix]), rest, prefix)
            return [fan(prefix + (i,)) for i in range(head.shape[len(prefix)])]
        return fan(())
    raise AssertionError(head)


def at(v, i):
    i = int(i)
    n = len(v)
    j = i + n if i < 0 else i
    if not 0 <= j < n:
        raise ModelError("index %d of a list of length %d" % (i, n))
    return v[j]


def reach(ts, head):
    """The (type, value) pairs met after one slice item; for generating the next."""
    out = []
    for t, v in ts:
        while isinstance(v, UV):
            if isinstance(t, Opt):
                t = t.c
            t, v = t.a[v.tag], v.v
        if isinstance(t, Opt):
            if v is None:
                continue
            out.extend(reach([(t.c, v)], head))
        elif isinstance(t, Rec):
            for k, c in t.f:
                out.extend(reach([(c, v[k])], head))
        elif isinstance(t, Tup):
            for i, c in enumerate(t.f):
                out.extend(reach([(c, v[i])], head))
        elif isinstance(t, (Lst, Reg)):
            n = len(v)
            if isinstance(head, slice):
                sel = v[head]
            else:
                sel = []
                for i in np.asarray(head).reshape(-1).tolist():
                    j = i + n if i < 0 else i
                    if 0 <= j < n:
                        sel.append(v[j])
            out.extend((t.c, x) for x in sel)
    return out


def lists_at(ts):
    """The lists that the next item applies to."""
    out = []
    for t, v in ts:
        while isinstance(v, UV):
            if isinstance(t, Opt):
                t = t.c
            t, v = t.a[v.tag], v.v
        if isinstance(t, Opt):
            if v is not None:
                out.extend(lists_at([(t.c, v)]))
        elif isinstance(t, Rec):
            for k, c in t.f:
                out.extend(lists_at([(c, v[k])]))
        elif isinstance(t, Tup):
            for i, c in enumerate(t.f):
                out.extend(lists_at([(c, v[i])]))
        elif isinstance(t, (Lst, Reg)):
            out.append(v)
    return out


def reg_dims(t):
    """Sizes of regular dimensions anywhere in the type (for don't-care rules)."""
    out = []

    def walk(t):
        if isinstance(t, Reg):
            out.append(t.n)
        if isinstance(t, (Lst, Reg, Opt)):
            walk(t.c)
        elif isinstance(t, Rec):
            for _, c in t.f:
                walk(c)
        elif isinstance(t, Tup):
            for c in t.f:
                walk(c)
        elif isinstance(t, Uni):
            for c in t.a:
                walk(c)
    walk(t)
    return out
