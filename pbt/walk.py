"""Walking over the nodes and buffers of a layout."""
import numpy as np
import awkward as ak

INDEXES = ("index", "starts", "stops", "offsets", "tags", "mask")


def nodes(layout, path="array"):
    """(path, node) of all nodes, including those behind virtual arrays that are already materialized."""
    if isinstance(layout, ak.partition.PartitionedArray):
        for i, x in enumerate(layout.partitions):
            for y in nodes(x, "%s.partition[%d]" % (path, i)):
                yield y
        return
    if isinstance(layout, ak.layout.Record):
        layout = layout.array
    yield path, layout
    if isinstance(layout, ak.layout.VirtualArray):
        x = layout.peek_array
        if x is not None:
            for y in nodes(x, path + ".array"):
                yield y
        return
    x = getattr(layout, "content", None)
    if isinstance(x, ak.layout.Content):
        for y in nodes(x, path + ".content"):
            yield y
    elif hasattr(layout, "contents"):
        for i, x in enumerate(layout.contents):
            for y in nodes(x, "%s.contents[%d]" % (path, i)):
                yield y


def buffers(layout):
    """(name, NumPy view) of all buffers."""
    for path, x in nodes(layout):
        if isinstance(x, ak.layout.NumpyArray):
            yield path, np.asarray(x)
        elif isinstance(x, ak.layout.VirtualArray):
            continue
        else:
            for nm in INDEXES:
                if isinstance(x, (ak.layout.ListOffsetArray32, ak.layout.ListOffsetArrayU32, ak.layout.ListOffsetArray64)) and nm in ("starts", "stops"):
                    continue
                if isinstance(x, ak.layout.RegularArray) and nm in ("starts", "stops"):
                    continue
                try:
                    b = getattr(x, nm, None)
                except Exception:
                    continue
                if b is not None and not callable(b):
                    yield path + "." + nm, np.asarray(b)


def snapshot(layout):
    """Everything observable about a layout's own data, as a comparable value."""
    out = []
    for path, x in nodes(layout):
        if isinstance(x, ak.layout.VirtualArray):
            continue
        out.append((path, type(x).__name__, len(x), repr(sorted((x.parameters or {}).items(), key=repr)),
                    x.identities is None, tuple(x.keys()) if isinstance(x, ak.layout.RecordArray) else None))
    return out, [(p, str(b.dtype), b.shape, b.tobytes()) for p, b in buffers(layout)]


def difference(a, b):
    for x, y in zip(a[0], b[0]):
        if x != y:
            return "%s became %s" % (x, y)
    if len(a[0]) != len(b[0]):
        return "%d nodes became %d" % (len(a[0]), len(b[0]))
    for x, y in zip(a[1], b[1]):
        if x != y:
            return "%s: %s became %s" % (x[0], np.frombuffer(x[3], x[1]).tolist(), np.frombuffer(y[3], y[1]).tolist())
    if len(a[1]) != len(b[1]):
        return "%d buffers became %d" % (len(a[1]), len(b[1]))
    return None
