"""C18: Arrow and Parquet."""
import os
import shutil
import tempfile

import numpy as np
import awkward as ak
import pyarrow as pa

from pbt.common import *

META = {
    "title": "Arrow and Parquet conversions keep every value",
    "statement": "ak.to_arrow gives an Arrow array with the same values as the array (missing values are null), whatever the array's encoding and the "
                 "32/64-bit options; ak.from_arrow gives an array with the same values as any Arrow array (lists, large lists, fixed-size lists, strings, "
                 "binary, structs, dictionaries), slice of an Arrow array, chunked array, record batch or table; so converting there and "
                 "back, and writing and reading Parquet, keeps every value.",
    "text": "all arrays and Arrow arrays",
    "over": ["inputs", "configurations"],
    "why": "The tests convert a few dozen fixed arrays; validity bitmaps and offsets shifted by slicing, masks at several levels and "
           "unusual encodings are hardly sampled.",
    "files": ["src/awkward/operations/convert.py"],
    "mechanism": [("to_arrow, from_arrow, to_arrow_table, to_parquet, from_parquet", "src/awkward/operations/convert.py")],
    "technique": "round trip through Arrow and Parquet, and differential against pyarrow's to_pylist",
    "note": "Sampled. Tuples come back as records with fields named 0, 1, ... . Lazy Parquet reading does not work with the installed pyarrow and "
            "is not claimed; nor are unions, tensors, dates and decimals.",
}
RULE = ("(a) A generated array in a random encoding is converted to Arrow, compared with pyarrow's own reading of it, sliced, chunked and "
        "converted back; (b) an Arrow array made by pyarrow from generated values and a random Arrow type, sliced, is converted; (c) arrays are "
        "written to Parquet and read back. Non-trivial: at least two levels of type and three scalars.")
COUNTS = {"quick": 80000, "thorough": 800000}
CFG = Cfg(virtual=True, emptyrec=False, unknown=False, unions=False, reg0=False, nan=False, strings=True)


def norm(v):
    if isinstance(v, (tuple,)):
        return {str(i): norm(x) for i, x in enumerate(v)}
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return v


def levels(t):
    if isinstance(t, (Opt, Lst, Reg)):
        return 1 + levels(t.c)
    if isinstance(t, (Rec, Tup)):
        return 2
    return 1


def widths(d):
    return {"list_to32": d.b(50), "string_to32": d.b(50), "bytestring_to32": d.b(50)}


def kinds(t):
    return repr(t)


def roundtrip(d):
    t = gen_type(d, CFG)
    v = gen_values(d, t, CFG, gen_length(d))
    want = norm(plain(v))
    if d.b(12):
        lay = partition(d, t, v, CFG.but(virtual=False, canonical=True))
        d.note("array", lambda: "%r :: %s (partitioned)" % (plain(v), t))
    else:
        lay = encode(d, t, v, CFG)
        note_array(d, "array", t, v, lay)
    d.nontrivial(count_scalars(want) >= 3 and levels(t) >= 2)
    kw = widths(d)
    kw["allow_tensor"] = False
    d.note("options", kw)
    arrow = ak.to_arrow(ak.Array(lay), **kw)
    d.label(str(arrow.type).split("<")[0].split("[")[0])
    if isinstance(arrow, pa.Array):
        arrow.validate(full=True)
        expect_same(norm(arrow.to_pylist()), want, "the Arrow array")
    finish(d, arrow, want)


def finish(d, arrow, want):
    k = d.i(0, 4)
    n = len(want)
    if k == 1:
        i = d.i(0, n)
        j = d.i(i, n)
        arrow, want = arrow[i:j] if isinstance(arrow, pa.Array) else arrow.slice(i, j - i), want[i:j]
        d.note("slice", (i, j))
    elif k == 2 and isinstance(arrow, pa.Array) and n:
        cuts = sorted([0, n] + [d.i(0, n) for _ in range(d.i(0, 2))])
        arrow = pa.chunked_array([arrow[a:b] for a, b in zip(cuts[:-1], cuts[1:])])
        d.note("chunks", cuts)
    elif k == 3 and isinstance(arrow, pa.Array):
        batch = pa.RecordBatch.from_arrays([arrow, pa.array(list(range(n)))], ["f", "n"])
        want = [{"f": x, "n": i} for i, x in enumerate(want)]
        if d.b(50):
            i = d.i(0, n)
            batch, want = batch[i:], want[i:]
            d.note("batch slice", i)
        arrow = batch
        if d.b(50):
            arrow = pa.Table.from_batches([batch])
        d.note("as", type(arrow).__name__)
    got = ak.from_arrow(arrow)
    check(len(got) == len(want), "from_arrow: length %d, expected %d", len(got), len(want))
    expect_same(norm(tolist(got)), want, "from_arrow")


ACFG = Cfg(unions=False, unknown=False, tuples=False, nan=False, reg0=False, options=True)
DT = {"int8": pa.int8(), "int16": pa.int16(), "int32": pa.int32(), "int64": pa.int64(), "uint8": pa.uint8(), "uint16": pa.uint16(),
      "uint32": pa.uint32(), "uint64": pa.uint64(), "float32": pa.float32(), "float64": pa.float64(), "bool": pa.bool_()}


def arrow_type(d, t):
    if isinstance(t, Opt):
        return arrow_type(d, t.c)
    if isinstance(t, Num):
        return DT[t.dt]
    if isinstance(t, Str):
        k = d.i(0, 3)
        return pa.large_string() if k == 1 else pa.dictionary(pa.int32(), pa.string()) if k == 2 else pa.string()
    if isinstance(t, Byt):
        return pa.large_binary() if d.b(40) else pa.binary()
    if isinstance(t, Lst):
        c = pa.field("item", arrow_type(d, t.c), nullable=isinstance(t.c, Opt) or d.b(50))
        return pa.large_list(c) if d.b(40) else pa.list_(c)
    if isinstance(t, Reg):
        return pa.list_(pa.field("item", arrow_type(d, t.c), nullable=True), t.n)
    return pa.struct([pa.field(k, arrow_type(d, c), nullable=isinstance(c, Opt) or d.b(50)) for k, c in t.f])


def from_pyarrow(d):
    t = gen_type(d, ACFG)
    v = plain(gen_values(d, t, ACFG, gen_length(d)))
    tpe = arrow_type(d, t)
    d.note("values", lambda: v)
    d.note("arrow type", lambda: str(tpe))
    if "dictionary" in str(tpe) and not pa.types.is_dictionary(tpe):
        raise Reject("pyarrow cannot build nested dictionaries")
    lo, hi = d.i(0, 3), d.i(0, 2)
    junk = plain(gen_values(d, t, ACFG, lo + hi))
    full = pa.array(junk[:lo] + v + junk[lo:], type=tpe)
    arrow = full[lo:lo + len(v)]
    check(arrow.to_pylist() == v, "pyarrow: %s", arrow.to_pylist()) if not has_float32(t) else None
    d.nontrivial(count_scalars(v) >= 3 and levels(t) >= 2)
    d.label(str(tpe).split("<")[0])
    finish(d, arrow, v)


def has_float32(t):
    return "float32" in repr(t)


def parquet(d):
    cfg = CFG.but(unions=False, regular=True)
    t = gen_type(d, cfg)
    v = gen_values(d, t, cfg, gen_length(d))
    want = norm(plain(v))
    lay = encode(d, t, v, cfg)
    note_array(d, "array", t, v, lay)
    d.nontrivial(count_scalars(want) >= 3 and levels(t) >= 2)
    kw = widths(d)
    if d.b(30):
        kw["compression"] = d.choice(["gzip", "snappy", "none"])
    d.note("options", kw)
    top = tempfile.mkdtemp(prefix="verif-c18-")
    try:
        name = os.path.join(top, "a.parquet")
        try:
            ak.to_parquet(ak.Array(lay), name, **kw)
        except pa.ArrowNotImplementedError:
            raise Reject("not supported by pyarrow's writer")
        expect_same(norm(tolist(ak.from_parquet(name))), want, "from_parquet(to_parquet)")
    finally:
        shutil.rmtree(top)


SUBS = [("roundtrip", 6, roundtrip), ("from_pyarrow", 4, from_pyarrow), ("parquet", 2, parquet)]
