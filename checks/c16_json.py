"""C16: JSON in and out."""
import json
import os
import re
import struct
import tempfile
import numpy as np
import awkward as ak

from pbt.common import *
from checks.c14_arraybuilder import Node, absorb, render

META = {
    "title": "JSON conversion preserves the values",
    "statement": "ak.to_json of any array (however encoded, of whatever numeric types, to a string or to a file, compact or pretty) "
                 "is a JSON text whose values are exactly the array's: nesting, field names, strings, missing values and every "
                 "number (integers digit for digit, floats to the last bit unless maxdecimals is given), with the requested "
                 "replacements for nan, infinities and complex numbers. ak.from_json of any JSON text gives the values "
                 "a JSON parser gives (floats to within 4 units in the last place), independent of white space, buffer sizes and growth, and raises an error for malformed "
                 "text. Reading back what was written gives the same values.",
    "text": "all arrays, JSON documents and options",
    "over": ["inputs"],
    "why": "The writer walks every layout class separately and the reader drives a state machine; tests use short literal documents.",
    "files": ["src/libawkward/io/json.cpp", "src/libawkward/array", "src/awkward/operations/convert.py", "src/python/io.cpp"],
    "mechanism": [("ToJson*, Handler, do_parse", "src/libawkward/io/json.cpp"), ("tojson_part", "src/libawkward/array/*.cpp"),
                  ("from_json, to_json", "src/awkward/operations/convert.py")],
    "technique": "differential testing against Python's json, plus mutated documents",
    "note": "Sampled; nesting to about 6 levels; field names without NUL characters.",
}
RULE = ("(1) a generated array in a random encoding is written with random options and parsed by Python's json; (2) a generated JSON "
        "document (random white space, escapes, number notations; several documents in sequence; string or file with small "
        "buffers) is read and compared with Python's json; (3) a document with a random edit must raise an error when Python's json "
        "rejects it. Non-trivial: at least three scalars.")
COUNTS = {"quick": 160000, "thorough": 2500000}
LEAVES = [(5, "int64"), (5, "float64"), (2, "bool"), (1, "int8"), (1, "uint8"), (1, "uint64"), (1, "float32"), (1, "uint32"),
          (1, "int16")]
CFG = Cfg(leaves=LEAVES, virtual=True, nan=True, inf=True, extremes=True, complex=True, bytes=False)


def jsonable(v, nan, inf, minf, cplx):
    if isinstance(v, UV):
        return jsonable(v.v, nan, inf, minf, cplx)
    if isinstance(v, list):
        return [jsonable(x, nan, inf, minf, cplx) for x in v]
    if isinstance(v, tuple):
        return {str(i): jsonable(x, nan, inf, minf, cplx) for i, x in enumerate(v)}
    if isinstance(v, dict):
        return {k: jsonable(x, nan, inf, minf, cplx) for k, x in v.items()}
    if isinstance(v, (complex, np.complexfloating)):
        return {cplx[0]: float(v.real), cplx[1]: float(v.imag)}
    if isinstance(v, float):
        if v != v:
            return v if nan is None else nan
        if v == float("inf"):
            return v if inf is None else inf
        if v == -float("inf"):
            return v if minf is None else minf
    if isinstance(v, bytes):
        return v.decode()
    return v


def has(t, pred):
    if pred(t):
        return True
    if isinstance(t, (Lst, Reg, Opt)):
        return has(t.c, pred)
    if isinstance(t, Rec):
        return any(has(c, pred) for _, c in t.f)
    if isinstance(t, Tup):
        return any(has(c, pred) for c in t.f)
    if isinstance(t, Uni):
        return any(has(c, pred) for c in t.a)
    return False


def bits(x):
    return struct.pack("<d", x)


def exact(got, want):
    """As expect_same, but floats to the last bit and int is not float."""
    if isinstance(want, list):
        for a, b in zip(got, want):
            exact(a, b)
    elif isinstance(want, dict):
        for k in want:
            exact(got[k], want[k])
    elif isinstance(want, float) and want == want:
        if not isinstance(got, float) and float(got) == want:
            raise Violation("number %r was written as %r" % (want, got))
        check(bits(got) == bits(want), "number %r became %r", want, got)
    elif isinstance(want, int) and not isinstance(want, bool) and abs(want) < 2**63:
        check(type(got) is int and got == want, "integer %r became %r", want, got)


def pick_strings(d):
    nan = d.choice([None, "nan", "NaN", ""])
    inf = d.choice([None, "inf", "+∞"])
    minf = d.choice([None, "-inf"])
    return nan, inf, minf


def scratch():
    fd, path = tempfile.mkstemp(prefix="c16-", dir=os.environ.get("VERIF_SCRATCH") or None)
    os.close(fd)
    return path


def write(d):
    part = d.b(8)
    t = gen_type(d, CFG)
    if has(t, lambda x: isinstance(x, Byt)):
        raise Reject()
    v = gen_values(d, t, CFG, gen_length(d))
    lay = partition(d, t, v, CFG) if part else encode(d, t, v, CFG)
    d.note("array", lambda: "%r :: %s" % (plain(v), t))
    d.note("layout", lambda: show(lay) if not part else "partitioned")
    nan, inf, minf = pick_strings(d)
    cplx = d.choice([("r", "i"), ("real", "imag"), ("é", "x")])
    kw = {"nan_string": nan, "infinity_string": inf, "minus_infinity_string": minf, "pretty": d.b(30)}
    if has(t, lambda x: isinstance(x, Num) and x.dt.startswith("complex")):
        kw["complex_record_fields"] = cplx
    md = None
    if d.b(15):
        md = kw["maxdecimals"] = d.i(1, 6)
    d.note("options", lambda: repr(kw))
    item = None
    obj = ak.Array(lay)
    if d.b(15) and len(v) and isinstance(t, (Rec, Tup)) and not part:
        item = d.i(0, len(v) - 1)
        obj = obj[item]
        d.note("item", item)
    want = jsonable(v if item is None else v[item], nan, inf, minf, cplx)
    where = d.i(0, 3)
    if where == 0 and not part:
        path = scratch()
        try:
            ak.to_json(obj, path, buffersize=d.choice([65536, 16, 5, 1, 64]), **kw)
            with open(path, "rb") as f:
                text = f.read().decode("utf-8")
        finally:
            os.remove(path)
        d.label("file")
    else:
        text = ak.to_json(obj, **kw)
    d.note("text", text[:400])
    try:
        got = json.loads(text)
    except ValueError as e:
        raise Violation("to_json made something that is not JSON (%s)" % e)
    if not part and not kw["pretty"] and not has(t, lambda x: isinstance(x, Str)):
        check(" " not in text and "\n" not in text, "white space in compact JSON")
    if md is None:
        expect_same(got, want, "to_json")
        exact(got, want)
    else:
        expect_same(got, shorten(want, md), "to_json with maxdecimals", 1.0001 * 10.0**-md)
    d.label("write", "pretty" if kw["pretty"] else "compact", "partitioned" if part else "whole")
    d.nontrivial(count_scalars(want) >= 3)
    # and back
    if md is None and not has(t, lambda x: isinstance(x, Num) and x.dt.startswith("complex")) and not part:
        back = ak.from_json(text, nan_string=nan, infinity_string=inf, minus_infinity_string=minf)
        node = Node()
        ref = render(absorb(node, unstring(json.loads(text), nan, inf, minf)))
        expect_same(tolist(back), ref, "from_json(to_json)", 1e-14)
    elif md is None and not part and "complex_record_fields" in kw and isinstance(t, (Num, Lst)) and isinstance(leaf_of(t), Num) \
            and t.__class__ is not Opt and not has(t, lambda x: isinstance(x, Opt)) and count_scalars(v) and item is None:
        back = ak.from_json(text, nan_string=nan, infinity_string=inf, minus_infinity_string=minf, complex_record_fields=cplx)
        expect_same(tolist(back), plain(v), "from_json(to_json) of complex numbers", 1e-14)
        d.label("complex-roundtrip")


def shorten(v, md):
    return v


def unstring(v, nan, inf, minf):
    """The strings that stand for numbers."""
    if isinstance(v, list):
        return [unstring(x, nan, inf, minf) for x in v]
    if isinstance(v, dict):
        return {k: unstring(x, nan, inf, minf) for k, x in v.items()}
    if isinstance(v, str):
        if nan is not None and v == nan:
            return float("nan")
        if inf is not None and v == inf:
            return float("inf")
        if minf is not None and v == minf:
            return -float("inf")
    if isinstance(v, int) and not isinstance(v, bool) and not -2**63 <= v < 2**63:
        return float(v)
    return v


WS = ["", "", "", "", " ", "\n", "\t ", "\r\n"]
STRS = ["", "a", "x y", "nan", "inf", "-inf", "é", "日本", "\U0001f600", "\"", "\\", "/", "\n\t", "\x00", "nan\x00", "\x7f", "null"]


def number(d):
    k = d.i(0, 9)
    if k < 3:
        return str(d.signed(100))
    if k == 3:
        return str(d.choice([2**63 - 1, -2**63, 2**63, 2**64 - 1, 2**64, 10**30, 2**31, -2**31 - 1, 2**32, 2**53 + 1, -0]))
    if k == 4:
        return d.choice(["-0", "-0.0", "0e0", "0.0e-5", "1E+2", "1e-2", "12.5e1", "1.0"])
    if k == 5:
        return repr(struct.unpack("<d", bytes(d.i(0, 255) for _ in range(6)) + bytes([d.i(0, 255), d.choice([0x3f, 0x40, 0xbf, 0x00, 0x7f])]))[0]
                    ).replace("nan", "0.5").replace("inf", "1e308")
    if k == 6:
        return "%d.%d" % (d.signed(1000), d.i(0, 10**d.i(1, 17)))
    if k == 7:
        return "%.*e" % (d.i(0, 16), d.signed(10**6) * 10.0**d.signed(200))
    if k == 8:
        return "0." + "".join(d.choice("0123456789") for _ in range(d.i(1, 25)))
    return str(d.signed(10**d.i(1, 18)))


def quote(d, s):
    out = []
    for c in s:
        k = d.i(0, 5)
        o = ord(c)
        if o < 32 or c in "\"\\" or k == 5:
            if c in "\"\\/\n\t" and d.b(60):
                out.append("\\" + {"\"": "\"", "\\": "\\", "/": "/", "\n": "n", "\t": "t"}[c])
            elif o < 0x10000:
                out.append("\\u%04x" % o if d.b(50) else "\\u%04X" % o)
            else:
                o -= 0x10000
                out.append("\\u%04x\\u%04x" % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff)))
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def document(d, depth):
    def ws():
        return d.choice(WS)
    k = d.weighted([(8, "num"), (3, "str"), (2, "null"), (2, "bool")] + ([(10, "list"), (6, "dict")] if depth else []))
    if k == "num":
        return number(d)
    if k == "str":
        return quote(d, d.choice(STRS))
    if k == "null":
        return "null"
    if k == "bool":
        return "true" if d.b(50) else "false"
    if k == "list":
        return "[" + ws() + ",".join(ws() + document(d, depth - 1) + ws() for _ in range(d.geometric(4, 0.65))) + "]"
    keys = d.shuffle([s for s in ["x", "y", "z", "x y", "", "é"]])[: d.i(0, 3)]
    return "{" + ws() + ",".join(ws() + quote(d, k2) + ws() + ":" + ws() + document(d, depth - 1) + ws() for k2 in keys) + "}"


def load(d, text, kw, tofile):
    if tofile:
        path = scratch()
        try:
            with open(path, "wb") as f:
                f.write(text.encode("utf-8"))
            return ak.from_json(path, **kw)
        finally:
            os.remove(path)
    return ak.from_json(text, **kw)


def options(d):
    nan, inf, minf = pick_strings(d) if d.b(40) else (None, None, None)
    kw = {"nan_string": nan, "infinity_string": inf, "minus_infinity_string": minf}
    if d.b(40):
        kw.update(initial=d.i(1, 4), resize=d.choice([1.5, 2.0, 1.1]), buffersize=d.choice([65536, 1024, 16, 7, 4]))
    return (nan, inf, minf), kw


def read(d):
    n = 1 if d.b(75) else d.i(2, 4)
    docs = [document(d, d.i(1, 5)) for _ in range(n)]
    text = d.choice(WS).join([""] + docs + [""]) if n == 1 else " ".join(docs) + d.choice(["", "\n", " "])
    s, kw = options(d)
    tofile = d.b(25)
    d.note("text", repr(text))
    d.note("options", lambda: "%r file=%s" % (kw, tofile))
    vals = [unstring(json.loads(x), *s) for x in docs]
    node = Node()
    want = [render(v) for v in [absorb(node, v) for v in vals]]
    got = tolist(load(d, text, kw, tofile))
    if n == 1:
        want = want[0]
    expect_same(got, want, "from_json", 1e-14)
    fexact(got, want)
    d.label("read", "file" if tofile else "string", "%d documents" % min(n, 2))
    d.nontrivial(count_scalars(want) >= 3)


def fexact(got, want):
    """Floats to 4 units in the last place, which is what RapidJSON's number parser provides."""
    if isinstance(want, (list, tuple)):
        for a, b in zip(got, want):
            fexact(a, b)
    elif isinstance(want, dict):
        for k in want:
            fexact(got[k], want[k])
    elif isinstance(want, float) and want == want and abs(want) not in (0, float('inf')) and isinstance(got, (int, float)):
        check(close(got, want), "number %r became %r", want, got)


def close(got, want):
    return abs(float(got) - want) <= 4 * np.spacing(abs(want))


def nodup(pairs):
    out = {}
    for k, v in pairs:
        if k in out:
            raise ValueError("duplicate")
        out[k] = v
    return out


def wide(v):
    """Python accepts a few things that are not JSON; those are not checked."""
    return v


def malformed(d):
    text = document(d, d.i(1, 4))
    chars = list(text)
    for _ in range(d.i(1, 2)):
        k = d.i(0, 2)
        pos = d.i(0, max(0, len(chars) - 1))
        c = d.choice(list("[]{}:,\"\\0123e.-+ntfalse \n\x01"))
        if k == 0 and chars:
            del chars[pos]
        elif k == 1:
            chars.insert(pos, c)
        elif chars:
            chars[pos] = c
    text = "".join(chars)
    if d.b(20):
        text = text[: d.i(0, len(text))]
    if re.search(r"\\u[dD][89a-fA-F]", text):
        raise Reject()  # half of a surrogate pair is not text
    d.note("text", repr(text))
    tofile = d.b(15)
    dec = json.JSONDecoder(object_pairs_hook=nodup)
    vals = []
    bad = None
    i = 0
    try:
        while True:
            while i < len(text) and text[i] in " \n\r\t":
                i += 1
            if i == len(text):
                break
            v, i = dec.raw_decode(text, i)
            vals.append(v)
    except ValueError as e:
        bad = e
    try:
        res = load(d, text, {}, tofile)
    except REFUSALS:
        res = None
        if bad is None and lenient(text, vals):
            raise Violation("from_json refuses a well-formed document")
        d.label("rejected")
    else:
        if bad is not None and "Inf" not in text:
            raise Violation("from_json accepts a malformed document (%s) as %s" % (bad, clip(tolist(res))))
        if bad is None:
            node = Node()
            want = [render(x) for x in [absorb(node, unstring(v, None, None, None)) for v in vals]]
            expect_same(tolist(res), want[0] if len(want) == 1 else want, "from_json", 1e-14)
        d.label("accepted")
    d.nontrivial(len(text) >= 6)


def lenient(text, vals):
    """Must from_json accept this (which Python's json accepts)?"""
    if re.search(r"[eE][-+]?\d{3}", text) or "\\u" in text or "Inf" in text or "NaN" in text:
        return False

    def big(v):
        if isinstance(v, list):
            return any(big(x) for x in v)
        if isinstance(v, dict):
            return any(big(x) for x in v.values())
        return isinstance(v, float) and abs(v) == float("inf") or isinstance(v, int) and abs(v) > 10**300
    return not big(vals)


SUBS = [("write", 4, write), ("read", 4, read), ("malformed", 2, malformed)]
