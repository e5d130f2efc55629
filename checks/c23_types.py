"""C23: types and forms."""
import copy
import json
import pickle

import numpy as np
import awkward as ak

from pbt.common import *
from checks.c17_buffers import add_params

META = {
    "title": "Types and Forms survive their text forms and tell structures apart",
    "statement": "The text of any type (lists, fixed-size lists, options, records with or without names, tuples, unions, strings, unknown, with "
                 "parameters) parsed by ak.types.from_datashape is the same type; the JSON of any Form, parsed by "
                 "Form.fromjson, and its pickle, is the same Form with the same parameters and keys; a Form has the type, field names and "
                 "depth of the arrays it describes; and types are equal exactly if they are the same structure.",
    "text": "all types and Forms",
    "over": ["inputs"],
    "why": "The tests parse a list of fixed strings; nested combinations, quoting of names and parameters, and shorthand syntax interact.",
    "files": ["src/awkward/types.py", "src/awkward/_datashape_parser.py", "src/libawkward/type", "src/libawkward/Content.cpp",
              "src/python/forms.cpp", "src/python/types.cpp"],
    "mechanism": [("from_datashape", "src/awkward/types.py"), ("Type::tostring", "src/libawkward/type/*.cpp"),
                  ("Form::fromjson, Form::tojson", "src/libawkward/Content.cpp")],
    "technique": "round trip through text, JSON and pickle, and a structural model of equality, depth and fields",
    "note": "Sampled types of up to four levels. Dates and times are left out (their units are not part of the text), and so are complex numbers, "
            "named tuples, empty records and escapes in names, which the grammar does not have, and fixed-size lists together with options or names.",
}
RULE = ("A random type with random parameters on its nodes is printed and parsed; the Form of a random layout is written and read back; pairs "
        "of types, one changed in one place, are compared. Non-trivial: at least two levels.")
COUNTS = {"quick": 100000, "thorough": 2000000}
CFG = Cfg(complex=True, emptyrec=True, virtual=False)
NAMES = ["x", "y", "z", "a b", "", "é", "1x", "var", "union", "x-y", "x.y", "x:y", "{", "]"]
TY = ak.types


def params(d):
    if not d.b(20):
        return {}
    out = {}
    for _ in range(d.i(1, 2)):
        out[d.choice(["k", "note", "__doc__", "a b"])] = d.choice([1, -1.5, "two", [1, "x", None], {"a": {"b": []}}, None, True, ""])
    return {k: v for k, v in out.items() if v is not None}


def gen(d, depth):
    """(structure, function making an ak type)."""
    k = d.weighted([(5, "num"), (2, "str"), (1, "unk")] + ([(4, "lst"), (3, "reg"), (3, "opt"), (3, "rec"), (2, "tup"), (2, "uni")] if depth else []))
    p = params(d)
    if k == "num":
        dt = d.choice(["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"])
        return ["num", dt, p]
    if k == "str":
        return ["str", d.choice(["string", "bytestring", "char", "byte"]), {}]
    if k == "unk":
        return ["unk", None, {}]
    if k == "lst":
        return ["lst", gen(d, depth - 1), p]
    if k == "reg":
        return ["reg", gen(d, depth - 1), p, d.i(0, 12)]
    if k == "opt":
        return ["opt", gen(d, depth - 1), p]
    if k == "rec":
        names = []
        for _ in range(d.i(1, 3)):
            x = d.choice(NAMES)
            if x not in names:
                names.append(x)
        if d.b(25):
            p = dict(p, __record__=d.choice(["Point", "Vec", "thing"]))
        return ["rec", [(x, gen(d, depth - 1)) for x in names], p]
    if k == "tup":
        return ["tup", [gen(d, depth - 1) for _ in range(d.i(1, 3))], p]
    return ["uni", [gen(d, depth - 1) for _ in range(d.i(1, 3))], p]


def build(s):
    k = s[0]
    p = s[2]
    if k == "num":
        return TY.PrimitiveType(s[1], p)
    if k == "str":
        if s[1] in ("char", "byte"):
            return TY.PrimitiveType("uint8", {"__array__": s[1]}, s[1])
        return TY.ListType(TY.PrimitiveType("uint8", {"__array__": "char" if s[1] == "string" else "byte"}, "char" if s[1] == "string" else "byte"),
                           {"__array__": s[1]}, "string" if s[1] == "string" else "bytes")
    if k == "unk":
        return TY.UnknownType(p)
    if k == "lst":
        return TY.ListType(build(s[1]), p)
    if k == "reg":
        return TY.RegularType(build(s[1]), s[3], p)
    if k == "opt":
        return TY.OptionType(build(s[1]), p)
    if k == "rec":
        return TY.RecordType([build(x) for _, x in s[1]], [x for x, _ in s[1]], p)
    if k == "tup":
        return TY.RecordType([build(x) for x in s[1]], None, p)
    return TY.UnionType([build(x) for x in s[1]], p)


def text(d):
    s = gen(d, d.i(0, 4))
    t = build(s)
    low = "reg" in kinds(s)
    if low and ("opt" in kinds(s) or "__record__" in repr(s)):
        raise Reject("short forms of options and record names are for high-level text, fixed-size lists for low-level text")
    a = t if low else TY.ArrayType(t, d.i(0, 12))
    q = str(a)
    d.note("type", lambda: q)
    d.label(s[0])
    d.nontrivial(isinstance(s[1], list) and len(s[1]) > 0)
    t2 = TY.from_datashape(q, not low)
    check(t2 == a and a == t2, "parsed as %s", t2)
    check(str(t2).replace(" ", "") == q.replace(" ", ""), "printed again: %s", t2)


def kinds(s):
    out = [s[0]]
    if s[0] in ("lst", "reg", "opt"):
        out += kinds(s[1])
    elif s[0] in ("rec", "tup", "uni"):
        for x in s[1]:
            out += kinds(x[1] if s[0] == "rec" else x)
    return out


def mutate(d, s):
    """A structure that differs in one place."""
    s = copy.deepcopy(s)
    k = s[0]
    if k in ("lst", "reg", "opt") and d.b(60):
        s[1] = mutate(d, s[1])
    elif k == "reg":
        s[3] += 1
    elif k == "num":
        s[1] = "int64" if s[1] != "int64" else "int32"
    elif k == "rec" and s[1] and d.b(70):
        i = d.i(0, len(s[1]) - 1)
        if d.b(50):
            s[1][i] = (s[1][i][0], mutate(d, s[1][i][1]))
        else:
            s[1][i] = (s[1][i][0] + "_", s[1][i][1])
    elif k in ("tup", "uni") and s[1]:
        i = d.i(0, len(s[1]) - 1)
        s[1][i] = mutate(d, s[1][i])
    elif k == "str":
        s[1] = "string" if s[1] != "string" else "bytestring"
    elif k == "unk":
        s[0], s[1] = "num", "int64"
    elif k == "rec":
        s[2] = dict(s[2], __record__="Other")
    else:
        s[1], s[0] = copy.deepcopy(s), "lst"
        s[2] = {}
    return s


def equality(d):
    s = gen(d, d.i(0, 3))
    r = mutate(d, s)
    a, b = build(s), build(r)
    d.note("types", lambda: "%s and %s" % (a, b))
    d.nontrivial(isinstance(s[1], list) and len(s[1]) > 0)
    check(a == build(s) and not a != build(s), "not equal to itself: %s", a)
    check(a != b and not a == b, "different types compare equal")


def form_of(j):
    if isinstance(j, str):
        return j
    return j


def forms(d):
    t = gen_type(d, CFG)
    v = gen_values(d, t, CFG, gen_length(d, 4))
    lay = encode(d, t, v, CFG)
    note_array(d, "array", t, v, lay)
    f = lay.form
    j = json.loads(f.tojson(False, True))
    if d.b(50):
        j = add_params(d, j)
        f = ak.forms.Form.fromjson(json.dumps(j))
        d.label("parameters")
    if d.b(30):
        f = f.with_form_key("node-7")
    d.note("form", lambda: f.tojson(False, True))
    d.nontrivial(not isinstance(j, str))
    for verbose in (True, False):
        for pretty in (True, False):
            g = ak.forms.Form.fromjson(f.tojson(pretty, verbose))
            check(g == f and f == g, "JSON round trip: %s", g.tojson(False, True))
            check(g.tojson() == f.tojson(), "JSON again: %s", g.tojson(False, True))
            check(g.form_key == f.form_key, "form key %r, expected %r", g.form_key, f.form_key)
    g = pickle.loads(pickle.dumps(f))
    check(g == f and g.tojson() == f.tojson(), "pickle: %s", g.tojson(False, True))
    ty = f.type({})
    plainform = lay.form
    check(plainform.type({}) == ak.type(lay), "type of the form: %s, of the array: %s", plainform.type({}), ak.type(lay))
    check(plainform.purelist_depth == lay.purelist_depth, "depth of the form: %s, of the array: %s", plainform.purelist_depth, lay.purelist_depth)
    check(repr(plainform.parameters) == repr(lay.parameters), "parameters of the form: %s", plainform.parameters)


SUBS = [("text", 4, text), ("equality", 2, equality), ("forms", 4, forms)]
