"""C27: the compiled kernels compute what kernel-specification.yml defines."""
import ctypes
import os

import numpy as np
import yaml
import awkward as ak

from pbt.common import *

META = {
    "title": "Every compiled CPU kernel does what the kernel specification defines",
    "statement": "Each function of the compiled CPU kernels library, called with arguments its definition in "
                 "kernel-specification.yml accepts, writes exactly the output elements which that definition writes (and no other "
                 "element of the output or input buffers), with the same values, for every specialization of the kernel to "
                 "integer widths and number types; and it reports an error exactly when the definition raises one.",
    "text": "all arguments accepted by each kernel's definition, for all kernels and specializations",
    "over": ["inputs"],
    "why": "The generated kernel tests use one to three fixed samples per kernel, mostly with all the index arrays alike; 60 "
           "kernels have none.",
    "files": ["kernel-specification.yml", "src/cpu-kernels", "include/awkward/kernels.h"],
    "mechanism": [("definitions", "kernel-specification.yml"), ("awkward_* functions", "src/cpu-kernels/*.cpp")],
    "technique": "differential: the Python definition runs on lazily generated buffers, then the compiled kernel runs on what it read",
    "note": "Sampled; buffers of up to 40 elements with small numbers, so that integer overflow is not covered. Kernels without a "
            "definition, whose definition is not executable, or that only work on strings are not covered (listed in DESIGN.md).",
}
RULE = ("A specialization of a kernel is picked, its definition is executed on buffers whose elements are invented when they are "
        "read (offsets, starts/stops, parents, masks, tags, indexes by the argument's name, sometimes anything), with small sizes "
        "and positions; runs with a negative or far index or too many steps are rejected. The compiled function then runs on "
        "copies of these buffers. Non-trivial: the definition writes an element and touches at least three.")
COUNTS = {"quick": 1500000, "thorough": 40000000}

SKIP = {
    # no definition that can be compared
    "awkward_slicearray_ravel", "awkward_combinations",
}


def _range(start, stop, step, length):
    return range(length)[slice(None if start == kSliceNone else start, None if stop == kSliceNone else stop, step)]


def next_range(tooffsets, tocarry, fromstarts, fromstops, lenstarts, start, stop, step):
    if step == 0:
        raise Lim
    k = 0
    tooffsets[0] = 0
    for i in range(lenstarts):
        for j in _range(start, stop, step, max(0, fromstops[i] - fromstarts[i])):
            tocarry[k] = fromstarts[i] + j
            k += 1
        tooffsets[i + 1] = k


def next_range_carrylength(carrylength, fromstarts, fromstops, lenstarts, start, stop, step):
    if step == 0:
        raise Lim
    carrylength[0] = 0
    for i in range(lenstarts):
        carrylength[0] += len(_range(start, stop, step, max(0, fromstops[i] - fromstarts[i])))


# definitions that are not executable in the specification (they take an undefined helper by reference)
OWN = {"awkward_ListArray_getitem_next_range": next_range,
       "awkward_ListArray_getitem_next_range_carrylength": next_range_carrylength}


class Lim(Exception):
    pass


class Error(ctypes.Structure):
    _fields_ = [("str", ctypes.c_char_p), ("filename", ctypes.c_char_p), ("identity", ctypes.c_int64),
                ("attempt", ctypes.c_int64), ("pass_through", ctypes.c_bool)]


CT = {"bool": (ctypes.c_bool, np.bool_), "int8_t": (ctypes.c_int8, np.int8), "uint8_t": (ctypes.c_uint8, np.uint8),
      "int16_t": (ctypes.c_int16, np.int16), "uint16_t": (ctypes.c_uint16, np.uint16),
      "int32_t": (ctypes.c_int32, np.int32), "uint32_t": (ctypes.c_uint32, np.uint32),
      "int64_t": (ctypes.c_int64, np.int64), "uint64_t": (ctypes.c_uint64, np.uint64),
      "float": (ctypes.c_float, np.float32), "double": (ctypes.c_double, np.float64)}

CAP = 64
STEPS = 1500
kMaxInt64 = 9223372036854775806
kSliceNone = kMaxInt64 + 1
KERNELS = None
LIB = None


def parse(t):
    t = t.replace("const ", "").strip()
    if t.startswith("Const["):
        t = t[6:-1]
    depth = 0
    while t.startswith("List["):
        t = t[5:-1]
        depth += 1
    return depth, t


def load():
    global KERNELS, LIB
    repo = os.environ.get("REPO", "/repo")
    with open(os.path.join(repo, "kernel-specification.yml")) as f:
        spec = yaml.load(f, Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))["kernels"]
    path = os.path.dirname(ak.__file__)
    LIB = ctypes.CDLL(os.path.join(path, "libawkward-cpu-kernels.so"))
    ns = {"uint8": np.uint8, "kMaxInt64": kMaxInt64, "kSliceNone": kSliceNone}
    ns["float"] = lambda x: x      # in some definitions, float(x) stands for a copy of x
    out = []
    for k in spec:
        try:
            exec(k["definition"], ns)
        except Exception:
            pass
    for k in spec:
        if not k.get("definition") or k["name"] in SKIP or k["name"] not in ns:
            continue
        py = OWN.get(k["name"], ns[k["name"]])
        specs = []
        for s in k["specializations"]:
            args = []
            for a in s["args"]:
                depth, base = parse(a["type"])
                if base not in CT or depth > 1:
                    args = None
                    break
                args.append((a["name"], depth, base, a["dir"], a.get("role", "")))
            if args is None:
                continue
            fn = getattr(LIB, s["name"], None)
            if fn is None:
                continue
            fn.restype = Error
            fn.argtypes = [ctypes.POINTER(CT[b][0]) if dp else CT[b][0] for _, dp, b, _, _ in args]
            specs.append((s["name"], fn, args))
        if specs:
            out.append((k["name"], py, specs))
    KERNELS = out


class Clock(object):
    def __init__(self):
        self.left = STEPS


class Buf(object):
    """A buffer whose elements come into being when they are looked at."""

    def __init__(self, clock, make):
        self.clock = clock
        self.make = make
        self.first = {}
        self.now = {}
        self.written = 0
        self.w = set()

    def __getitem__(self, i):
        i = self.at(i)
        if i not in self.now:
            self.now[i] = self.first[i] = self.make(i)
        return self.now[i]

    def peek(self, i):
        if i not in self.now:
            self.now[i] = self.first[i] = self.make(i)
        return self.first.get(i, self.now[i])

    def __setitem__(self, i, x):
        i = self.at(i)
        self.written += 1
        self.w.add(i)
        if i not in self.now:
            self.first[i] = self.make(i)
        self.now[i] = x

    def at(self, i):
        i = int(i)
        if i < 0 or i >= CAP:
            raise Lim
        self.clock.left -= 1
        if self.clock.left < 0:
            raise Lim
        return i


def maker(d, name, base, out, bufs):
    n = name.lower()
    if base == "bool":
        return lambda i: bool(d.i(0, 1))
    if out:
        return lambda i: d.i(0, 3)
    if base in ("float", "double"):
        return lambda i: d.i(-8, 8) * 0.25
    unsigned = base[0] == "u"
    wild = not unsigned and d.b(4)
    if not wild:
        if "offset" in n:
            state = {"hi": -1, "last": d.weighted([(6, 0), (2, d.i(0, 3))])}
            vals = {}
            step = d.i(1, 4)

            def mono(i):
                while state["hi"] < i:
                    state["hi"] += 1
                    vals[state["hi"]] = state["last"]
                    state["last"] += d.i(0, step)
                return vals[i]
            return mono
        if "stops" in n:
            for other in bufs:
                if other.lower() == n.replace("stops", "starts"):
                    b = bufs[other]
                    step = d.i(0, 4)
                    return lambda i: max(0, int(b.peek(i)) + (d.i(0, step) if unsigned or not d.b(3) else -1))
        if "parents" in n or "distincts" in n and False:
            state = {"hi": -1, "last": 0}
            vals = {}
            skip = d.b(30)

            def par(i):
                while state["hi"] < i:
                    state["hi"] += 1
                    vals[state["hi"]] = state["last"]
                    state["last"] += d.i(0, 2 if skip else 1)
                return vals[i]
            return par
        if "bitmask" in n:
            return lambda i: d.i(0, 255)
        if "mask" in n:
            return lambda i: d.i(0, 1)
        if "tags" in n:
            return lambda i: d.i(0, 2)
        if "index" in n or "carry" in n or "missing" in n or "shifts" in n or "advanced" in n or "head" in n:
            lo = -1 if d.b(50) and not unsigned else 0
            hi = d.i(2, 7)
            return lambda i: d.i(lo, hi)
        if "starts" in n:
            return lambda i: d.i(0, 6)
        if "size" in n or "count" in n or "len" in n or "num" in n:
            return lambda i: d.i(0, 4)
    lo = 0 if unsigned or d.b(50) else d.choice([-1, -4])
    hi = d.choice([1, 4, 9])
    return lambda i: d.i(lo, hi)


def scalar(d, name, base):
    n = name.lower()
    if base == "bool":
        return d.b(50)
    if base in ("float", "double"):
        return d.i(-8, 8) * 0.25
    if d.b(3):
        return d.i(-2, 9) if base[0] != "u" else d.i(0, 9)
    if "lencontent" in n or "contentlen" in n:
        return d.i(8, 30) if d.b(80) else d.i(0, 7)
    if n == "length" and d.b(15):
        return d.i(4, 12)
    if "len" in n or "size" in n or n == "n" or "num" in n or "target" in n:
        return d.i(0, 6)
    if n in ("start", "stop", "regular_start", "regular_stop"):
        if d.b(15) and base == "int64_t":
            return kSliceNone
        return d.i(-6, 6)
    if n == "step":
        return d.choice([1, 1, 2, -1, -2, 3])
    if n == "at" or n.endswith("_at") or n == "regular_at":
        return d.i(-5, 5)
    if "identity" in n:
        return d.i(-9, 9) if base[0] != "u" else d.i(0, 9)
    return d.i(0, 6)


def num(x):
    x = x.item() if hasattr(x, "item") else x
    return int(x) if isinstance(x, bool) else x


def kernel(d):
    if KERNELS is None:
        load()
    name, py, specs = KERNELS[d.i(0, len(KERNELS) - 1)]
    sname, fn, args = specs[d.i(0, len(specs) - 1)]
    d.note("kernel", sname)
    clock = Clock()
    bufs = {}
    pyargs = []
    for a, depth, base, dr, role in args:
        if depth:
            b = Buf(clock, maker(d, a, base, dr == "out", bufs))
            bufs[a] = b
            pyargs.append(b)
        else:
            pyargs.append(scalar(d, a, base))
    d.note("arguments", lambda: {a: (dict(sorted(x.first.items())) if isinstance(x, Buf) else x)
                                 for (a, _, _, _, _), x in zip(args, pyargs)})
    failed = None
    try:
        py(*pyargs)
    except ValueError as err:
        failed = str(err)
    except (Lim, IndexError, ZeroDivisionError, OverflowError, RecursionError):
        raise Reject()
    except (TypeError, AttributeError, NameError, UnboundLocalError):
        d.label("definition not executable: " + name)
        raise Reject()
    written = sum(len(b.w) for b in bufs.values())
    d.nontrivial(written >= 1 and sum(len(b.first) for b in bufs.values()) >= 3)
    d.label(sname if written or failed is None else "error")
    cargs, arrs = [], []
    for (a, depth, base, dr, role), x in zip(args, pyargs):
        ct, dt = CT[base]
        if depth:
            top = max(x.first) + 1 if x.first else 0
            size = top + 8
            arr = np.zeros(size, dtype=dt)
            for i in range(size):
                v = x.first.get(i)
                if v is None:
                    v = i % 2 if dr == "out" else 0
                if dt is np.bool_:
                    v = bool(v)
                elif v < 0 and base[0] == "u":
                    raise Reject()
                arr[i] = v
            for i, v in x.now.items():
                if base in ("int8_t", "uint8_t", "int16_t", "uint16_t"):
                    info = np.iinfo(dt)
                    if not info.min <= v <= info.max:
                        raise Reject()
                if base[0] == "u" and v < 0 or abs(v) > 2**62:
                    raise Reject()
            arrs.append((a, x, arr, arr.copy(), dt))
            cargs.append(arr.ctypes.data_as(ctypes.POINTER(ct)))
        else:
            if base[0] == "u" and x < 0:
                raise Reject()
            cargs.append(ct(x))
    err = fn(*cargs)
    if failed is not None:
        check(err.str is not None, "the definition raises %s, the kernel reports no error", failed)
        return
    check(err.str is None, "the kernel reports %s, the definition does not", err.str)
    for a, x, arr, before, dt in arrs:
        for i in range(len(arr)):
            got = num(arr[i])
            if i in x.now:
                want = x.now[i]
                if dt is np.bool_:
                    want = bool(want)
                elif dt in (np.float32, np.float64):
                    want = dt(want)
                else:
                    want = int(want)    # toward zero, as in C
                want = num(want)
            else:
                want = num(before[i])
            check(got == want, "%s[%d] is %s, expected %s%s", a, i, got, want, "" if i in x.w else " (not written by the definition)")


SUBS = [("kernel", 1, kernel)]
