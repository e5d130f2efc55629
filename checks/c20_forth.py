"""C20: AwkwardForth programs vs. a reference interpreter of the syntax tree."""
import struct
import numpy as np
import awkward as ak
import awkward.forth

from pbt.common import *

META = {
    "title": "AwkwardForth programs mean what Forth says they mean",
    "statement": "Running any AwkwardForth program on any inputs gives the stack, variables, outputs, input positions and error that "
                 "the language defines: integer words on 32 or 64-bit two's complement numbers with floor division, words, "
                 "recursion, if/else, do loops with i/j/k, begin loops, exit (leaves the word and its own loops only), typed "
                 "little- and big-endian reads, varints, zigzags and n-bit integers of every width, typed outputs with conversion, "
                 "bounds on stack, recursion and buffers. Stepping, pausing and resuming, buffer growth settings, calling "
                 "words meanwhile and recompiling the decompiled program make no difference, and inputs are never modified.",
    "text": "all programs, inputs and ways of driving the machine",
    "over": ["inputs", "histories"],
    "why": "The virtual machine keeps three coupled stacks (instructions, loops, data) whose interplay depends on the nesting of "
           "the program and on where it is interrupted; tests run a fixed set of programs.",
    "files": ["src/libawkward/forth/ForthMachine.cpp", "src/libawkward/forth/ForthOutputBuffer.cpp",
              "src/libawkward/forth/ForthInputBuffer.cpp", "src/python/forth.cpp"],
    "mechanism": [("ForthMachineOf::parse, internal_run", "src/libawkward/forth/ForthMachine.cpp"),
                  ("ForthOutputBufferOf", "src/libawkward/forth/ForthOutputBuffer.cpp"),
                  ("ForthInputBuffer", "src/libawkward/forth/ForthInputBuffer.cpp")],
    "technique": "generated programs against a reference interpreter",
    "note": "Sampled programs of up to about 60 words that end within 1500 steps; literals that fit 32 bits; shifts within the word "
            "size; words that print are not run.",
}
RULE = ("A random program (nested control flow, word definitions, recursion, variables, reads in every format, outputs of every "
        "type, comments, strings) with random input bytes is run by ForthMachine32 or ForthMachine64 (at once, stepped, "
        "paused and resumed, with words called in between, with small stacks and buffers) and by an interpreter of its "
        "syntax tree written for this check. Non-trivial: at least eight words executed.")
COUNTS = {"quick": 400000, "thorough": 12000000}

BIN = ["+", "-", "*", "/", "mod", "min", "max", "=", "<>", ">", ">=", "<", "<=", "and", "or", "xor", "lshift", "rshift"]
UN = ["negate", "1+", "1-", "abs", "0=", "invert"]
SHUF = {"dup": 1, "drop": 1, "swap": 2, "over": 2, "rot": 3, "nip": 2, "tuck": 2, "/mod": 2}
DT = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
FMT = {"?": ("?", 1), "b": ("b", 1), "h": ("h", 2), "i": ("i", 4), "q": ("q", 8), "n": ("q", 8), "B": ("B", 1), "H": ("H", 2),
       "I": ("I", 4), "Q": ("Q", 8), "N": ("Q", 8), "f": ("f", 4), "d": ("d", 8)}
FUEL = 1500


class Err(Exception):
    pass


class Exit(Exception):
    pass


class Prog(object):
    def __init__(self):
        self.words = []      # (name, body)
        self.vars = []
        self.inputs = []
        self.outputs = []    # (name, dtype)
        self.strings = []
        self.bigrep = set()


# ---------------------------------------------------------------- generation

def gen_lit(d):
    k = d.i(0, 9)
    if k < 6:
        return d.i(-3, 9)
    if k < 8:
        return d.choice([0, 1, -1, 2, 127, 128, 255, 256, -128])
    if k == 8:
        return d.choice([2**31 - 1, -2**31, 2**31 - 2, 65536, 1000003, -1000003])
    return d.i(-100, 100)


class G(object):
    def __init__(self, d, p):
        self.d, self.p = d, p
        self.budget = d.i(4, 45)

    def need(self, out, depth, n):
        """Mostly make sure that there are n numbers on the stack."""
        while depth < n and not self.d.b(3):
            out.append(("lit", gen_lit(self.d)))
            depth += 1
        return max(depth, n) if depth >= n else depth

    def seg(self, level, depth, word, dodepth):
        """A sequence of instructions; depth is a guess of what is on the stack."""
        d, p = self.d, self.p
        out = []
        for _ in range(d.i(0, 7)):
            if self.budget <= 0:
                break
            self.budget -= 1
            k = d.i(0, 29)
            if k <= 4:
                out.append(("lit", gen_lit(d)))
                depth += 1
            elif k <= 8:
                w = d.choice(BIN)
                depth = self.need(out, depth, 2)
                if w in ("lshift", "rshift") and not d.b(5):
                    out.append(("lit", d.i(0, 12)))
                    depth += 1
                out.append(("op", w))
                depth -= 1
            elif k == 9:
                depth = self.need(out, depth, 1)
                out.append(("op", d.choice(UN)))
            elif k <= 11:
                w = d.choice(sorted(SHUF))
                depth = self.need(out, depth, SHUF[w])
                out.append(("op", w))
                depth += {"dup": 1, "drop": -1, "over": 1, "nip": -1, "tuck": 1}.get(w, 0)
            elif k == 12:
                out.append(("op", d.choice(["true", "false"])))
                depth += 1
            elif k <= 14 and level < 4:
                depth = self.need(out, depth, 1)
                a, da = self.seg(level + 1, depth - 1, word, dodepth)
                b = None
                db = depth - 1
                if d.b(50):
                    b, db = self.seg(level + 1, depth - 1, word, dodepth)
                out.append(("if", a, b))
                depth = min(da, db)
            elif k <= 17 and level < 4:
                step = d.b(25)
                if d.b(93):
                    out.append(("lit", d.i(0, 5)))
                    out.append(("lit", d.i(-2, 3)))
                    depth += 2
                depth = self.need(out, depth, 2)
                body, db = self.seg(level + 1, depth - 2, word, dodepth + 1)
                if step and not d.b(4):
                    body.append(("lit", d.i(1, 3)))
                out.append(("do", body, step))
                depth = min(depth - 2, db)
            elif k == 18 and level < 4:
                w = d.i(0, 2)
                body, db = self.seg(level + 1, depth, word, dodepth)
                if w == 0:
                    if d.b(80):
                        body.append(("op", "true") if d.b(50) else ("lit", d.i(-1, 1)))
                    out.append(("until", body))
                elif w == 1:
                    v = d.choice(p.vars) if p.vars else None
                    pre = list(body)
                    if v:
                        pre += [("var", "@", v), ("lit", d.i(0, 4)), ("op", "<")]
                    else:
                        pre.append(("op", "false"))
                    post, _ = self.seg(level + 1, db, word, dodepth)
                    if v:
                        post += [("lit", 1), ("var", "+!", v)]
                    out.append(("while", pre, post))
                else:
                    body.append(("op", "true"))
                    body.append(("if", [("exit",)], None))
                    body, out2 = body, out
                    out.append(("again", body))
                depth = min(depth, db)
            elif k == 19:
                if d.b(25):
                    out.append(("exit",))
            elif k == 20:
                if d.b(8):
                    out.append(("halt",))
                else:
                    out.append(("pause",))
            elif k == 21 and p.words:
                out.append(("call", d.choice(p.words)[0]))
                depth = max(0, depth - 1)
            elif k == 22 and word is not None:
                # recursion that ends
                depth = self.need(out, depth, 1)
                v = p.vars[0] if p.vars else None
                if v:
                    out += [("lit", 1), ("var", "+!", v), ("var", "@", v), ("lit", d.i(1, 5)), ("op", "<"),
                            ("if", [("recurse",) if d.b(50) else ("call", word)], None)]
            elif k == 23 and dodepth:
                out.append(("op", ["i", "j", "k"][d.i(0, min(dodepth, 3) - 1)]))
                depth += 1
            elif k == 24 and p.vars:
                w = d.choice(["!", "+!", "@"])
                if w != "@":
                    depth = self.need(out, depth, 1)
                    depth -= 1
                else:
                    depth += 1
                out.append(("var", w, d.choice(p.vars)))
            elif k in (25, 26, 27) and p.inputs:
                n = d.choice(p.inputs)
                if k == 25 and d.b(60):
                    w = d.choice(["len", "pos", "end", "seek", "skip"])
                    if w in ("seek", "skip"):
                        out.append(("lit", d.i(-2, 8)))
                        out.append(("in", n, w))
                    else:
                        out.append(("in", n, w))
                        depth += 1
                else:
                    kind = d.i(0, 9)
                    fmt = d.choice(sorted(FMT)) if kind < 7 else ("varint" if kind == 7 else "zigzag" if kind == 8
                                                                    else "%dbit" % (d.i(1, 64)))
                    rep, big = d.b(35), d.b(40)
                    tgt = d.choice(p.outputs)[0] if p.outputs and d.b(60) else "stack"
                    if rep:
                        out.append(("lit", d.i(0, 4) if not d.b(4) else d.i(-2, 9)))
                        if big:
                            p.bigrep.add(n)
                    out.append(("read", n, fmt, rep, big, tgt))
                    if tgt == "stack":
                        depth += 1
            elif k in (28, 29) and p.outputs:
                n = d.choice(p.outputs)[0]
                w = d.choice(["write", "write", "wadd", "wdup", "olen", "rewind"])
                if w in ("write", "wadd"):
                    depth = self.need(out, depth, 1)
                    depth -= 1
                elif w in ("wdup", "rewind"):
                    out.append(("lit", d.i(0, 3) if not d.b(5) else d.i(-2, 6)))
                else:
                    depth += 1
                out.append((w, n))
            elif k == 21 and d.b(30):
                p.strings.append(d.choice(["abc", "", "two words", "x : y ;"]))
                out.append(("str", len(p.strings) - 1))
                depth += 1
        return out, depth


def emit(d, p, seg, toks):
    for x in seg:
        k = x[0]
        if d.b(2):
            toks.append(d.choice(["( note )", "( a ( b ) )", "\\ rest of line\n", "\n"]))
        if k == "lit":
            toks.append(hex(x[1]) if x[1] >= 0 and d.b(8) else str(x[1]))
        elif k == "op":
            toks.append(x[1])
        elif k == "if":
            toks.append("if")
            emit(d, p, x[1], toks)
            if x[2] is not None:
                toks.append("else")
                emit(d, p, x[2], toks)
            toks.append("then")
        elif k == "do":
            toks.append("do")
            emit(d, p, x[1], toks)
            toks.append("+loop" if x[2] else "loop")
        elif k in ("until", "again"):
            toks.append("begin")
            emit(d, p, x[1], toks)
            toks.append(k)
        elif k == "while":
            toks.append("begin")
            emit(d, p, x[1], toks)
            toks.append("while")
            emit(d, p, x[2], toks)
            toks.append("repeat")
        elif k in ("exit", "halt", "pause", "recurse"):
            toks.append(k)
        elif k == "call":
            toks.append(x[1])
        elif k == "var":
            toks += [x[2], x[1]]
        elif k == "in":
            toks += [x[1], x[2]]
        elif k == "read":
            _, n, fmt, rep, big, tgt = x
            toks += [n, ("#" if rep else "") + ("!" if big else "") + fmt + "->", tgt]
        elif k == "write":
            toks += [x[1], "<-", "stack"]
        elif k == "wadd":
            toks += [x[1], "+<-", "stack"]
        elif k in ("wdup", "olen", "rewind"):
            toks += [x[1], {"wdup": "dup", "olen": "len", "rewind": "rewind"}[k]]
        elif k == "str":
            toks.append('s" ' + p.strings[x[1]] + '"')


def size(seg):
    n = 0
    for x in seg:
        n += 1
        for y in x[1:]:
            if isinstance(y, list):
                n += size(y)
    return n


# ---------------------------------------------------------------- reference interpreter

class Machine(object):
    """Interprets the syntax tree; `run` is a generator that yields at every pause."""

    def __init__(self, p, main, bits, inputs, maxstack, maxrec):
        self.p, self.bits = p, bits
        self.main = main
        self.words = dict(p.words)
        self.stack = []
        self.vars = {v: 0 for v in p.vars}
        self.data = inputs
        self.pos = {k: 0 for k in inputs}
        self.out = {n: np.zeros(0, dt) for n, dt in p.outputs}
        self.maxstack, self.maxrec = maxstack, maxrec
        self.loops = []
        self.pending = False
        self.fuel = FUEL
        self.ran = 0

    def wrap(self, x):
        h = 1 << (self.bits - 1)
        return ((int(x) + h) % (2 * h)) - h

    def push(self, x):
        if len(self.stack) == self.maxstack:
            raise Err("stack overflow")
        self.stack.append(self.wrap(x))

    def pop(self, n=1):
        if len(self.stack) < n:
            raise Err("stack underflow")
        if n == 1:
            return self.stack.pop()
        out = self.stack[-n:]
        del self.stack[-n:]
        return out

    def word(self, seg, depth):
        """A word (or the main program) at this depth."""
        if depth > self.maxrec:
            raise Err("recursion depth exceeded")
        mark = len(self.loops)
        try:
            for _ in self.seg(seg, depth):
                yield
        except Exit:
            pass
        del self.loops[mark:]

    def sub(self, seg, depth, loop=False):
        if depth > self.maxrec:
            raise Err("recursion depth exceeded")
        yield from self.seg(seg, depth)
        if not loop:
            yield from self.paused()

    def paused(self):
        if self.pending:
            self.pending = False
            yield

    def seg(self, seg, depth):
        for at, x in enumerate(seg):
            self.fuel -= 1
            self.ran += 1
            if self.fuel <= 0:
                raise Reject()
            k = x[0]
            if k == "lit":
                self.push(x[1])
            elif k == "op":
                self.op(x[1])
            elif k == "if":
                c = self.pop()
                if c != 0:
                    yield from self.sub(x[1], depth + 1)
                elif x[2] is not None:
                    yield from self.sub(x[2], depth + 1)
            elif k == "do":
                stop, start = self.pop(2)
                if len(self.loops) == self.maxrec:
                    raise Err("recursion depth exceeded")
                frame = [start]
                self.loops.append(frame)
                while frame[0] < stop:
                    self.fuel -= 1
                    if self.fuel <= 0:
                        raise Reject()
                    yield from self.sub(x[1], depth + 1, loop=True)
                    frame[0] += self.pop() if x[2] else 1
                    yield from self.paused()
                self.loops.pop()
            elif k == "until":
                while True:
                    self.fuel -= 1
                    if self.fuel <= 0:
                        raise Reject()
                    yield from self.sub(x[1], depth + 1)
                    if self.pop() != 0:
                        break
            elif k == "again":
                while True:
                    self.fuel -= 1
                    if self.fuel <= 0:
                        raise Reject()
                    yield from self.sub(x[1], depth + 1)
            elif k == "while":
                while True:
                    self.fuel -= 1
                    if self.fuel <= 0:
                        raise Reject()
                    yield from self.sub(x[1], depth + 1)
                    if self.pop() == 0:
                        break
                    yield from self.sub(x[2], depth + 1)
            elif k == "exit":
                raise Exit()
            elif k == "halt":
                raise Err("user halt")
            elif k == "pause":
                if at == len(seg) - 1:
                    self.pending = True  # what follows the segment (a step of a loop) is done before pausing
                else:
                    yield
            elif k == "call":
                yield from self.word(self.words[x[1]], depth + 1)
                yield from self.paused()
            elif k == "var":
                if x[1] == "@":
                    self.push(self.vars[x[2]])
                elif x[1] == "!":
                    self.vars[x[2]] = self.pop()
                else:
                    self.vars[x[2]] = self.wrap(self.vars[x[2]] + self.pop())
            elif k == "in":
                self.inword(x[1], x[2])
            elif k == "read":
                self.read(*x[1:])
            elif k == "str":
                self.push(x[1])
            else:
                self.outword(k, x[1])

    def op(self, w):
        st = self.stack
        if w in ("true", "false"):
            self.push(-1 if w == "true" else 0)
        elif w in ("i", "j", "k"):
            self.push(self.loops[-1 - "ijk".index(w)][0])
        elif w in UN:
            a = self.pop()
            self.push({"negate": -a, "1+": a + 1, "1-": a - 1, "abs": abs(a), "0=": -1 if a == 0 else 0, "invert": ~a}[w])
        elif w in BIN:
            a, b = self.pop(2)
            if w in ("/", "mod"):
                if b == 0:
                    raise Err("division by zero")
                self.push(a // b if w == "/" else a % b)
            elif w in ("lshift", "rshift"):
                if not 0 <= b < self.bits:
                    raise Reject()
                self.push(a << b if w == "lshift" else a >> b)
            else:
                self.push({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "min": lambda: min(a, b),
                           "max": lambda: max(a, b), "=": lambda: -(a == b), "<>": lambda: -(a != b), ">": lambda: -(a > b),
                           ">=": lambda: -(a >= b), "<": lambda: -(a < b), "<=": lambda: -(a <= b), "and": lambda: a & b,
                           "or": lambda: a | b, "xor": lambda: a ^ b}[w]())
        elif w == "/mod":
            a, b = self.pop(2)
            if b == 0:
                raise Err("division by zero")
            self.push(a % b)
            self.push(a // b)
        else:
            n = SHUF[w]
            if len(st) < n:
                raise Err("stack underflow")
            if w in ("dup", "over", "tuck") and len(st) == self.maxstack:
                raise Err("stack overflow")
            if w == "dup":
                st.append(st[-1])
            elif w == "drop":
                st.pop()
            elif w == "swap":
                st[-2], st[-1] = st[-1], st[-2]
            elif w == "over":
                st.append(st[-2])
            elif w == "rot":
                st[-3:] = [st[-2], st[-1], st[-3]]
            elif w == "nip":
                del st[-2]
            elif w == "tuck":
                st.insert(-2, st[-1])

    def inword(self, n, w):
        data = self.data[n]
        if w == "len":
            self.push(len(data))
        elif w == "pos":
            self.push(self.pos[n])
        elif w == "end":
            self.push(-1 if self.pos[n] == len(data) else 0)
        else:
            x = self.pop()
            to = x if w == "seek" else self.pos[n] + x
            if not 0 <= to <= len(data):
                raise Err(w + " beyond")
            self.pos[n] = to

    def take(self, n, size):
        if self.pos[n] + size > len(self.data[n]):
            raise Err("read beyond")
        out = self.data[n][self.pos[n]: self.pos[n] + size]
        self.pos[n] += size
        return out

    def put(self, tgt, value):
        if tgt == "stack":
            if isinstance(value, float):
                if not abs(value) < 2.0 ** (self.bits - 1):
                    raise Reject()
                value = int(value)
            self.push(value)
        else:
            self.write(tgt, value)

    def write(self, tgt, value):
        dt = self.out[tgt].dtype
        self.out[tgt] = np.append(self.out[tgt], self.cast(value, dt)).astype(dt)

    def cast(self, value, dt):
        """C conversion of a Python number to a dtype."""
        if isinstance(value, float):
            if dt.kind in "fb":
                with np.errstate(all="ignore"):
                    return dt.type(value)
            lo, hi = (np.iinfo(dt).min, np.iinfo(dt).max)
            if value != value or not lo <= int(value) if value == value and abs(value) != float("inf") else True:
                raise Reject()
            if int(value) > hi or int(value) < lo:
                raise Reject()
            return dt.type(int(value))
        if dt.kind == "b":
            return dt.type(value != 0)
        if dt.kind == "f":
            return (np.uint64(value) if value >= 2**63 else np.int64(value)).astype(dt)
        return np.array([value % 2**64], np.uint64).astype(dt)[0]

    def read(self, n, fmt, rep, big, tgt):
        count = 1
        if rep:
            count = self.pop()
            if count < 0:
                raise Err("read beyond")
        if fmt in ("varint", "zigzag"):
            for _ in range(count):
                shift = result = 0
                while True:
                    b = self.take(n, 1)[0]
                    if shift == 63:
                        raise Err("varint too big")
                    result |= (b & 0x7f) << shift
                    shift += 7
                    if not b & 0x80:
                        break
                if fmt == "zigzag":
                    result = -(result >> 1) - 1 if result & 1 else result >> 1
                self.put(tgt, result)
        elif fmt.endswith("bit"):
            width = int(fmt[:-3])
            bits = []
            for _ in range(count):
                while len(bits) < width:
                    b = self.take(n, 1)[0]
                    row = [(b >> i) & 1 for i in range(8)]
                    bits += row[::-1] if big else row
                self.put(tgt, sum(x << i for i, x in enumerate(bits[:width])))
                bits = bits[width:]
        else:
            code, size = FMT[fmt]
            raw = self.take(n, count * size)
            if code == "?" and any(b > 1 for b in raw):
                raise Reject()  # not a bool
            for x in struct.unpack((">" if big else "<") + code * count, raw):
                self.put(tgt, int(x) if code == "?" else x)

    def outword(self, k, n):
        out = self.out[n]
        dt = out.dtype
        if k == "olen":
            self.push(len(out))
            return
        x = self.pop()
        if k == "write":
            self.write(n, x)
        elif k == "wadd":
            prev = out[-1] if len(out) else dt.type(0)
            with np.errstate(all="ignore"):
                v = self.cast(x, dt)
                v = dt.type(bool(prev) or bool(v)) if dt.kind == "b" else prev + v
            self.out[n] = np.append(out, v).astype(dt)
        elif k == "wdup":
            if len(out) == 0:
                raise Err("rewind beyond")
            if x > 0:
                self.out[n] = np.append(out, np.repeat(out[-1:], x)).astype(dt)
        elif k == "rewind":
            if not 0 <= x <= len(out):
                raise Err("rewind beyond")
            self.out[n] = out[: len(out) - x]


def resolve(p):
    """recurse -> the name of the word it is in."""
    def fix(seg, name):
        out = []
        for x in seg:
            if x[0] == "recurse":
                out.append(("call", name))
            else:
                out.append(tuple(fix(y, name) if isinstance(y, list) else y for y in x))
        return out
    return [(n, fix(b, n)) for n, b in p.words]


# ---------------------------------------------------------------- driving

FLAGS = ["user_halt", "recursion_depth_exceeded", "stack_underflow", "stack_overflow", "read_beyond", "seek_beyond", "skip_beyond",
         "rewind_beyond", "division_by_zero", "varint_too_big"]


def generate(d):
    p = Prog()
    for i in range(d.i(0, 2)):
        p.vars.append("v%d" % i)
    for i in range(d.i(0, 2)):
        p.inputs.append("in%d" % i)
    for i in range(d.i(0, 2)):
        p.outputs.append(("out%d" % i, d.choice(DT)))
    g = G(d, p)
    for i in range(d.i(0, 3)):
        name = "w%d" % i
        p.words.append((name, []))
        body, _ = g.seg(0, d.i(0, 2), name, 0)
        p.words[-1] = (name, body)
    g.budget = max(g.budget, 8)
    main, _ = g.seg(0, 0, None, 0)
    more, _ = g.seg(0, 0, None, 0)
    main = main + more
    toks = []
    for v in p.vars:
        toks += ["variable", v]
    for v in p.inputs:
        toks += ["input", v]
    for v, dt in p.outputs:
        toks += ["output", v, dt]
    for n, b in p.words:
        toks += [":", n]
        emit(d, p, b, toks)
        toks.append(";")
    emit(d, p, main, toks)
    src = " ".join(toks) + "\n"
    p.words = resolve(p)
    inputs = {}
    for n in p.inputs:
        k = d.i(0, 24)
        inputs[n] = bytes(d.choice([0, 0, 1, 1, 2, 3, 0x80, 0xff, 0x7f]) if d.b(60) else d.i(0, 255) for _ in range(k))
    return p, main, src, inputs


def give(d, p, inputs, recompiled):
    out, keep = {}, {}
    for n, data in inputs.items():
        k = d.i(0, 2)
        if n in p.bigrep or k == 1:
            x = bytearray(data)
        elif k == 0:
            x = data
        elif len(data) % 2 == 0 and d.b(30):
            x = np.frombuffer(bytearray(data), np.uint16).reshape(-1, 1)
        else:
            x = np.frombuffer(bytearray(data), np.uint8)
        out[n] = x
    return out


def compare(m, model, error, p, out, inputs, d):
    if error is None or error == "user halt":
        expect_same(list(m.stack), model.stack, "stack")
    got = m.variables
    expect_same({k: got[k] for k in p.vars}, model.vars, "variables")
    for n, dt in p.outputs:
        x = np.asarray(m.output_NumpyArray(n))
        check(x.dtype == np.dtype(dt), "output %s has dtype %s, expected %s", n, x.dtype, dt)
        expect_same(x.tolist(), model.out[n].tolist(), "output %s" % n)
        expect_same(np.asarray(m.outputs[n]).tolist(), model.out[n].tolist(), "outputs[%r]" % n)
    for n in p.inputs:
        check(m.input_position(n) == model.pos[n], "position of %s: %s, expected %s", n, m.input_position(n), model.pos[n])
        check(bytes(out[n]) == inputs[n], "the input %s was modified: %r", n, bytes(out[n]))
    for i, s in enumerate(p.strings):
        check(m.string_at(i) == s, "string %d is %r, expected %r", i, m.string_at(i), s)


def program(d):
    p, main, src, inputs = generate(d)
    bits = d.choice([32, 64])
    maxstack, maxrec = (1024, 60) if d.b(75) else (d.i(2, 12), d.i(2, 12))
    init, factor = (1024, 1.5) if d.b(40) else (d.i(1, 3), d.choice([1.01, 1.5, 2.0, 3.7]))
    how = d.choice(["run", "run", "step", "mixed", "decompiled"])
    d.note("program", src.strip())
    d.note("inputs", inputs)
    d.note("machine", lambda: "ForthMachine%d(stack_max_depth=%d, recursion_max_depth=%d, output_initial_size=%d, "
           "output_resize_factor=%s), %s" % (bits, maxstack, maxrec, init, factor, how))
    pushed = d.i(-5, 5) if how == "mixed" and d.b(20) else None
    model = Machine(p, main, bits, inputs, maxstack, maxrec)
    error = None
    try:
        for _ in model.word(main, 1):
            pass
    except Err as e:
        error = str(e)
    d.nontrivial(model.ran >= 8)
    d.label("error: " + error if error else "ends", how)
    cls = ak.forth.ForthMachine32 if bits == 32 else ak.forth.ForthMachine64
    m = cls(src, maxstack, maxrec, init, factor)
    if how == "decompiled":
        m = cls(m.decompiled, maxstack, maxrec, init, factor)
    out = give(d, p, inputs, how == "decompiled")
    flags = {"raise_" + f: False for f in FLAGS} if d.b(50) else {}
    got = None

    def attempt(f, *args):
        if flags:
            return f(*args, **flags)
        try:
            return f(*args)
        except ValueError as e:
            s = str(e)
            if not s.startswith("'"):
                raise
            return s[1:].split("'")[0]
    if how in ("run", "decompiled"):
        got = attempt(m.run, out)
        n = 0
        while got is None and not m.is_done:
            got = attempt(m.resume)
            n += 1
            check(n <= FUEL * 2, "does not end")
    else:
        m.begin(out)
        n = 0
        while got is None and not m.is_done:
            got = attempt(m.step if how == "step" or d.b(70) else m.resume)
            n += 1
            check(n <= FUEL * 6, "does not end when stepped")
    check(got == error, "error %r, expected %r", got, error)
    compare(m, model, error, p, out, inputs, d)
    if error is not None and error != "user halt":
        again = attempt(m.resume if d.b(50) else m.step)
        check(again == error, "after %r, continuing gives %r", error, again)
    if d.b(15):  # and again
        got2 = attempt(m.run, out)
        n = 0
        while got2 is None and not m.is_done:
            got2 = attempt(m.resume)
            n += 1
            check(n <= FUEL * 2, "does not end")
        check(got2 == error, "second run: error %r, expected %r", got2, error)
        compare(m, model, error, p, out, inputs, d)


def calls(d):
    """Words called while the program is paused; the machine driven by a history."""
    p, main, src, inputs = generate(d)
    bits = d.choice([32, 64])
    maxrec = 60
    d.note("program", src.strip())
    d.note("inputs", inputs)
    d.note("machine", lambda: "ForthMachine%d, recursion_max_depth=%d" % (bits, maxrec))
    model = Machine(p, main, bits, inputs, 1024, maxrec)
    cls = ak.forth.ForthMachine32 if bits == 32 else ak.forth.ForthMachine64
    m = cls(src, 1024, maxrec)
    out = give(d, p, inputs, False)
    m.begin(out)
    stack = [model.word(main, 1)]
    flags = {"raise_" + f: False for f in FLAGS}
    hist = []
    d.note("history", hist)
    error = None

    def advance():
        """Run the innermost generator to its next pause; returns (error, finished)."""
        try:
            next(stack[-1])
            return None, False
        except StopIteration:
            model.pending = False
            stack.pop()
            return None, True
        except Err as e:
            if str(e) == "recursion depth exceeded":  # the depth of a paused program is not modelled
                raise Reject()
            return str(e), True

    for _ in range(d.i(1, 8)):
        k = d.i(0, 5)
        if k <= 1:
            if not stack:
                break
            hist.append("resume")
            check(not m.is_done, "done too early")
            error, _ = advance()
            got = m.resume(**flags)
        elif k <= 3 and p.words:
            name = d.choice(p.words)[0]
            hist.append("call %s" % name)
            stack.append(model.word(model.words[name], 1))
            error, fin = advance()
            got = m.call(name, **flags)
        elif k == 4:
            v = d.i(-9, 9)
            hist.append("stack_push %d" % v)
            m.stack_push(v)
            model.push(v)
            got = None
        else:
            if not model.stack:
                continue
            hist.append("stack_pop")
            a, b = m.stack_pop(), model.pop()
            check(a == b, "popped %d, expected %d", a, b)
            got = None
        check(got == error, "error %r, expected %r", got, error)
        compare(m, model, error, p, out, inputs, d)
        if error is not None:
            break
    if error is None and not stack:
        check(m.is_done, "not done")
    d.nontrivial(model.ran >= 8 and len(hist) >= 2)
    d.label(*set(h.split()[0] for h in hist))


TOKENS = [":", ";", "recurse", "variable", "input", "output", "halt", "pause", "if", "then", "else", "do", "loop", "+loop", "begin",
          "again", "until", "while", "repeat", "exit", "!", "+!", "@", "len", "pos", "end", "seek", "skip", "<-", "+<-", "stack",
          "rewind", "(", ")", "\\", "\n", 's"', "int32", "float64", "#i->", "!q->", "3bit->", "#!65bit->", "0bit->", "varint->",
          "i", "j", "k", "dup", "+", "1", "0x10", "-1", "foo", "bar", "x", "", '"', "#->", "->", "!"]


def garbage(d):
    """Any text either compiles or is refused, and what compiles can be run."""
    toks = [d.choice(TOKENS) for _ in range(d.i(1, 14))]
    if d.b(50):
        toks = ["input", "x", "output", "y", "int32", "variable", "v"] + toks
    if d.b(60):
        for i in range(len(toks)):
            if d.b(25):
                toks[i] = d.choice(["x", "y", "v", "foo"])
    src = " ".join(toks)
    d.note("source", src)
    cls = d.choice([ak.forth.ForthMachine32, ak.forth.ForthMachine64])
    try:
        m = cls(src, 64, 64)
    except (ValueError, IndexError, RuntimeError):
        d.label("refused")
        return
    d.nontrivial(True)
    d.label("compiled")
    m.decompiled
    m.bytecodes
    inputs = {n: bytearray(d.i(0, 255) for _ in range(d.i(0, 9))) for n in ("x", "foo", "bar", "y", "v") if m.is_input(n)}
    for n in TOKENS:
        if n not in inputs and m.is_input(n):
            raise Reject()
    m.begin(inputs)
    for _ in range(200):
        if m.is_done:
            break
        if m.step(**{"raise_" + f: False for f in FLAGS}) is not None:
            break


def strided(d):
    """Inputs that are not contiguous are refused or read as NumPy shows them."""
    n = d.i(1, 6)
    a = np.array([[d.i(0, 255) for _ in range(3)] for _ in range(n)], np.uint8)
    k = d.i(0, 3)
    x = [a[::2], a[:, 1], a.T, a[::-1]][k]
    d.note("input", lambda: "%r of %r" % (["a[::2]", "a[:, 1]", "a.T", "a[::-1]"][k], a.tolist()))
    d.nontrivial(not x.flags.c_contiguous)
    m = ak.forth.ForthMachine64("input x output y uint8 x len x #B-> y")
    try:
        m.run({"x": x})
    except ValueError:
        d.label("refused")
        return
    expect_same(np.asarray(m.output_NumpyArray("y")).tolist(), x.tobytes() and list(x.tobytes()), "bytes read")


SUBS = [("program", 6, program), ("calls", 2, calls), ("garbage", 1, garbage), ("strided", 0.1, strided)]
