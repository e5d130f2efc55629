"""Choice-sequence property-based testing engine.

Every random decision of a case goes through a `D` object, which records it as
an integer.  The recorded sequence *is* the case: replaying the sequence
reproduces it, shortening / lowering the sequence shrinks it.  (The design is
that of Hypothesis' / minithesis' internal reduction.)

Cases run in forked worker processes, so that a crash (signal), a hang or an
exhausted address space of the code under test is an observable outcome of the
case and not the end of the check.
"""
import collections
import hashlib
import json
import mmap
import os
import pickle
import random
import re
import resource
import select
import signal
import struct
import sys
import time
import traceback


class Reject(Exception):
    """The generated case lies outside the property's domain."""


class Violation(Exception):
    """The property does not hold for this case."""


class Excluded(Exception):
    """The case falls in the region of a recorded known finding."""

    def __init__(self, finding):
        Exception.__init__(self, finding)
        self.finding = finding


class D(object):
    __slots__ = ("rng", "prefix", "choices", "labels", "notes", "nontrivial_", "excluded",
                 "maxlen", "scratch", "want_notes")

    def __init__(self, rng=None, prefix=None, maxlen=8000):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.labels = []
        self.notes = []
        self.nontrivial_ = False
        self.excluded = []
        self.maxlen = maxlen
        self.scratch = {}
        self.want_notes = False

    # ---- the only two primitive draws
    def below(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        k = len(self.choices)
        if k >= self.maxlen:
            raise Reject("choice sequence too long")
        if self.prefix is not None:
            v = self.prefix[k] if k < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        else:
            v = int(self.rng.random() * n)
        self.choices.append(v)
        return v

    def geometric(self, n, p):
        """An integer in [0, n], each next value being p times as likely."""
        k = len(self.choices)
        if k >= self.maxlen:
            raise Reject("choice sequence too long")
        if self.prefix is not None:
            v = self.prefix[k] if k < len(self.prefix) else 0
            if v > n:
                v = n
        else:
            v = 0
            r = self.rng.random
            while v < n and r() < p:
                v += 1
        self.choices.append(v)
        return v

    # ---- derived draws
    def i(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def b(self, percent=50):
        """True with the given percentage; False is the simplest."""
        k = len(self.choices)
        if k >= self.maxlen:
            raise Reject("choice sequence too long")
        if self.prefix is not None:
            v = self.prefix[k] if k < len(self.prefix) else 0
            v = 1 if v else 0
        else:
            v = 1 if self.rng.random() * 100 < percent else 0
        self.choices.append(v)
        return bool(v)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest.  The recorded
        choice is the position in the list, so that it shrinks to the first."""
        k = len(self.choices)
        if k >= self.maxlen:
            raise Reject("choice sequence too long")
        if self.prefix is not None:
            v = self.prefix[k] if k < len(self.prefix) else 0
            if v >= len(pairs):
                v = len(pairs) - 1
        else:
            tot = 0
            for w, _ in pairs:
                tot += w
            r = self.rng.random() * tot
            v = 0
            for w, _ in pairs:
                r -= w
                if r < 0:
                    break
                v += 1
            if v >= len(pairs):
                v = len(pairs) - 1
        self.choices.append(v)
        return pairs[v][1]

    def signed(self, n):
        """-n..n, ordered 0, 1, -1, 2, -2 ... for shrinking."""
        v = self.below(2 * n + 1)
        return (v + 1) // 2 if v % 2 else -(v // 2)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    # ---- bookkeeping
    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_ = True

    def note(self, key, value):
        """value may be a callable, evaluated only if the note is shown."""
        self.notes.append((key, value))

    def known(self, finding):
        """The case is in a recorded finding's region: stop here, count it."""
        raise Excluded(finding)


def show_notes(d):
    out = {}
    for k, v in d.notes:
        try:
            v = v() if callable(v) else v
            s = v if isinstance(v, str) else repr(v)
        except BaseException as err:  # showing a case must not change a verdict
            s = "<%s while showing>" % type(err).__name__
        if len(s) > 1500:
            s = s[:1500] + "..."
        out[str(k)] = s
    return out


def case_rng(seed, pid, sub, idx):
    h = hashlib.blake2b(("%s|%s|%s|%s" % (seed, pid, sub, idx)).encode(), digest_size=8).digest()
    return random.Random(int.from_bytes(h, "big"))


class Outcome(object):
    __slots__ = ("status", "message", "d")

    def __init__(self, status, message, d):
        self.status = status      # ok, reject, excluded, fail
        self.message = message
        self.d = d


def run_case(fn, d):
    try:
        fn(d)
        return Outcome("ok", "", d)
    except Reject as err:
        return Outcome("reject", str(err), d)
    except Excluded as err:
        d.excluded.append(err.finding)
        return Outcome("excluded", err.finding, d)
    except Violation as err:
        return Outcome("fail", str(err), d)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as err:
        tb = traceback.format_exc()
        return Outcome("fail", "unexpected %s: %s\n%s" % (type(err).__name__, str(err)[:600], tb[-2500:]), d)


# --------------------------------------------------------------------------
# isolated execution (used for shrinking and for replay)

def isolated(fn, prefix, timeout, as_limit=None):
    """Runs one case in a forked child.  Returns (status, message, choices, notes)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _child_limits(as_limit)
            _quiet_stderr()
            d = D(prefix=prefix)
            o = run_case(fn, d)
            data = pickle.dumps((o.status, o.message, d.choices, show_notes(d)))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 17
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return ("hang", "the case did not finish within %d s" % timeout, list(prefix), {})
    if os.WIFSIGNALED(st):
        return ("crash", "the case killed the process with signal %d" % os.WTERMSIG(st), list(prefix), {})
    if os.WEXITSTATUS(st) != 0 or not data:
        return ("crash", "the case ended the process with exit status %d" % os.WEXITSTATUS(st), list(prefix), {})
    return pickle.loads(data)


FAILS = ("fail", "crash", "hang")


def _child_limits(as_limit):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if as_limit:
        resource.setrlimit(resource.RLIMIT_AS, (as_limit, as_limit))


def _quiet_stderr():
    if os.environ.get("VERIF_DEBUG"):
        return
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)


def _cost(choices):
    return (len(choices), sum(min(c, 1000) for c in choices), choices)


def shrink(fn, choices, kind, budget_s, timeout, as_limit):
    """Greedy reduction of a failing choice sequence."""
    t_end = time.monotonic() + budget_s
    best = list(choices)
    best_info = None
    tries = 0
    seen = set()

    def attempt(cand):
        nonlocal best, best_info, tries
        key = tuple(cand)
        if key in seen or time.monotonic() > t_end:
            return False
        seen.add(key)
        tries += 1
        status, msg, used, notes = isolated(fn, list(cand), timeout, as_limit)
        if status != kind:
            return False
        used = list(used) if status == "fail" else list(cand)
        # drop trailing zeros: a replay fills with zeros
        while used and used[-1] == 0:
            used.pop()
        if _cost(used) < _cost(best):
            best = used
            best_info = (status, msg, notes)
            return True
        return False

    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2)
                if time.monotonic() > t_end:
                    break
        for size in (8, 4, 2, 1):
            i = 0
            while i + size <= len(best):
                if any(best[i:i + size]):
                    if attempt(best[:i] + [0] * size + best[i + size:]):
                        improved = True
                i += size
                if time.monotonic() > t_end:
                    break
        i = 0
        while i < len(best) and time.monotonic() < t_end:
            lo, hi = 0, best[i]
            while lo < hi and i < len(best):
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    hi = mid
                    if i >= len(best) or best[i] != mid:
                        break
                else:
                    lo = mid + 1
            i += 1
        # delete one choice and lower an earlier one (lengths drawn first)
        i = 0
        while i < len(best) and time.monotonic() < t_end:
            if best[i] > 0:
                for size in (1, 2, 3, 4, 6):
                    for j in range(i + 1, min(len(best), i + 12)):
                        if i < len(best) and best[i] > 0 and attempt(
                                best[:i] + [best[i] - 1] + best[i + 1:j] + best[j + size:]):
                            improved = True
                            break
            i += 1
    return best, best_info, tries


# --------------------------------------------------------------------------
# workers

def _bucket(msg):
    """Development aid: a rough identity of a failure message."""
    lines = msg.strip().splitlines()
    head = re.sub(r"[0-9]+", "#", re.sub(r"[\[({<].*", "", (lines or [""])[0]))[:70]
    where = [x for x in lines if x.strip().startswith("File ")]
    tail = re.sub(r"[0-9]+", "#", lines[-1])[:60] if len(lines) > 1 else ""
    return head + "|" + (where[-1].strip()[-60:] if where else "") + "|" + tail


_REC = struct.Struct("qd")     # index in progress (or -1), start time


def _worker(w, nworkers, subs, plan, seed, pid, out_fd, shm, as_limit, t_end, init, skip):
    _child_limits(as_limit)
    _quiet_stderr()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if init is not None:
        init()
    stats = {
        "evaluations": 0, "rejected": 0, "excluded": collections.Counter(),
        "labels": collections.Counter(), "nontrivial": 0, "samples": [],
        "per_sub": collections.Counter(), "per_sub_nontrivial": collections.Counter(),
    }
    hashes = set()
    fail = None
    collect = {} if os.environ.get("VERIF_COLLECT") else None
    total = plan[-1][2]
    off = w * _REC.size
    finished = True
    for idx in range(w, total, nworkers):
        if idx in skip:
            continue
        if time.monotonic() > t_end:
            finished = False
            break
        name, fn = None, None
        k = idx
        for (nm, f, upto) in plan:
            if k < upto:
                name, fn = nm, f
                break
        _REC.pack_into(shm, off, idx, time.monotonic())
        d = D(rng=case_rng(seed, pid, name, idx))
        o = run_case(fn, d)
        if o.status == "reject":
            stats["rejected"] += 1
        elif o.status == "excluded":
            stats["excluded"][o.message] += 1
        stats["evaluations"] += 1
        stats["per_sub"][name] += 1
        for lb in d.labels:
            stats["labels"][lb] += 1
        if d.nontrivial_ and o.status in ("ok", "fail"):
            h = hash((name, tuple(d.choices)))
            if h not in hashes:
                hashes.add(h)
                stats["per_sub_nontrivial"][name] += 1
                if len(d.choices) < 120 and sum(1 for s in stats["samples"] if s["check"] == name) < 1:
                    stats["samples"].append({"check": name, "index": idx, "case": show_notes(d)})
        if o.status == "fail":
            fail = {"sub": name, "idx": idx, "choices": d.choices, "message": o.message,
                    "notes": show_notes(d), "kind": "fail"}
            if collect is None:
                break
            key = (name, _bucket(o.message))
            n0, old = collect.get(key, (0, None))
            if old is None or len(d.choices) < len(old["choices"]):
                old = fail
            collect[key] = (n0 + 1, old)
            fail = None
    _REC.pack_into(shm, off, -1, time.monotonic())
    payload = pickle.dumps({"stats": stats, "hashes": hashes, "fail": fail, "finished": finished,
                            "collect": collect})
    with os.fdopen(out_fd, "wb") as f:
        f.write(payload)


class Result(object):
    pass


def run(*args, **kwargs):
    """Runs the plan; a failure that does not reproduce is noted, and the plan
    is run again without that case."""
    skip = set()
    unreproduced = []
    for _ in range(4):
        res = run_once(*args, skip=skip, **kwargs)
        unreproduced += res.unreproduced
        if res.failure or not res.unreproduced:
            break
        skip |= set(x["idx"] for x in res.unreproduced)
    res.unreproduced = unreproduced
    return res


def run_once(pid, subs, counts, seed, soft_seconds, nworkers=8, hang_s=60, as_limit=None, init=None,
             shrink_s=90, log=print, skip=()):
    """subs: [(name, weight, fn)]; counts: total number of cases."""
    totw = float(sum(w for _, w, _ in subs))
    per = []
    for name, wgt, fn in subs:
        per.append((name, fn, max(1, int(round(counts * wgt / totw)))))
    # interleave: plan is cumulative; every sub gets a contiguous block of indices,
    # and a worker takes every nworkers-th index of each block
    plan = []
    upto = 0
    for name, fn, n in per:
        upto += n
        plan.append((name, fn, upto))
    # a failure stops the whole run; blocks are visited in the listed order
    shm = mmap.mmap(-1, nworkers * _REC.size)
    for w in range(nworkers):
        _REC.pack_into(shm, w * _REC.size, -1, time.monotonic())
    t_end = time.monotonic() + soft_seconds
    children = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nworkers):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                os.close(r)
                _worker(w, nworkers, subs, plan, seed, pid, wr, shm, as_limit, t_end, init, skip)
            except BaseException:
                traceback.print_exc()
                code = 18
            finally:
                os._exit(code)
        os.close(wr)
        children[r] = [w, p, b""]
    fails = []
    merged = {
        "evaluations": 0, "rejected": 0, "excluded": collections.Counter(),
        "labels": collections.Counter(), "samples": [],
        "per_sub": collections.Counter(), "per_sub_nontrivial": collections.Counter(),
    }
    hashes = set()
    finished = True
    stop = False
    collected = {}
    seen = {}       # worker -> (case in progress, since when)

    def locate(idx):
        for (nm, f, upto) in plan:
            if idx < upto:
                return nm, f
        return plan[-1][0], plan[-1][1]

    while children:
        ready, _, _ = select.select(list(children), [], [], 1.0)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if chunk:
                children[r][2] += chunk
                continue
            w, p, data = children.pop(r)
            os.close(r)
            _, st = os.waitpid(p, 0)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and data:
                got = pickle.loads(data)
                s = got["stats"]
                merged["evaluations"] += s["evaluations"]
                merged["rejected"] += s["rejected"]
                for k in ("excluded", "labels", "per_sub", "per_sub_nontrivial"):
                    merged[k].update(s[k])
                merged["samples"].extend(s["samples"])
                hashes |= got["hashes"]
                finished = finished and got["finished"]
                for key, (n, fl) in (got["collect"] or {}).items():
                    n0, old = collected.get(key, (0, None))
                    if old is None or len(fl["choices"]) < len(old["choices"]):
                        old = fl
                    collected[key] = (n0 + n, old)
                if got["fail"] is not None:
                    fails.append(got["fail"])
                    stop = True
            elif not stop or not os.WIFSIGNALED(st) or os.WTERMSIG(st) != signal.SIGKILL:
                idx, _t = _REC.unpack_from(shm, w * _REC.size)
                if idx < 0:
                    raise RuntimeError("worker %d ended before its first case (status %d)" % (w, st))
                nm, f = locate(idx)
                fails.append({"sub": nm, "idx": idx, "choices": None, "kind": "crash",
                              "message": "worker ended with status %d" % st, "notes": {}})
                stop = True
        now = time.monotonic()
        for r in list(children):
            w, p, _data = children[r]
            idx, _t = _REC.unpack_from(shm, w * _REC.size)
            if w not in seen or seen[w][0] != idx:
                seen[w] = (idx, now)
            if idx >= 0 and now - seen[w][1] > hang_s and not stop:
                nm, f = locate(idx)
                fails.append({"sub": nm, "idx": idx, "choices": None, "kind": "hang",
                              "message": "no answer for %d s" % hang_s, "notes": {}})
                stop = True
        if stop:
            for r in list(children):
                w, p, _data = children[r]
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
    res = Result()
    res.merged = merged
    res.nontrivial = len(hashes)
    res.finished = finished
    res.failure = None
    res.unreproduced = []
    res.plan = [(nm, u) for nm, _f, u in plan]
    byname = {nm: f for nm, f, _u in plan}
    res.collected = []
    if collected and init is not None and not getattr(run_once, "_parent_init", False):
        init()
        run_once._parent_init = True
    for key, (n, fl) in sorted(collected.items(), key=lambda kv: -kv[1][0])[:int(os.environ.get("VERIF_COLLECT") or 0)]:
        fn = byname[fl["sub"]]
        best, info, tries = shrink(fn, fl["choices"], "fail", 25, hang_s, as_limit)
        item = (key, n, best) + isolated(fn, best, hang_s, as_limit)[1:]
        if not any(x[0][0] == key[0] and (x[2] == best or _bucket(x[3]) == _bucket(item[3])) for x in res.collected):
            res.collected.append(item)
    fails.sort(key=lambda x: (x["kind"] != "fail", x["idx"]))
    for fl in fails:
        fn = byname[fl["sub"]]
        if init is not None and not getattr(run_once, "_parent_init", False):
            init()
            run_once._parent_init = True
        if fl["choices"] is None:
            fl["choices"] = record_choices(fn, seed, pid, fl["sub"], fl["idx"], hang_s)
        # reproduce three times before believing it
        kinds = [isolated(fn, fl["choices"], hang_s, as_limit)[0] for _ in range(3)]
        if "crash" in kinds and not all(k in FAILS for k in kinds):
            # memory errors need not show every time; a wrong answer does
            kinds += [isolated(fn, fl["choices"], hang_s, as_limit)[0] for _ in range(7)]
            if kinds.count("crash") >= 2:
                kinds = ["crash"] * 3
        if not all(k in FAILS for k in kinds):
            res.unreproduced.append({"sub": fl["sub"], "idx": fl["idx"], "kinds": kinds,
                                     "message": fl["message"], "notes": fl["notes"]})
            continue
        kind = kinds[0]
        best, info, tries = shrink(fn, fl["choices"], kind, shrink_s, min(hang_s, 20) if kind == "hang" else hang_s, as_limit)
        status, msg, used, notes = isolated(fn, best, hang_s, as_limit)
        if status not in FAILS:
            best = fl["choices"]
            for _ in range(10):
                status, msg, used, notes = isolated(fn, best, hang_s, as_limit)
                if status in FAILS:
                    break
            else:
                status, msg = kind, fl["message"]
        if status in ("crash", "hang"):
            notes = dict(notes)
            notes.update(notes_until_crash(fn, best, hang_s))
        res.failure = {"sub": fl["sub"], "idx": fl["idx"], "choices": list(best), "kind": status,
                       "message": msg if status in FAILS else fl["message"], "notes": notes,
                       "original_length": len(fl["choices"]), "shrink_executions": tries}
        break
    return res


def record_choices(fn, seed, pid, sub, idx, hang_s):
    """Choices of a case that crashed or hung: a child streams them while running."""
    r, w = os.pipe()
    sys.stdout.flush()
    p = os.fork()
    if p == 0:
        try:
            os.close(r)
            _child_limits(None)
            _quiet_stderr()

            class Rec(list):
                def append(self, v):
                    list.append(self, v)
                    os.write(w, struct.pack("q", v))

            d = D(rng=case_rng(seed, pid, sub, idx))
            d.choices = Rec()
            run_case(fn, d)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    deadline = time.monotonic() + hang_s
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    try:
        os.kill(p, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(p, 0)
    n = len(data) // 8
    return list(struct.unpack("%dq" % n, data[:8 * n]))


def notes_until_crash(fn, choices, hang_s):
    """Re-runs a crashing case, streaming its notes as they are made."""
    r, w = os.pipe()
    sys.stdout.flush()
    p = os.fork()
    if p == 0:
        try:
            os.close(r)
            _child_limits(None)
            _quiet_stderr()

            class Rec(list):
                def append(self, kv):
                    list.append(self, kv)
                    k, v = kv
                    try:
                        v = v() if callable(v) else v
                        s = v if isinstance(v, str) else repr(v)
                    except BaseException:
                        s = "?"
                    os.write(w, (json.dumps([str(k), s[:1500]]) + "\n").encode())

            d = D(prefix=choices)
            d.notes = Rec()
            run_case(fn, d)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    deadline = time.monotonic() + min(hang_s, 20)
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    try:
        os.kill(p, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(p, 0)
    out = {}
    for line in data.decode("utf-8", "replace").splitlines():
        try:
            k, v = json.loads(line)
            out[k] = v
        except ValueError:
            pass
    return out
