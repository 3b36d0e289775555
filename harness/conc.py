"""C37/C38: calls under way at the same time and calls cut short.

Every call runs in a thread of its own that stops before a chosen line (or bytecode) of the library and
waits for its turn, so an interleaving is replayed exactly; an interrupt is raised before a chosen line."""
import ast
import os
import sys
import threading
import time

import numpy as np

import enc
import ops as O
import purity as P
from gens import REPO

ROOT = os.path.join(os.path.realpath(REPO), "proadv") + os.sep
_own, _skip = {}, {}
STALLS = [0]                    # calls of this process that waited for another one


def own(code):
    r = _own.get(code)
    if r is None:
        f = os.path.realpath(code.co_filename)
        r = _own[code] = f.startswith(ROOT) and (os.sep + "tests" + os.sep) not in f
    return r


def protected(path):
    """lines where an interrupt may not be injected: try, except and finally parts and context managers
    (between taking and releasing something there is always a gap no code can close)"""
    r = _skip.get(path)
    if r is None:
        r = set()
        try:
            tree = ast.parse(open(path).read())
        except (OSError, SyntaxError):
            tree = ast.parse("")
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                r.add(n.lineno)
                for b in [n.finalbody] + [h.body for h in n.handlers]:
                    for s in b:
                        r.update(range(s.lineno, s.end_lineno + 1))
            if isinstance(n, ast.FunctionDef) and (n.name in ("__enter__", "__exit__") or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))):
                r.update(range(n.lineno, n.end_lineno + 1))
        _skip[path] = r
    return r


class Worker(threading.Thread):
    """one call; stops at the step-th line (or bytecode) of the library until it is given a later target"""

    def __init__(self, ctl, fn, args, fine):
        super().__init__(daemon=True)
        self.ctl, self.fn, self.args, self.fine = ctl, fn, args, fine
        self.n, self.target = 0, -1
        self.go = threading.Semaphore(0)
        self.done = False
        self.asleep = True
        self.left = False
        self.out = None

    def tick(self):
        self.n += 1
        if self.target >= 0 and self.n >= self.target:
            self.asleep = True
            self.ctl.release()
            self.go.acquire()

    def trace(self, frame, event, arg):
        if not own(frame.f_code):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.fine else "line"):
            self.tick()
        return self.local

    def run(self):
        self.go.acquire()
        was = P.settings()                     # numpy keeps some of them per thread
        sys.settrace(self.trace)
        try:
            self.out = self.fn(*self.args)
        except Exception as ex:
            self.out = ex
        finally:
            sys.settrace(None)
            self.left = P.settings() != was
            self.done = True
            self.asleep = True
            self.ctl.release()


class Schedule:
    """calls [(fn, args)], run one at a time according to a plan [(caller, upto)]; upto = -1: to the end"""

    def __init__(self, calls, fine=False):
        self.ctl = threading.Semaphore(0)
        self.w = [Worker(self.ctl, f, a, fine) for f, a in calls]
        for w in self.w:
            w.start()

    def turn(self, c, upto):
        w = self.w[c]
        if w.done or not w.asleep or (0 <= upto <= w.n):
            return
        w.target, w.asleep = upto, False
        w.go.release()
        # a call that waits for another one (a lock) does not report back: the others go on
        t, most = time.monotonic(), 1.0 if STALLS[0] < 4 else .2
        while not w.asleep and time.monotonic() - t < most:
            self.ctl.acquire(timeout=most / 4)
        STALLS[0] += not w.asleep

    def finish(self):
        t = time.monotonic()
        while not all(w.done for w in self.w) and time.monotonic() - t < 30:
            for c, w in enumerate(self.w):
                if not w.done:
                    self.turn(c, -1)
        return all(w.done for w in self.w)


class Lines:
    """the sequence of library lines a call goes through"""

    def __init__(self, cap=200000):
        self.seq, self.cap = [], cap

    def trace(self, frame, event, arg):
        return self.local if own(frame.f_code) else None

    def local(self, frame, event, arg):
        if event == "line" and len(self.seq) < self.cap:
            self.seq.append((frame.f_code.co_filename, frame.f_lineno))
        return self.local

    def of(self, fn, args):
        sys.settrace(self.trace)
        try:
            return fn(*args)
        except Exception as ex:
            return ex
        finally:
            sys.settrace(None)

    def through(self, fn, args):
        self.of(fn, args)
        return self.seq


class Cut:
    """raises KeyboardInterrupt before the k-th library line"""

    def __init__(self, k):
        self.k, self.n, self.hit = k, 0, False

    def trace(self, frame, event, arg):
        return self.local if own(frame.f_code) else None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.k:
                self.hit = True
                raise KeyboardInterrupt()
        return self.local

    def run(self, fn, args):
        sys.settrace(self.trace)
        try:
            return fn(*args)
        except BaseException as ex:
            if isinstance(ex, (enc.TooSlow, SystemExit)):
                raise
            return ex
        finally:
            sys.settrace(None)


def places(seq, rng, most):
    """positions to stop at: the first, second and last time of every line"""
    first, second, last = {}, {}, {}
    for i, l in enumerate(seq):
        if l not in first:
            first[l] = i + 1
        elif l not in second:
            second[l] = i + 1
        last[l] = i + 1
    ks = sorted(set(first.values()) | set(second.values()) | set(last.values()))
    if len(ks) > most:
        ks = sorted(int(k) for k in rng.choice(ks, size=most, replace=False))
    return ks


class Conc:
    def __init__(self, rng, kill):
        self.rng = rng
        self.h = P.Heap(rng)
        self.T = self.h.T
        self.kill = kill
        self.names = []
        self.ev = []

    def use(self, *calls):
        """the arrays watched are those of the calls of the session"""
        for c in calls:
            for a in c[1] + (["base"] if set(c[1]) & {"s", "t"} else []):
                if a not in self.names:
                    self.names.append(a)
        self.noise = any(c[0] == "noise" for c in calls)
        self.ev.append({"op": "t_new", "kill": self.kill, "obs": self.obs()})

    def obs(self):
        return P.process(self.T) + [[k, self.T.content(P.marked(self.h.H[k]))] for k in self.names]

    def pick(self, fn, which=None, par=None):
        fn, args, p = self.h.pick(fn, which)
        if "j" in args and fn in ("wma_rep", "ssa_rep", "sma_rep", "kal_rep", "ema_rep"):
            args = ["i" if a == "j" else a for a in args]
        return fn, list(args), p if par is None else par

    def thunk(self, c):
        fn, args, par = c
        return (lambda *a: P.CAT[fn][2](*a, *par)), [self.h.H[a] for a in args]

    def key(self, c):
        return (c[0], tuple(self.T.content(self.h.H[a]) for a in c[1]), c[2])

    def note(self, op, c=None, **kw):
        e = {"op": op, "noise": self.noise, "obs": self.obs()}
        if c is not None:
            k = self.key(c)
            e.update(fn=k[0], args=list(k[1]), par=repr(k[2]))
        e.update(kw)
        self.ev.append(e)

    def alone(self, c):
        f, a = self.thunk(c)
        k = self.key(c)
        o = enc.call(f, *a)
        self.note("t_alone", c, res=self.T.result(k, o))
        return o

    def together(self, calls, plan, fine=False):
        """plan: [(caller, upto)]"""
        keys = [self.key(c) for c in calls]
        s = Schedule([self.thunk(c) for c in calls], fine)
        begun, ended = set(), set()

        def ends():
            for i, w in enumerate(s.w):
                if w.done and i not in ended:
                    ended.add(i)
                    self.end(i, keys[i], w.out, w.left)

        for c, upto in list(plan) + [(i, -1) for i in range(len(calls))]:
            if s.w[c].done:
                continue
            if c not in begun:
                begun.add(c)
                self.begin(c, calls[c])
            s.turn(c, upto)
            ends()
            if not s.w[c].done:
                self.ev.append({"op": "t_switch", "c": c + 1, "upto": upto, "noise": self.noise, "obs": self.obs()})
        if not s.finish():
            for i, w in enumerate(s.w):
                if not w.done:
                    w.done, w.out = True, enc.CallTimeout()
        ends()

    def begin(self, i, c):
        k = self.key(c)
        self.ev.append({"op": "t_begin", "c": i + 1, "fn": k[0], "args": list(k[1]), "par": repr(k[2]), "noise": self.noise, "obs": self.obs()})

    def end(self, i, key, o, left=False):
        obs = self.obs()
        if left:
            obs[0] = ["@settings", self.T.content(("settings left by the thread", i))]
        self.ev.append({"op": "t_end", "c": i + 1, "res": self.T.result(key, o), "noise": self.noise, "obs": obs})

    def cut(self, A, k, seq):
        f, a = self.thunk(A)
        self.begin(0, A)
        key = self.key(A)
        c = Cut(k)
        o = c.run(f, a)
        if c.hit:
            self.ev.append({"op": "t_kill", "c": 1, "at": "%s:%d" % (os.path.basename(seq[k - 1][0]), seq[k - 1][1]), "reached": isinstance(o, KeyboardInterrupt),
                            "noise": self.noise, "obs": self.obs()})
        else:
            self.end(0, key, o)

    def first(self, *calls):
        """what calls return as the first ones of a process, and the library lines the first of them then goes through the first and the second time"""
        out = []
        for c in calls:
            f, a = self.thunk(c)

            def look():
                n, w = Lines(), Lines()
                o = n.of(f, a)
                w.of(f, a)
                return o, n.seq, w.seq
            out.append(child(look))
            k = self.key(c)
            self.note("t_alone", c, res=self.T.result(k, out[-1][0]))
        return out[0][1], out[0][2]

    def fresh(self, f):
        """events of f in a process that has called nothing yet"""
        def go():
            self.ev = []
            f()
            return self.ev
        self.ev += child(go)


def child(f):
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as o:
                pickle.dump(f(), o)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        t = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(t)


def early(cold, warm, rng, most, few):
    """places of a first call: those that a second call does not go through, and a few others"""
    from collections import Counter
    c, w = Counter(cold), Counter(warm)
    ks = places(cold, rng, 10 ** 6)
    only = [k for k in ks if c[cold[k - 1]] > w[cold[k - 1]]]
    rest = [k for k in ks if k not in set(only)]
    # the line after one that a second call does not go through
    only = sorted(set(only) | {k + 1 for k in only if k < len(cold)})
    if len(only) > most:
        only = sorted(int(v) for v in rng.choice(only, size=most, replace=False))
    return sorted(set(only) | {int(v) for v in (rng.choice(rest, size=min(few, len(rest)), replace=False) if rest else [])})


def partner(s, rng, A, names, kind):
    fn = A[0]
    if kind == 0:                                    # other data of the same size
        return s.pick(fn, 1, A[2])
    if kind == 1:                                    # the very same call
        return A
    if kind == 2 and len(P.CAT[fn][1]) > 1:          # the same data, other parameters
        ps = [p for p in P.CAT[fn][1] if p != A[2]]
        return fn, A[1], ps[int(rng.integers(len(ps)))]
    return s.pick(str(rng.choice(names)))


def first_together(rng, fn, names, most, few, kind):
    """the first calls of a process at the same time"""
    s = Conc(rng, False)
    A = s.pick(fn, 0)
    B = partner(s, rng, A, names, kind)
    s.use(A, B)
    for k in early(*s.first(A, B), rng, most, few):
        s.fresh(lambda: (s.together([A, B], [(0, k), (1, -1)]), s.alone(A), s.alone(B)))
    return s.ev


def first_cut(rng, fn, most, few):
    """the first call of a process cut short"""
    s = Conc(rng, True)
    A, B = s.pick(fn), s.pick(fn, 1)
    s.use(A, B)
    cold, warm = s.first(A, B)
    for k in early(cold, warm, rng, most, few):
        if cold[k - 1][1] not in protected(cold[k - 1][0]):
            s.fresh(lambda: (s.cut(A, k, cold), s.alone(A), s.alone(B)))
    return s.ev


def together(rng, fn, names, most, kind, acts=None):
    """one session: fn against a partner, stopped at every place in turn"""
    s = Conc(rng, False)
    A = s.pick(fn, 0)
    if kind == 2:
        A = s.pick(fn)
    B = partner(s, rng, A, names, kind)
    s.use(A, B)
    s.alone(A)
    s.alone(B)
    if acts is not None:
        n = [max(1, len(Lines().through(*s.thunk(c)))) for c in (A, B)]
        for act in acts if STALLS[0] < 12 else acts[:1]:
            cuts = [sorted(int(v) for v in rng.integers(1, m + 1, size=2)) + [-1] for m in n]
            at, plan = [0, 0], []
            for c in act:
                plan.append((c - 1, cuts[c - 1][min(at[c - 1], 2)]))
                at[c - 1] += 1
            s.together([A, B], plan)
    else:
        seq = Lines().through(*s.thunk(A))
        for k in places(seq, rng, most if STALLS[0] < 12 else 1):
            s.together([A, B], [(0, k), (1, -1)])
        if len(seq) < 4000:
            for _ in range(max(1, most // 6)):
                s.together([A, B], [(0, int(rng.integers(1, 6 * len(seq) + 9))), (1, -1)], fine=True)
    s.alone(A)
    s.alone(B)
    return s.ev


def spread(jobs, most=6):
    """run every job (a function returning sessions) in a child process that has called nothing yet; results in order"""
    import json
    import select
    jobs = list(jobs)
    out, open_ = [None] * len(jobs), {}
    nxt = 0
    while nxt < len(jobs) or open_:
        while nxt < len(jobs) and len(open_) < most:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    with os.fdopen(w, "w") as o:
                        json.dump(jobs[nxt](), o)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            open_[r] = (nxt, pid, [])
            nxt += 1
        for r in select.select(list(open_), [], [])[0]:
            i, pid, buf = open_[r]
            t = os.read(r, 1 << 20)
            if t:
                buf.append(t)
                continue
            os.close(r)
            del open_[r]
            os.waitpid(pid, 0)
            out[i] = json.loads(b"".join(buf))
    return out


def cut_short(rng, fn, most):
    """one session: fn interrupted at every place in turn, then called again"""
    s = Conc(rng, True)
    A, B = s.pick(fn), s.pick(fn, 1)
    s.use(A, B)
    s.alone(A)
    s.alone(B)
    f, a = s.thunk(A)
    seq = Lines().through(f, a)
    ok = [k for k in places(seq, rng, 3 * most) if seq[k - 1][1] not in protected(seq[k - 1][0])]
    if len(ok) > most:
        ok = sorted(int(v) for v in rng.choice(ok, size=most, replace=False))
    for j, k in enumerate(ok):
        s.cut(A, k, seq)
        s.alone(A)
        if j % 3 == 0:
            s.alone(B)
    s.alone(B)
    return s.ev


class Boom(Exception):
    pass


class Bang(BaseException):
    pass


FAILURES = [Boom, Bang, OverflowError, ZeroDivisionError, FloatingPointError, ArithmeticError, KeyError, IndexError, TypeError, AttributeError, NameError, RuntimeError,
            RecursionError, NotImplementedError, OSError, EOFError, MemoryError, AssertionError, StopIteration, UnicodeError, ValueError, np.linalg.LinAlgError,
            UserWarning, RuntimeWarning, KeyboardInterrupt, GeneratorExit]


def attempt(f):
    """the outcome of a call, whatever it raises"""
    try:
        return enc.call(f)
    except (enc.TooSlow, SystemExit):
        raise
    except BaseException as ex:
        return ex


def target_session(rng, kill, which=None):
    """a target function that calls the library itself (C37) or fails at one of its evaluations (C38)"""
    s = Conc(rng, kill)
    which = int(rng.integers(3)) if which is None else which % 3
    c = s.h.H["c"]
    fail = [0, None]
    thrown = [None]

    def inner():
        if fail[1] == "root":
            O.OPT.brentq(lambda t: t - .25, -1.0, 2.0)
        elif fail[1] == "min":
            O.OPT.fminbound(lambda t: (t - .25) ** 2, -1.0, 2.0)
        elif fail[1] == "kernel":
            O.BIV.root(lambda t: t - .03, 100)
        elif isinstance(fail[1], int):
            fail[0] += 1
            if fail[0] == fail[1]:
                raise thrown[0]

    def t3(x):
        inner()
        return c[0] * x ** 3 + c[1]

    def t2(x, q):
        inner()
        return q[0] * (x - q[1]) ** 2

    def t1(x):
        inner()
        return x - .013 + x ** 3

    fs = [("brentq*", lambda: O.OPT.brentq(t3, -3.0, 4.0, full_output=bool(which == 1))), ("fminbound*", lambda: O.OPT.fminbound(t2, -3.0, 4.0, (c,))),
          ("root*", lambda: O.BIV.root(t1, 700))]
    name, f = fs[which]
    s.names, s.noise = ["c"], False
    s.ev.append({"op": "t_new", "kill": kill, "obs": s.obs()})
    key = (name, (s.T.content(c),), ())
    d = {"fn": name, "args": list(key[1]), "par": ""}

    def alone():
        fail[1] = None
        o = enc.call(f)
        s.ev.append(dict(d, op="t_alone", res=s.T.result(key, o), noise=False, obs=s.obs()))

    alone()
    if kill:
        kinds = [x for x in FAILURES if which != 2 or not issubclass(x, ValueError)]
        at = list(range(1, 9)) + [int(v) for v in rng.integers(1, 40, size=len(kinds) - 8)]
        for x, k in zip([kinds[int(i)] for i in rng.permutation(len(kinds))], at):
            thrown[0] = x("evaluation failed")
            s.ev.append(dict(d, op="t_begin", c=1, noise=False, obs=s.obs()))
            fail[:] = [0, k]
            o = attempt(f)
            if fail[0] >= k:
                s.ev.append({"op": "t_kill", "c": 1, "at": "%s at evaluation %d" % (type(thrown[0]).__name__, k), "reached": o is thrown[0], "noise": False, "obs": s.obs()})
            else:
                s.end(0, key, o)
            alone()
    else:
        for k in ("root", "min", "kernel"):
            s.ev.append(dict(d, op="t_begin", c=1, noise=False, obs=s.obs()))
            fail[:] = [0, k]
            s.end(0, key, enc.call(f))
            alone()
    return s.ev
