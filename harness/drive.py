"""drive.py PROPERTY TIER SEED CASES OUT: exercises the real code for one property and
records the sessions (ndjson) that spec/Trace.tla checks."""
import json
import os
import sys
import time
import traceback

import numpy as np

import ops as O
import gens
from gens import REPO


class Stop(Exception):
    pass


class Cover:
    """branches of the code under test taken since the last session (sys.monitoring)"""

    def __init__(self, root):
        self.hits = set()
        self.ok = False
        try:
            M = sys.monitoring
            M.use_tool_id(3, "drive")
            own = {}

            def branch(code, off, dst):
                m = own.get(code)
                if m is None:
                    m = own[code] = code.co_filename.startswith(root)
                if not m:
                    return M.DISABLE
                self.hits.add((code.co_qualname, off, dst))

            M.register_callback(3, M.events.BRANCH, branch)
            M.set_events(3, M.events.BRANCH)
            self.ok = True
        except (AttributeError, ValueError):
            pass

    def take(self):
        h = frozenset(self.hits)
        self.hits.clear()
        return h


class Rec:
    """writes sessions; in the exploring phase only those that take the code somewhere new"""

    def __init__(self, path, tier, budget, cover):
        self.f = open(path, "w")
        self.n = 0
        self.t0 = time.time()
        self.budget = budget
        self.tier = tier
        self.cover = cover
        self.edges, self.sigs = {}, {}
        self.exploring = False
        self.tried = self.kept = 0

    def explore(self, seconds, cap, tries):
        self.exploring, self.end, self.cap, self.tries = True, time.time() + seconds, cap, tries
        self.cover.take()

    def add(self, *ev):
        h = self.cover.take()
        sig = (h, tuple(sorted({"%s:%s" % (e.get("op"), shape(e.get("out"))) for e in ev})))
        rare = any(self.edges.get(e, 0) < 5 for e in h)
        fresh = self.sigs.get(sig, 0) < 2
        if self.exploring:
            self.tried += 1
            if (rare or fresh) and (self.kept < self.cap or any(self.edges.get(e, 0) < 2 for e in h)):
                self.kept += 1
                self.write(ev)
            if time.time() > self.end or self.tried >= self.tries:
                raise Stop()
        else:
            self.write(ev)
        for e in h:
            self.edges[e] = self.edges.get(e, 0) + 1
        self.sigs[sig] = self.sigs.get(sig, 0) + 1

    def write(self, ev):
        self.f.write(json.dumps({"sid": self.n + 1, "ev": list(ev)}) + "\n")
        self.n += 1

    def left(self):
        return time.time() - self.t0 < self.budget


def shape(o):
    if not isinstance(o, dict):
        return ""
    return str(o.get("k")) + str(o.get("t", ""))


def N(tier, q, t):
    return t if tier == "thorough" else q


DRIVERS = {}


def driver(p):
    def deco(f):
        DRIVERS[p] = f
        return f
    return deco


import drivers  # noqa: E402,F401  (registers itself)


def explore(prop, tier, seed, rec, out):
    """unusual sizes, parameters and samples, kept when they take the code down a new path;
    several processes, each with its own stream"""
    tb = time.time()
    secs, cap, tries, procs = (8, 30, 4000, 6) if tier == "quick" else (240, 250, 200000, 8)
    first, err, pids = rec.n, None, []
    for w in range(procs):
        pid = os.fork()
        if pid:
            pids.append(pid)
            continue
        code, info, last = 1, "", ""
        try:
            rec.f = open("%s.%d" % (out, w), "w")
            rec.n = first + 1000000 * (w + 1)
            rec.t0 = time.time()
            rec.explore(secs, cap, tries)
            gens.WILD[0] = 0.45
            r = bad = 0
            while True:
                r += 1
                try:
                    drivers.DRIVERS[prop](rec, np.random.default_rng([seed, int(prop[1:]), w, r]), "quick", [])
                except Stop:
                    raise
                except Exception:
                    # an input the driver itself cannot make: the next stream
                    bad += 1
                    last = traceback.format_exc()
                    if bad > 20:
                        raise
        except Stop:
            code = 0
        except BaseException:
            info = traceback.format_exc()
        rec.f.close()
        with open("%s.%d.info" % (out, w), "w") as f:
            json.dump({"tried": rec.tried, "kept": rec.kept, "branches": len(rec.edges), "paths": len(rec.sigs), "err": info, "last": last}, f)
        os._exit(code)
    tot = {"processes": procs, "tried": 0, "kept": 0, "branches": 0, "paths": 0}
    for w, pid in enumerate(pids):
        os.waitpid(pid, 0)
        try:
            d = json.load(open("%s.%d.info" % (out, w)))
        except (OSError, ValueError):
            err = err or "an exploring process died"
            continue
        err = err or d["err"] or None
        if d["last"]:
            tot["abandoned"] = d["last"][-400:]
        for k in ("tried", "kept"):
            tot[k] += d[k]
        for k in ("branches", "paths"):
            tot[k] = max(tot[k], d[k])
        with open("%s.%d" % (out, w)) as f:
            for l in f:
                rec.f.write(l)
                rec.n += 1
    tot["seconds"] = round(time.time() - tb, 1)
    tot["first"] = first
    print("EXPLORED", json.dumps(tot))
    return err


def main():
    prop, tier, seed, cases, out = sys.argv[1:6]
    budget = float(sys.argv[6]) if len(sys.argv) > 6 else 120
    rng = np.random.default_rng([int(seed), int(prop[1:])])
    emitted = []
    if cases != "-":
        with open(cases) as f:
            emitted = [json.loads(l) for l in f if l.strip()]
    rec = Rec(out, tier, budget, Cover(os.path.join(REPO, "proadv")))
    err = None
    try:
        drivers.DRIVERS[prop](rec, rng, tier, emitted)
    except BaseException:
        # what was recorded so far is still judged
        err = traceback.format_exc()
    rec.f.flush()
    if not err:
        err = explore(prop, tier, int(seed), rec, out)
    rec.f.close()
    print("DRIVEN", rec.n)
    if err:
        print("INCOMPLETE", err)


if __name__ == "__main__":
    main()
