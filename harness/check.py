"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree.

1. model checking: TLC explores the small-scope model(s) of the property (invariants of the
   specification itself) and emits the cases it enumerated;
2. conformance: the driver exercises the real code with those and with seeded inputs and
   records sessions; TLC checks every recorded session against spec/ProADV.tla.
Exit 0: held; 1: VIOLATION line; 2: the machinery failed."""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "harness"))
from models import MODELS  # noqa: E402


def die(msg):
    print("MACHINERY-ERROR " + msg, flush=True)
    sys.exit(2)


def build_classes():
    cls = os.path.join(VERIF, "build", "classes")
    src = [os.path.join(VERIF, "spec", f) for f in ("Rat.java", "RatValue.java")]
    tgt = os.path.join(cls, "Rat.class")
    if not os.path.exists(tgt) or any(os.path.getmtime(tgt) < os.path.getmtime(s) for s in src):
        os.makedirs(cls, exist_ok=True)
        r = subprocess.run(["javac", "-cp", CP, "-d", cls] + src, capture_output=True, text=True)
        if r.returncode:
            die("javac: " + r.stderr[:500])
    return cls


def tlc(module, cls, tmp, env=None, workers=1, timeout=800, heap="2g", cfg=None, extra=()):
    meta = tempfile.mkdtemp(dir=tmp)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", "-Xss64m", "-Xmx" + heap,
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta, "-cp", cls + ":" + CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die("TLC timed out on " + module)
    out = r.stdout
    m = re.search(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
    ok = "Model checking completed. No error has been found." in out
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return {"ok": ok, "out": out, "err": r.stderr, "generated": gen, "distinct": dist}


def run_models(prop, tier, cls, tmp):
    """small-scope model checking; returns evidence and the emitted cases"""
    ev, cases = [], []

    def one(mod):
        name, cfg = mod
        env = {"EMIT": "1", "TIER": tier}
        r = tlc(name, cls, tmp, env=env, workers=3 if tier == "quick" else 6, cfg=cfg, timeout=400 if tier == "quick" else 5000)
        return name, r

    mods = MODELS.get(prop, [])
    with cf.ThreadPoolExecutor(4) as ex:
        for name, r in ex.map(one, [(m, m if tier == "quick" or not os.path.exists(os.path.join(VERIF, "spec", m + "_deep.cfg"))
                                     else m + "_deep") for m in mods]):
            if not r["ok"]:
                tail = r["out"][-3000:]
                die("model %s: specification invariant failed or TLC error\n%s" % (name, tail))
            ev.append({"module": name, "states": r["distinct"], "generated": r["generated"]})
            for l in r["out"].splitlines():
                if l.startswith('"CASE '):
                    cases.append(json.loads(json.loads(l)[5:]))
    # workers print in any order, and an action may be evaluated more than once
    cases = [json.loads(c) for c in sorted({json.dumps(c, sort_keys=True) for c in cases}, key=lambda c: (len(c), c))]
    return ev, cases


VERD = re.compile(r'<<"VERDICT", (\d+), (\d+), \{(.*)\}>>')


def flat(out):
    """TLC wraps long values over several lines: join each printed tuple"""
    res, cur = [], None
    for l in out.splitlines():
        if l.startswith('<< "VERDICT"') or l.startswith('<<"VERDICT"'):
            cur = l.strip()
        elif cur is not None:
            cur += " " + l.strip()
        if cur is not None and cur.endswith(">>"):
            res.append(re.sub(r"\s+", " ", cur).replace('<< "', '<<"').replace(" >>", ">>").replace("{ ", "{").replace(" }", "}"))
            cur = None
    return res


def run_traces(path, cls, tmp, jobs, timeout):
    with open(path) as f:
        lines = f.readlines()
    if not lines:
        die("the driver recorded nothing")
    # balance by size of the recorded sessions
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    jobs = max(1, min(jobs, len(lines)))
    shards = [[] for _ in range(jobs)]
    load = [0] * jobs
    for i in order:
        j = load.index(min(load))
        shards[j].append(i)
        load[j] += len(lines[i]) + 2000

    def one(j):
        p = os.path.join(tmp, "shard%d.ndjson" % j)
        with open(p, "w") as f:
            f.writelines(lines[i] for i in shards[j])
        r = tlc("Trace", cls, tmp, env={"TRACE": p}, timeout=timeout, heap="3g")
        want = sum(len(json.loads(lines[i])["ev"]) + 1 for i in shards[j])
        if not r["ok"] or r["distinct"] != want:
            return j, r, want, None
        verd = []
        for l in flat(r["out"]):
            m = VERD.match(l)
            if not m:
                return j, r, want, None
            verd.append((shards[j][int(m.group(1)) - 1], int(m.group(2)), re.findall(r'"([^"]*)"', m.group(3))))
        return j, r, want, verd

    verdicts, states, trans = [], 0, 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for j, r, want, verd in ex.map(one, range(jobs)):
            if verd is None:
                shutil.copy(os.path.join(tmp, "shard%d.ndjson" % j), os.path.join(VERIF, "work", "failed-shard.ndjson"))
                die("trace checking failed (%d of %d states)\n%s\n%s" % (r["distinct"], want, r["out"][-3000:], r["err"][-500:]))
            verdicts += verd
            states += r["distinct"]
            trans += want - len(shards[j])
    return lines, verdicts, states, trans


def known_findings():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) clause=(\S+) (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="chk-%s-" % prop, dir=os.path.join(VERIF, "work"))
    try:
        sys.exit(run(prop, tier, seed, t0, tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, t0, tmp):
    cls = build_classes()
    mev, cases = run_models(prop, tier, cls, tmp)
    t1 = time.time()
    cpath = os.path.join(tmp, "cases.ndjson")
    with open(cpath, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    out = os.path.join(tmp, "sessions.ndjson")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONPATH="")
    try:
        r = subprocess.run([PY, os.path.join(VERIF, "harness", "drive.py"), prop, tier, str(seed), cpath, out,
                            "240" if tier == "quick" else "1200"],
                           cwd=tmp, env=env, capture_output=True, text=True, timeout=400 if tier == "quick" else 3000)
    except subprocess.TimeoutExpired:
        die("driver timed out")
    if r.returncode or "DRIVEN" not in r.stdout:
        die("driver failed: " + (r.stdout + r.stderr)[-3000:])
    m = re.search(r"EXPLORED (.*)", r.stdout)
    expl = json.loads(m.group(1)) if m else {}
    t2 = time.time()
    jobs = 8
    lines, verdicts, states, trans = run_traces(out, cls, tmp, jobs, 700 if tier == "quick" else 10000)
    t3 = time.time()
    viol, known, skips = [], {}, {}
    kf = known_findings()
    for sid, pos, cl in verdicts:
        for c in cl:
            if c.startswith("skip:"):
                skips[c] = skips.get(c, 0) + 1
            elif c.startswith("KF."):
                hit = [k for k in kf if k[1] == c]
                if not hit:
                    viol.append((sid, pos, c))
                for k in hit:
                    if k[0] == prop:
                        known.setdefault(k, []).append((sid, pos))
            elif c.startswith(prop + "."):
                viol.append((sid, pos, c))
    # evidence
    nontriv = trans - sum(skips.values())
    samples = []
    for i in (0, len(lines) // 2, len(lines) - 1):
        s = lines[i]
        samples.append(json.loads(s) if len(s) < 4000 else s[:2000] + "...")
    clauses = {}
    for _, _, c in viol:
        clauses[c] = clauses.get(c, 0) + 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states + sum(m["states"] for m in mev), "transitions": trans + sum(m["generated"] for m in mev),
                       "traces_validated_against_impl": len(lines), "samples": samples,
                       "events_checked": trans, "events_undecided": skips, "events_decided_at_least": max(nontriv, 0),
                       "models": mev, "cases_emitted_by_models": len(cases), "violated_clauses": clauses,
                       "exploration": expl,
                       "seconds": {"models": round(t1 - t0, 1), "driver": round(t2 - t1, 1), "traces": round(t3 - t2, 1)}},
          "assumptions": ["TLC, the Rat.java rational-arithmetic override (checked by MC_Rat) and IEEE-754 doubles",
                          "inputs outside the recorded sessions are not observed"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    print("%s %s: %d sessions, %d events, %d states, undecided %s, models %s, %.1f s" % (
        prop, tier, len(lines), trans, ev["coverage"]["states"], skips, [(m["module"], m["states"]) for m in mev], time.time() - t0))
    if viol:
        rdir = os.path.join(VERIF, "work", "replay")
        os.makedirs(rdir, exist_ok=True)
        sid, pos, c = viol[0]
        path = os.path.join(rdir, "%s.json" % prop)
        ses = json.loads(lines[sid])
        with open(path, "w") as f:
            json.dump({"property": prop, "clauses": sorted({v[2] for v in viol if v[0] == sid}), "position": pos, "session": ses,
                       "all_violations": [[a, b, d] for a, b, d in viol[:200]], "seed": seed, "tier": tier}, f)
        print("violated clauses: %s" % clauses)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if "INCOMPLETE" in r.stdout:
        die("driver stopped early: " + r.stdout[-3000:])
    return 0


if __name__ == "__main__":
    main()
