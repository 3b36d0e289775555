"""catch.py [-j N] [id...]: applies each seeded bug to a scratch copy of /repo, runs its property's quick check on it (PROADV_REPO)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
J = 1
if args[:1] == ["-j"]:
    J, args = int(args[1]), args[2:]
ids = args or sorted(os.listdir(V + "/seeded"))
T = tempfile.mkdtemp(prefix="catch-")


def one(i):
    d = V + "/seeded/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    R = os.path.join(T, i)
    shutil.copytree("/repo", R, symlinks=True)
    try:
        a = subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            return "%s %s DOES NOT APPLY" % (i, p)
        r = subprocess.run(["/opt/venv/bin/python", "harness/check.py", p, "--tier", "quick"], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", PROADV_REPO=R))
    finally:
        shutil.rmtree(R, ignore_errors=True)
    cl = [l for l in r.stdout.splitlines() if l.startswith("violated")]
    return " ".join([i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode),
                     (cl or [r.stdout[-300:] if r.returncode not in (0, 1) else ""])[0][:160]])


try:
    with ThreadPoolExecutor(J) as ex:
        for l in ex.map(one, ids):
            print(l, flush=True)
finally:
    shutil.rmtree(T, ignore_errors=True)
