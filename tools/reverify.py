"""reverify.py [id...]: re-confirms every planted bug against /repo's HEAD in scratch copies."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = "/verif/seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(b):
    T = "/tmp/reverify/" + b
    shutil.rmtree(T, ignore_errors=True)
    os.makedirs(T)
    try:
        sh("cp -a /repo %s/r" % T)
        a = sh("git -C %s/r apply %s/%s/patch.diff" % (T, V, b))
        if a.returncode:
            return b, "does not apply"
        r1 = sh("bash %s/%s/demo.sh" % (V, b), cwd="/repo").returncode
        r2 = sh("bash %s/%s/demo.sh" % (V, b), cwd=T + "/r").returncode
        t = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -2", cwd=T + "/r").stdout
        if r1 or not r2:
            return b, "demo %d %d" % (r1, r2)
        if "30 passed" not in t:
            return b, "tests " + t
        # the touched lines belong to the original repository
        old = [l[1:].strip() for l in open("%s/%s/patch.diff" % (V, b)) if l.startswith("-") and not l.startswith("---")]
        files = [l[6:].strip() for l in open("%s/%s/patch.diff" % (V, b)) if l.startswith("--- a/")]
        base = "".join(sh("git -C /repo show f53ea2f:%s" % f).stdout for f in files)
        if old and not any(l and l in base for l in old):
            return b, "touches only lines of our own commits"
        return b, "ok"
    finally:
        shutil.rmtree(T, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(V))
with ThreadPoolExecutor(6) as ex:
    for b, r in ex.map(one, ids):
        if r != "ok":
            print(b, r, flush=True)
print(len(ids), "looked at")
shutil.rmtree("/tmp/reverify", ignore_errors=True)
