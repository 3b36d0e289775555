"""seed.py TABLE.py [id...]: confirms planted bugs in a scratch copy of /repo and writes seeded/<id>/.
TABLE defines BUGS: list of dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)."""
import json, os, shutil, subprocess, sys, runpy
V = "/verif"
T = "/tmp/seedwork"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


bugs = runpy.run_path(sys.argv[1])["BUGS"]
want = sys.argv[2:]
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
for b in bugs:
    if want and b["id"] not in want:
        continue
    shutil.rmtree(T, ignore_errors=True)
    os.makedirs(T)
    sh("cp -a /repo %s/repo" % T)
    R = T + "/repo"
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "BAD EDIT", f, s.count(old), repr(old)); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        continue
    diff = sh("git -C %s diff" % R).stdout
    d = os.path.join(V, "seeded", b["id"])
    demo = "#!/bin/bash\n# exits 0 when the behaviour is right\nexec /opt/venv/bin/python - <<'PY'\nimport sys\nsys.path.insert(0, '.')\nimport numpy as np\n" + b["demo"].strip() + "\nPY\n"
    os.makedirs(T + "/d")
    open(T + "/d/demo.sh", "w").write(demo)
    r1 = sh("bash %s/d/demo.sh" % T, cwd="/repo")
    r2 = sh("bash %s/d/demo.sh" % T, cwd=R)
    # stable tests in the scratch copy
    t = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -4", cwd=R)
    good = r1.returncode == 0 and r2.returncode != 0 and " passed" in t.stdout and "failed" not in t.stdout and "error" not in t.stdout
    print(b["id"], b["prop"], "OK" if good else "REJECTED", r1.returncode, r2.returncode, t.stdout.strip().splitlines()[-1:] )
    if not good:
        print(r1.stderr[-600:], r1.stdout[-200:], "|", r2.stderr[-300:])
        continue
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(T, ignore_errors=True)
