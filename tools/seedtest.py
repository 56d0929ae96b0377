#!/usr/bin/env python3
"""Development aid: try planted bugs against the tests, their demos and the checks, in clones of /repo.
   tools/seedtest.py [-c: only the check] [-v] [-t: only tests and demo] [prefix...]"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
pre = [a for a in sys.argv[1:] if not a.startswith("-")] or [""]
ids = [i for i in sorted(os.listdir(V + "/seeded")) if any(i.startswith(p) for p in pre)]
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    res = []
    t = tempfile.mkdtemp(prefix="seed", dir="/tmp"); r = t + "/r"
    try:
        subprocess.check_call(["git", "clone", "-q", os.environ.get("SEED_BASE", "/repo"), r])
        if "-c" not in sys.argv:
            p = sh("bash %s/demo.sh" % d, cwd=r); res.append("demo clean=%d" % p.returncode)
            if p.returncode: print(p.stdout[-800:])
        a = sh("git apply %s/patch.diff" % d, cwd=r)
        if a.returncode: print(i, "PATCH FAILS", a.stdout); continue
        if "-c" not in sys.argv:
            p = sh("unshare -m sh -c 'mount --make-rprivate / && mount --bind %s /repo && cd / && bash %s/tools/runtests.sh'" % (r, V)); res.append("tests " + p.stdout.strip().split("\n")[-1])
            p = sh("bash %s/demo.sh" % d, cwd=r); res.append("demo patched=%d" % p.returncode)
            if not p.returncode: print(p.stdout[-400:])
        if "-t" not in sys.argv:
            for p in meta.get("also", []) + [meta["property"]]:
                t0 = time.time()
                q = sh("python3 run.py %s quick" % p, cwd=V, env=dict(os.environ, EVFS_REPO=r))
                res.append("%s rc=%d %.0fs %s" % (p, q.returncode, time.time() - t0, "CAUGHT" if q.returncode == 1 and "VIOLATION property=%s " % p in q.stdout else "MISSED"))
                if "-v" in sys.argv or q.returncode != 1: print(q.stdout[-1500:])
    finally:
        shutil.rmtree(t)
    print(i, "|", " | ".join(res), flush=True)
