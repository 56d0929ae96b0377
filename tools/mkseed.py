"""Development aid: mkseed(id, property, needs, breaks, [(file, old, new), ...], demo_c) writes seeded/<id>/."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mkseed(id, prop, needs, breaks, edits, demo_c, demo_sh=None):
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call("git -C %s archive HEAD | tar -x -C %s" % (os.environ.get("EVFS_REPO", "/repo"), t), shell=True)
        subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=t)
        for f, a, b in edits:
            s = open(t + "/" + f).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(t + "/" + f, "w").write(s.replace(a, b))
        d = subprocess.check_output("git diff", shell=True, cwd=t, text=True)
    finally:
        shutil.rmtree(t)
    o = V + "/seeded/" + id
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.c", "w").write(demo_c)
    open(o + "/demo.sh", "w").write(demo_sh or open(V + "/tools/seedkit/demo.sh").read())
    os.chmod(o + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
