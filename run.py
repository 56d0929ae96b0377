#!/usr/bin/env python3
"""Builds /repo's current sources together with one property's model-checking
harness, runs the exploration, and turns its report into evidence + verdict.

    run.py <property> [quick|thorough]      run a check
    run.py --replay <file>                  re-run one recorded violation verbosely
    run.py --setup                          warm the object cache
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EVFS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")

BASE_CFLAGS = ["-std=gnu11", "-funsigned-char", "-fno-omit-frame-pointer", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment,shift-base"]
MSAN = ["-fsanitize=memory", "-fno-sanitize-recover=all", "-DMC_MSAN"]
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]

# property -> list of runs; a run is dict(name, main, extra harness files, config)
# config: fat (FatFs sources), threads (None|pthread|c11), off (config macros to switch off), tsan (scheduler build)

from props_runs import RUNS  # noqa: E402  (needs R-compatible dicts)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def read(p):
    with open(p, "rb") as f: return f.read()

def header_tree(cfg):
    """Private copy of the public headers with the requested configuration."""
    src = os.path.join(REPO, "include")
    h = hashlib.sha256()
    files = []
    for root, _, fs in os.walk(src):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f == "evfs_build_config.h" or not os.path.isfile(p): continue
            files.append((os.path.relpath(p, src), read(p)))
    files.sort()
    key = ",".join(cfg["off"]) + "|" + ",".join(cfg.get("set", []))
    for n, b in files: h.update(n.encode() + b"\0" + b)
    h.update(key.encode())
    out = os.path.join(BUILD, "inc", h.hexdigest()[:20])
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(dir=BUILD)
        for n, b in files:
            if n == "evfs_config.h":
                t = b.decode("utf-8", "replace")
                for m in cfg["off"]:
                    t = re.sub(r"(?m)^(\s*)#\s*define\s+%s\b.*$" % re.escape(m), r"// off: %s" % m, t)
                for m in cfg.get("set", []):
                    t = t.replace("#endif // EVFS_CONFIG_H", "#undef %s\n#define %s\n#endif" % (m.split()[0], m))
                b = t.encode()
            p = os.path.join(tmp, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f: f.write(b)
        os.makedirs(os.path.join(tmp, "evfs"), exist_ok=True)
        with open(os.path.join(tmp, "evfs", "evfs_build_config.h"), "w") as f: f.write('#define EVFS_VERSION "check"\n')
        os.makedirs(os.path.dirname(out), exist_ok=True)
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def repo_sources(cfg):
    skip = {"littlefs_fs.c", "littlefs_image.c", "fatfs_fs.c", "fatfs_image.c", "evfs_pthread.c", "evfs_c11_thread.c"}
    srcs = [p for p in sorted(glob.glob(REPO + "/src/*.c")) + sorted(glob.glob(REPO + "/src/util/*.c"))
            if os.path.basename(p) not in skip]
    if cfg["fat"]:
        srcs += [REPO + "/src/fatfs_fs.c", REPO + "/src/fatfs_image.c"]
        srcs += [p for p in sorted(glob.glob(REPO + "/libraries/fatfs/source/*.c")) if os.path.basename(p) in ("ff.c", "ffunicode.c")]
    if cfg.get("lfs"): srcs += [REPO + "/src/littlefs_fs.c", REPO + "/src/littlefs_image.c"]
    if cfg["threads"] == "pthread": srcs.append(REPO + "/src/evfs_pthread.c")
    if cfg["threads"] == "c11": srcs.append(REPO + "/src/evfs_c11_thread.c")
    return srcs

def compile_one(src, flags, deps_hash):
    key = hashlib.sha256(b"\0".join([read(src), " ".join(flags).encode(), deps_hash, src.encode()])).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh([flags[0]] + flags[1:] + ["-c", src, "-o", tmp])
    if r.returncode: return None, "%s:\n%s" % (src, r.stdout)
    os.rename(tmp, obj)
    return obj, None

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                if f.endswith((".h", ".inc")): h.update(f.encode() + b"\0" + read(os.path.join(root, f)))
    return h.digest()

def build(prop, run):
    os.makedirs(BUILD, exist_ok=True)
    inc = header_tree(run)
    thr = {"pthread": ["-DUSE_PTHREADS"], "c11": ["-DUSE_C11_THREADS"], None: []}[run["threads"]]
    incs = ["-I", inc, "-I", os.path.join(inc, "evfs"), "-I", REPO + "/src"]
    if run["fat"]: incs += ["-I", REPO + "/libraries/fatfs/source"]
    if run.get("lfs"): incs += ["-I", os.path.join(H, "lfsmodel")]
    san = [] if run["sched"] else MSAN if run.get("msan") else SAN
    cc = ["/usr/bin/clang" if run.get("msan") else "gcc"]
    common = cc + BASE_CFLAGS + [run["opt"], "-g"] + thr + incs
    dh = tree_hash([inc, REPO + "/src"] + ([REPO + "/libraries/fatfs/source"] if run["fat"] else []))
    hh = tree_hash([H, inc])
    jobs = []
    inst = ["-fsanitize=thread"] if run["sched"] else san
    for s in repo_sources(run):
        fl = list(common)
        if "/libraries/" in s: fl += inst
        else: fl += inst
        jobs.append((s, fl + run.get("repo_flags", []), dh))
    hs = [run["main"], "mc.c"] + run["extra"]
    for s in hs:
        fl = common + san + ["-I", H]
        if s == "mc.c": fl = fl + (["-DMC_NOWRAP"] if run.get("nowrap") else [])
        jobs.append((os.path.join(H, s), fl + run.get("harness_flags", []), hh + dh))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    errs = [e for _, e in res if e]
    if errs: return None, "\n".join(errs)
    outdir = os.path.join(BUILD, "bin"); os.makedirs(outdir, exist_ok=True)
    exe = os.path.join(outdir, "%s_%s_%d" % (prop, os.path.splitext(run["main"])[0], RUNS[prop].index(run)))
    link = cc + san + ["-o", exe + ".tmp"] + [o for o, _ in res] + ([] if run.get("nowrap") else WRAP) + run.get("ldflags", []) + ["-lpthread", "-lm"]
    r = sh(link)
    if r.returncode: return None, r.stdout
    os.replace(exe + ".tmp", exe)
    return exe, None

def prune_cache(limit=1500):
    for sub in ("obj", "inc"):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d): continue
        es = sorted((os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d))
        for _, e in es[:-limit]:
            p = os.path.join(d, e)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)

def env_for(logdir):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:handle_abort=1:log_path=%s/asan" % logdir
    e["MSAN_OPTIONS"] = "exitcode=77:allocator_may_return_null=1:log_path=%s/msan" % logdir
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=77:log_path=%s/ubsan" % logdir
    return e

def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = [r for r in RUNS[prop] if tier in r["tiers"]]
    reports, rc_err = [], None
    viol = []
    for r in runs:
        exe, err = build(prop, r)
        if err:
            print("BUILD-ERROR property=%s\n%s" % (prop, err[:4000]))
            return 2
        work = tempfile.mkdtemp(prefix="evfsmc.")
        try:
            logdir, scratch = work + "/log", work + "/scratch"
            os.mkdir(logdir); os.mkdir(scratch)
            out = work + "/report.json"
            p = sh([exe, "--tier", r.get("bounds", tier), "--out", out, "--logdir", logdir, "--scratch", scratch,
                    "--known", os.path.join(VERIF, "known_findings.txt")], env=env_for(logdir), cwd=work)
            if not os.path.exists(out):
                print("HARNESS-ERROR property=%s (%s) exit %d\n%s" % (prop, r["main"], p.returncode, p.stdout[-3000:]))
                return 2
            rep = json.loads(read(out).decode("utf-8", "replace"))
            if p.stdout.strip(): rep["stdout"] = p.stdout[-1500:]
            rep["harness"] = r["main"]; rep["config"] = {k: r[k] for k in ("fat", "lfs", "threads", "off", "set", "msan", "bounds") if r.get(k)}
            reports.append(rep)
            for v in rep["violations"]:
                v["run"] = RUNS[prop].index(r); viol.append(v)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if viol: break
    states = sum(x["states"] for x in reports); trans = sum(x["transitions"] for x in reports)
    execs = sum(x["executions"] for x in reports)
    samples, notes, known = [], [], []
    for x in reports:
        samples += x["samples"][:6]
        for n in x["notes"]:
            if n not in notes: notes.append(n)
        known += [k for k in x["known"] if k not in known]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=execs,
                            samples=samples or ["(no sample recorded)"], exhaustive=not viol,
                            scenarios=[dict(s, harness=x["harness"], config=x["config"]) for x in reports for s in x["scenarios"]]),
              assumptions=notes, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s %s: %d executions, %d transitions, %d states, %.1fs" % (prop, tier, execs, trans, states, time.time() - t0))
    prune_cache()
    if viol:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for i, v in enumerate(viol):
            path = VERIF + "/replays/%s_%d.json" % (prop, i)
            with open(path, "w") as f: json.dump(dict(v, property=prop, tier=tier), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v["sig"])
            print("  scenario %s\n  %s" % (v["scenario"], "\n  ".join(v["trace"].split("\n")[-14:])))
        return 1
    return 0

def replay(path):
    v = json.load(open(path))
    r = RUNS[v["property"]][v["run"]]
    exe, err = build(v["property"], r)
    if err: print(err); return 2
    work = tempfile.mkdtemp(prefix="evfsmc.")
    try:
        os.mkdir(work + "/s")
        e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0"; e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        p = subprocess.run([exe, "--replay", v["scenario"], ",".join(map(str, v["choices"])) or "0", "--scratch", work + "/s",
                            "--tier", v.get("tier", "quick")], env=e, cwd=work)
        return p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return replay(a[1])
    if a and a[0] == "--setup":
        bad = 0
        for prop in RUNS:
            for r in RUNS[prop]:
                _, err = build(prop, r)
                if err: print("setup: %s does not build: %s" % (prop, err[:600])); bad = 1
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(a[0], tier)

if __name__ == "__main__":
    sys.exit(main())
