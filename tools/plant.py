#!/usr/bin/env python3
"""plant.py [ids...]   For each planted bug of seeded/: does it apply, build, pass the stable tests, does
its demonstration fail with it (and pass without it), and do the checks report it?
Works on /repo itself and undoes every change. A development tool; no check uses it.
Options: --checks C01,C02 also run these checks; --no-tests; --no-check; --tier T."""
import json, os, subprocess, sys, tempfile, time
ROOT = "/verif"
REPO = "/repo"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = dict((a[2:].split("=", 1) + [""])[:2] for a in sys.argv[1:] if a.startswith("--"))
ids = args or sorted(os.listdir(ROOT + "/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def clean():
    sh(["git", "-C", REPO, "checkout", "--", "."])

def demo(d):
    with tempfile.TemporaryDirectory() as t:
        sh(["cp", "-a", d + "/.", t])
        for f in os.listdir(t):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                os.unlink(t + "/" + f)
        t0 = time.time()
        r = sh(["bash", t + "/demo.sh"], cwd=REPO, timeout=300)
        return r.returncode, time.time() - t0, r.stdout

assert sh(["git", "-C", REPO, "status", "--porcelain"]).stdout == ""
for i in ids:
    d = f"{ROOT}/seeded/{i}"
    m = json.load(open(d + "/meta.json"))
    line = [i, m["property"]]
    try:
        rc, dt, out = demo(d)
        line.append(f"demo-clean={rc}({dt:.0f}s)")
        if rc: print(out[-1500:])
        r = sh(["git", "-C", REPO, "apply", d + "/patch.diff"])
        if r.returncode:
            line.append("NO-APPLY " + r.stdout[:300]); continue
        r = sh(["bash", "/opt/vp/build.sh"], cwd=REPO)
        if r.returncode:
            line.append("NO-BUILD"); print(r.stdout[-2500:]); continue
        if "no-tests" not in opts:
            sh(["bash", "/opt/vp/test.sh", "/tmp/plant-out.json"], cwd=REPO)
            o = json.load(open("/tmp/plant-out.json"))
            passed = set(o.get("passed", o.get("pass", [])))
            bad = stable - passed
            line.append("tests=ok" if not bad else f"tests=FAIL{sorted(bad)[:4]}")
        rc, dt, out = demo(d)
        line.append(f"demo-bug={rc}")
        if rc == 0 or "could not compile" in out: print(out[-1500:])
        if "no-check" not in opts:
            for c in [m["property"]] + [c for c in opts.get("checks", "").split(",") if c]:
                t0 = time.time()
                r = sh([sys.executable, ROOT + "/check.py", c, opts.get("tier") or "quick"], cwd=ROOT)
                hit = r.returncode == 1 and f"VIOLATION property={c} " in r.stdout
                line.append(f"{c}={'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode}({time.time()-t0:.0f}s)")
                print("    " + "\n    ".join(r.stdout.strip().splitlines()[:3])[:600])
    finally:
        clean()
        print(" ".join(line), flush=True)
