#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     run one check
   check.py replay <file>                   run the failing case of a replay file again
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself failed."""
import json, os, re, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "gen"))

BACKENDS = ["avx2", "sse2", "fallback"]
BOTH = [("release", None), ("checked", None)]
# property -> runs of the explorer (profile, escape implementation)
MC = {
    "C01": [(p, b) for p in ("release", "checked") for b in BACKENDS],
    "C02": [("release", b) for b in BACKENDS] + [("asan", b) for b in BACKENDS],
    "C03": [("release", None)],
    "C04": [("release", None)],
    "C05": BOTH,
    "C06": BOTH,
    "C07": BOTH,
    "C08": BOTH,
    "C09": BOTH,
    "C21": BOTH,
    "C22": BOTH,
    "C23": BOTH,
    "C24": BOTH,
    "C25": BOTH,
    "C26": [("plain", None)],
    "C27": BOTH,
}
ASSUME = json.load(open(os.path.join(ROOT, "assumptions.json")))


class Broken(Exception):
    """The check could not do its work."""


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "RUSTDOC")) and k not in ("CARGO_HOME",):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise Broken(f"timeout: {cmd}")


def cargo_mc(prop, profile):
    if profile == "asan":
        r = sh(["cargo", "+nightly", "build", "--offline", "--locked", "--release", "--target", "x86_64-unknown-linux-gnu"], 600, cwd=ROOT + "/mc-asan",
               env=env(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=BUILD + "/asan", RUSTFLAGS="-Zsanitizer=address"))
        exe = BUILD + "/asan/x86_64-unknown-linux-gnu/release/mc-asan"
    else:
        r = sh(["cargo", "build", "--offline", "--locked", "--profile", profile, "--features", prop.lower()], 600, cwd=ROOT + "/mc",
               env=env(CARGO_TARGET_DIR=f"{BUILD}/mc"))
        exe = f"{BUILD}/mc/{profile}/mc"
    if r.returncode != 0:
        raise Broken(f"building the {profile} explorer failed:\n" + r.stdout[-6000:])
    return exe


def run_mc(prop, tier):
    """Builds and runs the explorer in every configuration. Returns (reports, violations)."""
    runs = MC[prop]
    profiles = list(dict.fromkeys(p for p, _ in runs))
    exes, errs = {}, []

    def build(p):
        try:
            exes[p] = cargo_mc(prop, p)
        except Broken as e:
            errs.append(str(e))

    ts = [threading.Thread(target=build, args=(p,)) for p in profiles]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Broken(errs[0])
    out = f"{BUILD}/out/{prop}"
    os.makedirs(out, exist_ok=True)
    reports, violations = [], []
    for p, b in runs:
        name = f"{prop.lower()}.{p}" + (f"-{b}" if b else "")
        rep = f"{out}/{name}.json"
        if os.path.exists(rep):
            os.unlink(rep)
        cmd = [exes[p], prop.lower(), f"tier={tier}", f"profile={p}", f"dir={out}"] + ([f"backend={b}"] if b else [])
        r = sh(cmd, 850 if tier == "quick" else 6 * 3600, cwd=out, env=env(ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_abort=0"))
        if r.returncode not in (0, 1) or not os.path.exists(rep):
            raise Broken(f"{name}: exit code {r.returncode}\n{r.stdout[-4000:]}")
        j = json.load(open(rep))
        reports.append(j)
        for v in j["violations"]:
            violations.append({"what": v["what"], "config": name, "profile": p, "backend": b, "case": v["case"]})
        if j["errors"] and not j["violations"]:
            raise Broken(f"{name}: {j['errors']}")
        if j["violations"]:
            break  # one configuration with a counterexample is enough
        if j["states"] == 0 or j["transitions"] == 0 and b in (None, "avx2") or j["distinct_outcomes"] < 2:
            raise Broken(f"{name}: explored nothing")
    return reports, violations


def evidence_mc(prop, tier, reports):
    cov = {
        "states": sum(r["states"] for r in reports),
        "transitions": sum(r["transitions"] for r in reports),
        "traces_validated_against_impl": sum(r["traces"] for r in reports),
        "distinct_outcomes_per_run": [r["distinct_outcomes"] for r in reports],
        "outcome_count_capped": any(r["outcome_cap"] for r in reports),
        "runs": {r["profile"]: {"cases": r["cases"], "states": r["states"], "transitions": r["transitions"], "traces": r["traces"], "wall_s": r["wall_s"], **r["counters"]} for r in reports},
        "samples": [s for r in reports for s in r["samples"]][:10],
        "exhaustive": True,
    }
    return cov


def known_findings():
    out = []
    for l in open(ROOT + "/known-findings.txt"):
        l = l.strip()
        if l.startswith("finding:"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            out.append((m.group(1), m.group(2), m.group(3)))
    return out


def main(prop, tier):
    t0 = time.time()
    for d in ("evidence", "replays", "build"):
        os.makedirs(f"{ROOT}/{d}", exist_ok=True)
    for f in os.listdir(f"{ROOT}/replays"):
        if f.startswith(prop + "."):
            os.unlink(f"{ROOT}/replays/{f}")
    if prop in MC:
        reports, violations = run_mc(prop, tier)
        cov = evidence_mc(prop, tier, reports)
    else:
        import templates
        cov, violations = templates.run(prop, tier, sys.modules[__name__])
    known, new = [], []
    kf = [(k, w) for p, k, w in known_findings() if p == prop]
    for v in violations:
        hit = [w for k, w in kf if v.get("key") == k]
        (known if hit else new).append((v, hit))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": ASSUME["all"] + ASSUME.get(prop, []), "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    json.dump(ev, open(f"{ROOT}/evidence/{prop}.json", "w"), indent=1)
    for v, hit in known:
        print(f"KNOWN-FINDING: property={prop} {hit[0]}")
    for i, (v, _) in enumerate(new[:5]):
        path = f"{ROOT}/replays/{prop}.{i}.json"
        json.dump({"property": prop, "tier": tier, **v}, open(path, "w"), indent=1)
        print(f"  {v.get('config', '')} {v['what'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    if not new:
        print(f"{prop}: held on {cov['states']} states, {cov['transitions']} transitions ({ev['wall_s']} s)")
    return 1 if new else 0


def replay(path):
    j = json.load(open(path))
    print(j["what"])
    if j["property"] in MC:
        exe = cargo_mc(j["property"], j["profile"])
        os.makedirs(f"{BUILD}/out", exist_ok=True)
        cmd = [exe, j["property"].lower(), f"tier={j['tier']}", f"profile={j['profile']}", f"dir={BUILD}/out", f"only={j['case']}"] + ([f"backend={j['backend']}"] if j["backend"] else [])
        return subprocess.run(cmd, env=env(ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_abort=0")).returncode
    import templates
    return templates.replay(j, sys.modules[__name__])


if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1].upper(), sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except Broken as e:
        print(f"ERROR {sys.argv[1]}: {e}", file=sys.stderr)
        sys.exit(2)
