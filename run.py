#!/usr/bin/env python3
"""Runs one property check:  run.py <PROPERTY> [quick|thorough]
                             run.py --replay <replay.json>
                             run.py --setup

Builds the harness package of the property against /repo's current working tree, runs it in
parallel shards, merges their statistics into evidence/<PROPERTY>.json and reports
exit 0 (held), exit 1 + 'VIOLATION property=<id> replay=<path>' (broken), exit 2 (no answer)."""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def goenv():
    """The environment of /opt/vp/env.sh, with -mod=mod for the harness module."""
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                             capture_output=True, env=e).stdout
        e = dict(kv.split("=", 1) for kv in out.decode("utf-8", "replace").split("\0") if "=" in kv)
    except Exception:
        pass
    e["GOFLAGS"] = "-mod=mod"
    e["GOPROXY"] = "off"
    e["GOTOOLCHAIN"] = "local"
    e["GOWORK"] = "off"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build(pkg, out, race, env, log, fuzz=False):
    cmd = ["go", "test", "-c", "-o", out]
    if race:
        cmd.append("-race")
        env = dict(env, CGO_ENABLED="1")
    # the harness has its own go.mod; go may want to touch go.sum, so work on a copy of both
    cmd += ["-modfile", os.path.join(os.path.dirname(out), "go.mod"), "./" + pkg]
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HARNESS, f), os.path.dirname(out))
    p = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        log(p.stdout + p.stderr)
        return False
    return True


def limits(as_bytes):
    def f():
        os.setsid()
        if as_bytes:
            resource.setrlimit(resource.RLIMIT_AS, (as_bytes, as_bytes))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


FATAL = [
    (r"WARNING: DATA RACE", "data race"),
    (r"fatal error: concurrent map", "concurrent map access"),
    (r"fatal error: all goroutines are asleep", "deadlock"),
    (r"goroutine stack exceeds", "stack overflow"),
    (r"fatal error: sync: ", "misused lock"),
    (r"fatal error: fault", "memory fault"),
    (r"panic: ", "panic"),
]
OOM = r"out of memory|cannot allocate memory|errno=12"


def known_findings(pid):
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                res.append(line.rstrip("\n"))
    return res


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        return setup()
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = CHECKS[pid]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run(pid, cfg, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    env = goenv()
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    ok = True
    try:
        for pkg, race in sorted({(c["pkg"], bool(c.get("race"))) for c in CHECKS.values()}):
            if not build(pkg, os.path.join(tmp, "t.test"), race, env, lambda s: sys.stderr.write(s)):
                ok = False
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0 if ok else 2


def run(pid, cfg, tier, seed, tmp, t0):
    env = goenv()
    err = lambda s: sys.stderr.write(s + "\n")
    binary = os.path.join(tmp, "check.test")
    race = bool(cfg.get("race"))
    if not build(cfg["pkg"], binary, race, env, err):
        err("ERROR: the harness does not build against /repo")
        return 2
    shards = int(os.environ.get("VERIF_SHARDS_N", cfg.get("shards", 8)))
    stats_dir = os.path.join(tmp, "stats")
    os.mkdir(stats_dir)
    limit = int(cfg.get("timeout_quick" if tier == "quick" else "timeout", 780 if tier == "quick" else 6000))
    procs = []
    for s in range(shards):
        cwd = os.path.join(tmp, "shard%d" % s)
        os.mkdir(cwd)
        e = dict(env, VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_STATS=stats_dir, VERIF_SEED=str(seed),
                 VERIF_TIER=tier, VERIF_HARNESS=HARNESS, TMPDIR=cwd, HOME=cwd, GORACE="halt_on_error=1 exitcode=66",
                 GOMAXPROCS=str(cfg.get("procs", 2)), GOTRACEBACK="single")
        e["VERIF_SCALE"] = str(float(os.environ.get("VERIF_SCALE", "1")) * cfg.get("scale_" + tier, 1))
        outf = open(os.path.join(cwd, "out.txt"), "wb")
        cmd = [binary, "-test.run", cfg.get("run", "^Test%s_" % pid), "-test.timeout", "0", "-test.v=false"]
        procs.append((s, cwd, subprocess.Popen(cmd, cwd=cwd, env=e, stdout=outf, stderr=subprocess.STDOUT,
                                                preexec_fn=limits(0 if race else int(cfg.get("as_gb", 12) * (1 << 30))))))
        outf.close()
    deadline = time.time() + limit
    timed_out = False
    for s, cwd, p in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
    for s, cwd, p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    # ---- what happened ----
    violations, errors = [], []
    for s, cwd, p in procs:
        out = open(os.path.join(cwd, "out.txt"), errors="replace").read()
        if p.returncode == 0:
            continue
        if timed_out and p.returncode == -9:
            errors.append("shard %d did not finish in %d s" % (s, limit))
            continue
        kind = None
        hang = os.path.join(stats_dir, "hang.%d.txt" % s)
        if p.returncode == 3 and os.path.exists(hang):
            kind, out = "hang", open(hang, errors="replace").read()
        elif re.search(OOM, out) and not re.search(r"^--- FAIL|^    --- FAIL", out, re.M):
            if cfg.get("oom_violation"):
                kind = "out of memory"
            else:
                errors.append("shard %d ran out of memory\n%s" % (s, out[:3000]))
                continue
        elif "HARNESS-ERROR" in out:
            errors.append("shard %d: %s" % (s, out[-3000:]))
            continue
        elif re.search(r"^\s*--- FAIL", out, re.M):
            kind = "failed"
            if "flaky test" in out:
                kind = "failed (schedule-dependent)"
        if kind is None:
            for pat, k in FATAL:
                if re.search(pat, out):
                    kind = k
                    break
        if kind is None:
            errors.append("shard %d ended with %s\n%s" % (s, p.returncode, out[-3000:]))
            continue
        violations.append((s, cwd, kind, out))

    # fuzz (thorough only)
    fuzz_stats = []
    if tier == "thorough" and not violations and not errors:
        for target, secs in cfg.get("fuzz", []):
            v, n = fuzz(pid, cfg, target, secs, tmp, env)
            fuzz_stats.append({"target": target, "seconds": secs, "execs": n})
            if v:
                violations.append((0, v[0], "fuzz " + target, v[1]))
                break

    cov = merge(stats_dir, shards)
    if fuzz_stats:
        cov["coverage_guided"] = fuzz_stats
        cov["evaluations"] += sum(f["execs"] for f in fuzz_stats)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for line in known_findings(pid):
        print(line)
    if violations:
        path = save_replay(pid, cfg, tier, seed, shards, violations)
        s, cwd, kind, out = violations[0]
        sys.stderr.write("%s: %s in shard %d\n%s\n" % (pid, kind, s, out[:6000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        err("ERROR: " + "\n".join(errors)[:8000])
        return 2
    if cov["evaluations"] == 0:
        err("ERROR: nothing was explored")
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s" %
          (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], wall))
    return 0


def merge(stats_dir, shards):
    per, digests = {}, {}
    for f in sorted(glob.glob(os.path.join(stats_dir, "stats.*.json"))):
        for st in json.load(open(f)) or []:
            d = per.setdefault(st["name"], {"rule": st["rule"], "evaluations": 0, "nontrivial": 0, "classes": {},
                                            "samples": [], "exhaustive": st["exhaustive"]})
            d["evaluations"] += st["evaluations"]
            d["nontrivial"] += st["nontrivial"]
            for k, v in (st["classes"] or {}).items():
                d["classes"][k] = d["classes"].get(k, 0) + v
            if len(d["samples"]) < 3:
                d["samples"] += (st["samples"] or [])[:3 - len(d["samples"])]
            digests.setdefault(st["name"], set()).update(st["digests"] or [])
    sub, samples, rules = {}, [], []
    for n in sorted(per):
        d = per[n]
        d["distinct_nontrivial"] = len(digests[n])
        d["classes"] = dict(sorted(d["classes"].items()))
        for x in d["samples"][:2]:
            samples.append({"check": n, "case": x})
        rules.append("%s: %s" % (n, d["rule"]))
        sub[n] = {k: d[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "classes", "exhaustive")}
    return {"evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in per.values()),
            "rule": "cases are drawn by the generators of each sub-check; non-trivial means -- " + "; ".join(rules),
            "samples": samples, "sub_checks": sub, "shards": shards}


def save_replay(pid, cfg, tier, seed, shards, violations):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    # prefer a shard with a shrunk rapid reproduction
    best = None
    for s, cwd, kind, out in violations:
        fails = sorted(glob.glob(os.path.join(cwd, "testdata", "rapid", "*", "*.fail")))
        if fails and best is None:
            best = (s, cwd, kind, out, fails[0])
    if best is None:
        s, cwd, kind, out = violations[0]
        best = (s, cwd, kind, out, None)
    s, cwd, kind, out, ff = best
    m = re.search(r"^\s*--- FAIL: (\S+)", out, re.M)
    rec = {"property": pid, "kind": kind, "tier": tier, "seed": seed, "shard": s, "shards": shards, "pkg": cfg["pkg"],
           "race": bool(cfg.get("race")), "scale": cfg.get("scale_" + tier, 1), "test": m.group(1) if m else cfg.get("run", "^Test%s_" % pid),
           "failfile": open(ff).read() if ff else None, "log": out[:20000],
           "how": "python3 run.py --replay <this file>"}
    fz = re.search(r"Failing input written to (\S+)", out)
    if fz:
        p = os.path.join(cwd, fz.group(1))
        if os.path.exists(p):
            rec["fuzz_input"] = open(p, errors="replace").read()
            rec["fuzz_path"] = fz.group(1)
    path = os.path.join(d, "%s-seed%d-shard%d.json" % (pid, seed, s))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def fuzz(pid, cfg, target, secs, tmp, env):
    """One bounded coverage-guided campaign of a native fuzz target; returns (violation, execs)."""
    wd = os.path.join(tmp, "fuzz-" + target)
    shutil.copytree(HARNESS, wd)
    e = dict(env)
    log = os.path.join(tmp, "fuzz-%s.txt" % target)
    with open(log, "wb") as f:
        p = subprocess.Popen(["go", "test", "./" + cfg["pkg"], "-run", "^$", "-fuzz", "^%s$" % target, "-fuzztime", "%ds" % secs,
                              "-parallel", "8", "-test.fuzzcachedir", os.path.join(tmp, "fuzzcache")],
                             cwd=wd, env=e, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits(0))
        try:
            p.wait(timeout=secs + 300)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    out = open(log, errors="replace").read()
    n = 0
    for m in re.finditer(r"execs: (\d+)", out):
        n = int(m.group(1))
    if "Failing input written to" in out:
        return (os.path.join(wd, cfg["pkg"]), out), n
    return None, n


def replay(path):
    rec = json.load(open(path))
    env = goenv()
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = os.path.join(tmp, "check.test")
        if not build(rec["pkg"], binary, rec["race"], env, lambda s: sys.stderr.write(s)):
            return 2
        e = dict(env, VERIF_SHARD=str(rec["shard"]), VERIF_SHARDS=str(rec["shards"]), VERIF_SEED=str(rec["seed"]),
                 VERIF_TIER=rec["tier"], VERIF_SCALE=str(rec.get("scale", 1)), VERIF_HARNESS=HARNESS, TMPDIR=tmp, HOME=tmp, GORACE="halt_on_error=1 exitcode=66", GOMAXPROCS="2")
        cmd = [binary, "-test.run", rec["test"] if rec["test"].startswith("^") else "^%s$" % rec["test"], "-test.v"]
        if rec.get("fuzz_input"):
            p = os.path.join(tmp, rec["fuzz_path"])
            os.makedirs(os.path.dirname(p))
            open(p, "w").write(rec["fuzz_input"])
            cmd = [binary, "-test.run", "^%s$" % rec["fuzz_path"].split("/")[-2], "-test.v"]
        if rec.get("failfile"):
            ff = os.path.join(tmp, "case.fail")
            open(ff, "w").write(rec["failfile"])
            cmd += ["-rapid.failfile", ff]
        return 1 if subprocess.run(cmd, cwd=tmp, env=e).returncode else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
