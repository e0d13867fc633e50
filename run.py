#!/usr/bin/env python3
"""Runs the checks of /verif.

  run.py check <ID>     decide one property (tier from VERIF_TIER, or --tier)
  run.py setup          build both test binaries once (warms the build cache)
  run.py replay <FILE>  run the test of a replay file again, on that case
Exit codes: 0 held, 1 violation, 2 and up: the check itself could not answer.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BOOCHECK_REPO", "/repo")  # only for development
sys.path.insert(0, os.path.join(HERE, "tools"))
import checks  # noqa: E402

BOO = "github.com/rmera/boo"


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off",
             GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"),
             GOMODCACHE=e.get("GOMODCACHE", "/root/go/pkg/mod"), GOWORK="off")
    for k in list(e):
        if k.startswith("BOOCHECK_") or k.startswith("GORACE") or k == "GODEBUG":
            del e[k]
    return e


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def build(scratch, race, fuzz=False):
    """Builds the harness against the working tree; returns the binary."""
    env = goenv()
    goroot = subprocess.run(["go", "env", "GOROOT"], env=env, capture_output=True, text=True).stdout.strip()
    src = os.path.join(goroot, "src/math/rand/v2/rand.go")
    text = open(src).read()
    old = "\treturn runtime_rand()\n"
    if text.count(old) != 1:
        die("math/rand/v2 looks different from what the overlay expects")
    text = text.replace(old, "\tif v, ok := verifNext(); ok {\n\t\treturn v\n\t}\n" + old)
    od = os.path.join(scratch, "overlay")
    os.makedirs(od, exist_ok=True)
    open(os.path.join(od, "rand.go"), "w").write(text)
    ov = {"Replace": {src: os.path.join(od, "rand.go"),
                      os.path.join(os.path.dirname(src), "verif.go"): os.path.join(HERE, "overlay/verif.go")}}
    ovf = os.path.join(od, "overlay.json")
    json.dump(ov, open(ovf, "w"))
    gm = os.path.join(scratch, "go.mod")
    m = open(os.path.join(HERE, "harness/go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(gm, "w").write(m)
    shutil.copy(os.path.join(HERE, "harness/go.sum"), os.path.join(scratch, "go.sum"))
    out = os.path.join(scratch, "race.bin" if race else "fuzz.bin" if fuzz else "check.bin")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", gm, "-overlay", ovf, "-o", out]
    if race:
        cmd.insert(3, "-race")
    if fuzz:
        cmd.insert(3, "-fuzz=FuzzCase")  # coverage counters in the library
    p = subprocess.run(cmd + ["."], cwd=os.path.join(HERE, "harness"), env=env, capture_output=True, text=True)
    if p.returncode != 0:
        die("the harness does not build:\n" + p.stdout + p.stderr)
    return out


def start(binary, scratch, name, pattern, seed, scale, tier, extra=()):
    d = os.path.join(scratch, name)
    os.makedirs(d, exist_ok=True)
    env = goenv()
    if "REPLAY_FUZZ" in env:
        env["BOOCHECK_FUZZ"] = env["REPLAY_FUZZ"]
    env.update(BOOCHECK_SEED=str(seed), BOOCHECK_SCALE=repr(scale), BOOCHECK_TIER=tier,
               BOOCHECK_STATS=os.path.join(d, "stats.json"), BOOCHECK_CASE=os.path.join(d, "case.txt"),
               GOMAXPROCS="4", GORACE="halt_on_error=1 exitcode=66", TMPDIR=d, GOTRACEBACK="all")
    log = open(os.path.join(d, "log.txt"), "w")
    cmd = [binary, "-test.run", pattern, "-test.timeout", "0", "-test.v", "-rapid.shrinktime", "15s", *extra]
    p = subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return {"p": p, "dir": d, "name": name, "seed": seed, "pattern": pattern, "log": log, "binary": os.path.basename(binary)}


def start_fuzz(binary, plain, scratch, test, seed, secs):
    """Coverage-guided search on the property of one test."""
    d = os.path.join(scratch, "fuzz-" + test)
    os.makedirs(d)
    env = goenv()
    env.update(BOOCHECK_SEED=str(seed), BOOCHECK_SCALE="1.0", BOOCHECK_FUZZ=test, BOOCHECK_STATS=os.path.join(d, "stats.json"),
               BOOCHECK_CASE=os.path.join(d, "case.txt"), GOMAXPROCS="2", TMPDIR=d, GOTRACEBACK="all")
    log = open(os.path.join(d, "log.txt"), "w")
    cmd = [binary, "-test.run", "^$", "-test.fuzz", "^FuzzCase$", "-test.fuzzcachedir", os.path.join(d, "cache"),
           "-test.fuzztime", "%ds" % secs, "-test.fuzzminimizetime", "20x",
           "-test.parallel", "1" if test[:7] in ("TestC13", "TestC14") else "2",  # those write files into the directory they run in
           "-test.timeout", "0"]
    p = subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return {"p": p, "dir": d, "name": "fuzz-" + test, "seed": seed, "pattern": "^FuzzCase$", "log": log, "binary": "check.bin",
            "fuzz": test, "plain": plain, "env": env}


def judge_fuzz(run):
    """A failure counts when the saved input fails again in a plain run."""
    if run["p"].returncode == 0:
        return "ok"
    log = open(os.path.join(run["dir"], "log.txt"), errors="replace").read()
    found = sorted(glob.glob(os.path.join(run["dir"], "testdata/fuzz/FuzzCase/*")))
    if not found and "context deadline exceeded" in log:  # the engine ran out of time, nothing else
        return "ok"
    for i in range(3):
        r = dict(run, dir=os.path.join(run["dir"], "again%d" % i))
        os.makedirs(r["dir"])
        if found:  # otherwise it was one of the inputs the search starts from
            shutil.copytree(os.path.join(run["dir"], "testdata"), os.path.join(r["dir"], "testdata"))
        env = dict(run["env"], BOOCHECK_STATS=os.path.join(r["dir"], "stats.json"), BOOCHECK_CASE=os.path.join(r["dir"], "case.txt"))
        with open(os.path.join(r["dir"], "log.txt"), "w") as log:
            r["p"] = subprocess.Popen([run["plain"], "-test.run", "^FuzzCase$", "-test.v", "-test.timeout", "0"], cwd=r["dir"],
                                      env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            r["p"].wait()
        v = judge(dict(r, fuzz=None))
        if v != "ok":
            run["dir"], run["input"] = r["dir"], found[0] if found else None
            return v
    run["unreproduced"] = True
    return "ok"


def judge(run):
    """'ok', ('violation', why) or ('error', why) for one finished process."""
    if run.get("fuzz"):
        if "verdict" not in run:
            run["verdict"] = judge_fuzz(run)
        return run["verdict"]
    rc = run["p"].returncode
    log = open(os.path.join(run["dir"], "log.txt"), errors="replace").read()
    if rc == 0 and "\nPASS" in log and "no tests to run" not in log:
        if not os.path.exists(os.path.join(run["dir"], "stats.json")):
            return ("error", "no statistics written")
        return "ok"
    if "HARNESS-ERROR" in log:
        return ("error", "the harness reports an error of its own")
    if "out of memory" in log or rc in (-9, 137):
        return ("error", "ended from outside or out of memory")
    if "WARNING: DATA RACE" in log:
        return ("violation", "data race") if BOO in log else ("error", "data race outside the library")
    if re.search(r"^(panic:|fatal error:|goroutine stack exceeds|runtime: goroutine stack exceeds)", log, re.M):
        # the whole process went down: blame the library only if it was running
        tail = log[re.search(r"^(panic:|fatal error:|goroutine stack exceeds|runtime: goroutine stack exceeds)", log, re.M).start():]
        if BOO in tail:
            return ("violation", "the library brought the process down")
        return ("error", "the harness process crashed")
    m = re.search(r"^BROKEN: (.*)", log, re.M)
    if m:
        return ("violation", m.group(1))
    fails = re.findall(r"^\s*--- FAIL: (\S+)", log, re.M)
    if fails:
        real = [f for f in fails]
        only = re.findall(r"\[rapid\] only generated", log)
        bad = re.findall(r"\[rapid\] (?:failed|panic|flaky)", log)
        plain = "BROKEN:" in log
        if not bad and not plain and only:
            return ("error", "the generator discarded too many cases")
        return ("violation", ", ".join(real))
    return ("error", "exit status %s" % rc)


def report(prop, runs):
    """Copies the evidence of a violation and prints the line."""
    run, why = runs[0]
    rdir = os.path.join(HERE, "replays", prop)
    os.makedirs(rdir, exist_ok=True)
    stem = os.path.join(rdir, "%s-%s" % (run["name"], run["seed"]))
    log = open(os.path.join(run["dir"], "log.txt"), errors="replace").read()
    fails = sorted(glob.glob(os.path.join(run["dir"], "testdata/rapid/*/*.fail")))
    test, failfile = run["pattern"], None
    if fails:
        failfile = stem + ".fail"
        shutil.copy(fails[0], failfile)
        test = "^%s$" % os.path.basename(os.path.dirname(fails[0]))
    if run.get("input"):
        failfile = stem + ".input"
        shutil.copy(run["input"], failfile)
    case = os.path.join(run["dir"], "case.txt")
    info = {"property": prop, "why": why, "test": test, "seed": run["seed"], "scale": run["scale"], "tier": run["tier"],
            "binary": run["binary"], "fuzz": run.get("fuzz"), "failfile": os.path.basename(failfile) if failfile else None,
            "case": open(case, errors="replace").read()[:200000] if os.path.exists(case) else None,
            "log": log[-60000:] if len(log) > 60000 else log}
    path = stem + ".json"
    json.dump(info, open(path, "w"), indent=1)
    print(log[-6000:])
    print("%s: %s" % (prop, why))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def check(prop, tier):
    t0 = time.time()
    c = checks.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = tempfile.mkdtemp(prefix="boocheck-%s-" % prop)
    procs = []
    rc = 3
    try:
        b = build(scratch, False)
        rb = build(scratch, True) if c.get("race") else None
        thorough = tier == "thorough"
        shards = 6
        plan = []
        for s in range(shards):
            plan.append((b, "shard%d" % s, "^Test%s_" % prop, s))
        if rb:
            for s in range(2):
                plan.append((rb, "race%d" % s, "^TestRace%s_" % prop, 100 + s))
        scale = float(c.get("thorough_scale", 12)) if thorough else 1.0
        limit = 3600 * 2 if thorough else 780
        for binary, name, pat, s in plan:
            r = start(binary, scratch, name, pat, seed * 1000 + s + 1, scale, tier)
            r["scale"], r["tier"] = scale, tier
            procs.append(r)
        if thorough and c.get("fuzz"):
            fb = build(scratch, False, True)
            for i, test in enumerate(c["fuzz"]):
                r = start_fuzz(fb, b, scratch, test, seed * 1000 + 200 + i, c.get("fuzz_secs", 300))
                r["scale"], r["tier"] = 1.0, tier
                procs.append(r)
        end = t0 + limit
        # wait for all of them, or for the first that finds a violation
        left = list(procs)
        while left and time.time() < end:
            for r in list(left):
                if r["p"].poll() is not None:
                    left.remove(r)
                    v = judge(r)
                    if v != "ok" and v[0] == "violation":
                        end = 0
            if left and end:
                time.sleep(0.1)
        for r in left:
            os.killpg(r["p"].pid, signal.SIGKILL)
            r["p"].wait()
            r["timeout" if end else "stopped"] = True
        verdicts = [(r, ("error", "time limit") if r.get("timeout") else judge(r)) for r in procs if not r.get("stopped")]
        viol = [(r, v[1]) for r, v in verdicts if v != "ok" and v[0] == "violation"]
        errs = [(r, v[1]) for r, v in verdicts if v != "ok" and v[0] == "error"]
        write_evidence(prop, c, tier, seed, procs, len(viol), time.time() - t0)
        if viol:
            report(prop, viol)
            rc = 1
        elif errs:
            r, why = errs[0]
            print(open(os.path.join(r["dir"], "log.txt"), errors="replace").read()[-4000:])
            print("ERROR: %s of %s: %s" % (r["name"], prop, why))
            rc = 3
        else:
            rc = 0
            print("%s held (%s tier, seed %d, %.0f s)" % (prop, tier, seed, time.time() - t0))
    finally:
        for r in procs:
            try:
                os.killpg(r["p"].pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            r["log"].close()
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def write_evidence(prop, c, tier, seed, procs, nviol, wall):
    evals, hashes, samples, classes = 0, set(), [], {}
    for r in procs:
        if r.get("fuzz"):
            log = open(os.path.join(r["dir"], "log.txt"), errors="replace").read()
            m = re.findall(r"execs: (\d+) .*new interesting: (\d+)", log)
            if m:
                classes["coverage-guided executions, " + r["fuzz"]] = int(m[-1][0])
                classes["coverage-guided inputs with new coverage, " + r["fuzz"]] = int(m[-1][1])
            if r.get("unreproduced"):
                classes["coverage-guided failures that did not occur again, " + r["fuzz"]] = 1
        for f in sorted(glob.glob(os.path.join(r["dir"], "stats.json*"))):
            try:
                s = json.load(open(f))
            except (OSError, ValueError):
                continue
            evals += s["evals"]
            hashes.update(s["hashes"])
            if len(samples) < 6:
                samples += (s["samples"] or [])[:2]
            for k, v in s["classes"].items():
                classes[k] = classes.get(k, 0) + v
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": c["rule"],
                       "samples": samples, "classes": dict(sorted(classes.items())),
                       "processes": len(procs)},
          "assumptions": checks.ASSUMPTIONS + c.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


def replay(path):
    info = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="boocheck-replay-")
    try:
        b = build(scratch, info["binary"] == "race.bin")
        extra = []
        if info.get("fuzz"):
            os.environ["REPLAY_FUZZ"] = info["fuzz"]
            if info["failfile"]:
                d = os.path.join(scratch, "replay/testdata/fuzz/FuzzCase")
                os.makedirs(d)
                shutil.copy(os.path.join(os.path.dirname(os.path.abspath(path)), info["failfile"]), os.path.join(d, "input"))
        elif info["failfile"]:
            extra = ["-rapid.failfile", os.path.join(os.path.dirname(os.path.abspath(path)), info["failfile"])]
        r = start(b, scratch, "replay", info["test"], info["seed"], info["scale"], info["tier"], extra)
        r["p"].wait()
        print(open(os.path.join(r["dir"], "log.txt"), errors="replace").read()[-20000:])
        v = judge(r)
        print("replay of %s: %s" % (info["property"], "does not fail" if v == "ok" else v))
        sys.exit(0 if v == "ok" else 1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "setup":
        scratch = tempfile.mkdtemp(prefix="boocheck-setup-")
        try:
            build(scratch, False)
            build(scratch, True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print("ready")
    elif a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(a) > 2:
            tier = a[2]
        check(a[1], tier if tier in ("quick", "thorough") else "quick")
    elif a[0] == "replay":
        replay(a[1])
    else:
        die("unknown command " + a[0])


main()
