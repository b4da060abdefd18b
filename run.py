#!/usr/bin/env python3
"""Runs the check of one property.

usage: run.py ID [--replay FAILFILE --test TESTNAME]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough), CXO_REPO
(default /repo). Exit code: 0 the property held on everything explored, 1 it
is broken (and the line VIOLATION property=ID replay=PATH), 2 and above: the
check could not decide (build failure, time out, no memory, ...).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CXO_REPO", "/repo")


def die(code, msg):
    print(msg, flush=True)
    sys.exit(code)


def go_env():
    env = dict(os.environ)
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
               GO111MODULE="on", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1",
               GOFLAGS_EXTRA="")
    return env


def main():
    args = sys.argv[1:]
    if not args:
        die(2, __doc__)
    pid = args[0]
    replay = test = None
    if "--replay" in args:
        replay = os.path.abspath(args[args.index("--replay") + 1])
    if "--test" in args:
        test = args[args.index("--test") + 1]
    conf = json.load(open(os.path.join(VERIF, "checks.json")))[pid]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    work = tempfile.mkdtemp(prefix="cxo-%s-" % pid, dir=base)
    try:
        code = run(pid, conf, tier, seed, work, replay, test, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def build(conf, part, work):
    """compiles test binary of the harness package against REPO's tree"""
    race = bool(part.get("race"))
    env = go_env()
    env["CGO_ENABLED"] = "1" if race else "0"
    hdir = os.path.join(VERIF, "h")
    mod = os.path.join(work, "cxo.mod")
    with open(mod, "w") as f:
        f.write("module github.com/skycoin/cxo\n\ngo 1.23\n")
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(REPO, "go.mod"): mod}}, f)
    modfile = os.path.join(work, "h.mod")
    src = open(os.path.join(hdir, "go.mod")).read()
    src = src.replace("../shims/", os.path.join(VERIF, "shims") + "/")
    src = src.replace("=> /repo", "=> " + REPO)
    open(modfile, "w").write(src)
    shutil.copy(os.path.join(hdir, "go.sum"), os.path.join(work, "h.sum"))
    # programs the tests start
    for name, path in part.get("bins", {}).items():
        exe = os.path.join(work, "bin", name)
        if os.path.exists(exe):
            continue
        p = subprocess.run(["go", "build", "-overlay", ov, "-modfile", modfile, "-o", exe,
                            "github.com/skycoin/cxo/" + path],
                           cwd=hdir, env=dict(env, CGO_ENABLED="0"), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=840)
        if p.returncode != 0 or not os.path.exists(exe):
            die(2, p.stdout[-6000:] + "\nERROR: %s does not build" % path)
    out = os.path.join(work, "t-%s%s" % (part["pkg"].replace("/", "_"), "-race" if race else ""))
    if os.path.exists(out):
        return out
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-modfile", modfile, "-o", out]
    if race:
        cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
    cmd += ["./" + part["pkg"]]
    p = subprocess.run(cmd, cwd=hdir, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=840)
    if p.returncode != 0 or not os.path.exists(out):
        die(2, p.stdout[-6000:] + "\nERROR: the harness does not build against %s" % REPO)
    return out


GRACE = 60  # seconds other processes of a check are given after a violation

CXO_FRAME = re.compile(r"^github\.com/skycoin/cxo/", re.M)


def classify(rc, out, to):
    """-> (verdict, reason): ok | violation | error"""
    if to:
        return "error", "time out"
    if "PBT-INFRA" in out:
        return "error", "harness failure"
    if "PBT-HANG" in out:
        return "violation", "an operation that should terminate hangs"
    if rc == 0:
        return "ok", ""
    if rc < 0:
        return "error", "killed by signal %d" % -rc
    if "panic: test timed out" in out:
        return "error", "time out"
    if "out of memory" in out or "cannot allocate memory" in out:
        return "error", "no memory"
    if "WARNING: DATA RACE" in out and CXO_FRAME.search(re.sub(r"^ +", "", out, flags=re.M)):
        return "violation", "data race"
    if rc == 1 and "--- FAIL" in out:
        return "violation", "a generated case fails"
    m = re.search(r"^(panic: |fatal error: |unexpected fault address).*$", out, re.M)
    if m:
        tail = out[m.start():]
        # goroutine that panics is printed first
        first = tail.split("\n\ngoroutine ")[0] if "\n\ngoroutine " in tail else tail
        blocks = tail.split("\n\n")
        first = "\n".join(blocks[:2])
        # values returned by the code under test are used by the harness, so
        # a panic there counts too (on the unchanged tree there is none)
        if CXO_FRAME.search(first) or not m.group(0).startswith("fatal error") \
                or re.search("concurrent map|stack overflow|asleep|unlock of unlocked", m.group(0)):
            return "violation", m.group(0)
        return "error", "the harness crashed: " + m.group(0)
    return "error", "exit code %d" % rc


def run(pid, conf, tier, seed, work, replay, test, t0):
    parts = conf["parts"]
    jobs = []
    for i, part in enumerate(parts):
        if part.get("tier") == "thorough" and tier != "thorough":
            continue
        binary = build(conf, part, work)
        shards = part.get("shards_thorough" if tier == "thorough" else "shards", 1)
        if replay:
            shards = 1
        for s in range(shards):
            jobs.append((i, part, binary, s))
    budget = 3300 if tier == "thorough" else 800
    results = [None] * len(jobs)
    failed = []  # when violations were found
    sem = threading.Semaphore(int(os.environ.get("VERIF_JOBS", "8")))

    def work_one(k):
        i, part, binary, s = jobs[k]
        with sem:
            if failed:
                results[k] = (0, "", False, work)
                return
            d = os.path.join(work, "run-%d" % k)
            sc = os.path.join(d, "scratch")
            os.makedirs(sc)
            env = go_env()
            env.update(PBT_OUT=os.path.join(d, "out.json"), PBT_SCRATCH=sc,
                       PBT_SEED=str(((seed * 1000003 + s * 7919 + 17) % (1 << 31)) or 1),
                       PBT_SHARD=str(s), PBT_BIN=os.path.join(work, "bin"), VERIF_TIER=tier, TMPDIR=sc,
                       PBT_KNOWN=os.path.join(VERIF, "known-findings.txt"))
            if part.get("scale"):
                env["PBT_SCALE"] = str(part["scale"])
            if part.get("race"):
                env["GORACE"] = "halt_on_error=1 exitcode=66"
            env.update(part.get("env", {}))
            rx = test or part["run"]
            if replay:
                env["PBT_FAILFILE"] = replay
            left = max(30, budget - (time.time() - t0))
            cmd = [binary, "-test.run", rx, "-test.v", "-test.timeout", "%ds" % int(left), "-test.count=1"]
            to = False
            with open(os.path.join(d, "log"), "w") as lf:
                p = subprocess.Popen(cmd, cwd=d, env=env, stdout=lf, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL)
                end = time.time() + left + 20
                while True:
                    try:
                        rc = p.wait(timeout=0.5)
                        break
                    except subprocess.TimeoutExpired:
                        # another part has failed and had time to shrink, or
                        # this one takes too long
                        to = time.time() > end
                        if to or (failed and time.time() > failed[0] + GRACE):
                            p.kill()
                            rc = p.wait()
                            break
            out = open(os.path.join(d, "log"), errors="replace").read()
            results[k] = (rc, out, to, d)
            if classify(rc, out, to)[0] == "violation":
                failed.append(time.time())

    ths = [threading.Thread(target=work_one, args=(k,)) for k in range(len(jobs))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    evaluations, distinct, samples, classes, pcount, known = 0, set(), [], {}, {}, set()
    violations, errors = [], []
    for k, (rc, out, to, d) in enumerate(results):
        v, why = classify(rc, out, to)
        if v == "violation":
            violations.append((k, why))
        elif v == "error":
            errors.append((k, why))
        try:
            o = json.load(open(os.path.join(d, "out.json")))
        except Exception:
            continue
        evaluations += o["evaluations"]
        distinct.update(o["distinct"] or [])
        for c, n in (o["classes"] or {}).items():
            classes[c] = classes.get(c, 0) + n
        for c, n in (o["parts"] or {}).items():
            pcount[c] = pcount.get(c, 0) + n
        if o["samples"] and len(samples) < 12:
            samples += o["samples"][:4]
        known.update(o["known"] or [])

    nrun = len(re.findall(r"^--- PASS|^=== RUN", "\n".join(r[1] for r in results), re.M))
    if not violations and not errors and (evaluations == 0 or nrun == 0):
        errors.append((0, "nothing was run"))

    if not replay:
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": len(distinct),
                "rule": conf["rule"],
                "samples": samples or ["(no non-trivial case completed)"],
                "cases_per_part": pcount, "classes": dict(sorted(classes.items())),
                "processes": len(jobs),
            },
            "assumptions": conf.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")

    for line in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    if violations:
        k, why = violations[0]
        rc, out, to, d = results[k]
        rdir = os.path.join(VERIF, "replays", pid)
        os.makedirs(rdir, exist_ok=True)
        name = "%s-seed%d" % (tier, seed)
        path = os.path.join(rdir, name + ".txt")
        ff = None
        for root, _, files in os.walk(os.path.join(d, "testdata")):
            for fn in files:
                if fn.endswith(".fail"):
                    ff = os.path.join(rdir, name + ".fail")
                    shutil.copy(os.path.join(root, fn), ff)
                    tname = os.path.basename(root)
        shown = out
        i = shown.find("--- FAIL")
        if len(shown) > 200000:
            shown = shown[:60000] + "\n...\n" + shown[-120000:]
        with open(path, "w") as f:
            f.write("property %s: %s\n" % (pid, why))
            if ff:
                f.write("replay: python3 run.py %s --replay %s --test '^%s$'\n" % (pid, ff, tname))
            f.write("or: VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s\n\n" % (seed, tier, pid))
            f.write(shown)
        brief = re.sub(r"(?m)^.*\[rapid\] draw .*\n", "", out)
        j = brief.find("--- FAIL")
        print(brief[-6000:] if j < 0 else brief[max(0, j - 5000):j + 2500])
        print("reason: %s" % why)
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        k, why = errors[0]
        print(results[k][1][-4000:])
        print("ERROR: no answer: %s" % why)
        return 3
    print("OK property=%s cases=%d distinct_nontrivial=%d wall=%.1fs" %
          (pid, evaluations, len(distinct), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
