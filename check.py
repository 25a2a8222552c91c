#!/usr/bin/env python3
"""check.py ID            decide property ID (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE  evaluate one saved case
Exit 0: held.  Exit 1: VIOLATION line.  Anything else: the check itself failed."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")

# per property: cases per shard (quick, thorough), needs the race-detector build
BUDGET = json.load(open(os.path.join(HERE, "budget.json")))

ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GONOSUMDB="*", GONOSUMCHECK="1")
ENV.setdefault("HOME", "/root")


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        die("%s: exit %d\n%s" % (" ".join(cmd), p.returncode, p.stdout[-4000:]))
    return p.stdout


def build(work, race):
    jobs = []
    env = dict(ENV, CGO_ENABLED="0")
    jobs.append(subprocess.Popen(["go", "build", "-o", work + "/yot", "./cmd/yot"], cwd=REPO, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    jobs.append(subprocess.Popen(["go", "test", "-c", "-o", work + "/harness.test", "."], cwd=HARNESS, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    if race:
        jobs.append(subprocess.Popen(
            ["go", "build", "-race", "-ldflags", "-linkmode external -extldflags -static", "-o", work + "/yotrace", "./cmd/yot"],
            cwd=REPO, env=dict(ENV, CGO_ENABLED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for j in jobs:
        out, _ = j.communicate()
        if j.returncode != 0:
            die("build failed\n" + out[-4000:])


def harness_env(work, out, race):
    e = dict(ENV, VERIF_OUT=out, YOT_BIN=work + "/yot", TMPDIR=work)
    e.pop("YOT_RACE_BIN", None)
    if race:
        e["YOT_RACE_BIN"] = work + "/yotrace"
    return e


def replay(work, case, race):
    """Evaluate a saved case.  Returns (violated, text)."""
    out = tempfile.mkdtemp(dir=work)
    p = subprocess.run([work + "/harness.test", "-test.run", "^TestReplay$", "-test.timeout", "600s"], cwd=out,
                       env=dict(harness_env(work, out, race), VERIF_REPLAY=case),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode == 0:
        return False, ""
    f = os.path.join(out, "fail.txt")
    if p.returncode == 1 and os.path.exists(f):
        return True, open(f, errors="replace").read()
    die("replay of %s: exit %d\n%s" % (case, p.returncode, p.stdout[-3000:]))


def shards(prop, work, n, cases, seed, tier, race):
    procs = []
    for i in range(n):
        out = os.path.join(work, "shard%d" % i)
        os.makedirs(out)
        s = (seed * 1000003 + i * 7919 + 12345) % (1 << 62) + 1
        cmd = [work + "/harness.test", "-test.run", "^Test%s$" % prop, "-test.timeout", "0",
               "-rapid.checks=%d" % cases, "-rapid.seed=%d" % s, "-rapid.nofailfile",
               "-rapid.shrinktime=%s" % ("12s" if tier == "quick" else "90s")]
        e = dict(harness_env(work, out, race), VERIF_TIER=tier, GOMAXPROCS="2")
        procs.append((out, subprocess.Popen(cmd, cwd=out, env=e, stdout=open(out + "/log", "w"), stderr=subprocess.STDOUT,
                                            start_new_session=True)))
    return procs


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        prop = json.load(open(sys.argv[2])).get("property", "?")
    elif len(sys.argv) == 2:
        prop = sys.argv[1]
    else:
        die(__doc__)
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    b = BUDGET.get(prop) or die("unknown property " + prop)
    race = bool(b.get("race"))
    work = tempfile.mkdtemp(prefix="yotcheck")
    procs = []
    try:
        build(work, race)
        if sys.argv[1] == "--replay":
            bad, text = replay(work, os.path.abspath(sys.argv[2]), race)
            if bad:
                print(text)
                print("VIOLATION property=%s replay=%s" % (prop, sys.argv[2]))
                sys.exit(1)
            print("property=%s holds on %s" % (prop, sys.argv[2]))
            sys.exit(0)

        for f in known(prop):
            bad, _ = replay(work, os.path.join(HERE, f["replay"]), race)
            if bad:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]), flush=True)

        # cases that once failed (fixed defects, planted bugs) come first
        reg = os.path.join(HERE, "regress")
        first = sorted(x for x in os.listdir(reg) if x.startswith(prop + "-")) if os.path.isdir(reg) else []
        nreg = 0
        for x in first:
            nreg += 1
            bad, text = replay(work, os.path.join(reg, x), race)
            if bad:
                evidence(prop, tier, seed, b, [], nreg, 1, time.time() - t0)
                report(prop, os.path.join(reg, x), text)

        n = 8
        procs = shards(prop, work, n, b[tier], seed, tier, race)
        failed = None
        pending = list(procs)
        while pending and not failed:
            for pr in list(pending):
                rc = pr[1].poll()
                if rc is None:
                    continue
                pending.remove(pr)
                if rc == 0:
                    continue
                if rc == 1 and os.path.exists(pr[0] + "/fail.json"):
                    failed = pr[0]
                    break
                err = pr[0] + "/error"
                die("shard %s: exit %d\n%s" % (pr[0], rc, open(err).read() if os.path.exists(err) else open(pr[0] + "/log", errors="replace").read()[-3000:]))
            time.sleep(0.05)
        stats = []
        for out, _ in procs:
            try:
                stats.append(json.load(open(out + "/stats.json")))
            except (OSError, ValueError):
                pass
        if failed:
            dst = os.path.join(HERE, "replays")
            os.makedirs(dst, exist_ok=True)
            rp = os.path.join(dst, "%s-%s-%d.json" % (prop, tier, seed))
            shutil.copy(failed + "/fail.json", rp)
            evidence(prop, tier, seed, b, stats, nreg, 1, time.time() - t0)
            report(prop, rp, open(failed + "/fail.txt", errors="replace").read())
        evidence(prop, tier, seed, b, stats, nreg, 0, time.time() - t0)
        print("property=%s held on %d cases (%s, seed %d, %.1fs)" % (prop, sum(s["evaluations"] for s in stats) + nreg, tier, seed, time.time() - t0))
        sys.exit(0)
    finally:
        for _, p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        shutil.rmtree(work, ignore_errors=True)


def known(prop):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f))["findings"] if x["property"] == prop and x["status"] == "open"]


def report(prop, path, text):
    print(text)
    print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)), flush=True)
    sys.exit(1)


def evidence(prop, tier, seed, b, stats, nreg, violations, wall):
    hashes, labels, samples = set(), {}, []
    for s in stats:
        hashes.update(s["nontrivial"] or {})
        for k, v in (s["labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
        for x in s["samples"] or []:
            if len(samples) < 3:
                c = json.loads(x)
                samples.append({k: c[k] for k in ("files", "runs", "labels") if k in c})
    cov = {
        "evaluations": sum(s["evaluations"] for s in stats) + nreg,
        "distinct_nontrivial": len(hashes),
        "rule": b["rule"],
        "samples": samples,
        "labels": dict(sorted(labels.items())),
        "discarded": sum(s["discarded"] for s in stats),
        "regression_cases": nreg,
        "shards": len(stats),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": b.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")


main()
