#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the property's test binary from /verif/harness against /repo's working tree, runs it with the
seed in VERIF_SEED, writes evidence/<property>.json and reports the outcome:
exit 0 held; exit 1 + VIOLATION line; exit 2 error of the check or its environment."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import CHECKS

def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOSUMDB="off", GONOSUMDB="*", CGO_ENABLED="1",
             GOWORK=os.path.join(ROOT, "harness", "go.work"), HOME=e.get("HOME") or "/root",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=e.get("VERIF_GOCACHE") or "/root/.cache/go-build", GO111MODULE="on")
    return e

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay"); ap.add_argument("--checks"); ap.add_argument("--run")
    a = ap.parse_args()
    pid, tier = a.id, ("thorough" if a.tier == "thorough" else "quick")
    spec = CHECKS[pid]
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    rseed = (seed * 1000003 + 17) & 0x7fffffffffffffff or 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-" + pid + "-")
    rc = 2
    try:
        rc = run(pid, tier, spec, seed, rseed, tmp, t0, a)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, spec, seed, rseed, tmp, t0, a):
    e = env()
    binp = os.path.join(tmp, "check.test")
    b = subprocess.run(["go", "test", "-vet=off", "-c", "-o", binp, "./" + spec["pkg"]], cwd=os.path.join(ROOT, "harness"),
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if b.returncode != 0:
        print(b.stdout[-8000:]); print("ERROR: the harness does not build"); return 2
    e.update(VERIF_TIER=tier, VERIF_ROOT=ROOT, VERIF_KNOWN=os.path.join(ROOT, "known_findings.txt"))
    if a.checks: e["VERIF_CHECKS"] = a.checks
    runpat = a.run or spec["run"]
    limit = spec.get("limit", {}).get(tier, 600 if tier == "quick" else 7200)
    # the same tests with different seeds at the same time
    shards = []
    for k in range(1 if a.replay else spec.get("shards", 4)):
        d = os.path.join(tmp, f"s{k}"); os.makedirs(os.path.join(d, "cwd"))
        cmd = [binp, "-test.run", runpat, "-test.v=false", "-test.timeout", "0", "-rapid.seed", str((rseed + 7919 * k) & 0x7fffffffffffffff or 1), "-rapid.shrinktime", "20s"]
        if a.replay: cmd += ["-rapid.failfile", os.path.abspath(a.replay)]
        out = open(os.path.join(d, "out"), "wb")
        shards.append((subprocess.Popen(cmd, cwd=os.path.join(d, "cwd"), env=dict(e, VERIF_STATS=os.path.join(d, "stats"), VERIF_TMP=d, TMPDIR=d, VERIF_SHARD=str(k)),
                                        stdout=out, stderr=subprocess.STDOUT, start_new_session=True), d))
        out.close()
    def kill(p):
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
    timed_out, stopped, violation, failed, out, cwd = False, set(), None, None, "", shards[0][1]
    def verdict(p, text):
        if p.returncode == 0 or "VERIF-ENV:" in text: return None
        if p.returncode == 3 and "VERIF-HANG:" in text: return "hang"
        if "--- FAIL" in text: return "property failed"
        if re.search(r"^fatal error: (concurrent map|all goroutines are asleep|sync: )", text, re.M): return "fatal runtime error"
        if re.search(r"^(panic:|fatal error: stack overflow|runtime: goroutine stack exceeds)", text, re.M) and "blueprint-uservices" in text: return "crash"
        return None
    try:
        left = list(shards)
        while left:
            for p, d in list(left):
                if p.poll() is None: continue
                left.remove((p, d)); kill(p)
                if p.returncode != 0 and p.pid not in stopped:
                    text = open(os.path.join(d, "out"), "rb").read().decode("utf-8", "replace")
                    v = verdict(p, text)
                    if v and not violation: violation, out, cwd = v, text, d
                    elif not v and not failed: failed = text
                    for q, _ in left:  # the others need not go on
                        stopped.add(q.pid); kill(q)
            if left and time.time() - t0 > limit:
                timed_out = True
                for q, _ in left: stopped.add(q.pid); kill(q)
            if left: time.sleep(0.05)
    finally:
        for p, _ in shards: kill(p)
    recs = {}
    for _, d in shards:
        if not os.path.exists(os.path.join(d, "stats")): continue
        for l in open(os.path.join(d, "stats")):
            r = json.loads(l)
            q = recs.setdefault(r["test"], {"test": r["test"], "rule": r["rule"], "evaluations": 0, "keys": set(), "labels": {}, "samples": [], "wall_s": 0})
            q["evaluations"] += r["evaluations"]; q["keys"].update(r["keys"] or []); q["samples"] += r["samples"] or []
            q["wall_s"] = max(q["wall_s"], r["wall_s"])
            for k, n in r["labels"].items(): q["labels"][k] = q["labels"].get(k, 0) + n
    recs = list(recs.values())
    for r in recs: r["distinct_nontrivial"] = len(r.pop("keys"))
    evals = sum(r["evaluations"] for r in recs)
    nontriv = sum(r["distinct_nontrivial"] for r in recs)
    labels = {r["test"]: r["labels"] for r in recs}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv,
                       "rule": " | ".join(f"{r['test']}: {r['rule']}" for r in recs) or "no test finished",
                       "samples": [s for r in recs for s in (r["samples"] or [])[:4]][:16] or ["(none)"],
                       "per_test": [{k: r[k] for k in ("test", "evaluations", "distinct_nontrivial", "wall_s")} for r in recs],
                       "classes": labels},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.replay and not a.run:
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False); f.write("\n")
    if violation:
        rd = os.path.join(ROOT, "replays"); os.makedirs(rd, exist_ok=True)
        fails = []
        for d, _, fs in os.walk(os.path.join(cwd, "cwd", "testdata")):
            fails += [os.path.join(d, f) for f in fs if f.endswith(".fail")]
        digest = hashlib.sha1(out.encode()).hexdigest()[:10]
        path = os.path.join(rd, f"{pid}-{digest}.fail")
        with open(path, "w") as f:
            if fails:
                f.write(open(sorted(fails)[0]).read())
        with open(path + ".txt", "w") as f:
            f.write(f"property {pid} tier {tier} VERIF_SEED={seed}: {violation}\nreplay: VERIF_SEED={seed} python3 tools/check.py {pid} --tier {tier}"
                    + (f" --replay {path} --run '<failing test>'" if fails else "") + "\n\n" + out)
        print(out[:6000])
        if len(out) > 6000: print("... (full output in the replay file)")
        print(f"VIOLATION property={pid} replay={path}.txt")
        return 1
    if failed is not None or timed_out or (evals == 0 and not a.replay):
        print((failed or "")[-6000:])
        print("ERROR: " + ("time limit reached" if timed_out else "the check could not be completed"))
        return 2
    kf = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("KNOWN-FINDING:") and f"property={pid} " in l: print(l.rstrip())
    print(f"OK {pid} ({tier}, seed {seed}): {evals} cases, {nontriv} distinct non-trivial, {ev['wall_s']} s")
    return 0

if __name__ == "__main__":
    main()
