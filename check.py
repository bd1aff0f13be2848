#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--only CHECK] [--keep]

Builds the check of property ID against /repo's working tree, runs it, writes
evidence/ID.json and reports. Exit 0: held. Exit 1: a VIOLATION line was
printed. Exit 2: the check itself could not give an answer."""
import argparse, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
import literals, modfile

# property -> package, shards (quick, thorough), build options
PROPS = {
    "C01": dict(pkg="codec"),
    "C02": dict(pkg="serv"),
    "C03": dict(pkg="codec"),
    "C04": dict(pkg="model"),
    "C05": dict(pkg="model"),
    "C06": dict(pkg="model"),
    "C07": dict(pkg="serv", also=[dict(pkg="store", race=True, shards=2)]),
    "C08": dict(pkg="serv"),
    "C09": dict(pkg="serv"),
    "C10": dict(pkg="serv", also=[dict(pkg="store", race=True, shards=2)]),
    "C11": dict(pkg="serv"),
    "C12": dict(pkg="serv"),
    "C13": dict(pkg="serv"),
    "C14": dict(pkg="serv"),
    "C15": dict(pkg="serv"),
    "C16": dict(pkg="serv"),
    "C17": dict(pkg="codec"),
    "C18": dict(pkg="serv", also=[dict(pkg="api", binary=True, shards=2)]),
    "C19": dict(pkg="serv", also=[dict(pkg="api", binary=True, shards=2)]),
    "C20": dict(pkg="serv", also=[dict(pkg="api", binary=True, shards=2)]),
    "C21": dict(pkg="store", race=True),
    "C22": dict(pkg="api", binary=True),
    "C23": dict(pkg="api", binary=True),
    "C24": dict(pkg="client", binary=True, client=True),
    "C25": dict(pkg="conf", binary=True),
    "C26": dict(pkg="serv"),
    "C27": dict(pkg="store", race=True),
}
SHARDS = 6
# multiples of the quick case counts written in the harness
QUICK_SCALE = {"C02": 3, "C04": 2, "C05": 4, "C07": 3, "C08": 5, "C09": 6, "C11": 5, "C12": 5, "C13": 2, "C14": 2, "C15": 4, "C16": 2,
               "C17": 2, "C18": 2, "C19": 4, "C20": 3, "C21": 2, "C23": 2, "C24": 2}
RUN_LIMIT = {"quick": 700, "thorough": 3 * 3600}

ASSUME = [
    "the reference codec in harness/jt states the wire format correctly (written from JT/T 808 and the repository's documentation)",
    "rapid, the Go toolchain and testing/synctest behave as documented",
]
ASSUME_SERV = [
    "the in-memory connection behaves like a TCP connection (ordered bytes, arbitrary segmentation, one ECONNRESET then EOF after a reset)",
]


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off", GO111MODULE="on", GONOSUMDB="*")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in ("GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG", "GOTRACEBACK"):
        e.pop(k, None)
    return e


def error(msg):
    print("CHECK-ERROR:", msg)
    sys.exit(2)


def build(cfg, scratch, e):
    os.makedirs(scratch, exist_ok=True)
    modfile.write(scratch, REPO)
    overlay = os.path.join(scratch, "overlay.json")
    with open(overlay, "w") as f:
        json.dump({"Replace": {os.path.join(REPO, "internal/server/zz_server_verif.go"): os.path.join(VERIF, "overlay/server_verif.go")}}, f)
    out = os.path.join(scratch, "check.bin")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(scratch, "go.mod"), "-overlay=" + overlay, "-o", out]
    if cfg.get("race"):
        cmd.append("-race")
    cmd.append("./checks/" + cfg["pkg"])
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e, capture_output=True, text=True)
    if p.returncode != 0:
        error("the check does not build against this tree:\n" + p.stdout + p.stderr)
    if cfg.get("binary"):
        p = subprocess.run(["go", "build", "-o", os.path.join(scratch, "jt808-server-go"), "."], cwd=REPO, env=e, capture_output=True, text=True)
        if p.returncode != 0:
            error("the server does not build:\n" + p.stdout + p.stderr)
    if cfg.get("client"):
        p = subprocess.run(["go", "build", "-o", os.path.join(scratch, "jt808-client"), "./test/client"], cwd=REPO, env=e, capture_output=True, text=True)
        if p.returncode != 0:
            error("the client does not build:\n" + p.stdout + p.stderr)
    return out


def procs_of(cfg, shard, shards):
    """Processors a shard runs on: schedules differ a lot with their number."""
    if cfg.get("binary") or shards < 3:
        return 0  # all
    return {shards - 1: 1, shards - 2: 2}.get(shard, 0)


def start(binary, cfg, pid, tier, seed, shard, shards, scratch, e, only, replay, procs=None):
    out = os.path.join(scratch, f"out{shard}")
    os.makedirs(out, exist_ok=True)
    e2 = dict(e)
    e2.update(VERIF_OUT=out, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards),
              VERIF_SERVER_BIN=os.path.join(scratch, "jt808-server-go"), VERIF_CLIENT_BIN=os.path.join(scratch, "jt808-client"), VERIF_REPO=REPO, GOTRACEBACK="all")
    if cfg.get("race"):
        e2["GORACE"] = "halt_on_error=1 exitcode=66"
    procs = procs_of(cfg, shard, shards) if procs is None else procs
    if procs:
        e2["GOMAXPROCS"] = str(procs)
    if only:
        e2["VERIF_ONLY"] = only
    if replay:
        e2["VERIF_REPLAY"] = replay
    log = open(os.path.join(out, "log.txt"), "w")
    p = subprocess.Popen([binary, "-test.run", f"^Test{pid}$", "-test.timeout", "0", "-test.v"], cwd=out, env=e2, stdout=log, stderr=subprocess.STDOUT)
    return p, out


REPO_FRAME = re.compile(r"(/repo/|jt808-server-go/(internal|pkg)/)")


def crash_report(out):
    """Text of a crash of the code under test, or None."""
    log = open(os.path.join(out, "log.txt"), errors="replace").read()
    m = re.search(r"^(panic: |fatal error: |unexpected fault|SIGSEGV|WARNING: DATA RACE|VERIF-HANG|==================\nWARNING: DATA RACE)", log, re.M)
    if not m:
        return None
    return log[m.start():][:200000]


def blames_repo(rep):
    """Whether the code under test is on the stack of what went wrong."""
    first = rep.splitlines()[0] if rep else ""
    if "DATA RACE" in rep[:200]:
        return bool(REPO_FRAME.search(rep))
    if "deadlock" in first:
        return bool(REPO_FRAME.search(rep))
    m = re.search(r"^goroutine \d+ .*?(?=^$)", rep, re.M | re.S)
    return bool(m and REPO_FRAME.search(m.group(0)))


def main():
    global REPO
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--repo", default=REPO, help="another working tree (mutation runs of tools/mutate only)")
    a = ap.parse_args()
    REPO = a.repo
    pid, tier = a.prop, a.tier
    cfg = PROPS[pid]
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    e = env()
    if tier == "quick" and pid in QUICK_SCALE:
        e.setdefault("VERIF_SCALE", str(QUICK_SCALE[pid]))
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return run(pid, tier, cfg, seed, a, e, scratch, t0)
    finally:
        if a.keep:
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def take(v, part):
    """A violation found by one part of the plan, with what a replay needs."""
    v["shard"], v["suite"] = part[3], part[1]["pkg"]
    if v.get("rapid_failfile") and os.path.exists(v["rapid_failfile"]):
        v["rapid_failfile_content"] = open(v["rapid_failfile"], errors="replace").read()
    return v


def run(pid, tier, cfg, seed, a, e, scratch, t0):
    # a property is decided by one or more suites, each a test binary
    suites = [cfg] + cfg.get("also", [])
    replay, rep = None, {}
    if a.replay:
        rep = json.load(open(a.replay))
        suites = [s for s in suites if s["pkg"] == rep.get("suite", cfg["pkg"])]
        a.only = rep.get("check") or a.only
        seed = rep.get("seed", seed)
        if rep.get("rapid_failfile_content"):
            replay = os.path.join(scratch, "replay.fail")
            open(replay, "w").write(rep["rapid_failfile_content"])
    words = rep.get("dict", {}) if a.replay else literals.fresh(REPO)
    e["VERIF_DICT"] = json.dumps(words)
    plan = []
    for k, su in enumerate(suites):
        dir = os.path.join(scratch, "s%d" % k)
        binary = build(su, dir, e)
        shards = 1 if a.replay else su.get("shards") or a.shards or SHARDS
        plan += [(binary, su, dir, n, shards) for n in range(shards)]
    go = lambda i, sub="": start(plan[i][0], plan[i][1], pid, tier, seed, plan[i][3], plan[i][4], plan[i][2] + sub, e, a.only, replay, rep.get("procs", 0) if a.replay else None)
    procs = [go(i) for i in range(len(plan))]
    deadline = time.time() + RUN_LIMIT[tier]
    timed_out = False
    rcs = []
    for p, out in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            p.kill()
            p.wait()
        rcs.append(p.returncode)
    results, violation, trouble = [], None, []
    if timed_out:
        trouble.append("the run did not finish in its budget (no verdict)")
    hung = []
    for s, (p, out) in enumerate(procs):
        rp = os.path.join(out, "result.json")
        res = json.load(open(rp)) if os.path.exists(rp) else None
        if res and res.get("done"):
            results.append((res, out))
            if res.get("violation") and not violation:
                v = res["violation"]
                if v["message"].startswith("HARNESS:"):
                    trouble.append(v["message"])
                    continue
                violation = take(v, plan[s])
            if rcs[s] == 66 and not violation:
                violation = dict(check="race", message="data race", shard=plan[s][3], suite=plan[s][1]["pkg"], stack=crash_report(out) or "")
            continue
        # the process died
        report = crash_report(out)
        tr = os.path.join(out, "current-case.txt")
        trace = open(tr, errors="replace").read().splitlines() if os.path.exists(tr) else []
        if rcs[s] == 3 and report and "VERIF-HANG" in report:
            hung.append((s, trace, report))
        elif report and blames_repo(report):
            if not violation:
                violation = dict(check="process", message="the process died: " + next((l for l in report.splitlines() if l.strip("= ")), "?"), trace=trace, stack=report, shard=plan[s][3], suite=plan[s][1]["pkg"])
        else:
            log = open(os.path.join(out, "log.txt"), errors="replace").read()
            trouble.append(f"check process ended with {rcs[s]} and no result:\n" + log[-4000:])
    if hung and not violation:
        # reproduce the hang before believing it
        s, trace, report = hung[0]
        p2, out2 = go(s, "/again")
        try:
            p2.wait(RUN_LIMIT[tier] / 2)
        except subprocess.TimeoutExpired:
            p2.kill()
            p2.wait()
        if p2.returncode == 3:
            what = re.sub(r"^VERIF-HANG: ", "", report.splitlines()[0])
            violation = dict(check="progress", message=f"the code under test stopped making progress (reproduced twice): {what}", trace=trace, stack=report, shard=plan[s][3], suite=plan[s][1]["pkg"])
        else:
            rp = os.path.join(out2, "result.json")
            res = json.load(open(rp)) if os.path.exists(rp) else None
            v = res.get("violation") if res and res.get("done") else None
            if v and not v["message"].startswith("HARNESS:"):
                violation = take(v, plan[s])
            else:
                trouble.append("a run hung once and could not be reproduced: " + report[:20000])
    if trouble and not violation:
        error("\n".join(trouble))

    # evidence
    classes, per, samples, exhaustive, short = {}, {}, [], [], {}
    evals, hashes, rule = 0, set(), ""
    for res, out in results:
        evals += res["evaluations"]
        if res["rule"] not in rule:
            rule = (rule + "; and: " if rule else "") + res["rule"]
        for k, v in (res.get("classes") or {}).items():
            classes[k] = classes.get(k, 0) + v
        for k, v in (res.get("per_check") or {}).items():
            per[k] = per.get(k, 0) + v
        for k, v in (res.get("cut_short") or {}).items():
            short[k] = short.get(k, 0) + v
        if len(samples) < 12:
            samples += (res.get("samples") or [])[: 12 - len(samples)]
        exhaustive = res.get("exhaustive") or exhaustive
        hp = os.path.join(out, "hashes.bin")
        if os.path.exists(hp):
            b = open(hp, "rb").read()
            hashes.update(struct.unpack(f"<{len(b)//8}Q", b))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples,
            "cases_per_check": per, "classes": dict(sorted(classes.items())), "shards": len(plan),
        },
        "assumptions": ASSUME + (ASSUME_SERV if cfg["pkg"] in ("serv", "client", "codec") else []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    if words.get("ints") or words.get("texts"):
        ev["coverage"]["dictionary"] = words
    if short:
        ev["coverage"]["not_run_for_lack_of_time"] = short
    if exhaustive:
        ev["coverage"]["exhaustive_parts"] = exhaustive
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.replay:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    if violation:
        d = os.path.join(VERIF, "replays", pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{tier}-{seed}-{os.getpid()}.json")
        if not a.replay:
            violation["procs"] = next(procs_of(p[1], p[3], p[4]) for p in plan if p[3] == violation["shard"] and p[1]["pkg"] == violation["suite"])
        else:
            violation["procs"] = rep.get("procs", 0)
        violation["property"], violation["seed"], violation["tier"], violation["dict"] = pid, seed, tier, words
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, ensure_ascii=False)
        print(f"check {violation.get('check')}: {violation['message'][:3000]}")
        for l in (violation.get("trace") or [])[-60:]:
            print("   ", l[:400])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if not results or evals == 0:
        error("nothing was evaluated")
    print(f"{pid}: held on {evals} generated cases ({len(hashes)} distinct non-trivial), {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
