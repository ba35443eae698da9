#!/usr/bin/env python3
"""Runs the generated checks of one property against /repo's working tree.

usage: check.py <property-id> [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored
exit 1: with a line "VIOLATION property=<id> replay=<path>"
exit 2: the check itself could not give an answer (build failure, resources, ...)
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402

REPO = "/repo"
OVERLAYS = {  # directory in /verif/harness -> directory laid over /repo
    "vh": "zverif/vh",
    "vb": "buckler/zverif/vb",
    "vj": "zverif/vj",
    "exmult": "examples/mult",
    "exbfv": "examples/bfv",
    "zvmath": "buckler/zverif/zvmath",
    "zvjindo": "buckler/zverif/zvjindo",
    "zvbuckler": "buckler/zverif/zvbuckler",
    "jf": "jindo/zverif/jf",
    "zvfield": "jindo/zverif/zvfield",
    "zvmodulus": "jindo-modulus/zverif",
}
RAPID = "pgregory.net/rapid v1.3.0"


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=e.get("GOCACHE") or "/root/.cache/go-build",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e["GONOSUMDB"] = e["GOPRIVATE"] = e["GONOSUMCHECK"] = "*"
    e["GOSUMDB"] = "off"
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:" + e.get("PATH", "")
    e.pop("GODEBUG", None)
    return e


def fail(msg, code=2):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(code)


def prepare(work):
    """Writes the overlay and the module file; returns their paths."""
    rep = {}
    for src, dst in OVERLAYS.items():
        d = os.path.join(HERE, "harness", src)
        if not os.path.isdir(d):
            continue
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, dst, f)] = os.path.join(d, f)
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    mod = open(os.path.join(REPO, "go.mod")).read() + "\nrequire %s\n" % RAPID
    open(os.path.join(work, "verif.mod"), "w").write(mod)
    s = open(os.path.join(REPO, "go.sum")).read()
    if not s.endswith("\n"):
        s += "\n"
    extra = open(os.path.join(HERE, "harness", "extra.sum")).read()
    open(os.path.join(work, "verif.sum"), "w").write(s + extra)
    return ov, os.path.join(work, "verif.mod")


def build(work, unit):
    ov, mod = os.path.join(work, "overlay.json"), os.path.join(work, "verif.mod")
    out = os.path.join(work, "bin_" + re.sub(r"\W", "_", unit["pkg"] + unit.get("tags", "") + ("race" if unit.get("race") else "")))
    if os.path.exists(out):
        return out, None
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-modfile", mod, "-o", out]
    if unit.get("race"):
        cmd.append("-race")
    if unit.get("tags"):
        cmd += ["-tags", unit["tags"]]
    cmd.append("./" + OVERLAYS[unit["pkg"]])
    r = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    return out, None


SHRINK_LIMIT = 60  # seconds from a first failing case to the report
FOUND = threading.Event()  # a shard has found a violation


def run_one(work, binp, unit, test, tier, seed, limit, failfile=None, hooks=None):
    d = tempfile.mkdtemp(prefix="run_", dir=work)
    cov = os.path.join(d, "cov.json")
    e = env()
    e.update(VERIF_COV=cov, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_WORK=d, VERIF_REPO=REPO,
             VERIF_OVERLAY=os.path.join(work, "overlay.json"), VERIF_MODFILE=os.path.join(work, "verif.mod"))
    e.setdefault("GOMEMLIMIT", "3GiB")
    if unit.get("race"):
        e["GORACE"] = "halt_on_error=0 exitcode=66"
    if failfile:
        e["VERIF_FAILFILE"] = failfile
    if tier == "quick":  # the shards of a test share its cases; thorough shards run them all
        e["VERIF_SPLIT"] = str(unit.get("shards_quick", 1))
    cmd = [binp, "-test.run", "^%s$" % test, "-test.v", "-test.timeout", "0"]
    t0 = time.time()
    log = os.path.join(d, "log.txt")
    timed = dropped = False
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        first = None  # when the first failing case was seen
        while True:
            try:
                p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if first is None and os.path.getsize(log) and b"VERIF-FIRST-FAILURE" in open(log, "rb").read():
                first = now
            if first is not None:
                timed = now - first > SHRINK_LIMIT
            elif FOUND.is_set():  # another shard has a violation already
                dropped = now - FOUND.at > 5
            timed = timed or now - t0 > limit
            if timed or dropped:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
    txt = open(log, errors="replace").read()
    recs = {}
    if os.path.exists(cov):
        try:
            recs = json.load(open(cov))
        except ValueError:
            recs = {}
    res = {"test": test, "unit": unit, "rc": p.returncode, "log": txt, "recs": recs, "seed": seed, "wall": time.time() - t0, "dir": d}
    if dropped:
        res["verdict"] = "dropped"
    elif "VERIF-INTERNAL" in txt:
        res["verdict"] = "error"
        res["why"] = "the harness reported an internal problem"
    elif timed and "VERIF-FIRST-FAILURE" in txt:
        res["verdict"] = "violation"  # shrinking did not end in time; the seed replays it
    elif timed:
        res["verdict"] = "error"
        res["why"] = "time limit"
    elif p.returncode == 0 and recs and all(r.get("done") and not r.get("failed") for r in recs.values()) and "--- FAIL" not in txt and "\nPASS" in "\n" + txt:
        res["verdict"] = "ok"
    elif "VERIF-HANG" in txt:
        res["verdict"] = "violation"
    elif recs and "--- FAIL" in txt:
        res["verdict"] = "violation"
    elif p.returncode in (2, 66, -11, -7, -6) and not re.search(r"out of memory|cannot allocate memory|too many open files|no space left|test timed out", txt) \
            and re.search(r"^\s+%s/(?!\S*zverif)\S+\.(go|s):\d+" % re.escape(REPO), txt, re.M):
        res["verdict"] = "violation"  # the process died inside the code under test
    else:
        res["verdict"] = "error"
        res["why"] = "exit code %s without a verdict" % p.returncode
    if res["verdict"] == "violation" and not FOUND.is_set():
        FOUND.at = time.time()
        FOUND.set()
    return res


def find_failfile(d):
    best = None
    for root, _, files in os.walk(os.path.join(d, "testdata")):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith(".fail") and (best is None or os.path.getmtime(p) > os.path.getmtime(best)):
                best = p
    return best


def do_setup():
    """Builds every harness binary once (warms the build cache) and fails if one does not build."""
    work = tempfile.mkdtemp(prefix="verif_setup_")
    rc = 0
    try:
        prepare(work)
        seen = {}
        for chk in CHECKS.values():
            for u in chk["units"]:
                seen[(u["pkg"], u.get("tags"), u.get("race"))] = u
        for u in seen.values():
            _, err = build(work, u)
            print("%s %s%s: %s" % (u["pkg"], u.get("tags") or "", " race" if u.get("race") else "", "built" if err is None else "FAILED"))
            if err is not None:
                print(err[-3000:])
                rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    pid = None
    setup = False
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--setup":
            setup = True
        else:
            pid = a
    if pid is None and not replay and setup:
        sys.exit(do_setup())
    if replay:
        rp = json.load(open(replay))
        pid = rp["property"]
    if pid not in CHECKS:
        fail("unknown property %r" % pid)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    chk = CHECKS[pid]
    t0 = time.time()
    evp = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    if os.path.exists(evp) and not replay:
        os.unlink(evp)
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        code = run(pid, chk, tier, seed, work, evp, t0, replay and rp)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(pid, chk, tier, seed, work, evp, t0, replay):
    prepare(work)
    limit = chk.get("limit_" + tier, 840 if tier == "quick" else 3600)
    jobs = []
    for unit in chk["units"]:
        if tier == "quick" and unit.get("thorough_only"):
            continue
        binp, err = build(work, unit)
        if err is not None:
            print(err[-6000:])
            print("CHECK-ERROR: the harness does not build against /repo's working tree (%s)" % unit["pkg"])
            return 2
        r = subprocess.run([binp, "-test.list", "^Test%s_" % pid], cwd=work, env=env(), stdout=subprocess.PIPE, text=True)
        tests = [l for l in r.stdout.split() if l.startswith("Test%s_" % pid)]
        if unit.get("only"):
            tests = [t for t in tests if re.search(unit["only"], t)]
        if unit.get("skip"):
            tests = [t for t in tests if not re.search(unit["skip"], t)]
        if not tests:
            print("CHECK-ERROR: no test of %s in %s" % (pid, unit["pkg"]))
            return 2
        n = 1 if replay else unit.get("shards_" + tier, 1 if tier == "quick" else unit.get("shards", 2))
        jobs += [(binp, unit, t, seed + 1000003 * k) for t in tests for k in range(n)]
    if replay:
        jobs = [j for j in jobs if j[2] == replay["test"] and j[1]["pkg"] == replay["pkg"]]
        ff = None
        if replay.get("failfile_content"):
            ff = os.path.join(work, "replay.fail")
            open(ff, "w").write(replay["failfile_content"])
        res = [run_one(work, b, u, t, replay["tier"], replay["seed"], limit, ff) for b, u, t, _ in jobs]
        for r in res:
            print(r["log"][-8000:])
            print(r["verdict"])
        return 1 if any(r["verdict"] == "violation" for r in res) else 0
    left = max(60, limit - (time.time() - t0))
    results = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=chk.get("workers", 8)) as ex:
        futs = [ex.submit(run_one, work, b, u, t, tier, sd, left) for b, u, t, sd in jobs]
        for f in futs:
            results.append(f.result())

    evals = nt = 0
    labels, samples, per = {}, [], {}
    for r in results:
        suffix = ("" if r["seed"] == seed else "#%d" % ((r["seed"] - seed) // 1000003)) + ("[%s]" % r["unit"]["tags"] if r["unit"].get("tags") else "") + ("[race]" if r["unit"].get("race") else "")
        for name, c in r["recs"].items():
            evals += c["evaluations"]
            nt += c["distinct_nontrivial"]
            per[name + suffix] = {k: c[k] for k in ("evaluations", "distinct_nontrivial", "labels", "wall_s")}
            samples += [name + ": " + s for s in (c.get("samples") or [])[:4]]
    bad = [r for r in results if r["verdict"] == "violation"]
    err = [r for r in results if r["verdict"] == "error"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": nt, "rule": chk["rule"], "samples": samples[:24],
                       "per_test": per},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    for kf in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf))
    if bad:
        rdir = os.path.join(HERE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for r in bad:
            ff = find_failfile(r["dir"])
            path = os.path.join(rdir, "%s-%s-seed%d-%s.json" % (pid, r["test"], r["seed"], tier))
            json.dump({"property": pid, "pkg": r["unit"]["pkg"], "test": r["test"], "tier": tier, "seed": r["seed"],
                       "failfile_content": open(ff).read() if ff else None,
                       "how": "python3 /verif/check.py --replay " + path, "log": r["log"][-20000:]}, open(path, "w"), indent=1)
            print("-- %s failed; last lines:" % r["test"])
            keep = [l for l in r["log"].splitlines() if "[rapid] draw" not in l]
            print("\n".join(l[:400] for l in keep[-40:]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if err:
        for r in err:
            print(r["log"][-3000:])
            print("CHECK-ERROR: %s: %s" % (r["test"], r.get("why")))
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s (tier %s, seed %d)" % (pid, evals, nt, time.time() - t0, tier, seed))
    return 0


def known(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


if __name__ == "__main__":
    main()
