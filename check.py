#!/usr/bin/env python3
"""Runs the generated-input search for one property against /repo's working tree.

usage: check.py <ID> [--replay FILE]      environment: VERIF_SEED, VERIF_TIER (quick|thorough)
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import fcntl, glob, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from plan import PLAN   # id -> dict(parts, variant, dual, app, env ...)

PYVT = "/opt/veriftools/pyvenv/bin/python3"
ASAN = "allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:exitcode=66"
UBSAN = "print_stacktrace=1:halt_on_error=1"

def err(msg):
    print("check error: " + msg, file=sys.stderr); sys.exit(2)

def build(pl):
    parts = pl["parts"]; variant = pl.get("variant", "asan"); dual = pl.get("dual", False)
    out = os.path.join(HERE, ".build", "_".join([variant] + (["dual"] if dual else []) + parts.split() + (["app"] if pl.get("app") else [])))
    os.makedirs(out, exist_ok=True)
    lock = open(out + ".lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    # objects are rebuilt from the current tree: never trust time stamps of the library's objects
    for d in ("graphLib", "alt", "app"):
        shutil.rmtree(os.path.join(out, d), ignore_errors=True)
    cmd = ["make", "-s", "-j8", "-f", HERE + "/harness/Makefile", "OUT=" + out, "REPO=" + REPO, "PARTS=" + parts, "VARIANT=" + variant]
    if dual: cmd.append("DUAL=1")
    if pl.get("app"): cmd.append("APP=1")
    r = subprocess.run(cmd + [out + "/runner"], capture_output=True, text=True)
    if r.returncode != 0:
        err("build failed\n" + (r.stdout + r.stderr)[-4000:])
    return out, lock

def build_py():
    """the planarity executable (and a stand-in for it that misses homeomorphs) for the Python tools"""
    out = os.path.join(HERE, ".build", "py"); os.makedirs(out, exist_ok=True)
    lock = open(out + ".lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    src = sorted(glob.glob(REPO + "/c/planarityApp/*.c")) + sorted(glob.glob(REPO + "/c/graphLib/**/*.c", recursive=True))
    ps = [subprocess.Popen(["gcc", "-O1", "-w", "-c", "-o", "%s/%d.o" % (out, i), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for i, f in enumerate(src)]
    outs = [p.communicate()[0] for p in ps]
    if any(p.returncode for p in ps): err("build failed\n" + "".join(outs)[-4000:])
    for cmd in (["gcc", "-o", out + "/planarity"] + ["%s/%d.o" % (out, i) for i in range(len(src))] + ["-lm"], ["gcc", "-O1", "-o", out + "/lie", HERE + "/pyharness/lie.c"]):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: err("build failed\n" + (r.stdout + r.stderr)[-4000:])
    return out, lock

def known():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                f = dict(x.split("=", 1) for x in l[9:].split(" ", 2)[:2]); f["what"] = l[9:].split(" ", 2)[2]; res.append(f)
    return res

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN: err("usage: check.py <ID> [--replay FILE]; ids: " + " ".join(sorted(PLAN)))
    pid = sys.argv[1]; pl = PLAN[pid]
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    kf = [k for k in known() if k.get("property") == pid]
    out, lock = build_py() if pl.get("py") else build(pl)
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vp_" + pid + "_")
    replays = os.path.join(HERE, "replays"); os.makedirs(replays, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, LC_ALL="C", VERIF_REPO=REPO)
    for k in ("LD_PRELOAD", "MALLOC_CHECK_"): env.pop(k, None)
    def run(args, capture=True):
        if pl.get("py"):
            return subprocess.run([PYVT, HERE + "/pyharness/run.py", pid, "--scratch", scratch, "--planarity", out + "/planarity", "--lie", out + "/lie", "--known", ",".join(k.get("input", "") for k in kf)] + args, env=env, stdin=subprocess.DEVNULL, capture_output=capture, text=True, errors="replace")
        return subprocess.run([out + "/runner", "--prop", pid, "--scratch", scratch] + args, env=env, stdin=subprocess.DEVNULL, capture_output=capture, text=True, errors="replace")
    try:
        if "--replay" in sys.argv:
            r = run(["--replay", os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])], False)
            if r.returncode not in (0, 1): err("replay ended with %d" % r.returncode)
            if r.returncode == 1: print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])))
            sys.exit(r.returncode)
        violations = []; regress = 0
        # regression inputs: minimal reproductions kept from earlier failures
        for f in sorted(glob.glob(os.path.join(HERE, "regress", pid, "*.replay"))):
            r = run(["--replay", f]); regress += 1
            if r.returncode == 1:
                dst = os.path.join(replays, pid + "-" + os.path.basename(f)); shutil.copy(f, dst)
                violations.append((dst, r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "regression input fails"))
            elif r.returncode != 0: err("regression input %s ended with %d: %s" % (f, r.returncode, r.stderr[-500:]))
        res = {}; resf = os.path.join(scratch, "result.json")
        if not violations:
            jobs = str(pl.get("jobs", min(8, os.cpu_count() or 1)))
            r = run(["--seed", str(seed), "--tier", tier, "--out", resf, "--replaydir", replays, "--jobs", jobs] +
                    (["--max-sec", str(pl.get("max_sec", 420))] if tier == "quick" else ["--max-sec", str(pl.get("max_sec_thorough", 3000))]))
            if r.returncode != 0 or not os.path.exists(resf): err("runner ended with %d: %s" % (r.returncode, (r.stdout + r.stderr)[-2000:]))
            res = json.load(open(resf))
            if res.get("violation"): violations.append((res["violation"]["replay"], res["violation"]["message"]))
            if res["unreproduced"]: print("note: %d failing case(s) could not be reproduced and are not reported: %s" % (res["unreproduced"], res["unreproduced_list"][:3]))
        reported = []
        for path, msg in violations:
            k = next((k for k in kf if k.get("input") and not pl.get("py") and os.path.basename(path).startswith(k["input"])), None)
            if not k: reported.append((path, msg))
        for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        cov = {"evaluations": res.get("evaluations", 0) + regress, "distinct_nontrivial": res.get("distinct_nontrivial", 0), "rule": res.get("rule", "regression inputs only: one of them fails"),
               "samples": res.get("samples", []) or [v[1] for v in violations] or ["(none)"], "labels": res.get("labels", {}), "planned": res.get("planned", 0),
               "regression_inputs": regress, "oracle_evaluations": res.get("inner", 0), "stopped_by_time": res.get("time_up", False), "unreproduced": res.get("unreproduced_list", [])}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": pl.get("level", "exploration"), "coverage": cov,
              "assumptions": pl.get("assumptions", []) + [*(["the oracles of pyharness/props.py, which use networkx", "the Python of /opt/veriftools/pyvenv; the executable is compiled from the working tree with gcc -O1"] if pl.get("py") else
              ["the harness' reference models and oracles (harness/oracle.cpp and the models in the property's part)", "clang's sanitizers; the library is compiled from the working tree with clang -O1"])],
              "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2), "violations": len(reported)}
        if reported: ev["violation_messages"] = [m for _, m in reported]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], t_build))
        for path, msg in reported:
            print("failure: " + msg); print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1 if reported else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
main()
