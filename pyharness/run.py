"""Generated-input search for the properties of TestSupport/planaritytesting (T01..T05).

usage: run.py <ID> --seed N --tier quick|thorough --out result.json --replaydir DIR --scratch DIR --planarity EXE --lie EXE [--known KEY,KEY] [--max-sec S]
       run.py <ID> --replay FILE --scratch DIR --planarity EXE --lie EXE
Cases are JSON values drawn by hypothesis strategies (see props.py); every failure is shrunk by hypothesis and saved.
"""
import sys
sys.dont_write_bytecode = True
import argparse, hashlib, json, multiprocessing, os, random, shutil, signal, time, traceback
from hypothesis import HealthCheck, Phase, given, seed, settings
import hypothesis.errors
import hypothesis.internal.conjecture.engine as _eng
if hasattr(_eng, "MAX_SHRINKING_SECONDS"): _eng.MAX_SHRINKING_SECONDS = 45
import props

class NoAnswer(BaseException): pass
def _alarm(*_): raise NoAnswer()

class Stop(BaseException): pass

def one(pid, case, ctx):
    """-> (nontrivial, label); raises props.Fail"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, props.PROPS[pid].limit)
    try:
        return props.PROPS[pid].check(case, ctx)
    except props.Fail: raise
    except NoAnswer: raise props.Fail("no answer within %d s" % props.PROPS[pid].limit)
    except (KeyboardInterrupt, MemoryError): raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        mine = [f for f in tb if os.path.dirname(os.path.abspath(f.filename)) == os.path.dirname(os.path.abspath(__file__))]
        raise props.Fail("unexpected %s: %s (raised from %s:%d)" % (type(e).__name__, e, os.path.basename(mine[-1].filename) if mine else "?", mine[-1].lineno if mine else 0))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def worker(pid, sd, n, tier, scratch, cfg, deadline, q):
    os.makedirs(scratch, exist_ok=True); os.chdir(scratch)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    ctx = props.Ctx(scratch, cfg, tier)
    st = {"evals": 0, "seen": {}, "labels": {}, "samples": [], "fail": None, "error": None, "time_up": False, "unreproduced": []}
    last = [None, None]
    def body(case):
        if time.time() > deadline and last[0] is None: st["time_up"] = True; return
        st["evals"] += 1
        try: nontriv, label = one(pid, case, ctx)
        except props.Fail as f:
            last[0], last[1] = case, str(f); raise
        if nontriv:
            h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()
            if h not in st["seen"]:
                st["seen"][h] = 1
                st["labels"][label] = st["labels"].get(label, 0) + 1
                if len(st["samples"]) < 3: st["samples"].append(json.dumps(case)[:400])
    test = seed(sd)(settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, suppress_health_check=list(HealthCheck))(given(props.PROPS[pid].cases(tier))(body)))
    try:
        test()
    except props.Fail: st["fail"] = (last[0], last[1])
    except hypothesis.errors.HypothesisException as e:
        if last[0] is not None: st["unreproduced"].append(last[1])
        else: st["error"] = "%s: %s" % (type(e).__name__, e)
    except BaseException as e:
        if last[0] is not None: st["fail"] = (last[0], last[1])
        else: st["error"] = traceback.format_exc()[-1500:]
    st["seen"] = list(st["seen"])
    st["kf"] = sorted(ctx.known_seen)
    q.put(st)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick")
    for x in ("out", "replaydir", "scratch", "planarity", "lie", "replay", "known"): ap.add_argument("--" + x)
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--max-sec", type=float, default=420)
    a = ap.parse_args(); P = props.PROPS[a.pid]
    cfg = {"planarity": a.planarity, "lie": a.lie, "known": (a.known or "").split(",")}
    if a.replay:
        r = json.load(open(a.replay)); os.makedirs(a.scratch, exist_ok=True); os.chdir(a.scratch)
        ctx = props.Ctx(a.scratch, cfg, a.tier)
        try: one(a.pid, r["case"], ctx)
        except props.Fail as f: print("replay fails: %s" % f); sys.exit(1)
        print("replay: no failure"); sys.exit(0)
    total = P.n[a.tier]; jobs = min(a.jobs, P.jobs); deadline = time.time() + a.max_sec
    q = multiprocessing.Queue(); procs = []
    for w in range(jobs):
        p = multiprocessing.Process(target=worker, args=(a.pid, a.seed * 1000 + w, max(1, total // jobs), a.tier, os.path.join(a.scratch, "w%d" % w), cfg, deadline, q)); p.start(); procs.append(p)
    res = []
    for _ in procs:
        try: res.append(q.get(timeout=a.max_sec + 300))
        except Exception: break
    for p in procs:
        p.join(5)
        if p.is_alive(): p.kill()
    if len(res) < len(procs) or any(r["error"] for r in res):
        print("worker failure: %s" % [r["error"] for r in res if r["error"]], file=sys.stderr); sys.exit(2)
    seen = set(h for r in res for h in r["seen"]); labels = {}
    for r in res:
        for k, v in r["labels"].items(): labels[k] = labels.get(k, 0) + v
    out = {"evaluations": sum(r["evals"] for r in res), "distinct_nontrivial": len(seen), "rule": P.rule, "samples": [s for r in res for s in r["samples"]][:6], "labels": labels, "planned": total,
           "time_up": any(r["time_up"] for r in res), "unreproduced": sum(len(r["unreproduced"]) for r in res), "unreproduced_list": [u for r in res for u in r["unreproduced"]], "inner": 0, "violation": None,
           "known_seen": sorted(set(k for r in res for k in r["kf"]))}
    fails = [r["fail"] for r in res if r["fail"]]
    if fails:
        case, msg = min(fails, key=lambda f: len(json.dumps(f[0])))
        f = os.path.join(a.replaydir, "%s-%d.json" % (a.pid, a.seed))
        json.dump({"property": a.pid, "seed": a.seed, "message": msg, "case": case}, open(f, "w"), indent=1)
        out["violation"] = {"replay": f, "message": msg}
    json.dump(out, open(a.out, "w"))
main()
