"""Runs one check: seeds, workers, shrinking, replay, evidence, known findings.

A check module (checks/<ID>.py) provides
  FLAVOUR   'plain' | 'asan'
  RULE      text: when a case counts as non-trivial
  QUICK, THOROUGH   number of generated cases (over all workers)
  case(draw)        Hypothesis composite body returning a JSON-able case
  judge(case, sim)  -> (message or None, set of class tags, nontrivial flag)
  KNOWN (optional)  predicate(case, message, entry) -> True if the failure is that known finding
"""
import glob, hashlib, importlib, json, multiprocessing as mp, os, sys, time, traceback
import sim as simlib
from collections import Counter
VERIF = simlib.VERIF
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
WALL = {"quick": 600, "thorough": 3 * 3600}

class Stop(BaseException):
    pass
class Fail(Exception):
    pass

def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))
def digest(x):
    return hashlib.sha1(canon(x).encode()).hexdigest()[:16]

def load(pid):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    return importlib.import_module(pid)

def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                e = json.loads(l)
                if e.get("property") == pid and e.get("status") == "known":
                    r.append(e)
    return r

def corpus(pid):
    return sorted(glob.glob(os.path.join(VERIF, "corpus", pid, "*.json")))

def worker(pid, binary, seed, idx, n, wall, stop, q):
    res = {"idx": idx, "n": 0, "nontrivial": [], "tags": {}, "fail": None, "samples": [], "runs": 0, "error": None, "excluded": 0}
    try:
        import hypothesis as H
        from hypothesis import strategies as st
        mod = load(pid)
        known = known_findings(pid)
        s = simlib.Sim(binary)
        tags = Counter()
        seen = set()
        state = {"first_fail": None, "best": None, "t0": time.time()}
        def body(case):
            now = time.time()
            if stop.is_set() and state["first_fail"] is None:
                raise Stop()
            if now - state["t0"] > wall:
                raise Stop()
            if state["first_fail"] is not None and now - state["first_fail"] > 60:
                raise Stop()
            msg, t, nontrivial = mod.judge(case, s)
            if state["first_fail"] is None:
                res["n"] += 1
                for x in t:
                    tags[x] += 1
                if nontrivial:
                    d = digest(case)
                    if d not in seen:
                        seen.add(d)
                        if len(res["samples"]) < 2 and len(seen) % 7 == 1:
                            res["samples"].append(case)
            if msg:
                for k in known:
                    if mod.KNOWN(case, msg, k):
                        res["excluded"] += 1
                        msg = None
                        break
            if msg:
                if state["first_fail"] is None:
                    state["first_fail"] = now
                    stop.set()
                size = len(canon(case))
                if state["best"] is None or size <= state["best"][0]:
                    state["best"] = (size, case, msg)
                raise Fail(msg)
        strat = st.composite(mod.case)()
        run = H.seed((seed * 1000003 + idx * 7919 + 17) & 0x7fffffffffff)(
            H.settings(max_examples=max(1, n), database=None, deadline=None, derandomize=False,
                       phases=[H.Phase.generate, H.Phase.shrink], report_multiple_bugs=False, print_blob=False,
                       suppress_health_check=list(H.HealthCheck), verbosity=H.Verbosity.quiet)(
                H.given(strat)(body)))
        try:
            run()
        except Stop:
            pass
        except BaseException:
            if state["best"] is None:
                raise
        if state["best"]:
            res["fail"] = {"case": state["best"][1], "message": state["best"][2]}
        res["nontrivial"] = sorted(seen)
        res["tags"] = dict(tags)
        res["runs"] = s.n
        s.close()
    except BaseException:
        res["error"] = traceback.format_exc()
    q.put(res)

def judge_once(mod, case, binary):
    s = simlib.Sim(binary)
    try:
        return mod.judge(case, s)
    finally:
        s.close()

def main(pid, replay=None):
    import warnings
    warnings.simplefilter("ignore")
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(pid)
    flavour = getattr(mod, "FLAVOUR", "plain")
    binary = simlib.build(flavour)
    tb = time.time() - t0
    if replay:
        d = json.load(open(replay))
        msg, tags, nt = judge_once(mod, d["case"], binary)
        print(msg or "ok")
        if os.environ.get("VERIF_SHOW"):
            print(json.dumps(d["case"], indent=1))
        return 1 if msg else 0
    # 1. saved cases
    known = known_findings(pid)
    fail = None
    nsaved = 0
    for path in corpus(pid):
        d = json.load(open(path))
        msg, tags, nt = judge_once(mod, d["case"], binary)
        nsaved += 1
        if msg and not any(mod.KNOWN(d["case"], msg, k) for k in known):
            fail = {"case": d["case"], "message": msg + " (saved case %s)" % os.path.basename(path)}
            break
    for k in known:
        msg = None
        if k.get("case") is not None:
            msg, tags, nt = judge_once(mod, k["case"], binary)
            if msg and not mod.KNOWN(k["case"], msg, k):
                fail = fail or {"case": k["case"], "message": msg}
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if msg else " (not observed in this run)"))
    # 2. generated cases
    total = mod.QUICK if tier == "quick" else mod.THOROUGH
    if os.environ.get("VERIF_CASES"):
        total = int(os.environ["VERIF_CASES"])
    results = []
    if not fail:
        q = mp.Queue()
        stop = mp.Event()
        per = max(1, total // WORKERS)
        ps = [mp.Process(target=worker, args=(pid, binary, seed, i, per, WALL[tier] - tb, stop, q)) for i in range(WORKERS)]
        for p in ps:
            p.start()
        for _ in ps:
            results.append(q.get())
        for p in ps:
            p.join()
        errs = [r["error"] for r in results if r["error"]]
        fails = [r["fail"] for r in results if r["fail"]]
        if fails:
            fail = min(fails, key=lambda f: len(canon(f["case"])))
        elif errs:
            sys.stderr.write(errs[0])
            return 2
    n = sum(r["n"] for r in results)
    nt = set()
    tags = Counter()
    samples = []
    for r in sorted(results, key=lambda r: r["idx"]):
        nt.update(r["nontrivial"])
        tags.update(r["tags"])
        samples += r["samples"]
    violations = []
    rc = 0
    if fail:
        # confirm three times before reporting
        confirmed = []
        for _ in range(3):
            m, _, _ = judge_once(mod, fail["case"], binary)
            if m:
                confirmed.append(m)
        if len(confirmed) == 3:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.json" % (pid, digest(fail["case"])))
            with open(path, "w") as f:
                json.dump({"property": pid, "case": fail["case"], "message": confirmed[0]}, f, indent=1)
            print(confirmed[0])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            violations.append({"message": confirmed[0], "replay": path})
            rc = 1
        else:
            sys.stderr.write("failure did not reproduce (%d/3): %s\n%s\n" % (len(confirmed), fail["message"], canon(fail["case"])))
            rc = 2
    elif n < 0.25 * total:
        sys.stderr.write("only %d of %d cases were run\n" % (n, total))
        rc = 2
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": n, "distinct_nontrivial": len(nt), "rule": mod.RULE,
                       "samples": samples[:6], "classes": dict(sorted(tags.items())),
                       "jom_runs": sum(r["runs"] for r in results), "saved_cases": nsaved,
                       "excluded_as_known": sum(r["excluded"] for r in results), "planned": total,
                       "build": flavour, "violation_details": violations},
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d jom runs, %.1f s (build %.1f s)%s" % (
        pid, tier, n, len(nt), ev["coverage"]["jom_runs"], time.time() - t0, tb, "" if rc == 0 else " -> %d" % rc))
    return rc

if __name__ == "__main__":
    a = sys.argv[1:]
    rep = a[a.index("--replay") + 1] if "--replay" in a else None
    if rep is None and len(a) > 1:
        os.environ["VERIF_TIER"] = a[1]
    sys.exit(main(a[0], rep))
