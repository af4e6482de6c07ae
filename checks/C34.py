import copy, re, mk
FLAVOUR = "plain"
RULE = ("dependency graphs with dependents that exist, are missing, can or cannot be made by a rule, in any spelling, below targets that are or are not reachable, and goals that are "
        "or are not in the makefile; 1..8 jobs, /K /A /N /I, several goals; non-trivial: something is missing and the makefile has three or more targets")
QUICK, THOROUGH = 16000, 600000

def case(draw):
    c = mk.graph(draw, maxt=6, fresh=(1, 4))
    T, L = c["T"], c["L"]
    n, x = len(T), []
    # targets with an index above n are made by the rule only
    for k in range(mk.ints(draw, 0, 4)):
        i = mk.ints(draw, 0, n - 1)
        kind = mk.pick(draw, ["plain", "rule", "plain", "rule", "src"])
        at = [i] + ([mk.ints(draw, 0, n - 1)] if mk.chance(draw, 1, 4) else [])
        e = {"kind": kind, "at": at, "pos": mk.ints(draw, 0, 3)}
        if kind == "plain":
            e["n"] = mk.pick(draw, ["m%d.h", "Sub\\m%d.h", "m i s%d.x", "C:\\work\\m%d.h", "nodir\\m%d.h", "..\\m%d.z", "m%d"]) % k
            e["ds"] = list(mk.respell(draw, e["n"]))
            e["t"] = -mk.ints(draw, 1, 20) if mk.chance(draw, 1, 2) and "nodir" not in e["n"] else None
        else:
            e["n"] = "r%d.rul" % k
            e["ds"] = [e["n"], mk.chance(draw, 1, 5)]
            e["t"] = -mk.ints(draw, 1, 20) if mk.chance(draw, 1, 3) else None
            e["st"] = -mk.ints(draw, 1, 20) if mk.chance(draw, 1, 2) and kind == "rule" else None
        x.append(e)
    c["x"] = x
    c["opts"] = [o for o in ("/K", "/I", "/S", "/D") if mk.chance(draw, 1, 7)]
    c["N"] = mk.chance(draw, 1, 12)
    if "/I" not in c["opts"] and not c["N"] and mk.chance(draw, 1, 5):      # some commands fail
        c["fail"] = True
        c["opts"] = [o for o in c["opts"] if o != "/K"] + ["/K"]
        for t in T:
            for m in t["cmds"]:
                if mk.chance(draw, 1, 3): m["code"] = mk.pick(draw, [1, 2, 7])
    c["unk"] = None
    if mk.chance(draw, 1, 10):
        c["unk"] = [mk.pick(draw, ["nothere", "t0.y", "sub\\nothere", "s0.c", "r0.rul", "m0.h"]), mk.ints(draw, 0, 3)]
    return c

def full(case):
    """the makefile as the model sees it"""
    c = copy.deepcopy(case)
    n = len(c["T"])
    c["order"] = list(c["order"])
    for e in c["x"]:
        if e["kind"] == "plain":
            for i in e["at"]:
                c["T"][i]["ds"].insert(min(e["pos"], len(c["T"][i]["ds"])), list(e["ds"]))
            if e["t"] is not None: c["L"].append({"n": e["n"], "t": e["t"]})
        else:
            for i in e["at"]:
                c["T"][i]["ds"].insert(min(e["pos"], len(c["T"][i]["ds"])), list(e["ds"]))
    for t in c["T"]: t["split"] = min(t["split"], len(t["ds"]) - 1) if t["split"] else 0
    for e in c["x"]:
        if e["kind"] == "plain": continue
        src = e["n"][:-4] + ".src"
        t = {"n": e["n"], "cmds": [], "ds": [], "t": e["t"], "split": 0, "colon": 1, "w": 1, "deps": [], "implicit": True,
             "missing": e["kind"] == "rule" and e["t"] is None and e["st"] is None}
        if e["kind"] == "rule" and e["st"] is not None:
            t["cmds"] = [{"id": "R_" + e["n"], "nops": 1, "code": 0}]
            t["ds"] = [[src, False]]
            c["L"].append({"n": src, "t": e["st"]})
        c["T"].append(t)
    return c, n

def judge(case, sim):
    c, n = full(case)
    T = c["T"]
    mf = ""
    if any(e["kind"] != "plain" for e in c["x"]):
        mf = ".SUFFIXES: .src\n.src.rul:\n\tact R_$@\n"
    opts = case["opts"] + (["/N"] if case["N"] else [])
    s = mk.scenario(c, header=mf, args=opts)
    for k, e in enumerate(case["x"]):
        if e["kind"] == "src":
            s["files"][0]["d"] += "\n%s.src:\n\tact S%d\n" % (e["n"][:-4], k)
            s["progs"]["S%d" % k] = [["touch", e["n"][:-4] + ".src"]]
            s["progs"]["R_" + e["n"]] = [["touch", e["n"]]]
    s["dirs"] = ["C:/work/sub"]
    goals = [mk.goal_arg(c, g) for g in c["goals"]]
    unknown = None
    names = {mk.key(t["n"]) for t in T if not t.get("implicit")}
    if case["unk"] and mk.key(case["unk"][0]) not in names:
        unknown = case["unk"][0]
        head = s["argv"][:len(s["argv"]) - len(goals)]
        goals.insert(min(case["unk"][1], len(goals)), unknown)
        s["argv"] = head + goals
    r = sim.run(s)
    b = r.broken()
    if b: return b, {"broken"}, False
    err = r.etext()
    st = r.starts()
    tags = set()
    if case["N"] and st: return "/N started %r" % st[0]["cmd"], set(), False
    if unknown:
        if not r.code or unknown.lower() not in err.lower(): return "requested target %s is not in the makefile: exit status %s, stderr %r" % (unknown, r.code, err), set(), False
        if st: return "%r started although the requested target %s is not in the makefile" % (st[0]["cmd"], unknown), set(), False
        return None, {"unknown goal"}, n > 2
    ref = mk.Ref(c)
    roots = c["goals"] or [c["order"][0]]
    stop, stopped = None, None
    for k, g in enumerate(roots):
        m = ref.missing(g)
        if m: stop = (k, "plain", m); break
        q = [i for i in ref.reach(g) if T[i].get("missing")]
        if q: stop = (k, "rule", [T[i]["n"] for i in q]); stopped = set(q); break
    undecided = any(e["kind"] == "src" for e in case["x"])
    if not stop:
        if "exist" in err: return "error %r although everything needed exists" % err, set(), False
        bad = any(e["e"] == "exit" and e["code"] for e in r.events)
        if r.code != (1 if bad else 0): return "exit status %s, stderr %r" % (r.code, err), set(), False
    else:
        if r.code != 2: return "%s missing, but the exit status is %s (stderr %r)" % (stop[2], r.code, err), set(), False
        named = re.findall(r"dependent '(.*?)' does not exist", err)
        bad = [x for x in named if mk.vfs(x).lower() not in [mk.vfs(y).lower() for y in stop[2]]]
        if len(named) != 1 or bad: return "%s missing, stderr is %r" % (stop[2], err), set(), False
        tags.add("missing " + stop[1])
        if stop[0]: tags.add("later goal")
        if not case["N"] and len(roots) > 1 and stop[0] and st: tags.add("earlier goals built")
    if undecided: return None, tags | {"source is a target"}, bool(stop) and n > 2
    if case["N"]: return None, tags | {"/N"}, bool(stop) and n > 2
    o = mk.Obs(c, r)
    if o.unknown: return "unexpected command started: %r" % o.unknown[0], set(), False
    ex, bad = o.executions(c)
    if bad: return bad, set(), False
    if case.get("fail"):
        d = mk.descendants(c)
        for i in ex:
            if stop and stop[1] == "rule" and d[i] & stopped and i in ref.reach(roots[stop[0]]) and not any(i in ref.reach(g) for g in roots[:stop[0]]):
                return "target %s was built although %s is missing" % (T[i]["n"], stop[2]), set(), False
        if r.running: return "processes left running", set(), False
        return None, tags | {"commands fail"}, bool(stop) and n > 2
    c2 = dict(c)
    c2["goals"] = list(roots[:stop[0]] if stop else roots)
    want = mk.Ref(c2).run()[0] if c2["goals"] else []
    nm = lambda l: [T[i]["n"] for i in l]
    if not stop or stop[1] == "plain":
        if sorted(ex) != sorted(want): return "targets built %s, expected %s (missing: %s)" % (nm(ex), nm(want), stop and stop[2]), set(), False
        return None, tags, bool(stop) and n > 2
    rest = sorted(ex)
    for i in want:
        if i not in rest: return "target %s was not built for an earlier goal" % T[i]["n"], set(), False
        rest.remove(i)
    d = mk.descendants(c)
    allowed = set(ref.reach(roots[stop[0]]))
    for i in rest:
        if i not in allowed or d[i] & stopped: return "target %s was built although %s is missing" % (T[i]["n"], stop[2]), set(), False
    if rest: tags.add("others built before")
    if r.running: return "processes left running", set(), False
    # nothing is started after the error; commands of targets that are being built end
    done = {}
    for _, w, i, k, code in o.tl:
        if w == "exit": done[i] = k
    for i in ex:
        if done.get(i) != len(T[i]["cmds"]) - 1 and not any(mk.fatal(x) for x in T[i]["cmds"]):
            return "target %s was left unfinished" % T[i]["n"], set(), False
    return None, tags, n > 2
