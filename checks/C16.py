import base64, re, mk, C14
FLAVOUR = "plain"
RULE = ("random graph where every target is written by its commands, with (batch) rules; a full build, then up to four rounds of changing sources, deleting built files, giving a source the time of what is made from it, or nothing, "
        "each followed by a build with another job count and completion order; non-trivial: a round changes or deletes something reachable and another target stays untouched")
QUICK, THOROUGH = 7000, 350000

def case(draw):
    c = mk.graph(draw, maxt=7, allwrite=True, cmdmax=2, alla=False)
    for t in c["T"]:
        for x in t["cmds"]: x["sil"] = False
    c["rules"] = [[None if mk.chance(draw, 1, 2) else -mk.ints(draw, 1, 9), -mk.ints(draw, 1, 9), mk.ints(draw, 0, len(c["T"]) - 1)] for _ in range(mk.ints(draw, 0, 4))]
    c["batch"] = mk.chance(draw, 1, 2)
    c["SILENT"] = False
    nt, nl, nr = len(c["T"]), len(c["L"]), len(c["rules"])
    rounds = []
    for _ in range(mk.ints(draw, 1, 4)):
        ops = []
        for _ in range(mk.pick(draw, [0, 1, 1, 1, 2])):
            k = mk.pick(draw, ["leaf", "del", "src", "rul", "same", "rsame"])
            n = {"leaf": nl, "del": nt, "src": nr, "rul": nr, "same": nl, "rsame": nr}[k]
            if n: ops.append([k, mk.ints(draw, 0, n - 1)])
        rounds.append({"ops": ops, "j": mk.ints(draw, 1, 4), "sched": mk.schedule(draw, 30), "hseed": mk.ints(draw, 0, 5)})
    c["rounds"] = rounds
    return c

def judge(case, sim):
    s = C14.build(case, False)
    mf = s["files"][0]["d"].replace("\tact rule $<\n", "\tconv .\\ .rul $<\n")
    s["files"][0] = {"p": "C:/work/Makefile", "d": mf}
    goals = s["argv"][3:]
    r = sim.run(s)
    b = r.broken()
    if b: return b, {"broken"}, False
    if r.code != 0: return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    T = case["T"]
    ref = mk.Ref(case)
    reach = set()
    for g in case["goals"] or [case["order"][0]]: reach |= set(ref.reach(g))
    desc = mk.descendants(case)
    leafs = [set() for _ in T]
    lk = {mk.vfs(l["n"]).lower(): i for i, l in enumerate(case["L"])}
    for i, t in enumerate(T):
        for d in t["ds"]:
            k = mk.vfs(d[0]).lower()
            if k in lk: leafs[i].add(lk[k])
    nontriv = False
    tags = set()
    for rn, rd in enumerate(case["rounds"]):
        state = {k.lower(): {"p": k, "t": v[0], "b": v[1]} for k, v in r.fs.items()}
        now = 1000 * (rn + 1)
        dirty, rdirty = set(), set()
        for kind, i in rd["ops"]:
            if kind == "leaf":
                state[mk.vfs(case["L"][i]["n"]).lower()]["t"] = now - 5
                dirty |= {k for k in range(len(T)) if i in leafs[k]}
            elif kind == "src":
                state["c:/work/r%d.src" % i]["t"] = now - 5
                if case["rules"][i][2] in reach: rdirty.add(i)
            elif kind == "same":      # as old as the oldest file made from it: nothing has to be done
                us = [mk.vfs(T[k]["n"]).lower() for k in range(len(T)) if i in leafs[k]]
                f = state[mk.vfs(case["L"][i]["n"]).lower()]
                if us and f["t"] < now - 5 and all(u in state for u in us): f["t"] = min(state[u]["t"] for u in us)
            elif kind == "rsame":
                f, u = state["c:/work/r%d.src" % i], state.get("c:/work/r%d.rul" % i)
                if u and f["t"] < now - 5: f["t"] = u["t"]
            elif kind == "rul":
                if state.pop("c:/work/r%d.rul" % i, None) is not None or case["rules"][i][2] in reach:
                    if case["rules"][i][2] in reach: rdirty.add(i)
            else:
                if state.pop(mk.vfs(T[i]["n"]).lower(), None) is not None: dirty.add(i)
        dirty |= {case["rules"][i][2] for i in rdirty}
        want = {i for i in reach if i in dirty or desc[i] & dirty}
        s2 = dict(s, files=list(state.values()), schedule=rd["sched"], hseed=rd["hseed"], now=now, argv=["/NOLOGO", "/J", str(rd["j"])] + goals)
        r = sim.run(s2)
        b = r.broken()
        if b: return "round %d: %s" % (rn, b), {"broken"}, False
        if r.code != 0: return "round %d: exit status %s; stderr %r" % (rn, r.code, r.etext()[-300:]), set(), False
        got, rgot = [], []
        for e in r.starts():
            w = e["cmd"].split()
            if w[0] == "act": got.append(w[1])
            else: rgot += [int(x[1:-4]) for x in w[3:]]
        exp = sorted(c["id"] for i in want for c in T[i]["cmds"])
        if sorted(got) != exp or sorted(rgot) != sorted(rdirty):
            return "round %d (%s): commands %s and rules for %s are run, expected %s and %s" % (rn, rd["ops"], sorted(got), sorted(rgot), exp, sorted(rdirty)), set(), False
        if want and len(want) < len(reach): nontriv = True
        tags |= {k for k, _ in rd["ops"]} or {"nothing"}
    return None, tags, nontriv
