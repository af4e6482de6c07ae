import mk
FLAVOUR = "plain"
RULE = ("random dependency graph (targets, leaves, name spellings, time stamps, pseudo targets, several goals, /A, -J, schedule); "
        "non-trivial: at least one target with dependents is up to date and at least one is executed")
QUICK, THOROUGH = 12000, 400000

def case(draw):
    c = mk.graph(draw)
    c["mf"] = mk.elsewhere(draw)
    if len(c["goals"]) > 1 and c["L"]:      # a command that also updates a file which only later goals use
        i = mk.ints(draw, 0, len(c["T"]) - 1)
        for l in c["L"]:
            if sideok(c, i, l["n"]):
                c["side"] = [i, l["n"], mk.chance(draw, 1, 2) and goneok(c, i, l["n"])]
                break
    return c

def goneok(c, i, leaf):
    """the file may even be missing at the beginning: it is surely created before anything looks at it"""
    ref = mk.Ref(c)
    roots = ref.run_by_root()
    for k, g in enumerate(c["goals"]):
        if any(ref.norm(d) == ref.norm(leaf) for j in ref.reach(g) for d in ref.deps(j)): return False
        if i in ref.reach(g): return i in roots[k]
    return False

def sideok(c, i, leaf):
    ref, later, first = mk.Ref(c), False, None
    for k, g in enumerate(c["goals"]):
        r = ref.reach(g)
        if i in r:
            if first is not None: return False
            first = k
        users = {j for j in r for d in ref.deps(j) if ref.norm(d) == ref.norm(leaf)}
        if first == k and users - mk.descendants(c)[i] - {i}: return False      # looked at before or after the change?
        later |= bool(users) and first is not None and k > first
    return first is not None and later

def judge(case, sim):
    s = mk.scenario(case)
    side = case.get("side")
    if side:
        if side[0] >= len(case["T"]) or not case["T"][side[0]]["cmds"] or not sideok(case, *side[:2]): return None, {"skipped"}, False
        if len(side) > 2 and side[2]:
            if not goneok(case, *side[:2]): return None, {"skipped"}, False
            s["files"] = [f for f in s["files"] if f["p"].lower() != mk.vfs(side[1]).lower()]
        s["progs"][case["T"][side[0]]["cmds"][-1]["id"]].append(["touch", side[1]])
    r = sim.run(s)
    b = r.broken()
    if b:
        return b, {"broken"}, False
    o = mk.Obs(case, r)
    if o.unknown:
        return "unexpected command started: %r" % o.unknown[0], set(), False
    ex, bad = o.executions(case)
    if bad:
        return bad, set(), False
    ref = mk.Ref(case)
    want, _ = ref.run()
    T = case["T"]
    if sorted(ex) != sorted(want):
        n = lambda l: sorted(T[i]["n"] for i in l)
        return "executed targets %s, expected %s (exit %s, stderr %r)" % (n(ex), n(want), r.code, r.etext()[-200:]), set(), False
    if r.code != 0:
        return "exit status %s, expected 0; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    reach = set()
    for g in case["goals"] or [case["order"][0]]:
        reach |= set(ref.reach(g))
    idle = [i for i in reach if i not in want and T[i]["deps"] and T[i]["cmds"]]
    tags = {"exec%d" % min(len(want), 4)}
    if idle: tags.add("uptodate")
    if len(case["goals"]) > 1: tags.add("multigoal")
    if len(want) != len(set(want)): tags.add("repeated")
    if side and side[0] in want: tags.add("%s a source of a later goal" % ("creates" if side[2:] == [True] else "updates"))
    if case["A"]: tags.add("/A")
    return None, tags, bool(idle and want)
