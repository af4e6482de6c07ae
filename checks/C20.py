import mk
FLAVOUR = "plain"
RULE = ("makefile in the current or another directory; dependency graphs with a few additional edges between any two targets, in any spelling (case, slashes, absolute), .SYNC points, several goals, and graphs with up to 2^48 paths; "
        "non-trivial: the makefile contains a cycle (reachable or not) or more than a million paths")
QUICK, THOROUGH = 12000, 600000

def case(draw):
    c = mk.graph(draw, maxt=9, alla=True, fails=0)
    n = len(c["T"])
    c["mf"] = mk.elsewhere(draw)
    c["x"] = []
    if mk.chance(draw, 1, 5):       # .SYNC between targets that only rules make
        m = mk.ints(draw, 1, 4)
        names = ["x%d.out" % k for k in range(mk.ints(draw, 2, 4))]
        B = []
        for i in range(m):
            ds = []
            for _ in range(mk.ints(draw, 1, 4)):
                if ds and mk.chance(draw, 1, 2): ds.append(".SYNC")
                ds.append("b%d" % mk.ints(draw, i + 1, m - 1) if i + 1 < m and mk.chance(draw, 1, 3) else mk.pick(draw, names))
            B.append(ds)
        return {"B": B, "names": names, "goal": mk.ints(draw, 0, m - 1), "j": mk.ints(draw, 1, 3), "rule0": mk.chance(draw, 1, 3)}
    if mk.chance(draw, 1, 5):
        c["ladder"] = [mk.pick(draw, [3, 15, 30, 48]), mk.pick(draw, ["ok", "fail", "cycle", "N"])]
        c["x"] = []
    else:
        c["ladder"] = None
        for _ in range(mk.pick(draw, [0, 1, 1, 1, 2])):
            i, j = mk.ints(draw, 0, n - 1), mk.ints(draw, 0, n - 1)
            nm = c["T"][j]["n"]
            k = mk.ints(draw, 0, 4)
            if k < 2 and nm[1:2] == ":": nm = nm[len(mk.WORK) + 1:]
            d = list(mk.respell(draw, nm))
            pos = mk.ints(draw, 0, len(c["T"][i]["ds"]))
            if c["T"][i]["split"]: pos = len(c["T"][i]["ds"])
            c["T"][i]["ds"].insert(pos, d)
            c["x"].append([i, j])
    return c

def edges(c):
    r = mk.Ref(c)
    return [r.children(i) for i in range(len(c["T"]))]

def cyclic(E, roots):
    state = {}
    def rec(i):
        state[i] = 1
        for j in E[i]:
            s = state.get(j)
            if s == 1 or (s is None and rec(j)): return True
        state[i] = 2
        return False
    return any(i not in state and rec(i) for i in roots)

def implicit(case, sim):
    B, names = case["B"], case["names"]
    E = {"b%d" % i: [d for d in ds if d != ".SYNC"] for i, ds in enumerate(B)}
    for n in names: E[n] = []
    for ds in B:
        before, upto = [], []
        for d in ds:
            if d == ".SYNC": upto = list(before)
            else: E[d] += upto; before.append(d)
    ids = list(E)
    root = "b%d" % case["goal"]
    cyc = cyclic([[ids.index(d) for d in E[x]] for x in ids], [ids.index(root)])
    rule = [".in.out:", "\tact c_$@", ""]
    mf = [".SUFFIXES: .in", ""] + (rule if case["rule0"] else [])
    for i, ds in enumerate(B): mf += ["b%d: %s" % (i, " ".join(ds)), "\tact c_b%d" % i, ""]
    mf += [] if case["rule0"] else rule
    r = sim.run({"argv": ["/NOLOGO", "/J", str(case["j"]), root], "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf)}] + [{"p": "C:/work/%s.in" % n[:-4], "d": "x"} for n in names],
                 "progs": dict([("c_" + n, [["touch", n]]) for n in names] + [("c_b%d" % i, [["nop"]]) for i in range(len(B))])})
    b = r.broken()
    if b: return b, {"broken"}, False
    says = "cycle" in r.etext()
    st = [e["cmd"].split("c_")[-1] for e in r.starts()]
    if says != cyc: return "cycle %sreported; exit status %s, stderr %r" % ("" if says else "not ", r.code, r.etext()[-300:]), set(), False
    if cyc and (not r.code or st): return "cycle reported, exit status %s, started %s" % (r.code, st), set(), False
    reach = set()
    def rec(x):
        if x not in reach:
            reach.add(x)
            for y in E[x]: rec(y)
    if not cyc:
        rec(root)
        if r.code or sorted(st) != sorted(reach): return "built %s, expected %s; exit status %s" % (sorted(st), sorted(reach), r.code), set(), False
    return None, {"implicit " + ("cycle" if cyc else "no cycle")}, cyc

def judge(case, sim):
    if case.get("B"): return implicit(case, sim)
    if case["ladder"]:
        return ladder(case, sim)
    E = edges(case)
    goals = case["goals"] or [case["order"][0]]
    cyc = cyclic(E, goals)
    any_ = cyclic(E, range(len(E)))
    r = sim.run(mk.scenario(case))
    b = r.broken()
    if b: return b, {"broken"}, False
    says = "cycle" in r.etext()
    if cyc:
        if not says: return "no cycle reported; exit status %s, stderr %r" % (r.code, r.etext()[-300:]), set(), False
        if not r.code: return "cycle reported, but exit status 0", set(), False
        if r.starts(): return "started %r although there is a cycle" % r.starts()[0]["cmd"], set(), False
    elif says:
        return "cycle reported where there is none: %r" % r.etext()[-300:], set(), False
    elif r.code != 0:
        return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    tags = {"cycle" if cyc else "unreachable cycle" if any_ else "no cycle"}
    return None, tags, any_

def ladder(case, sim):
    depth, kind = case["ladder"]
    ls = []
    for i in range(depth):
        ls += ["t%d: a%d b%d" % (i, i, i), "\tact t%d" % i, "a%d: t%d" % (i, i + 1), "\tact a%d" % i, "b%d: t%d" % (i, i + 1), "\tact b%d" % i]
    ls += ["t%d: %s" % (depth, "t%d" % (depth // 2) if kind == "cycle" else ""), "\t%s" % ("fail 1" if kind == "fail" else "act x")]
    r = sim.run({"argv": ["/NOLOGO", "/J", str(case["j"]), "/K"] + (["/N"] if kind == "N" else []) + (["/A"] if case["A"] else []), "files": [{"p": "C:/work/Makefile", "d": "\n".join(ls) + "\n"}],
                 "progs": dict([("%s%d" % (k, i), []) for i in range(depth) for k in "tab"] + [("x", [])]), "schedule": case["sched"], "hseed": case["hseed"]})
    b = r.broken()
    if b: return "%s with %d levels of diamonds" % (b, depth), {"broken"}, False
    says = "cycle" in r.etext()
    if says != (kind == "cycle"): return "cycle %sreported (%s)" % ("" if says else "not ", kind), set(), False
    n = len(r.starts())
    want = {"ok": 3 * depth + 1, "fail": 1, "cycle": 0, "N": 0}[kind]
    if n != want: return "%d commands started, expected %d" % (n, want), set(), False
    if (r.code == 0) != (kind in ("ok", "N")): return "exit status %s" % r.code, set(), False
    return None, {"ladder " + kind}, depth > 20
