import mk
FLAVOUR = "plain"
RULE = ("dependency graphs as for C02 with other spellings, duplicates, .SYNC points and targets that only rules can make, both dump options in any spelling with other options; "
        "non-trivial: some target has two or more parents or the graph has three or more edges")
QUICK, THOROUGH = 12000, 600000

def case(draw):
    c = mk.graph(draw, maxt=9, multigoal=False)
    c["opt"] = mk.pick(draw, ["/DUMPGRAPH", "/DUMPGRAPHDOT", "-dumpgraph", "-DumpGraphDot", "/DUMPGRAPHDOT"])
    c["logo"] = mk.chance(draw, 1, 2)
    c["more"] = [o for o in ["/A", "/K", "/S", "/D", "/I"] if mk.chance(draw, 1, 6)]
    n = len(c["T"])
    c["sync"] = mk.chance(draw, 1, 4)
    c["rules"] = [mk.ints(draw, 0, n - 1) for _ in range(mk.pick(draw, [0, 0, 1, 2]))]
    return c

def judge(case, sim):
    T = case["T"]
    ref = mk.Ref(case)
    s = mk.scenario(case, header=".SUFFIXES: .src\n" if case["rules"] else "")
    mf = s["files"][0]["d"]
    ch = [list(ref.children(i)) for i in range(len(T))]
    name = lambda x: x if isinstance(x, str) else T[x]["n"].replace("/", "\\")
    kids = {name(i): [name(k) for k in ch[i]] for i in range(len(T))}
    for x, i in enumerate(case["rules"]):
        if T[i]["colon"] == 2: continue
        mf += "\n%s : r%d.rul\n" % (mk.q(T[i]["n"], False), x)
        kids[name(i)].append("r%d.rul" % x)
        kids["r%d.rul" % x] = []
        s["files"].append({"p": "C:/work/r%d.src" % x, "d": "x", "t": -1})
    if case["rules"]: mf += "\n.src.rul:\n\tact rule\n"
    if case["sync"]:
        # a block of its own with new targets below the goal
        g = (case["goals"] or [case["order"][0]])[0]
        if T[g]["colon"] == 1:
            mf += "\n%s : sa sb .SYNC sc .SYNC sd\nsa:\nsb:\nsc:\nsd: sa\n" % mk.q(T[g]["n"], False)
            kids[name(g)] += ["sa", "sb", "sc", "sd"]
            kids.update({"sa": [], "sb": [], "sc": ["sa", "sb"], "sd": ["sa", "sb", "sc"]})
            before = [name(k) for k in ch[g]]
    s["files"][0]["d"] = mf
    s["argv"] = [a for a in s["argv"] if a != "/A"]
    s["argv"] = ([] if case.get("logo") else s["argv"][:1]) + [case["opt"]] + case["more"] + s["argv"][1:]
    s["race"] = False
    r = sim.run(s)
    b = r.broken()
    if b: return b, {"broken"}, False
    if r.code != 0 or r.etext(): return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    for e in r.events:
        if e["e"] in ("start", "sub", "system", "create", "trunc", "remove"): return "the dump does %s" % e, set(), False
    root = name((case["goals"] or [case["order"][0]])[0])
    lines = r.text().split("\n")
    if lines and lines[-1] == "": lines.pop()
    want = set()
    seen = set()
    def rec(n):
        if n in seen: return
        seen.add(n)
        for k in kids[n]: want.add((n, k)); rec(k)
    rec(root)
    if "DOT" in case["opt"].upper():
        if lines[:1] != ["digraph G {"] or lines[-1:] != ["}"]: return "not a dot graph: %r" % lines, set(), False
        got = set()
        for l in lines[1:-1]:
            p = l.strip().rstrip(";").split("\" -> \"")
            if len(p) != 2 or not l.strip().endswith("\";") or p[0][0] != '"': return "not a dot edge: %r" % l, set(), False
            got.add((p[0][1:], p[1][:-1]))
        if got != want: return "missing edges %s, wrong edges %s" % (sorted(want - got), sorted(got - want)), set(), False
    else:
        pos = 0
        def tree(n, depth):
            nonlocal pos
            if pos >= len(lines) or lines[pos] != " " * depth + n: return "line %d is %r, expected %r" % (pos, lines[pos] if pos < len(lines) else None, " " * depth + n)
            pos += 1
            left = list(kids[n])
            left = list(dict.fromkeys(left))
            while left:
                if pos >= len(lines): return "%s lacks its dependents %s" % (n, left)
                l = lines[pos]
                nm = l[depth + 1:]
                if not l.startswith(" " * (depth + 1)) or nm not in left: return "line %d is %r, expected one of the dependents %s of %s" % (pos, l, left, n)
                left.remove(nm)
                m = tree(nm, depth + 1)
                if m: return m
        m = tree(root, 0)
        if m: return m, set(), False
        if pos != len(lines): return "superfluous lines %s" % lines[pos:], set(), False
    par = {}
    for a, b_ in want: par[b_] = par.get(b_, 0) + 1
    return None, {case["opt"].upper().strip("/-")}, any(v > 1 for v in par.values()) or len(want) > 2
