import math, mk
FLAVOUR = "plain"
RULE = ("1..10 targets made by one or two (batch) rules with directories, ages, sources made by another rule, generated dependents, parents depending on some of them, "
        "1..5 jobs, /Y, /A, /K with failing sources; non-trivial: a batch with at least two sources was run and one target was up to date, or a group failed")
QUICK, THOROUGH = 13000, 600000

def case(draw):
    rules = [{"batch": mk.chance(draw, 5, 6), "from": mk.pick(draw, [".", "src", "s\\r"]), "to": mk.pick(draw, [".", "obj"]), "chain": mk.pick(draw, ["", "", ":", "::"])}
             for _ in range(mk.pick(draw, [1, 1, 2]))]
    n = mk.ints(draw, 1, 10)
    M = []
    for i in range(n):
        r = mk.ints(draw, 0, len(rules) - 1)
        m = {"r": r, "t": None if mk.chance(draw, 1, 2) else -mk.ints(draw, 1, 9), "s": -mk.ints(draw, 1, 9), "gen": mk.ints(draw, 0, 1) if mk.chance(draw, 1, 6) else None, "chain": None, "name": mk.pick(draw, ["m%d", "M%d", "m.%d"]) % i,
             "listed": mk.chance(draw, 1, 2)}
        if rules[r]["chain"] and mk.chance(draw, 1, 2):
            m["chain"] = -mk.ints(draw, 1, 9)
            if mk.chance(draw, 1, 3): m["s"] = None
        M.append(m)
    P = [{"m": sorted({mk.ints(draw, 0, n - 1) for _ in range(mk.ints(draw, 1, 3))}), "t": None if mk.chance(draw, 1, 4) else -mk.ints(draw, 1, 5)} for _ in range(mk.ints(draw, 0, 4))]
    c = {"rules": rules, "M": M, "P": P, "gens": [[None if mk.chance(draw, 1, 3) else -mk.ints(draw, 1, 9), -mk.ints(draw, 1, 9)] for _ in range(2)],
         "j": mk.ints(draw, 1, 5), "Y": mk.chance(draw, 1, 6), "A": mk.chance(draw, 1, 8), "K": False, "fails": [], "sched": mk.schedule(draw, 40), "hseed": mk.ints(draw, 0, 3)}
    if mk.chance(draw, 1, 4):
        c["K"] = mk.chance(draw, 3, 4)
        c["gfail"] = c["K"] and mk.chance(draw, 1, 2)
        if c["gfail"]:
            for m in M:
                if mk.chance(draw, 1, 3): m["gen"] = 0
        c["fails"] = sorted({mk.ints(draw, 0, n - 1) for _ in range(mk.ints(draw, 1, 2))})
    return c

EXT = [("aa", "o"), ("bb", "p")]
def pre(d): return "" if d == "." else d + "\\"
def judge(case, sim):
    R, M, P = case["rules"], case["M"], case["P"]
    mf = [".SUFFIXES:", ".SUFFIXES: .aa .bb .zz"]
    tn = [pre(R[m["r"]]["to"]) + m["name"] + "." + EXT[m["r"]][1] for m in M]
    sn = [pre(R[m["r"]]["from"]) + m["name"] + "." + EXT[m["r"]][0] for m in M]
    brace = lambda d: "" if d == "." else "{%s}" % d
    files, dirs = [], ["C:/work/obj", "C:/work/src", "C:/work/s/r", "C:/work/z"]
    for i, r in enumerate(R):
        a, b = EXT[i]
        mf += ["%s.%s%s.%s%s" % (brace(r["from"]), a, brace(r["to"]), b, "::" if r["batch"] else ":"), "\tconv .\\%s .%s $<" % (pre(r["to"]), b), ""]
        if r["chain"]:
            mf += ["{z}.zz%s.%s%s" % (brace(r["from"]), a, r["chain"]), "\tconv .\\%s .%s $<" % (pre(r["from"]), a), ""]
    mf += ["all: " + " ".join(["p%d" % i for i in range(len(P))] + tn), ""]
    for i, p in enumerate(P):
        mf += ["p%d: %s" % (i, " ".join(tn[k] for k in p["m"])), "\tact p%d" % i, ""]
        if p["t"] is not None: files.append({"p": "C:/work/p%d" % i, "d": "x", "t": p["t"]})
    usedg = {m["gen"] for m in M if m["gen"] is not None}
    for g in usedg:
        t, s = case["gens"][g]
        mf += ["g%d.h: g%d.txt" % (g, g), "\tact g%d" % g, ""]
        files.append({"p": "C:/work/g%d.txt" % g, "d": "x", "t": s})
        if t is not None: files.append({"p": "C:/work/g%d.h" % g, "d": "x", "t": t})
    for i, m in enumerate(M):
        deps = (["g%d.h" % m["gen"]] if m["gen"] is not None else []) + ([sn[i]] if m["chain"] is not None else [])
        if deps or m["listed"]: mf += ["%s: %s" % (tn[i], " ".join(deps)), ""]
        for name, t in ((tn[i], m["t"]), (sn[i], m["s"])):
            if t is not None: files.append({"p": mk.vfs(name), "d": "x", "t": t})
        if m["chain"] is not None: files.append({"p": "C:/work/z/%s.zz" % m["name"], "d": "x", "t": m["chain"]})
    progs = {"p%d" % i: [["touch", "C:\\work\\p%d" % i]] for i in range(len(P))}
    progs.update({"g%d" % g: [["nop"], ["exit", 3] if g == 0 and case.get("gfail") else ["touch", "C:\\work\\g%d.h" % g]] for g in usedg})
    progs.update({"conv %s.%s" % (m["name"].lower(), EXT[m["r"]][0]): [["nop"]] + ([["exit", 1]] if i in case["fails"] else []) for i, m in enumerate(M)})
    r = sim.run({"argv": ["/NOLOGO", "/J", str(case["j"])] + ["/" + o for o in "YAK" if case[o]] + ["all"], "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf) + "\n"}] + files,
                 "dirs": dirs, "progs": progs, "schedule": case["sched"], "hseed": case["hseed"]})
    b = r.broken()
    if b:
        return b, {"broken"}, False
    # what has to be built
    A = case["A"]
    INF = 10 ** 9
    genre = {g: A or case["gens"][g][0] is None or case["gens"][g][0] < case["gens"][g][1] for g in usedg}
    need, chainneed = [], []
    for m in M:
        s = m["s"]
        ch = m["chain"] is not None and (A or s is None or s < m["chain"])
        chainneed.append(ch)
        times = [INF if ch else s]
        if m["gen"] is not None: times.append(INF if genre[m["gen"]] else case["gens"][m["gen"]][0])
        need.append(A or m["t"] is None or m["t"] < max(times))
    gfail = case.get("gfail") and 0 in usedg and genre[0]
    dead = {i for i, m in enumerate(M) if gfail and m["gen"] == 0}
    failing = {i for i in case["fails"] if need[i] and i not in dead}
    want_code = 0 if not failing and not gfail else 1 if case["K"] else 2
    if r.code != want_code:
        return "exit status %s, expected %d; stderr %r" % (r.code, want_code, r.etext()[-300:]), set(), False
    src = {s.lower(): i for i, s in enumerate(sn)}
    zsrc = {"z\\%s.zz" % m["name"].lower(): i for i, m in enumerate(M)}
    span, chainspan, pspan = {}, {}, {}
    groups = []
    pids = {}
    for pos, e in enumerate(r.events):
        if e["e"] == "start":
            w = e["cmd"].split()
            if w[0] == "conv":
                ext = w[2]
                g = []
                for x in w[3:]:
                    d, kind = (src, span) if x.lower() in src else (zsrc, chainspan)
                    i = d.get(x.lower())
                    if i is None: return "unexpected source %s in %r" % (x, e["cmd"]), set(), False
                    rule = R[M[i]["r"]]
                    exp = EXT[M[i]["r"]][1 if kind is span else 0]
                    if "." + exp != ext: return "%s is made by the wrong rule: %r" % (tn[i], e["cmd"]), set(), False
                    if not (need[i] if kind is span else chainneed[i]): return "%s is up to date and made again: %r" % (tn[i] if kind is span else sn[i], e["cmd"]), set(), False
                    if i in kind: return "source %s is used twice" % x, set(), False
                    kind[i] = [pos, None]
                    g.append((kind, i))
                if not g: return "rule run without source: %r" % e["cmd"], set(), False
                kind, i = g[0]
                isb = (R[M[i]["r"]]["batch"] if kind is span else R[M[i]["r"]]["chain"] == "::") and not case["Y"]
                if not isb and len(g) > 1: return "rule without batch mode run for several sources: %r" % e["cmd"], set(), False
                groups.append((kind is span, M[i]["r"], [x for _, x in g]))
                pids[e["pid"]] = g
            elif w[0] == "act":
                pids[e["pid"]] = w[1]
                pspan[w[1]] = [pos, None]
            else: return "unexpected command %r" % e["cmd"], set(), False
        elif e["e"] == "exit" and e["pid"] in pids:
            x = pids[e["pid"]]
            if isinstance(x, str): pspan[x][1] = pos
            else:
                for kind, i in x: kind[i][1] = pos
    bad = set(dead)
    for i in dead:
        if i in span: return "%s is made although g0.h failed" % tn[i], set(), False
    for s, _, g in groups:
        if s and failing & set(g): bad |= set(g)
    stopped = failing and not case["K"]
    if not stopped:
        for i in range(len(M)):
            if need[i] and i not in span and i not in dead: return "%s is out of date and not made" % tn[i], set(), False
            if chainneed[i] and i not in chainspan: return "%s is out of date and not made" % sn[i], set(), False
    for i in range(len(M)):
        if i in span and chainneed[i] and not (chainspan[i][1] is not None and chainspan[i][1] < span[i][0]):
            return "%s is made before %s" % (tn[i], sn[i]), set(), False
        g = M[i]["gen"]
        if i in span and g is not None and genre[g] and not pspan["g%d" % g][1] < span[i][0]:
            return "%s is made before g%d.h" % (tn[i], g), set(), False
    for i, p in enumerate(P):
        k = "p%d" % i
        out = A or p["t"] is None or any(need[m] or M[m]["t"] > p["t"] for m in p["m"])
        if k in pspan:
            if not out: return "%s is up to date and made again" % k, set(), False
            for m in p["m"]:
                if m in bad: return "%s is made although %s failed" % (k, tn[m]), set(), False
                if need[m] and not (m in span and span[m][1] is not None and span[m][1] < pspan[k][0]):
                    return "%s is made before %s is finished" % (k, tn[m]), set(), False
        elif out and not stopped and not any(m in bad for m in p["m"]):
            return "%s is out of date and not made" % k, set(), False
    # group sizes where all targets are known from the start
    for ri, rule in enumerate(R):
        mine = [i for i in range(len(M)) if M[i]["r"] == ri and need[i] and i not in dead]
        if rule["batch"] and not case["Y"] and mine and not stopped and not any(M[i]["gen"] is not None or M[i]["chain"] is not None for i in mine):
            size = max(1, math.floor(len(mine) / case["j"] + 0.5))
            gs = sorted(len(g) for s, x, g in groups if s and x == ri)
            want = sorted([size] * (len(mine) // size) + ([len(mine) % size] if len(mine) % size else []))
            if gs != want: return "groups of sizes %s, expected %s" % (gs, want), set(), False
    tags = {"Y" if case["Y"] else "batch"} | ({"K"} if case["K"] else set()) | ({"fail"} if failing else set()) | ({"chain"} if any(chainneed) else set())
    return None, tags, bool(any(len(g) > 1 for _, _, g in groups) and (failing or dead or not all(need)))
