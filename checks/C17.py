import mk
FLAVOUR = "plain"
RULE = ("up to 7 rules over four source and two target extensions with search paths in several spellings, suffix lines in any place, up to 6 targets with and without "
        "commands, listed and unlisted, with any subset of possible sources; non-trivial: a target had two or more fitting rules with existing sources, or a rule "
        "was not used because of its suffix or directory")
QUICK, THOROUGH = 14000, 700000
FE = ["aa", "bb", "cc", "dd"]
TE = ["oo", "pp", "o"]
FD = [".", "src", "s\\x", "with sp"]
TD = [".", "out", "o\\y"]

def case(draw):
    R = []
    for i in range(mk.ints(draw, 1, 7)):
        R.append({"fe": mk.pick(draw, FE), "te": mk.pick(draw, TE), "fd": mk.pick(draw, FD), "td": mk.pick(draw, TD), "batch": mk.chance(draw, 1, 5), "n": mk.pick(draw, [1, 1, 2]),
                  "sp": [mk.ints(draw, 0, 5) for _ in range(2)], "deco": mk.ints(draw, 0, 9)})
    S = [[mk.ints(draw, 0, len(R)), [mk.pick(draw, FE) for _ in range(mk.ints(draw, 0, 3))], mk.chance(draw, 1, 8)] for _ in range(mk.ints(draw, 0, 2))]
    M = []
    for i in range(mk.ints(draw, 1, 6)):
        r = mk.pick(draw, R)
        m = {"n": mk.pick(draw, ["m%d", "M%d", "m.%d", "m%d.aa", "x-%d"]) % i, "te": r["te"] if mk.chance(draw, 3, 4) else mk.pick(draw, TE), "td": r["td"] if mk.chance(draw, 3, 4) else mk.pick(draw, TD),
             "t": None if mk.chance(draw, 1, 2) else -mk.ints(draw, 1, 9), "kind": mk.pick(draw, ["unlisted", "listed", "listed", "cmd", "dep"]), "up": mk.chance(draw, 1, 6)}
        m["src"] = {}
        for d in FD:
            for e in FE:
                fits = any(x["fd"] == d and x["fe"] == e and x["te"] == m["te"] for x in R)
                if mk.chance(draw, 1, 2 if fits else 12): m["src"][d + "|" + e] = -mk.ints(draw, 1, 9)
        M.append(m)
    return {"R": R, "S": S, "M": M, "j": mk.ints(draw, 1, 3), "Y": mk.chance(draw, 1, 3), "hseed": mk.ints(draw, 0, 20), "base": mk.chance(draw, 7, 8), "sched": mk.schedule(draw, 20)}

def path(d, k):
    if d == ".": return ["", "", "{.}", "{.\\}", "{./}", ""][k]
    d2 = [d, d, d.replace("\\", "/"), d + "\\", d + "/", "$(E)" + d][k]
    return "{%s}" % d2

def judge(case, sim):
    R, M = case["R"], case["M"]
    mf = ["E =", ".SUFFIXES:", ".SUFFIXES: .aa .bb" if case["base"] else ""]
    sfx = ["aa", "bb"] if case["base"] else []
    for i in range(len(R) + 1):
        for pos, l, upper in case["S"]:
            if pos == i:
                mf += [".SUFFIXES: " + " ".join("." + (e.upper() if upper else e) for e in l), ""]
                sfx = sfx + l if l else []
        if i < len(R):
            r = R[i]
            deco = {0: " ", 1: " # remark", 2: "# remark"}.get(r["deco"], "")
            mf += ["%s.%s%s.%s%s%s" % (path(r["fd"], r["sp"][0]), r["fe"], path(r["td"], r["sp"][1]), r["te"], "::" if r["batch"] else ":", deco)]
            mf += ["\tact R%d.%d $<" % (i, k) for k in range(r["n"])] + [""]
    pre = lambda d: "" if d == "." else d + "\\"
    files = [{"p": "C:/work/keep.txt", "d": "x", "t": -9}]
    tn = []
    for m in M:
        n = pre(m["td"]) + m["n"] + "." + m["te"]
        tn.append(n.upper() if m["up"] else n)
        if m["t"] is not None: files.append({"p": mk.vfs(n), "d": "x", "t": m["t"]})
        for k, t in m["src"].items():
            d, e = k.split("|")
            files.append({"p": mk.vfs(pre(d) + m["n"] + "." + e), "d": "x", "t": t})
    for i, m in enumerate(M):
        if m["kind"] == "unlisted" and m["t"] is None and not m["src"]: m["kind"] = "listed"
    mf += ["all: " + " ".join(tn), ""]
    for i, m in enumerate(M):
        if m["kind"] != "unlisted": mf += ["%s: %s" % (tn[i], "keep.txt" if m["kind"] == "dep" else "")] + (["\tact own%d" % i] if m["kind"] == "cmd" else []) + [""]
    want, maybe, tags, nontriv = [], [], set(), False
    missing = []
    for i, m in enumerate(M):
        own = m["kind"] == "cmd"
        deptimes = [-9] if m["kind"] == "dep" else []
        if own:
            if m["t"] is None: want.append(("own%d" % i, ()))
            continue
        fit = [(k, r) for k, r in enumerate(R) if r["te"] == m["te"] and r["td"] == m["td"] and r["fe"] in sfx]
        have = [(k, r) for k, r in fit if r["fd"] + "|" + r["fe"] in m["src"]]
        if len(fit) < sum(r["te"] == m["te"] and r["fd"] + "|" + r["fe"] in m["src"] for r in R): nontriv = True; tags.add("unfit")
        if not have:
            if m["kind"] == "unlisted" and m["t"] is None: missing.append(tn[i])
            continue
        if len(have) > 1: nontriv = True; tags.add("several")
        best = min(sfx.index(r["fe"]) for _, r in have)
        k, r = [x for x in have if sfx.index(x[1]["fe"]) == best][-1]
        st = m["src"][r["fd"] + "|" + r["fe"]]
        src = pre(r["fd"]) + (m["n"].upper() if m["up"] else m["n"]) + "." + r["fe"]
        items = [("R%d.%d" % (k, x), src) for x in range(r["n"])]
        times = [m["src"][x["fd"] + "|" + x["fe"]] for _, x in have]
        if m["t"] is None or m["t"] < max([st] + deptimes): want += items
        elif m["t"] < max(times): maybe += items       # an unused source is newer
    r = sim.run({"argv": ["/NOLOGO", "/J", str(case["j"])] + (["/Y"] if case["Y"] else []) + ["all"], "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf) + "\n"}] + files,
                 "dirs": ["C:/work/out", "C:/work/src"], "schedule": case["sched"], "hseed": case["hseed"],
                 "progs": dict([("R%d.%d" % (k, x), []) for k, r in enumerate(R) for x in range(r["n"])] + [("own%d" % i, []) for i in range(len(M))])})
    b = r.broken()
    if b: return b, {"broken"}, False
    if missing:
        return None, {"missing"}, False       # another property
    if r.code != 0: return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    got = []
    for e in r.starts():
        w = e["cmd"].split(" ", 2)
        if w[0] != "act": return "unexpected command %r" % e["cmd"], set(), False
        if w[1].startswith("own"): got.append((w[1], ())); continue
        rule = R[int(w[1][1:].split(".")[0])]
        rest = (w[2] if len(w) > 2 else "").replace("/", "\\")
        names = []
        cur = ""
        for x in rest.split(" "):
            cur = (cur + " " + x).strip()
            if cur.replace('"', "") in {s for _, s in want + maybe}: names.append(cur.replace('"', "")); cur = ""
        if cur: return "rule run with unexpected source: %r" % e["cmd"], set(), False
        got += [(w[1], n) for n in names]
    for x in maybe:
        if x in got: got.remove(x)
    if sorted(map(str, got)) != sorted(map(str, want)):
        return "rules were run as %s, expected %s" % (sorted(map(str, got)), sorted(map(str, want))), set(), False
    return None, tags, nontriv
