import base64, copy, re, mk, C14, C15
FLAVOUR = "plain"
RULE = ("makefiles as for C15 (all kinds of commands, inline files, rules, .SYNC, failures, /K, several goals, missing dependents), run with and without a random subset of the reporting options "
        "under the same completion order; non-trivial: two or more targets are built and two or more of these options are given")
QUICK, THOROUGH = 9000, 400000
OPTS = ["/D", "/P", "/W", "/U", "/L", "/NOLOGO", "/S", "/C", "/X", "/G"]

def case(draw):
    c = C15.case(draw)
    c["cfg"] = [C15.config(draw)]
    c["o"] = [o for o in OPTS if mk.chance(draw, 1, 4)] or [mk.pick(draw, OPTS)]
    c["low"] = mk.chance(draw, 1, 4)
    c["join"] = mk.chance(draw, 1, 4)
    c["x"] = mk.pick(draw, ["err.txt", "sub\\e.txt", "C:\\temp\\err log.txt"])
    c["A"] = c["A"] or mk.chance(draw, 1, 4)
    c["I"] = mk.chance(draw, 1, 10)
    c["N"] = mk.chance(draw, 1, 10)
    c["miss"] = mk.pick(draw, [0] * 8 + [1, 2])
    return c

LOGO = re.compile(r"jom \d[^\n]*\n\n")
nm = lambda v: re.sub(r"\.4242\.\d+\.jom", ".4242.N.jom", v)

def observe(r, skip):
    ev = []
    pid = {}
    for e in r.events:
        if e["e"] == "start":
            pid[e["pid"]] = len(pid)
            ev.append(("start", nm(e["cmd"]), e["cwd"], {k: v for k, v in e["env"].items() if k != "_JOMSRVKEY_"}))
        elif e["e"] == "exit": ev.append(("exit", pid[e["pid"]], e["code"]))
        elif e["e"] == "sub": ev.append(("sub", nm(e["cmd"]), e["cwd"]))
    fs = {nm(k).lower(): v[1] for k, v in r.fs.items() if k.lower() != skip}
    return ev, fs

def judge(case, sim):
    s = C14.build(case, True)
    mf = s["files"][0]["d"]
    s["files"][0] = {"p": "C:/work/Makefile", "d": mf.replace("\tact rule $<\n", "\ttouch $@\n")}
    rest = s["argv"][3:]
    if case.get("miss"):    # one more goal, with a missing dependent
        s["files"][0]["d"] += "\ngone: nosuchfile\n\tact never\n"
        rest = rest + ["gone"] if case["miss"] == 1 else ["gone"]
    cfg = case["cfg"][0]
    s["schedule"], s["hseed"], s["race"], s["envnames"] = cfg["sched"], cfg["hseed"], False, True
    base = ["/J", str(cfg["j"])] + (["/K"] if case["K"] else []) + (["/I"] if case["I"] else []) + (["/N"] if case.get("N") else [])
    O = case["o"]
    more = []
    one = [o for o in O if len(o) == 2 and o != "/X"]
    if case["join"] and len(one) > 1: more = ["/" + "".join(o[1] for o in one)] + [o for o in O if o == "/NOLOGO"]
    else: more = [o for o in O if o != "/X"]
    if case["low"]: more = [o.lower().replace("/", "-") for o in more]
    if "/X" in O: more += ["/X", case["x"]]
    R = []
    for opts in ([], more):
        x = copy.deepcopy(s)
        x["argv"] = opts + base + rest
        r = sim.run(x)
        b = r.broken()
        if b: return b, {"broken"}, False
        R.append(r)
    a, z = R
    xf = mk.vfs(case["x"]).lower()
    ev, fs = zip(*[observe(r, xf) for r in R])
    what = " ".join(O)
    if ev[0] != ev[1]:
        k = [x == y for x, y in zip(*ev)].index(False) if any(x != y for x, y in zip(*ev)) else min(map(len, ev))
        return "with %s the build does %s instead of %s" % (what, ev[1][k:k + 1], ev[0][k:k + 1]), set(), False
    if fs[0] != fs[1]: return "with %s other files: %s" % (what, sorted(k for k in set(fs[0]) | set(fs[1]) if fs[0].get(k) != fs[1].get(k))), set(), False
    if a.code != z.code: return "with %s the exit status is %s instead of %s" % (what, z.code, a.code), set(), False
    # ---- what is printed
    err = z.etext()
    if "/X" in O:
        got = [base64.b64decode(v[1]).decode("latin1") for k, v in z.fs.items() if k.lower() == xf]
        if not got: return "/X %s: there is no such file" % case["x"], set(), False
        if err: return "/X given, but stderr is %r" % err, set(), False
        err = got[0]
    e0, err = [x.replace("\r\n", "\n").lstrip("\n") for x in (a.etext(), err)]
    if e0.startswith("Error: ") and a.code == 2 and not a.starts():
        if nm(err) != nm(e0): return "with %s stderr is %r instead of %r" % (what, err, e0), set(), False
        return None, {"error"}, False
    if not LOGO.match(e0): return "no logo: %r" % e0[:80], set(), False
    if "/L" in O or "/NOLOGO" in O: e0 = LOGO.sub('', e0, count=1)
    if nm(err) != nm(e0): return "with %s stderr is %r instead of %r" % (what, err, e0), set(), False
    o0, o1 = [nm(x.text()).replace("\r\n", "\n") for x in R]
    if ("/S" in O or "/C" in O) and not case.get("N"): o0 = "".join(l for l in o0.splitlines(True) if not l.startswith("\t"))
    tags = set(O)
    if "/U" in O:
        blocks = re.findall(r"(?ms)^---([^\n]*?)---\n(.*?)---end of inline file---\n", o1)
        o1 = re.sub(r"(?ms)^---[^\n]*?---\n.*?---end of inline file---\n", "", o1)
        used = []
        for e in a.starts():
            m = re.search(r"act x @?\"?(.*?)\"?$", e["cmd"])
            if m and (m.group(1).lower().endswith(".jom") or re.match(r"n\d+\.tmp$", m.group(1))): used.append(nm(m.group(1)).replace("\\", "/"))
        got = [b[0].replace("\\", "/") for b in blocks]
        for u in set(used):
            if got.count(u) < used.count(u): return "/U printed the inline files %s, used were %s" % (got, used), set(), False
        for n_, t in blocks:
            # the content of files with a name that nobody changes afterwards
            if t.replace("\r\n", "\n") not in ("", "line\n", "\n") and not t.startswith("line "): return "/U printed %r as content of %s" % (t, n_), set(), False
        if blocks: tags.add("inline files")
    if "/D" in O:
        lines = o1.splitlines(True)
        first = lines
        d = [l for l in lines if re.match(r"[* ]\S* ?\S* ?[^\t]", l) and not l.startswith("\t")] if "/P" not in O else []
        o1 = "".join(l for l in lines if not re.match(r"[* ]", l)) if "/P" not in O else o1
        if "/P" not in O:
            named = {l.rstrip("\n")[1:].split(" ", 1)[-1].strip().lower().replace("/", "\\") for l in d}
            ran = {i for i, t in enumerate(case["T"]) for c in t["cmds"] if c["id"] and any(e["cmd"] == "act " + c["id"] for e in a.starts())}
            for i in ran:
                n_ = case["T"][i]["n"].lower().replace("/", "\\")
                if not any(x.endswith(n_) for x in named): return "/D does not show %s" % n_, set(), False
    if "/W" in O:
        i = o1.find("jom: Entering directory 'C:\\work'\n")
        if i < 0 or (i > 0 and "/P" not in O): return "/W does not print the directory first: %r" % o1[:200], set(), False
        if not o1.rstrip("\n").endswith("jom: Leaving directory 'C:\\work'"): return "/W does not print the directory last: %r" % o1[-200:], set(), False
        j = o1.rindex("jom: Leaving directory")
        o1 = o1[:i] + o1[o1.index("\n", i) + 1:j]
    if "/P" in O:
        if not o1.startswith("MACROS:\n\n") or "\nINFERENCE RULES:\n\n" not in o1 or "\nTARGETS:\n\n" not in o1: return "/P does not print the makefile: %r" % o1[:300], set(), False
        body = o1[o1.index("\nTARGETS:\n\n"):]
        for t in case["T"]:
            if t["n"].lower().replace("/", "\\") not in body.lower().replace("/", "\\"): return "/P does not show target %s" % t["n"], set(), False
        if "/D" in O: o1 = o0
        if not o1.endswith(o0): return "with %s stdout ends with %r instead of %r" % (what, o1[-len(o0) - 100:], o0), set(), False
    elif o1 != o0: return "with %s stdout is %r instead of %r" % (what, o1, o0), set(), False
    built = {e["cmd"] for e in a.starts() if re.match(r"act c\d", e["cmd"])}
    if a.code: tags.add("failed")
    return None, tags, len(built) > 1 and len(O) > 1
