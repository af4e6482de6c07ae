import re, mk
FLAVOUR = "plain"
RULE = ("random graph whose commands are programs, shell commands, cd, set, comments, ! commands and commands with inline files, silenced or not, with rules whose sources exist or are built first, /A, "
        "/K, /I, /D, several goals; dry run and real one-job run from the same files are compared; non-trivial: at least two targets are built and one not")
QUICK, THOROUGH = 13000, 600000
EXTRA = ["cd sub", "cd nowhere", "set X%d=1", "echo hello %d > nul", "rem remark %d", ": label", "nosuchtool %d", "act x @<<\nline $@\n<<%s", "act x <<n%d.tmp\nline\n<<%s",
         "del old%d.txt", "copy keep.txt copy%d.txt > nul", "!act x $**", "!act x $?", "!act x y%d", "act x > out%d.txt", "md dir%d", "act x 100%%%%", "<<tool%d.exe\n<<%s"]

def case(draw):
    c = mk.graph(draw, maxt=6, allwrite=True, cmdmax=2)
    c["j"] = mk.pick(draw, [1, 2, 4])
    n = 0
    for i, t in enumerate(c["T"]):
        cs = []
        for x in t["cmds"]:
            while mk.chance(draw, 1, 3):
                e = mk.pick(draw, EXTRA)
                if e.count("%s"):
                    o = mk.pick(draw, ["", "KEEP", "NOKEEP"])
                    e = e.replace("%s", o)
                if "%d" in e: e = e % n
                e = e.replace("%%", "%")
                n += 1
                cs.append({"id": "", "text": "-" + e, "nops": 0, "sil": mk.chance(draw, 1, 3)})
            x["sil"] = mk.chance(draw, 1, 3)
            cs.append(x)
        t["cmds"] = cs
    c["rules"] = [[None if mk.chance(draw, 1, 2) else -mk.ints(draw, 1, 9), -mk.ints(draw, 1, 9), mk.ints(draw, 0, len(c["T"]) - 1)] for _ in range(mk.ints(draw, 0, 3))]
    c["gen"] = [mk.chance(draw, 1, 4) for _ in c["rules"]]
    c["batch"] = mk.chance(draw, 1, 4)
    c["SILENT"] = mk.chance(draw, 1, 8)
    c["opts"] = [o for o in ["/S", "/K", "/I", "/C", "/D", "/Y"] if mk.chance(draw, 1, 8)]
    return c

def build(case, silent):
    import copy
    c = copy.deepcopy(case)
    for t in c["T"]:
        for x in t["cmds"]:
            if x["sil"] and silent:
                if "text" in x: x["text"] = "@" + x["text"]
                else: x["mods"] = "@" + x.get("mods", "")
    h = ".SUFFIXES: .src\n" + (".SILENT:\n" if c["SILENT"] and silent else "")
    s = mk.scenario(c, h)
    colon = "::" if c["batch"] else ":"
    mf = s["files"][0]["d"]
    if c["rules"]:
        mf += "\n.src.rul%s\n\tact rule $<\n" % colon
    byname = {}
    for k, (tt, st, i) in enumerate(c["rules"]):
        t = c["T"][i]
        mf += "\n%s %s r%d.rul\n" % (mk.q(t["n"], False), ":" * t["colon"], k)
        if case.get("gen", [])[k:k + 1] == [True]: mf += "r%d.rul: r%d.src\nr%d.src:\n\ttouch r%d.src\n" % (k, k, k, k)     # the rule applies as soon as its source is built
        else: s["files"].append({"p": "C:/work/r%d.src" % k, "d": "src", "t": st})
        if tt is not None: s["files"].append({"p": "C:/work/r%d.rul" % k, "d": "old", "t": tt})
    s["files"][0]["d"] = mf
    for name in ("keep.txt", "old0.txt", "old1.txt"):
        s["files"].append({"p": "C:/work/" + name, "d": "x"})
    s["dirs"] = ["C:/work/sub", "C:/temp"]
    s["progs"]["rule"] = [["sh", "x"]] if False else []
    return s

def judge(case, sim):
    s = build(case, False)
    goals = s["argv"][3 + (1 if case.get("A") else 0):]
    opts = case["opts"]
    s["argv"] = ["/NOLOGO", "/J", "1", "/Y"] + [o for o in opts if o not in ("/S", "/C", "/D", "/Y")] + (["/A"] if case.get("A") else []) + goals
    s["progs"]["rule"] = []
    mf = s["files"][0]["d"]
    # the real run's rule command has to update its target
    s["files"][0] = {"p": "C:/work/Makefile", "d": mf.replace("\n.src.rul::\n", "\n.src.rul:\n").replace("\tact rule $<\n", "\ttouch $@\n")}
    real = sim.run(s)
    b = real.broken()
    if b:
        return b, {"broken"}, False
    if real.code != 0:
        return "real run ends with %s; stderr %r" % (real.code, real.etext()[-300:]), set(), False
    d = build(case, True)
    batch = case["batch"] and "/Y" not in opts
    if not batch:
        d["files"][0]["d"] = d["files"][0]["d"].replace("\tact rule $<\n", "\ttouch $@\n")
    d["argv"] = ["/NOLOGO", "/N", "/J", str(case["j"])] + opts + (["/A"] if case.get("A") else []) + goals
    dry = sim.run(d)
    b = dry.broken()
    if b:
        return b, {"broken"}, False
    if dry.code != 0:
        return "dry run ends with %s; stderr %r" % (dry.code, dry.etext()[-300:]), set(), False
    if dry.err:
        return "dry run writes %r to stderr" % dry.etext()[-300:], set(), False
    for e in dry.events:
        if e["e"] in ("start", "sub", "system"):
            return "dry run starts %r" % e["cmd"], set(), False
        if e["e"] in ("create", "trunc", "remove"):
            return "dry run changes file %s (%s)" % (e["p"], e["e"]), set(), False
    import base64
    before = {f["p"].lower(): (f.get("d", "")).encode() for f in d["files"]}
    after = {k.lower(): base64.b64decode(v[1]) for k, v in dry.fs.items()}
    after = {k: v for k, v in after.items() if k in before or not k.endswith(".exe")}
    if {k: v for k, v in after.items() if k in before} != before:
        return "dry run changed files: %s" % [k for k in before if after.get(k) != before[k]], set(), False
    norm = lambda l: re.sub(r"\.4242\.\d+\.jom", ".4242.N.jom", l)
    a = [norm(l) for l in real.text().split("\n") if l.startswith("\t")]
    out = dry.text()
    if "/D" in opts:
        out = "".join(l for l in out.splitlines(True) if not re.match(r"[* ]", l))
    b_ = [norm(l) for l in out.split("\n")]
    if b_[-1:] == [""]: b_.pop()
    for l in b_:
        if not l.startswith("\t"):
            return "dry run prints %r" % l, set(), False
    if batch:       # which groups are formed is another property's business
        # a second goal with /A may run a group again
        srcs = lambda ls: (sorted if len(goals) < 2 else lambda x: sorted(set(x)))(w.replace(".rul", ".src") for l in ls for w in l.split()[(2 if l.startswith("\tact rule") else 1):]) 
        isr = lambda l: l.startswith("\tact rule") or l.startswith("\ttouch r")
        x, y = [l for l in a if not isr(l)], [l for l in b_ if not isr(l)]
        if srcs([l for l in a if isr(l)]) != srcs([l for l in b_ if isr(l)]):
            return "dry run prints other rule commands: %s, real run %s" % (b_, a), set(), False
    else:
        x, y = a, b_
    if sorted(x) != sorted(y):
        return "dry run prints other commands: %s, real run %s" % (y, x), set(), False
    if x != y and case["j"] == 1 and not batch:
        return "dry run prints commands in another order: %s, real run %s" % (y, x), set(), False
    o = {l.split()[1] for l in a if l.startswith("\tact c")}
    ids = {t["n"]: [c["id"] for c in t["cmds"] if c["id"]] for t in case["T"]}
    built = sum(any(i in o for i in v) for v in ids.values())
    tags = {"batch" if batch else "rules" if case["rules"] else "norules"}
    return None, tags, built >= 2 and built < len(case["T"])
