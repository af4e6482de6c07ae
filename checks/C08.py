import re, mk
FLAVOUR = "plain"
RULE = ("up to 5 targets with up to 4 commands each (started directly, through the shell, built-in cd, missing programs, in inference rules), "
        "random modifiers and exit codes, .IGNORE at a random place, /I; non-trivial: at least one non-zero exit code is tolerated and at "
        "least one is not")
QUICK, THOROUGH = 20000, 800000
ALL = 2 ** 32 - 1
CODES = [0, 1, 2, 3, 4, 5, 7, 9, 10, 99, 100, 254, 255, 256, 257, 1000, 65535, 65536, 0x7fffffff, 0x80000000, 0xc0000005, 0xf291, 0xf290, 0xffffffff, 259]

def mods(draw, code):
    s = ""
    for _ in range(mk.pick(draw, [0, 1, 1, 1, 2, 3])):
        k = mk.ints(draw, 0, 9)
        if k < 3: s += "@"
        elif k < 6: s += "-" * mk.pick(draw, [1, 1, 1, 2, 5])
        else:
            n = mk.pick(draw, [code, code, code - 1, code + 1, 0, 1, 2, 5, 255, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 64, 99999999999])
            s += "-" + mk.pick(draw, ["", "", "", "0", "00"]) + str(max(0, n))
    return s

def case(draw):
    T = []
    for i in range(mk.ints(draw, 1, 5)):
        cs = []
        for k in range(mk.ints(draw, 1, 4)):
            code = 0 if mk.chance(draw, 1, 4) else mk.pick(draw, CODES)
            how = mk.pick(draw, ["direct", "direct", "redir", "and", "cd", "missing"])
            if how == "cd": code = 1
            if how == "missing": code = 1
            cs.append({"how": how, "code": code, "mods": mods(draw, code)})
        T.append({"cmds": cs, "rule": mk.chance(draw, 1, 4)})
    n = len(T)
    return {"T": T, "ign": mk.ints(draw, 0, n) if mk.chance(draw, 1, 4) else None, "I": mk.chance(draw, 1, 8),
            "colon": mk.chance(draw, 1, 4), "j": mk.pick(draw, [1, 1, 2, 4]), "sched": mk.schedule(draw, 24)}

def text(i, k, c):
    n = "c%d%d" % (i, k)
    return c["mods"] + {"direct": "act %s" % n, "redir": "act %s > out%s" % (n, n), "and": "act %s && echo fine" % n,
                        "cd": "cd nowhere%d" % i, "missing": "nosuchtool %s" % n}[c["how"]]

def judge(case, sim):
    T = case["T"]
    names = [("r%d.obj" if t["rule"] else "t%d") % i for i, t in enumerate(T)]
    mf = ["all : " + " ".join(names), ""]
    progs, files = {}, []
    suffixes = []
    for i, t in enumerate(T):
        if case["ign"] == i:
            mf += [".IGNORE" + ":", ""]
        if t["rule"]:
            suffixes.append(".x%d" % i)
            files.append({"p": "C:/work/r%d.x%d" % (i, i), "d": "x", "t": -1})
            mf += [".x%d.obj%s" % (i, "::" if case["colon"] else ":")]
        else:
            mf += ["%s:" % names[i]]
        for k, c in enumerate(t["cmds"]):
            mf.append("\t" + text(i, k, c))
            progs["c%d%d" % (i, k)] = [["exit", c["code"]]]
        mf.append("")
    if case["ign"] == len(T):
        mf.append(".IGNORE:")
    if suffixes:
        mf.insert(0, ".SUFFIXES: " + " ".join(suffixes))
    for i, t in enumerate(T):
        if t["rule"]:
            mf += ["r%d.obj:" % i, ""]
    argv = ["/NOLOGO", "/J", str(case["j"])] + (["/I"] if case["I"] else ["/K"])
    r = sim.run({"argv": argv, "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf) + "\n"}] + files, "progs": progs, "schedule": case["sched"]})
    b = r.broken()
    if b:
        return b, {"broken"}, False
    # which commands have to be run
    tol = fat = 0
    failed, want = {}, {}
    for i, t in enumerate(T):
        base = ALL if case["I"] or (case["ign"] is not None and case["ign"] <= i) else 0
        want[i] = []
        for k, c in enumerate(t["cmds"]):
            want[i].append(k)
            code = mk.seen_code(c["code"])
            if code > mk.tolerance(c["mods"], base):
                fat += 1
                failed[i] = code
                break
            if code: tol += 1
    # which were: started processes, plus the error messages for built-in and missing commands
    got = {i: [] for i in range(len(T))}
    for e in r.starts():
        m = re.search(r"\b(?:act|nosuchtool) c(\d)(\d)", e["cmd"])
        if not m:
            return "unexpected command %r" % e["cmd"], set(), False
        got[int(m.group(1))].append(int(m.group(2)))
    ncd = {}
    for m in re.finditer(r"Couldn't change working directory to nowhere(\d)", r.etext()):
        ncd[int(m.group(1))] = ncd.get(int(m.group(1)), 0) + 1
    err = {names.index(a): int(b) for a, b in re.findall(r"\[(\S+)\] Error (\d+)", r.etext())}
    stop = [i for i in failed] if case["I"] else []
    for i in range(len(T)):
        w = [k for k in want[i] if T[i]["cmds"][k]["how"] != "cd"]
        d = [k for k in want[i] if T[i]["cmds"][k]["how"] == "cd"]
        if stop and not got[i] and not ncd.get(i) and i not in err:
            continue        # /I with a command that has its own limit: the build was stopped before this target
        if got[i] != w or ncd.get(i, 0) != len(d):
            return "target %s ran commands %s and %d failing cd, expected %s and %d" % (names[i], got[i], ncd.get(i, 0), w, len(d)), set(), False
        if err.get(i) != failed.get(i):
            return "target %s failed with %s, expected %s" % (names[i], err.get(i), failed.get(i)), set(), False
    wantcode = 0 if not failed else 2 if case["I"] else 1
    if r.code != wantcode:
        return "exit status %s, expected %s" % (r.code, wantcode), set(), False
    tags = {c["how"] for t in T for c in t["cmds"]} | {"rule" for t in T if t["rule"]}
    if case["I"]: tags.add("/I")
    if case["ign"] is not None: tags.add(".IGNORE")
    return None, tags, bool(tol and fat)
