import re, mk
FLAVOUR = "plain"
RULE = ("up to 5 targets with up to 6 commands each (processes, shell commands, cd with every kind of argument or none, set, comments, tolerated "
        "failures), 1..4 jobs, random completion order; non-trivial: a process starts after an effective cd or set in its own target and "
        "another target runs commands too")
QUICK, THOROUGH = 20000, 800000
DIRS = ["C:/work", "C:/work/sub", "C:/work/sub/inner", "C:/work/with sp", "C:/other", "C:/other/sub", "C:/", "C:/work/sub/sub"]
FILES = ["C:/work/plain.txt", "C:/work/sub/plain.txt"]
ARGS = ["sub", "sub\\inner", "sub/inner", "..", ".", "inner", "..\\sub", "..\\..\\other", "C:\\other", "C:/other/sub", "C:\\work\\sub", "SUB", "nowhere",
        "plain.txt", "with sp", '"with sp"', '"sub"', "/d sub", "/D C:\\other", '/d "with sp"', ".\\sub", "C:\\nowhere", "..\\nowhere", "..\\work", "  sub", "\t..", "/d  sub", "/d", "  /d\t\"with sp\"", "$(EMPTY)", "$(EMPTY)"]
VARS = ["ALPHA", "Beta", "gamma"]

def resolve(cwd, arg):
    a = arg.strip()
    if a[:2].lower() == "/d":
        a = a[2:].strip()
    if a[:1] == '"':
        a = a.strip('"')
    a = a.replace("\\", "/")
    p = a if a[1:2] == ":" else cwd + "/" + a
    parts = []
    for x in p.split("/")[1:]:
        if x == "..":
            parts = parts[:-1]
        elif x not in ("", "."):
            parts.append(x)
    p = "C:/" + "/".join(parts)
    for d in DIRS:
        if d.lower() == p.lower():
            return d
    return None

def case(draw):
    n = mk.ints(draw, 1, 5)
    T = []
    for i in range(n):
        cs = []
        for k in range(mk.ints(draw, 1, 6)):
            kind = mk.pick(draw, ["act", "act", "act", "sh", "cd", "cd", "cd", "set", "set", "rem"])
            c = {"kind": kind}
            if kind in ("act", "sh"): c["nops"] = mk.ints(draw, 0, 2)
            if kind == "cd": c["arg"] = mk.pick(draw, ARGS); c["up"] = mk.chance(draw, 1, 4)
            if kind == "set":
                c["var"] = mk.pick(draw, VARS) if mk.chance(draw, 1, 2) else "U%d_%d" % (i, k)
                c["val"] = mk.pick(draw, ["v%d%d", "a b %d%d", "x=%d%d", "%d\"q\"%d", "%d.%d"]) % (i, k)
                c["up"] = mk.chance(draw, 1, 4)
            c["at"] = mk.chance(draw, 1, 4)
            cs.append(c)
        cs.append({"kind": "act", "nops": 0, "at": False})
        if mk.chance(draw, 1, 3):       # nothing follows: must not reach the next target
            cs.append({"kind": "cd", "arg": mk.pick(draw, ARGS), "up": False, "at": False})
        T.append({"cmds": cs, "deps": [d for d in range(i + 1, n) if mk.chance(draw, 1, 3)]})
    return {"T": T, "j": mk.pick(draw, [1, 1, 2, 3, 4]), "env": mk.chance(draw, 1, 2), "sched": mk.schedule(draw, 40)}

def judge(case, sim):
    T = case["T"]
    mf = ["all: " + " ".join("t%d" % i for i in range(len(T))), ""]
    progs = {}
    for i, t in enumerate(T):
        mf.append("t%d: %s" % (i, " ".join("t%d" % d for d in t["deps"])))
        for k, c in enumerate(t["cmds"]):
            at = "@" if c["at"] else ""
            if c["kind"] == "act": s = "act c%d_%d" % (i, k)
            elif c["kind"] == "sh": s = "act c%d_%d > nul" % (i, k)
            elif c["kind"] == "cd": s = "-" + ("CD " if c["up"] else "cd ") + c["arg"]
            elif c["kind"] == "set": s = ("SET  " if c["up"] else "set ") + "%s=%s" % (c["var"], c["val"])
            else: s = "rem act no"
            mf.append("\t" + at + s)
            progs["c%d_%d" % (i, k)] = [["nop"]] * c.get("nops", 0)
        mf.append("")
    env = {"ALPHA": "outside"} if case["env"] else {}
    r = sim.run({"argv": ["/NOLOGO", "/J", str(case["j"])], "dirs": DIRS, "env": env, "envnames": True, "progs": progs, "schedule": case["sched"],
                 "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf)}] + [{"p": f, "d": ""} for f in FILES]})
    b = r.broken()
    if b:
        return b, {"broken"}, False
    if r.code != 0:
        return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    n = len(T)
    desc = [set() for _ in T]
    for i in reversed(range(n)):
        for d in T[i]["deps"]:
            desc[i] |= {d} | desc[d]
    pos = {}            # (i, k) -> (start, exit) positions
    pid = {}
    env_at = {}
    for p, e in enumerate(r.events):
        if e["e"] == "start":
            w = next((x for x in e["cmd"].split() if x[0] == "c" and "_" in x), None)
            if w is None:
                return "unexpected command %r" % e["cmd"], set(), False
            key = tuple(int(x) for x in w[1:].split("_"))
            if key in pos:
                return "command c%d_%d started twice" % key, set(), False
            pos[key] = [p, None]
            pid[e["pid"]] = key
            env_at[key] = e
        elif e["e"] == "exit" and e["pid"] in pid:
            pos[pid[e["pid"]]][1] = p
    procs = [[k for k, c in enumerate(t["cmds"]) if c["kind"] in ("act", "sh")] for t in T]
    effective = 0
    # order, working directories, number of failed cd
    wantbad, printed = [], []
    out = r.text().split("\n")
    msgs = re.findall(r"Couldn't change working directory to (.*?)\.\n", r.etext())
    for i, t in enumerate(T):
        cwd = "C:/work"
        last = None
        moved = False
        mine = []
        for k, c in enumerate(t["cmds"]):
            if c["kind"] == "cd":
                d = resolve(cwd, c["arg"])
                if c["arg"] == "$(EMPTY)": printed.append(cwd)
                elif c["arg"] == "/d": pass
                elif d is None:
                    a = c["arg"].strip()
                    if a[:2].lower() == "/d": a = a[2:].strip()
                    mine.append(a.replace('"', ""))
                else:
                    moved |= d != cwd
                    cwd = d
            elif c["kind"] in ("act", "sh"):
                if (i, k) not in pos:
                    return "command c%d_%d was not run" % (i, k), set(), False
                if last is not None and pos[(i, last)][1] > pos[(i, k)][0]:
                    return "command c%d_%d starts before c%d_%d has ended" % (i, k, i, last), set(), False
                got = env_at[(i, k)]["cwd"].rstrip("/") or "C:/"
                if got.lower() != cwd.lower().rstrip("/"):
                    return "command c%d_%d runs in %s, expected %s" % (i, k, got, cwd), set(), False
                last = k
                if moved or any(x["kind"] == "set" for x in t["cmds"][:k]): effective += 1
        wantbad += mine
        left = iter(msgs)
        if not all(x in left for x in mine): return "failed cd reported: %s, expected %s in this order" % (msgs, mine), set(), False
    got = [x for x in out if re.match(r"[A-Z]:", x)]
    want = [x.replace("/", "\\") for x in printed]
    if sorted(x.lower() for x in got) != sorted(x.lower() for x in want): return "cd without argument prints %s, expected %s" % (got, want), set(), False
    if r.etext().count("Couldn't change working directory") != len(wantbad):
        return "%d failed cd reported, expected %d (%s)" % (r.etext().count("Couldn't change"), len(wantbad), wantbad), set(), False
    # environment
    sets = [(i, k, c) for i, t in enumerate(T) for k, c in enumerate(t["cmds"]) if c["kind"] == "set"]
    def before(s, key):     # True, False or None (unknown): is set command s done when key starts?
        i, k = s
        j, m = key
        if i == j:
            return k < m
        if i in desc[j]: return True
        if j in desc[i]: return False
        nxt = next(x for x in procs[i] if x > k)
        if pos[(i, nxt)][0] < pos[key][0]: return True
        prev = [x for x in procs[i] if x < k]
        if prev and pos[(i, prev[-1])][1] > pos[key][0]: return False
        if case["j"] == 1: return False     # the target of the set command has not been reached yet
        return None
    byname = {}
    for i, k, c in sets:
        byname.setdefault(c["var"].upper(), []).append((i, k, c))
    for key, e in env_at.items():
        got = {k.upper(): v for k, v in e["env"].items()}
        for name, l in byname.items():
            states = [(before((i, k), key), i, k, c) for i, k, c in l]
            yes = [s for s in states if s[0]]
            maybe = [s for s in states if s[0] is None]
            allowed = {s[3]["val"].strip() for s in maybe}
            base = env.get(name)
            if not yes:
                allowed.add(base)
            elif len(yes) == 1:
                allowed.add(yes[0][3]["val"])
            else:
                # the last one of those certainly executed; ordered by their targets
                last = [s for s in yes if not any(o is not s and (before((s[1], s[2]), (o[1], next(x for x in procs[o[1]] if x > o[2]))) and
                        ((s[1] == o[1] and s[2] < o[2]) or (s[1] != o[1] and pos[(s[1], next(x for x in procs[s[1]] if x > s[2]))][0] <
                        (pos[(o[1], [x for x in procs[o[1]] if x < o[2]][-1])][1] if [x for x in procs[o[1]] if x < o[2]] else -1))))
                        for o in yes)]
                allowed |= {s[3]["val"] for s in last}
            if got.get(name) not in allowed:
                return "command c%d_%d sees %s=%r, expected one of %s" % (key + (name, got.get(name), sorted(map(str, allowed)))), set(), False
    tags = {c["kind"] for t in T for c in t["cmds"]} | {"j%d" % case["j"]}
    return None, tags, bool(effective and n > 1)
