import mk
FLAVOUR = "plain"
RULE = ("random environments (names in any case, names that are no macro names, values with quotes, equal signs, percent signs, invalid macro invocations, empty and long values), macros on the "
        "command line, definitions in the makefile (also appending to the inherited value), /E and /R, set commands with %NAME% and of PATH (with a program in several directories) in a chain of targets, direct and shell commands, 1..4 jobs; "
        "non-trivial: at least two of the sources command line, makefile and set change something and a process starts after the change")
QUICK, THOROUGH = 14000, 600000

NAMES = ["FOO", "Foo2", "bar", "MY_VAR", "a.b", "1ST", "_u", "CC", "LIB", "INCLUDE", "X", "LongerName_123", "ProgramFiles(x86)", "=C:", "=D:", "=ExitCode", "X-Y", "with blank"]
PLAIN = NAMES[:12]
VALUES = ["1", "v", "a b", "C:\\dir;C:\\other dir\\", "", "a=b", "=", "\"q w\"", "%FOO%", "100%", " lead", "trail ", "#h", "x;y", "a&b", "^c", "(", ")", "\u00e4\u20ac", "z" * 3000, "'", "/K", "@f"]
BAD = ["$+$P$_$G", "$(", "a$(b", "$()"]

def case(draw):
    c = {"env": {}, "cl": [], "mk": [], "opts": [o for o in ("/E", "/R") if mk.chance(draw, 1, 6)], "j": mk.pick(draw, [1, 2, 4]), "sched": mk.schedule(draw, 24)}
    used = set()
    for _ in range(mk.ints(draw, 0, 6)):
        n = mk.pick(draw, NAMES)
        k = mk.ints(draw, 0, 5)
        if k == 1: n = n.upper()
        if k == 2: n = n.lower()
        if n.upper() in used: continue
        used.add(n.upper())
        c["env"][n] = mk.pick(draw, BAD) if mk.chance(draw, 1, 10) else mk.pick(draw, VALUES)
    for _ in range(mk.ints(draw, 0, 3)):
        n = mk.pick(draw, PLAIN)
        k = mk.ints(draw, 0, 3)
        if k == 1: n = n.upper()
        if k == 2: n = n.lower()
        if n.upper() in [x[0].upper() for x in c["cl"]]: continue
        v = mk.pick(draw, [x for x in VALUES if x == x.strip() and "#" not in x])
        c["cl"].append([n, v])
    for _ in range(mk.ints(draw, 0, 4)):
        n = mk.pick(draw, PLAIN + ["OTHER"])
        if mk.chance(draw, 3, 4): n = n.upper()
        v = mk.pick(draw, ["m", "m n", "", "a=b", "C:\\m;", "self", "ref", "self"])
        c["mk"].append([n, v, mk.pick(draw, PLAIN).upper()])
    if mk.chance(draw, 1, 3):       # programs are looked up in PATH
        c["path"] = "C:\\Windows\\System32;C:\\tc"
        k = mk.ints(draw, 0, 7)
        if k == 0: c["cl"].append(["PATH", "C:\\ta;C:\\tb"])
        if k == 1: c["mk"].append(["PATH", mk.pick(draw, ["self", "C:\\tb"]), "X"])
    c["T"] = []
    for t in range(mk.ints(draw, 1, 3)):
        cmds = []
        for _ in range(mk.ints(draw, 1, 4)):
            k = mk.ints(draw, 0, 5)
            if k < 2:
                n = mk.pick(draw, PLAIN + ["NEWVAR", "newvar", "PATH", "foo", "Bar"])
                v = mk.pick(draw, ["s", "s t", "", "%FOO%", "%bar%;s", "%Nothing%", "50%", "%X%%x%", "%", "a=b", "\"q\"", "%MY_VAR%%%LIB%", "p\\q;"])
                if "path" in c and mk.chance(draw, 1, 2): n = mk.pick(draw, ["PATH", "Path", "path"])
                if n.upper() == "PATH": v = mk.pick(draw, ["%PATH%;C:\\n", "C:\\n;%Path%"] + (["C:\\ta;%PATH%", "C:\\tb;%path%", "C:\\tb", "C:\\n;C:\\TA\\;C:\\tb"] if "path" in c else []))
                cmds.append(["set", n, v])
            else:
                cmds.append(["run", mk.pick(draw, ["", "", "", " > out.txt", " & act n", "cmd /C "] + (["tool ", "tool ", "tool ", "tool.exe "] if "path" in c else []))])
        c["T"].append(cmds)
    return c

VALID = set("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.")
def isname(n): return n and set(n.upper()) <= VALID and not n.startswith(".")

def expand(v, env):
    """%NAME% as the shell does"""
    out, i = "", 0
    while i < len(v):
        j = v.find("%", i + 1) if v[i] == "%" else -1
        if v[i] == "%" and j > 0 and v[i + 1:j].upper() in env:
            out += env[v[i + 1:j].upper()]; i = j + 1
        else: out += v[i]; i += 1
    return out

def model(case):
    """environments of the processes in their order, the makefile, number of changes by source"""
    env = {"PATH": "C:\\Windows\\System32", "SYSTEMROOT": "C:\\Windows", "COMSPEC": "C:\\Windows\\System32\\cmd.exe", "TMP": "C:\\temp"}
    spell = {"PATH": "PATH", "SYSTEMROOT": "SystemRoot", "COMSPEC": "ComSpec", "TMP": "TMP"}
    fuzzy = set()
    mac, ro, fromenv = {}, set(), set()
    ch = {"cl": 0, "mk": 0, "set": 0}
    orig = {}
    for n, v in case["env"].items():
        env[n.upper()] = v; spell[n.upper()] = n
    if "path" in case: env["PATH"] = case["path"]
    orig = dict(env)
    for n, v in case["cl"]:
        env[n.upper()] = v
        ch["cl"] += 1
        for x in (n, n.upper()):
            mac[x] = v; ro.add(x)
    for n, v in orig.items():
        if not isname(n): continue
        if v in BAD: fuzzy.add(n); continue
        if n in mac: continue
        mac[n] = v
        fromenv.add(n)
        if "/E" in case["opts"]: ro.add(n)
    if "/R" not in case["opts"] and "CC" not in ro: mac["CC"] = "cl"
    mf = ""
    for n, v, o in case["mk"]:
        if o == "CC" and n == "CC": o = "X"
        if v == "self":
            text = "$(%s);m" % n
            val = mac.get(n, "") + ";m"
        elif v == "ref" and o != n:
            text = "r$(%s)" % o
            val = "r" + mac.get(o, "")
        else: text = val = "w" if v == "ref" else v
        mf += "%s = %s\n" % (n, text)
        if n in ro: continue
        if n in fuzzy: pass
        # the value is expanded when the makefile defines it
        mac[n] = val
        if n in fromenv:
            env[n] = val
            ch["mk"] += 1
    progs, want = {}, []
    changed = set()
    for t in reversed(range(len(case["T"]))):
        name = "t%d" % t
        mf += "\n%s :%s\n" % (name, " t%d" % (t + 1) if t + 1 < len(case["T"]) else "")
    lines = {}
    for t in reversed(range(len(case["T"]))):
        l = []
        for k, c in enumerate(case["T"][t]):
            if c[0] == "set":
                l.append("set %s=%s" % (c[1], c[2]))
                v = expand(c[2].replace("%%", "%"), env)
                if v == "": env.pop(c[1].upper(), None); spell.pop(c[1].upper(), None)
                else: env[c[1].upper()] = v
                ch["set"] += 1
            else:
                cid = "c%d%d" % (t, k)
                progs[cid] = [["nop"]]
                if c[1].startswith("tool"): l.append(c[1] + cid)
                else: l.append(c[1] + "act " + cid if c[1].startswith("cmd") else "act " + cid + c[1])
                want.append((cid, dict(env), dict(spell), len([x for x in ch.values() if x])))
        lines["t%d" % t] = l
    out = []
    for l in mf.split("\n"):
        out.append(l)
        if l.endswith(":") or " :" in l:
            out += ["\t" + x for x in lines[l.split(" ")[0]]]
    if "path" in case: progs["tool"] = []
    return want, "\n".join(out) + "\n", progs, fuzzy

def judge(case, sim):
    want, mf, progs, fuzzy = model(case)
    progs["n"] = [["nop"]]
    # the default target is the one the others are needed for
    s = {"argv": ["/NOLOGO", "/S", "/J", str(case["j"])] + case["opts"] + ["%s=%s" % (n, v) for n, v in case["cl"]] + ["t0"], "env": dict(case["env"], **({"PATH": case["path"]} if "path" in case else {})), "progs": progs,
         "schedule": case["sched"], "files": [{"p": "C:/work/Makefile", "d": mf}] + [{"p": "C:/%s/tool.exe" % d, "d": "MZ"} for d in ("ta", "tb", "tc")], "envnames": True}
    r = sim.run(s)
    b = r.broken()
    if b: return b, {"broken"}, False
    if r.code or r.etext(): return "exit status %s, stderr %r" % (r.code, r.etext()[-300:]), set(), False
    st = r.starts()
    if len(st) != len(want): return "%d processes started, expected %d" % (len(st), len(want)), set(), False
    tags = set(case["opts"])
    best = 0
    for e, (cid, env, spell, n) in zip(st, want):
        if cid not in e["cmd"]: return "process %r started, expected %s" % (e["cmd"], cid), set(), False
        if e["cmd"].startswith("tool"):
            exe = next(d.strip("\\")[3:].lower() for d in env["PATH"].split(";") if d.strip("\\")[-2:].lower() in ("ta", "tb", "tc"))
            tags.add("path")
            if e["exe"].lower() != "c:/%s/tool.exe" % exe: return "%s is %s with PATH=%s" % (e["cmd"], e["exe"], env["PATH"]), set(), False
        got = {}
        for x in e["envraw"]:
            i = x.index("=", 1)
            nm, v = x[:i], x[i + 1:]
            if nm.upper() in got: return "%s: %s occurs twice in the environment" % (e["cmd"], nm), set(), False
            got[nm.upper()] = v
            if nm.upper() in spell and nm != spell[nm.upper()]: return "%s: variable %s is spelled %s" % (e["cmd"], spell[nm.upper()], nm), set(), False
        for x in ("_JOMSRVKEY_", "_JOMJOBCOUNT_"):
            if x not in got: return "%s: no %s in the environment" % (e["cmd"], x), set(), False
            got.pop(x)
        for x in set(got) | set(env):
            if got.get(x) != env.get(x): return "%s: environment variable %s is %r, expected %r" % (e["cmd"], x, got.get(x), env.get(x)), set(), False
        best = max(best, n)
    if any(n.startswith("=") for n in case["env"]): tags.add("hidden variables")
    if fuzzy: tags.add("invalid macro")
    if any(v == "" for v in case["env"].values()): tags.add("empty")
    tags.add("%d sources" % best)
    return None, tags, best >= 2
