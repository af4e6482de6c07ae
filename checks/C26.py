import re, mk, C25
from C25 import expand, define, text, subst, Err
FLAVOUR = "plain"
RULE = ("up to 5 environment variables, 5 command line macros (also repeated and in other case), up to 10 makefile definitions, !UNDEFs and probes ($(X) in a command or !MESSAGE, !IFDEF) over 12 names "
        "incl. predefined ones, with and without /E and /R in any order; non-trivial: a probed name (in any case) is defined by two or more of the sources")
QUICK, THOROUGH = 16000, 800000
NAMES = ["CC", "cc", "Cc", "AS", "FOO", "foo", "Foo", "BAR", "bar", "x.y", "X.Y", "RCFLAGS", "INCLUDEDIR", "INCLUDE", "Include"]
PRE = {"AS": "ml", "ASFLAGS": "", "BC": "bc", "BCFLAGS": "", "CC": "cl", "CCFLAGS": "", "COBOL": "cobol", "COBOLFLAGS": "", "CPP": "cl", "CPPFLAGS": "", "CXX": "cl", "CXXFLAGS": "",
       "FOR": "fl", "FORFLAGS": "", "PASCAL": "pl", "PASCALFLAGS": "", "RC": "rc", "RCFLAGS": ""}

def value(draw, tag, fresh=[0]):
    l = [["l", tag + str(mk.ints(draw, 0, 99))]]
    if mk.chance(draw, 1, 3): l.append(["r", mk.pick(draw, NAMES)])
    if mk.chance(draw, 1, 8): l.append(["s", mk.pick(draw, NAMES), 4])
    if mk.chance(draw, 1, 8): l.append(["$"])
    if mk.chance(draw, 1, 6): l.append(["l", " b"])
    if mk.chance(draw, 1, 12): l = []
    return l

def case(draw):
    env = {}
    for _ in range(mk.ints(draw, 0, 5)):
        n = mk.pick(draw, NAMES)
        if n.upper() not in [x.upper() for x in env]: env[n] = value(draw, "e") if mk.chance(draw, 7, 8) else None
    args = [[mk.pick(draw, NAMES), value(draw, "c"), mk.ints(draw, 0, 1)] for _ in range(mk.ints(draw, 0, 5))]
    ops = []
    for _ in range(mk.ints(draw, 1, 12)):
        k = mk.ints(draw, 0, 9)
        n = mk.pick(draw, NAMES)
        if k < 4: ops.append(["def", n, value(draw, "m"), mk.ints(draw, 0, 1)])
        elif k == 4: ops.append(["undef", n])
        elif k < 7: ops.append(["msg", n])
        elif k < 9: ops.append(["cmd", n])
        else: ops.append(["ifdef", n])
    ops += [[mk.pick(draw, ["msg", "cmd", "ifdef"]), mk.pick(draw, NAMES)] for _ in range(2)]
    return {"env": env, "args": args, "ops": ops, "E": mk.chance(draw, 1, 3), "R": mk.chance(draw, 1, 3), "order": mk.schedule(draw, 10), "hseed": mk.ints(draw, 0, 9),
            "pre": [mk.pick(draw, sorted(PRE) + ["MAKE", "MAKEDIR", "MAKEDIR"]) for _ in range(2)],
            "cwd": mk.pick(draw, ["C:/work"] * 3 + ["C:/a b/work", "C:/w d", "C:/Work/x y", "C:/x/y z/w"])}

def judge(case, sim):
    env, ro, src = {}, set(), {}
    err = False
    def note(n, s): src.setdefault(n.upper(), set()).add(s)
    def setro(n, v, s):
        define(env, n, v); ro.add(n); note(n, s)
    # command line
    explicit = set()
    try:
        for n, v, _ in case["args"]:
            if n not in explicit:
                explicit.add(n)
                setro(n, v, "cmd")
                expand(env, v, set(), [])
            if n.upper() != n and n.upper() not in explicit:
                setro(n.upper(), v, "cmd")
                expand(env, v, set(), [])
    except Err: err = True
    # environment
    vals = {n: (v if v is not None else [["bad", ""]]) for n, v in case["env"].items()}
    for n in sorted(vals, key=str.upper):
        u = n.upper()
        if u in env:
            note(u, "env")
            try: expand(env, env[u], {u}, [])
            except Err:     # together with the environment a command line macro becomes cyclic: reported at once or when it is used
                if not err: return None, {"cyclic by the environment"}, False
            continue
        try: expand(env, vals[n], set(), [])
        except Err: continue
        define(env, u, vals[n]); note(u, "env")
        if case["E"]: ro.add(u)
    # predefined
    if not case["R"]:
        d = case.get("cwd", "C:/work").replace("/", "\\")
        for n, v in dict(PRE, MAKE="C:\\jom\\jom.exe", MAKEDIR='"%s"' % d if re.search(r"\s", d) else d).items():
            note(n, "pre")
            if n not in ro: env[n] = [["l", v]]
    mf, msgs, want, probed = [], [], [], set()
    for n in case["pre"]: case_ops = case["ops"]
    for k, o in enumerate(case["ops"] + [["msg", n] for n in case["pre"]]):
        n = o[1]
        if o[0] == "def":
            mf.append(n + ["=", " = "][o[3]] + text(o[2]))
            note(n, "mk")
            if not err and n not in ro: define(env, n, o[2])
        elif o[0] == "undef":
            mf.append("!UNDEF " + n)
            env.pop(n, None); ro.discard(n)
        elif o[0] == "ifdef":
            mf += ["!IFDEF " + n, "!MESSAGE m%d yes" % k, "!ELSE", "!MESSAGE m%d no" % k, "!ENDIF"]
            if not err: msgs.append("m%d %s" % (k, "yes" if n in env else "no"))
        else:
            if not err:
                try:
                    s = "[" + expand(env, env.get(n, []), {n}, []) + "]"
                    if o[0] == "msg": msgs.append("m%d %s" % (k, s))
                    else: want.append("act %d %s" % (k, s))
                except Err: err = True
            if o[0] == "msg": mf.append("!MESSAGE m%d [$(%s)]" % (k, n))
            else: mf += ["p%d:" % k, "\tact %d [$(%s)]" % (k, n), ""]
        if o[0] not in ("def", "undef"): probed.add(n.upper())
    mf += ["all: " + " ".join("p%d" % k for k, o in enumerate(case["ops"]) if o[0] == "cmd"), ""]
    args = ["%s=%s%s" % (n, " " * b, text(v)) for n, v, b in case["args"]]
    opts = ["/NOLOGO", "/J1", "all"] + (["/E"] if case["E"] else []) + (["-r"] if case["R"] else [])
    for i, o in enumerate(opts): args.insert(case["order"][i % len(case["order"])] % (len(args) + 1) if case["order"] else 0, o)
    e = {n: (text(v) if v is not None else "$+$P$_$G") for n, v in case["env"].items()}
    w = case.get("cwd", "C:/work")
    r = sim.run({"argv": args, "cwd": w, "dirs": [w], "files": [{"p": w + "/Makefile", "d": "\n".join(mf) + "\n"}], "hseed": case["hseed"], "env": e,
                 "progs": {str(k): [] for k in range(len(case["ops"]))}})
    b = r.broken()
    if b: return b, {"broken"}, False
    gm = [l for l in r.text().split("\n") if l.startswith("m")]
    if gm[:len(msgs)] != msgs or (not err and len(gm) != len(msgs)): return "messages %s, expected %s" % (gm, msgs), set(), False
    if err:
        if r.code == 0 or r.starts() or not r.etext(): return "cyclic reference is no error (exit status %s)" % r.code, set(), False
        return None, {"error"}, False
    if r.code != 0 or r.etext(): return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    got = sorted(x["cmd"].rstrip() for x in r.starts())
    if got != sorted(x.rstrip() for x in want): return "commands %s, expected %s" % (got, want), set(), False
    nt = any(len(src.get(n, ())) > 1 for n in probed)
    return None, {"-".join(sorted(src.get(n, ()))) for n in probed}, nt
