import mk, base64
FLAVOUR = "plain"
RULE = ("up to 8 options (letters, /J n, /F, /X, /NOLOGO, now and then wrong ones) with macro definitions and targets, distributed over JOMFLAGS or MAKEFLAGS, the command line and command files, grouped, with / or -, in any case, "
        "run on a makefile on which each option has a visible effect; oracles: the effect of each option, the same options written one by one in upper case, and a second run with $(MAKEFLAGS) as MAKEFLAGS; "
        "non-trivial: at least three options, two of them in one argument, or an erroneous option")
QUICK, THOROUGH = 6000, 300000
LETTERS = "ABCDEGIKLNPQRSTUWY"
TARGETS = ["all", "other", "uptodate", "fail", "after", "conv"]
BAD = ["M", "O", "V", "Z", "1", "$", "#", "!", "\u00e4", "=", "J0", "Jx", "J", "F", "X", "J-1", "J99999999999", "J 0", "@", "mac=1 "]
TWO = ("DEBUG",) + tuple(a + b for a in ("NOLOGO", "ERRORREPORT") for b in ("NOLOGO", "ERRORREPORT"))     # a long name after a long name is not recognized
MF = r"""!MESSAGE flags [$(MAKEFLAGS)]
EM = makefile
!MESSAGE em [$(EM)] cc [$(CC)] mac [$(MAC)]
!INCLUDE inc.mk
.SUFFIXES:
.SUFFIXES: .a .b
.a.b::
	act 9 $<
all: conv uptodate equal text fail after other
conv: x.b y.b
uptodate: src
	act 1
equal: src
	act 2
text:
	act 3 <<
content
<<
	@act 4
fail:
	act 5
after: fail
	act 6
other:
	act 7
	act 8
"""
def case(draw):
    opts = []
    for _ in range(mk.ints(draw, 0, 8)):
        k = mk.ints(draw, 0, 14)
        if k == 0: opts.append(["F", mk.pick(draw, ["second.mk", "dir/b c.mk"])])
        elif k == 1: opts.append(["X", mk.pick(draw, ["err.txt", "dir/e r.txt"])])
        elif k < 5: opts.append(["J", mk.ints(draw, 1, 12)])
        elif k == 5: opts.append(["NOLOGO"])
        elif k == 6: opts.append(["ERRORREPORT"])
        else: opts.append([mk.pick(draw, LETTERS)])
    args = [["t", t] for t in sorted(set(mk.pick(draw, TARGETS) for _ in range(mk.ints(draw, 0, 2))))]
    if mk.chance(draw, 1, 3): args.append(["m", mk.pick(draw, ["MAC", "mac", "EM"]), mk.pick(draw, ["1", "two words", "-x", "/N", ""])])
    c = {"opts": opts, "args": args, "s": mk.schedule(draw, 40), "env": mk.pick(draw, ["", "", "J", "M", "JM"]), "first": mk.pick(draw, [0, 0, 1, 2, 3]),
         "bad": mk.ints(draw, 0, len(BAD) - 1) if mk.chance(draw, 1, 8) else None, "early": mk.pick(draw, ["H", "?", "VERSION", "h", "version"]) if mk.chance(draw, 1, 15) else None}
    return c

class S:
    def __init__(self, l): self.l, self.i = l, 0
    def __call__(self, n):
        v = self.l[self.i] if self.i < len(self.l) else 0
        self.i += 1
        return v % n

def recase(s, w):
    return [w.upper(), w.lower(), w.capitalize()][s(3)]
def group(s, opts, sep):
    """writes options as arguments"""
    r, cur, multi = [], "", False
    for o in opts:
        w = recase(s, o[0])
        if cur and (s(3) == 0 or (cur + w).upper().endswith(TWO)): r.append(cur); cur = ""
        if cur: multi = True
        cur += w
        if o[0] in "FXJ" and len(o) > 1:
            v = str(o[1])
            if s(2) and sep: r.append(cur); r.append(["v", v]); cur = ""
            else:
                cur += v
                if o[0] != "J" or s(2): r.append(cur); cur = ""
    if cur: r.append(cur)
    return [x if isinstance(x, list) else ["o", x] for x in r], multi

def judge(case, sim):
    s = S(case["s"])
    opts = [list(o) for o in case["opts"]]
    env, decoy = {}, None
    n = min(case["first"], len(opts)) if case["env"] else 0
    pre, rest = opts[:n], opts[n:]
    # /F and /X need an argument of their own
    rest = [o for o in pre if o[0] in "FX"] + rest
    pre = [o for o in pre if o[0] not in "FX"]
    nt = False
    if case["env"]:
        t = "".join(recase(s, o[0]) + (str(o[1]) if len(o) > 1 else "") for o in pre)
        if any(x in t.upper() for x in TWO): return None, {"ambiguous"}, False
        nt = len(pre) > 1
        if s(3) == 0: t = "-" + t
        env["MAKEFLAGS" if case["env"] == "M" else "JOMFLAGS"] = t
        if case["env"] == "JM" and t: env["MAKEFLAGS"] = ["NT", "N", "Zz", "J1", "FX"][s(5)]
        if case["env"] == "JM" and not t: env.pop("JOMFLAGS")
    units, multi = group(s, rest, True)
    nt = nt or multi
    # arguments: options with their values stay together
    args = []
    for k, v in units:
        if k == "v": args[-1].append(v)
        else: args.append([["/", "-"][s(2)] + v])
    for a in case["args"]:
        args.insert(s(len(args) + 1), [a[1]] if a[0] == "t" else ["%s=%s" % (a[1], a[2])])
    bad = case["bad"]
    tags = {"env" + case["env"]}
    if bad is not None:
        b = BAD[bad]
        tags.add("bad " + b); nt = True
        if b in ("J", "F", "X"): args.append(["/" + b])             # no value at the end
        elif b == "J 0": args.insert(s(len(args) + 1), ["/j", "0"])
        elif b == "@": args.insert(s(len(args) + 1), ["@missing.cmd"])
        elif "=" in b and len(b) > 1: args.insert(s(len(args) + 1), ["a b=c"])
        elif b[0] == "J": args.insert(s(len(args) + 1), ["-" + b])
        else: args.insert(s(len(args) + 1), ["/" + ["", "A", "b"][s(3)] + b])
    # a tail of the arguments moves to command files
    files, argv = [], [x for a in args for x in a]
    if bad is None and s(3) == 0 and args:
        k = s(len(args))
        l = args[k:]
        argv = [x for a in args[:k] for x in a]
        def qw(x): return '"' + x.replace('"', '""') + '"' if " " in x or s(4) == 0 else x
        text = ""
        for a in l:
            for x in a: text += qw(x) + [" ", "\n", "\t ", "\r\n", "\n\n"][s(5)]
        files.append({"p": "C:/work/args.cmd", "d": text})
        argv.insert(s(len(argv) + 1) if all(len(a) == 1 for a in args[:k]) else 0, "@args.cmd")
        tags.add("command file"); nt = True
    if case["early"] and bad is None: argv.insert(0, "/" + case["early"])
    eff = {o[0] for o in opts} - {"NOLOGO", "ERRORREPORT"} | ({"L"} if any(o[0] == "NOLOGO" for o in opts) else set())
    jobs = [o[1] for o in pre + rest if o[0] == "J"]
    F = ([None] + [o[1] for o in rest if o[0] == "F"])[-1]
    XF = ([None] + [o[1] for o in rest if o[0] == "X"])[-1]
    nt = nt and (len(opts) >= 3 or bad is not None)

    def run(argv, env):
        fs = [{"p": "C:/work/" + n, "d": MF} for n in ("Makefile", "second.mk", "dir/b c.mk")]
        for i, f in enumerate(fs): f["d"] = f["d"] + "!MESSAGE file %d\n" % i
        fs += [{"p": "C:/work/inc.mk", "d": "# included\n"}, {"p": "C:/work/src", "d": "", "t": -500}, {"p": "C:/work/uptodate", "d": "", "t": -400}, {"p": "C:/work/equal", "d": "", "t": -500},
               {"p": "C:/work/x.a", "d": ""}, {"p": "C:/work/y.a", "d": ""}]
        e = {"EM": "environment"}; e.update(env)
        progs = {str(i): [["nop"], ["nop"]] for i in range(10)}
        progs["5"] = [["exit", 3]]
        return sim.run({"argv": argv, "env": e, "files": fs + files, "progs": progs, "dirs": ["C:/work/dir"]})
    r = run(argv, env)
    b = r.broken()
    if b: return b, {"broken"}, False
    if case["early"] and bad is None:
        out = r.text()
        if r.code != 0 or r.starts() or (not out.startswith("Usage: jom") if case["early"].upper() in "H?" else not out.startswith("jom version ")): return "/%s: exit status %s, output %r" % (case["early"], r.code, out[:100]), set(), False
        return None, tags | {"early"}, nt
    if bad is not None:
        if r.code != 128 or r.starts(): return "erroneous arguments %r: exit status %s, %d commands" % (argv, r.code, len(r.starts())), set(), False
        if BAD[bad] != "mac=1 " and "Usage: jom" not in r.text(): return "no usage: %r" % r.text()[:200], set(), False
        if not r.etext(): return "no message for %r" % argv, set(), False
        return None, tags, nt
    # the same options one by one
    canon = []
    for o in pre + rest:
        if o[0] == "ERRORREPORT": continue           # accepted without effect
        canon.append("/" + o[0] + (str(o[1]) if o[0] == "J" else ""))
        if o[0] in "FX": canon.append(o[1])
    rank = [a for a in args]
    tm = [x[0] for x in rank if len(x) == 1 and x[0][0] not in "/-"]
    c = run(canon + tm, {})
    def view(x, nofl=False):
        t = x.text()
        return {"stdout": [l for l in t.split("\n") if not l.startswith(("flags [", "MAKEFLAGS = "))], "stderr": x.etext(), "exit status": x.code, "commands": [(e["cmd"], e["cwd"]) for e in x.starts()],
                "files": {p: v for p, v in x.fs.items() if not p.lower().endswith((".jom", "/args.cmd"))} if hasattr(x.fs, "items") else None}
    def differs(a, b, how):
        va, vb = view(a), view(b)
        for k in va:
            if va[k] != vb[k]: return "%s: %s differ: %r, expected %r (arguments %r, environment %r)" % (how, k, str(va[k])[:400], str(vb[k])[:400], argv, env)
    # /P lists the macros, which include environment variables
    d = None if "P" in eff and env else differs(r, c, "other spelling than %r" % (canon + tm))
    if d: return d, set(), False
    # effects
    out, starts = r.text(), [e["cmd"] for e in r.starts()]
    ids = [x.split()[1] for x in starts if x.startswith("act ")]
    goals = [a[1] for a in case["args"] if a[0] == "t"] or ["all"]
    def need(cond, what):
        return None if cond else "%s (arguments %r, environment %r; exit status %s, stdout %r, stderr %r, commands %r)" % (what, argv, env, r.code, out[-500:], r.etext()[-300:], starts)
    fl = next((l[7:-1] for l in out.split("\n") if l.startswith("flags [")), None)
    checks = [(fl is not None, "MAKEFLAGS is not printed")]
    if fl is not None:
        import re
        m = re.fullmatch(r"([A-Za-z]*?)(?:[Jj](\d+))?([A-Za-z]*)", fl)
        checks.append((m is not None, "strange MAKEFLAGS %r" % fl))
        if m: checks += [({x.upper() for x in m.group(1) + m.group(3)} == eff - set("FXJ"), "MAKEFLAGS is %r, expected the options %r" % (fl, eff)),
                         (m.group(2) == (str(jobs[-1]) if jobs else None), "MAKEFLAGS is %r, expected %r jobs" % (fl, jobs[-1:]))]
    mac = next((a for a in case["args"] if a[0] == "m"), None)
    em = "environment" if "E" in eff else "makefile"
    if mac and mac[1] == "EM": em = mac[2]
    checks.append(("em [%s] cc [%s] mac [%s]" % (em, "" if "R" in eff else "cl", mac[2] if mac and mac[1] != "EM" else "") in out, "values of macros (/E, /R)"))
    checks.append(("file %d" % ({None: 0, "second.mk": 1, "dir/b c.mk": 2}[F]) in out, "makefile (/F)"))
    checks.append((("MACROS:" in out) == ("P" in eff), "/P"))
    err = r.etext()
    if XF:
        f = {p.lower(): v for p, v in r.fs.items()}.get(("C:/work/" + XF).lower())
        checks += [(err == "" and f is not None, "/X"),]
        if f is not None: err = base64.b64decode(f[1]).decode()
    checks.append((("empower your cores" in err) == ("L" not in eff), "/L"))
    checks.append((("jom: Entering directory 'C:\\work" in out) == ("W" in eff), "/W"))
    nobuild = eff & set("N")
    if nobuild: checks.append((not starts, "commands run with /N"))
    else:
        if goals == ["uptodate"]: checks.append((ids == (["1"] if "A" in eff else []), "/A"))
        if goals == ["conv"] and jobs[-1:] == [1]: checks.append((len(ids) == (2 if "Y" in eff else 1), "/Y"))
        if "all" in goals:
            checks.append((("6" in ids) == ("I" in eff), "/I"))
            if eff & set("IK"): checks.append(("7" in ids and "8" in ids, "/I or /K"))
            if eff & set("IK"): checks.append((("1" in ids) == ("A" in eff), "/A"))
            if eff & set("IK"): checks.append((("2" in ids) == ("A" in eff), "/A, equal time stamps"))
            checks.append((r.code == (0 if "I" in eff else 1 if "K" in eff else 2), "exit status with /I or /K"))
        if "3" in ids and "P" not in eff: checks.append((("---end of inline file---" in out) == ("U" in eff), "/U"))
        if "7" in ids and "P" not in eff: checks.append((("\tact 7\n" in out) == (not eff & set("CS")), "/C or /S"))
        if jobs:
            run_, m = 0, 0
            for e in r.events:
                if e["e"] == "start": run_ += 1; m = max(m, run_)
                elif e["e"] == "exit": run_ -= 1
            checks.append((m <= jobs[-1], "/J%d, but %d processes" % (jobs[-1], m)))
    if "D" in eff and "uptodate" in goals: checks.append((any(l.rstrip().endswith(" uptodate") for l in out.split("\n")), "/D"))
    for ok, what in checks:
        x = need(ok, what)
        if x: return x, set(), False
    # $(MAKEFLAGS) means the same
    fx = []
    if F: fx += ["/f", F]
    if XF: fx += ["/x", XF]
    c = run(fx + tm, {"MAKEFLAGS": fl} if fl else {})
    if "P" not in eff:
        d = differs(r, c, "run with MAKEFLAGS=" + fl)
        if d: return d, set(), False
    for o in opts: tags.add("/" + o[0])
    return None, tags, nt
