import random, re, mk
FLAVOUR = "plain"
RULE = ("random makefiles with macros, targets, rules, inline files, modifiers, cd, set, failing commands and options, run as they are and after several random "
        "rewrites that do not change the meaning (conditionals and include files around blocks, blocks in another order, continued lines, comments, macros for words, "
        "substitutions without effect, split dependency lines, merged targets, commands on the dependency line, quotes, other spellings, options in MAKEFLAGS or command files); "
        "non-trivial: at least four rewrites of at least three kinds were made and at least two commands were started")
QUICK, THOROUGH = 18000, 500000
WORD = ["x", "$(M0)", "$(M1)", "$(M0)$(M2)", "-o", "$@", "$**", "$(@B)", "/D\"A B\"", "a=b", "$$x", "a^b", "$(@F:t=T)", "y;z", "%%", "lib.h", "$(M3)"]

def case(draw):
    n = mk.ints(draw, 1, 6)
    T = []
    for i in range(n):
        cand = ["t%d" % k for k in range(i + 1, n)] + ["s%d.c" % k for k in range(2)] + ["r%d.out" % k for k in range(2)] + ["sub\\r2.out", "s*.c", "$$@.dep"]
        deps = []
        for _ in range(mk.ints(draw, 0, 4)):
            d = mk.pick(draw, cand)
            if d not in deps: deps.append(d)
        t = {"deps": deps, "sync": len(deps) > 1 and mk.chance(draw, 1, 8), "twin": mk.chance(draw, 1, 6), "age": -mk.ints(draw, 1, 9) if mk.chance(draw, 1, 3) else None, "cmds": []}
        for k in range(mk.pick(draw, [0, 1, 1, 2, 3])):
            c = {"mod": mk.pick(draw, ["", "", "", "", "", "", "@", "@", "-", "-", "@-", "-2", "!"]), "w": [mk.pick(draw, WORD) for _ in range(mk.ints(draw, 0, 4))], "in": None,
                 "code": mk.pick(draw, [1, 2, 3]) if mk.chance(draw, 1, 12) else 0}
            e = mk.ints(draw, 0, 15)
            if e == 0: c["text"] = "cd sub"
            elif e == 1: c["text"] = "set V=%d$(M0)" % k
            elif e == 2: c["text"] = "echo $(M1) > f%d_%d.txt" % (i, k)
            elif e == 3: c["in"] = [" ".join(mk.pick(draw, WORD + ["#", "a!"]) for _ in range(mk.ints(draw, 1, 3))) for _ in range(mk.ints(draw, 0, 3))]; c["keep"] = mk.chance(draw, 1, 3); c["noname"] = mk.chance(draw, 1, 3)
            elif e == 4: c["w"].append("> nul")
            t["cmds"].append(c)
        T.append(t)
    rin = mk.pick(draw, [None, None, ["$(M1) $<"], ["$**", "$(@F)"]])
    if rin and "$**" in rin or any("$**" in x for t in T for c in t["cmds"] for x in c["w"] + (c["in"] or [])) or any(c["mod"] == "!" for t in T for c in t["cmds"]):
        for t in T: t["sync"] = False       # .SYNC shows in $**
    return {"T": T, "V": [mk.pick(draw, ["val", "two words", "", "t1.x", "-a -b"]) for _ in range(4)], "rule": mk.ints(draw, 1, 2), "rmod": mk.pick(draw, ["", "@", "-"]), "dot": [d for d in [".SILENT:", ".IGNORE:"] if mk.chance(draw, 1, 10)],
            "rin": rin,
            "raw": [mk.pick(draw, WORD[:5] + ["$<", "$*"]) for _ in range(mk.ints(draw, 0, 3))], "src": mk.chance(draw, 9, 10), "r": [mk.pick(draw, [None, -1, -9]) for _ in range(2)],
            "opts": [o for o in ["/K", "/A", "/S", "/I", "/N", "/D"] if mk.chance(draw, 1, 8)], "goals": ["t%d" % mk.ints(draw, 0, n - 1)] if mk.chance(draw, 1, 3) else [],
            "j": mk.pick(draw, [1, 1, 1, 3]), "many": mk.pick(draw, [2, 3, 6]), "rw": [mk.ints(draw, 0, 10 ** 9), mk.pick(draw, [60, 8, 4, 2]), sorted({mk.ints(draw, 0, 30) for _ in range(mk.ints(draw, 0, 3))})]}

class Rewriter:
    """chooses the rewrites: the first LIMIT ones that come up, without the ones in SKIP"""
    def __init__(self, rw, many):
        self.r, self.limit, self.skip = random.Random(rw[0]), rw[1], rw[2]
        self.many, self.kinds, self.count, self.fresh, self.at = many, set(), 0, 0, 0
    def raw(self):
        return self.r.randrange(10 ** 6)
    def __call__(self, kind, k=2):
        """0 (leave it as it is) or a number below k"""
        if self.at >= self.limit or self.raw() % self.many: return 0
        self.at += 1
        if self.at in self.skip: return 0
        self.kinds.add(kind); self.count += 1
        return 1 + self.raw() % (k - 1)
    def name(self):
        self.fresh += 1
        return "Z_%d" % self.fresh

def word(w, s, pre):
    """a word of a command or dependency line in another way"""
    k = w("word", 5) if re.fullmatch(r"[\w.\-]+", s) else 0
    if k == 1:
        n = w.name(); pre.append(["%s=%s", "%s = %s", "%s\t=  %s # comment", "%s = \\\n    %s"][w("macro", 4)] % (n, s))
        return "$(%s)" % n
    if k == 2: return s[:1] + "$(NOTHING)" + s[1:]
    if k == 3:
        n = w.name(); pre.append("%s = %s" % (n, s[0])); return "$(%s)%s" % (n, s[1:])
    if k == 4:
        n = w.name(); pre.append("%s = q%sq" % (n, s)); return "$(%s:q=)" % n if "q" not in s else s
    m = re.fullmatch(r"\$\((M\d)\)", s)
    if m and w("substitution"): return "$(%s:zz=yy)" % m.group(1)
    return s

def join(w, words):
    s = ""
    for k, x in enumerate(words):
        s += (" " if k and (not w("continue") or words[k - 1].endswith("^")) else "\\\n\t" if k else "") + x
    return s

def block(w, names, t, cid, allow, pre):
    """physical lines of a description block"""
    lines = []
    q = lambda s: '"%s"' % s if "$" not in s and w("quotes") else s
    deps = list(t["deps"])
    spelled = []
    shows = any("$**" in x for c in t["cmds"] for x in c["w"] + (c["in"] or []))
    for d in deps:
        if re.match(r"t\d", d) and not shows and w("case"): d = d.upper()
        elif re.match(r"s\d", d) and not shows and w("path"): d = ".\\" + d
        elif "\\" in d and w("slash"): d = d.replace("\\", "/")
        spelled.append(q(word(w, d, pre)))
    if t["sync"]: spelled.insert(1, ".SYNC")
    later = []
    if len(spelled) > 1 and not t["sync"] and w("split"):
        k = 1 + w.raw() % (len(spelled) - 1)
        later, spelled = spelled[k:], spelled[:k]
    colon = "::" if not later and w("double colon") else ":"
    head = join(w, names if len(names) > 1 else [q(names[0])]) + ["", " ", "\t"][w("blank", 3)] + colon + " " + join(w, spelled)
    cmds = []
    for k, c in enumerate(t["cmds"]):
        m = c["mod"]
        if m == "@-" and w("modifiers"): m = "-@"
        if c.get("text"): s = c["text"]; ws = [s]
        else:
            ws = ["act", cid + "_" + str(k)] + [word(w, x, pre) for x in c["w"]]
            if c["in"] is not None: ws.append("<<" + ("" if c["noname"] else cid + "_%d.rsp" % k))
        first = len(cmds)
        cmds.append(m + (ws[0] if len(ws) == 1 else join(w, ws)))
        if c["in"] is not None: cmds += [("inline", x) for x in c["in"]] + [("inline", "<<KEEP" if c["keep"] else "<<")]
    if cmds and not cmds[0][0] == "inline" and "\n" not in cmds[0] and w("in place"):
        lines.append(head + " ; " + cmds[0]); cmds = cmds[1:]
    else:
        lines.append(head + (" # comment" if w("comment") else ""))
    # a blank line ends the block only if it comes directly after the head (with the command on it)
    plain = 0
    for k, c in enumerate(cmds):
        if isinstance(c, tuple): lines.append(c[1]); continue
        if plain and w("blank line"): lines.append("")
        plain += 1
        if w("condition inside"): lines += ["!IFDEF NOTHING2", "\tact wrong", "!ENDIF"]
        if k and not isinstance(cmds[k - 1], tuple) and w("comment line"): lines.append("# comment between commands")
        lines.append(["\t", " ", "    "][w("indent", 3)] + c)
    lines.append("")
    if later: lines += [(names[0] if len(names) == 1 else join(w, names)) + ": " + join(w, later), ""]
    return lines

def makefile(case, w):
    """main file lines, include files, words of the command line"""
    files, argv, env = {}, [], {}
    top = ["NOTHING ="]
    for k, v in enumerate(case["V"]):
        m = w("definition", 5)
        if m == 3 and v and w.raw() % 2: env["M%d" % k] = v; continue
        if m == 4 and v: argv.append("M%d=%s" % (k, v)); continue
        top.append(["M%d = %s", "M%d=%s", "M%d\t= %s  # comment", "M%d = \\\n%s"][m if v or m < 3 else 0] % (k, v))
    B = []
    n = len(case["T"])
    for i, t in enumerate(case["T"]):
        pre = []
        names = ["t%d" % i, "u%d" % i]
        if not t["twin"]: b = block(w, names[:1], t, "c%d" % i, True, pre)
        elif w("merge"): b = block(w, names, t, "c%d" % i, True, pre)
        else: b = block(w, names[:1], t, "c%d" % i, True, pre) + block(w, names[1:], t, "c%d" % i, True, pre)
        B.append(pre + b)
    first, rest = B[0], B[1:]
    if case["dot"]: top += [" ".join([d, ""][:1 + w("dot")]) for d in case["dot"]] + ([""] if w("dot") else [])
    twins = ["u%d" % i for i, t in enumerate(case["T"]) if t["twin"]]
    if twins: rest.append(["alltwins: " + " ".join(twins), ""])
    sfx = [".in", ".in2"]
    for k in range(case["rule"]):
        pre, head = [], ".in%s.out" % ["", "2"][k]
        m = w("rule head", 4)
        if m:
            pre = ["%s = %s" % (w.name(), [0, head, ".in", "in"][m])]
            head = head.replace(pre[0].split(" = ")[1], "$(Z_%d)" % w.fresh, 1)
        rest.append(pre + [head + ":", ("\t" if not w("indent") else "  ") + case["rmod"] + "act rule%d %s" % (k, join(w, ["$@"] + case["raw"]) + (" <<\n" + "\n".join(case["rin"]) + "\n<<" if case["rin"] else "")), ""])
    rest.append(["{sub}.in{sub}.out:", "\tact rule1 $< $(@D)", ""])
    if w("suffixes"): rest += [[".SUFFIXES: .in"], [".SUFFIXES: .in2", ""]]
    else: rest.append([".SUFFIXES: .in .in2", ""])
    if case["src"] and w("explicit"): rest.append(["r0.out:", ""])
    k = w("order", 3)
    if k:
        sx = [b for b in rest if b[0].startswith(".S")]; rest = [b for b in rest if not b[0].startswith(".S")]
        isr = lambda b: any(".out:" in x and "{" not in x for x in b[:2])
        ru = [b for b in rest if isr(b)]; rest = [b for b in rest if not isr(b)]
        rest = sx + ru + (rest if k == 1 else rest[::-1])
    out = top + [""]
    for bi, b in enumerate([first] + rest):
        k = w("around", 9)
        junk = ["junk line without meaning", "\t<< :: (", "!INCLUDE nowhere.mk", "!IF 1", "t0: wrong", "\tact wrong", "!ENDIF", "M0 = wrong"]
        if k == 1: b = ["!IF 1"] + b + ["!ENDIF"]
        elif k == 2: b = ["!IFDEF NOTHING"] + b + ["!ELSE"] + junk + ["!ENDIF"]
        elif k == 3: b = ["!IF 0"] + junk + ["!ELSEIF \"$(NOTHING)\" == \"\" && 1 < 2"] + b + ["!ENDIF"]
        elif k == 4: b = ["!ifndef NOTHING3", "! if 0"] + junk + ["! endif"] + b + ["!endif"]
        elif k in (5, 6):
            f = "inc%d.mk" % bi
            files[f] = "\n".join(b) + ("\n" if k == 5 else "")
            b = ["!INCLUDE " + f if k == 5 else "include " + f]
        elif k == 7:
            f = "inc%d.mk" % bi
            files["i%d.mk" % bi] = "\n".join(b) + "\n"
            files[f] = "# nested\n!IF 1\n!INCLUDE <i%d.mk>\n!ENDIF\n" % bi
            b = ["FILE = inc%d" % bi, "!include \"$(FILE).mk\""]
        elif k == 8: b = ["# comment", "", "   ", "UNUSED = $(M1)", "!UNDEF UNUSED"] + b + ["# comment", ""]
        out += b
    return out, files, argv, env

def run(case, sim, w, stats=None):
    lines, files, macros, env = makefile(case, w)
    text = "\n".join(lines) + "\n"
    if w("crlf"): text = text.replace("\n", "\r\n")
    goals = list(case["goals"]) or ["t0"] if w("goal") else list(case["goals"])
    twins = any(t["twin"] for t in case["T"])
    if twins: goals = (goals or ["t0"]) + ["alltwins"]
    opts = list(case["opts"])
    mf = "Makefile"
    k = w("options", 5)
    base = ["/NOLOGO", "/J", str(case["j"])]
    if k == 1 and opts: env["MAKEFLAGS"] = "".join(o[1] for o in opts); opts = []
    elif k == 2 and opts: opts = ["-" + "".join(o[1].lower() for o in opts)]
    elif k == 3: files["args.txt"] = "\n".join(opts + macros_q(macros) + goals) + "\n"; opts, macros, goals = ["@args.txt"], [], []
    elif k == 4: mf = ["Makefile", "sub\\build.mk", "..\\x.mk"][w("makefile", 3)]; opts = ["/F", mf] + opts
    argv = base + opts + macros + goals if not w("argument order") else base + macros + goals + opts
    progs = {"c%d_%d" % (i, k): [["out", "from %d %d\n" % (i, k)]] + ([["exit", c["code"]]] if c["code"] else []) for i, t in enumerate(case["T"]) for k, c in enumerate(t["cmds"])}
    progs.update({"rule0": [["err", "rule"]], "rule1": [], "wrong": []})
    fs = [{"p": mk.vfs(mf), "d": text}] + [{"p": "C:/work/" + n, "d": d} for n, d in files.items()]
    fs += [{"p": "C:/work/s%d.c" % k, "d": "", "t": -5} for k in range(2)] + ([{"p": "C:/work/r%d.in" % k, "d": "", "t": -4} for k in range(2)] + [{"p": "C:/work/sub/r2.in", "d": "", "t": -4}] if case["src"] else [])
    fs += [{"p": "C:/work/r%d.out" % k, "d": "", "t": x} for k, x in enumerate(case["r"]) if x]
    fs += [{"p": "C:/work/%s%d.dep" % (x, i), "d": "", "t": -8} for i, t in enumerate(case["T"]) for x in "tu"]
    fs += [{"p": "C:/work/t%d" % i, "d": "", "t": t["age"]} for i, t in enumerate(case["T"]) if t["age"]]
    return text, sim.run({"argv": argv, "env": env, "dirs": ["C:/work/sub", "C:/temp"], "files": fs, "progs": progs, "snap": True, "hseed": 0})

def macros_q(ms): return ['"%s"' % m if " " in m else m for m in ms]

def observed(r, j):
    plain = lambda s: re.sub(r"\.4242\.\d+\.jom", ".jom", re.sub(r"C:\\(work\\sub\\build\.mk|work\\\.\.\\x\.mk|x\.mk)", r"C:\\work\\Makefile", s))
    st = [(plain(e["cmd"]), mk.vfs(e["cwd"]).lower(), sorted((plain(k), v) for k, v in e["files"].items() if k.endswith((".rsp", ".jom")))) for e in r.starts()]
    out, err = plain(r.text()), re.sub("cycle in targets detected: .*", "cycle", plain(r.etext()))
    kept = sorted((plain(p), v[1]) for p, v in r.fs.items() if p.endswith((".rsp", ".jom")) or "/f" in p)
    if j > 1: return [("exit status", r.code), ("commands", sorted(map(repr, st))), ("lines", sorted(out.splitlines()))]
    return [("commands", st), ("exit status", r.code), ("output", out), ("error output", err), ("files", kept)]

def judge(case, sim):
    j = case["j"] if not any(c["code"] for t in case["T"] for c in t["cmds"]) else 1
    case = dict(case, j=j)
    w = Rewriter(case["rw"], case["many"])
    t0, a = run(case, sim, Rewriter([0, 0, []], 1))
    t1, b = run(case, sim, w)
    for r in (a, b):
        x = r.broken()
        if x: return x, {"broken"}, False
    for (what, x), (_, y) in zip(observed(a, j), observed(b, j)):
        if x != y: return "%s differ after rewriting (%s): %r, before %r" % (what, ", ".join(sorted(w.kinds)), y, x), set(), False
    tags = set(w.kinds) | {"exit %s" % a.code}
    return None, tags, w.count >= 4 and len(w.kinds) >= 3 and len(a.starts()) >= 2
