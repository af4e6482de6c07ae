import mk, base64
FLAVOUR = "plain"
RULE = ("makefiles with conditionals nested up to 5 deep (all directives, any case and spacing, comments, continuation lines, computed names), whose branches contain messages, definitions, !UNDEF, targets, commands, "
        "inline files (again with conditionals), include files with conditionals and, in branches that are not taken, text that would be an error; now and then unbalanced directives; "
        "non-trivial: a branch other than the first one is taken inside of another conditional, or erroneous text is skipped")
QUICK, THOROUGH = 14000, 700000
X = ["X", "Y", "Z"]
VAL = ["a", "b", ""]

def cond(draw):
    k = mk.ints(draw, 0, 7)
    if k == 0: return ["c", mk.pick(draw, [0, 1, 2, -1])]
    if k < 3: return ["eq", mk.pick(draw, X), mk.pick(draw, VAL), mk.chance(draw, 1, 3)]
    if k == 3: return ["defined", mk.pick(draw, X), mk.chance(draw, 1, 3)]
    if k < 6: return ["ifdef", mk.pick(draw, X), mk.chance(draw, 1, 3), mk.chance(draw, 1, 5)]
    if k == 6: return ["exist", mk.chance(draw, 1, 2)]
    return ["and", mk.pick(draw, ["&&", "||"]), cond2(draw), cond2(draw)]
def cond2(draw):
    return mk.pick(draw, [["c", 0], ["c", 1], ["defined", "X", False], ["eq", "Y", "a", False]])

def items(draw, depth, inl=False):
    l = []
    for _ in range(mk.ints(draw, 0, 4)):
        k = mk.ints(draw, 0, 15)
        if k < 6 and depth > 0:
            n = mk.ints(draw, 1, 3)
            br = [[cond(draw), items(draw, depth - 1, inl)] for _ in range(n)]
            els = items(draw, depth - 1, inl) if mk.chance(draw, 1, 2) else None
            l.append(["if", br, els, mk.schedule(draw, 8)])
        elif inl: l.append(mk.pick(draw, [["txt"], ["msg"], ["txt"], ["junk", mk.ints(draw, 0, 20)]]))
        elif k < 8: l.append(["msg"])
        elif k < 10: l.append(["cmd"])
        elif k == 10: l.append(["def", mk.pick(draw, X), mk.pick(draw, VAL)])
        elif k == 11: l.append(["undef", mk.pick(draw, X)])
        elif k == 12: l.append(["target"])
        elif k == 13: l.append(["inl", items(draw, min(depth, 2), True)] if depth else ["cmd"])
        elif k == 14 and depth > 0: l.append(["inc", items(draw, depth - 1)])
        else: l.append(["junk", mk.ints(draw, 0, 20)])
    return l

def case(draw):
    c = {"items": items(draw, mk.pick(draw, [1, 2, 3, 4, 5])), "bad": None, "hseed": mk.ints(draw, 0, 9)}
    if mk.chance(draw, 1, 6): c["bad"] = [mk.ints(draw, 0, 6), mk.ints(draw, 0, 99)]
    return c

JUNK = ["!ERROR wrong", "!INCLUDE missing.mk", "!FOO bar", "$(", "\tact 999", "nonsense", "X = wrong", "!UNDEF X", "!INCLUDE <missing>", "include missing.mk", "a b \\", "\tact 998 <<",
        "<<", "!MESSAGE $(", "!MESSAGE wrong", "!IF (", "X = $(X", " !IF 1", " !ENDIF", "# !ENDIF", "x: !ENDIF"]
NEEDS_ENDIF = {15}

class W:
    """renders the makefile and interprets it at the same time"""
    def __init__(self, case):
        self.files = {"Makefile": []}; self.f = "Makefile"; self.n = 0
        self.env = {}; self.msgs = []; self.cmds = []; self.target = 0; self.targets = [0]
        self.nt = False; self.tags = set(); self.inl = None
    def out(self, s): self.files[self.f] += s.split("\n")
    def num(self): self.n += 1; return self.n
    def ev(self, c):
        if c[0] == "c": return c[1] != 0
        if c[0] == "eq": return (self.env.get(c[1], "") == c[2]) != c[3]
        if c[0] in ("defined", "ifdef"): return (c[1] in self.env) != c[2]
        if c[0] == "exist": return c[1]
        a, b = self.ev(c[2]), self.ev(c[3])
        return (a and b) if c[1] == "&&" else (a or b)
    def tx(self, c):
        if c[0] == "c": return str(c[1])
        if c[0] == "eq": return '"$(%s)" %s "%s"' % (c[1], "!=" if c[3] else "==", c[2])
        if c[0] == "defined": return "%sDEFINED(%s)" % ("!" if c[2] else "", c[1])
        if c[0] == "exist": return 'EXIST("%s")' % ("inc/e" if c[1] else "inc/missing")
        return "(%s) %s (%s)" % (self.tx(c[2]), c[1], self.tx(c[3]))
    def directive(self, word, rest, s):
        """one of the spellings of a directive"""
        k = s.pop(0) if s else 0
        word = [word, word.lower(), word.capitalize()][k % 3]
        pre = ["!", "! ", "!\t", "!"][k // 3 % 4]
        post = ["", " # comment", "\t", " #!ENDIF"][k // 12 % 4]
        if rest:
            p = rest.split(" ") if self.inl is None else [rest]
            if k // 48 % 3 == 1 and len(p) > 1: rest = p[0] + " \\\n" + " ".join(p[1:])
            if k // 48 % 3 == 2 and len(p) > 1: rest = " ".join(p[:-1]) + "\\\n " + p[-1]
            rest = [" ", "\t", "   "][k % 5 % 3] + rest
        self.out(pre + word + rest + post)
    def cond(self, c, s, els):
        k = s[0] if s else 0
        if c[0] == "ifdef":
            w, rest = "IFNDEF" if c[2] else "IFDEF", ("$(P%s)" % c[1] if c[3] else c[1])
        else: w, rest = "IF", self.tx(c)
        if els:
            if k % 2: w = "ELSE" + w
            else: w = "ELSE" + [" ", "  ", "\t"][k // 2 % 3] + w
        self.directive(w, rest, s)
    def items(self, l, active, depth):
        for o in l:
            if o[0] == "if":
                s = list(o[3])
                found, first = False, True
                for c, body in o[1]:
                    if not active or found:
                        # never evaluated
                        if s and s[0] % 7 == 0:
                            self.out(("!IF " if first else "!ELSEIF ") + ['"a', "1/0", "(", "$(", "1 +"][s[0] // 7 % 5]); self.nt = True; self.tags.add("skipped condition")
                        else: self.cond(c, s, not first)
                        self.items(body, False, depth + 1)
                    else:
                        self.cond(c, s, not first)
                        found = self.ev(c)
                        if found and not first and depth: self.nt = True
                        self.items(body, found, depth + 1)
                    first = False
                if o[2] is not None:
                    self.directive("ELSE", "", s)
                    if active and not found and depth: self.nt = True
                    self.items(o[2], active and not found, depth + 1)
                self.directive("ENDIF", "", s)
                self.tags.add("depth%d" % depth)
            elif o[0] == "msg":
                k = self.num()
                self.out("!MESSAGE m%d [$(X)$(Y)$(Z)]" % k)
                if active: self.msgs.append("m%d [%s]" % (k, "".join(self.env.get(x, "") for x in X)))
            elif o[0] == "txt":
                k = self.num()
                self.out("text %d $(X)# $(Y)" % k)
                if active: self.inl.append("text %d %s# %s" % (k, self.env.get("X", ""), self.env.get("Y", "")))
            elif o[0] == "junk":
                if not active:
                    self.out(JUNK[o[1]])
                    if o[1] in NEEDS_ENDIF: self.out("!ENDIF")
                    self.nt = True; self.tags.add("junk")
                elif self.inl is None: self.out("# comment $( !ENDIF")
            elif o[0] == "cmd":
                k = self.num()
                self.out("\tact %d [$(X)]" % k)
                if active: self.cmds.append((self.target, "act %d [%s]" % (k, self.env.get("X", ""))))
            elif o[0] == "def":
                self.out("%s = %s" % (o[1], o[2]))
                if active: self.env[o[1]] = o[2]
            elif o[0] == "undef":
                self.out("!UNDEF " + o[1])
                if active: self.env.pop(o[1], None)
            elif o[0] == "target":
                k = self.num()
                self.out("t%d:" % k)
                if active: self.target = k; self.targets.append(k)
            elif o[0] == "inl":
                k = self.num()
                self.out("\tact %d <<f%d" % (k, k))
                self.inl = []
                self.items(o[1], active, depth)
                self.out("<<")
                if active: self.cmds.append((self.target, "act %d f%d" % (k, k), "".join(x + "\r\n" for x in self.inl)))
                self.inl = None
                self.tags.add("inline")
            elif o[0] == "inc":
                k = self.num()
                self.out("!INCLUDE inc/i%d" % k)
                f, self.f = self.f, "inc/i%d" % k
                self.files[self.f] = []
                self.items(o[1], active, depth)
                self.f = f
                self.tags.add("include")

def judge(case, sim):
    w = W(case)
    for x in X: w.out("P%s = %s" % (x, x))
    w.out("t0:")
    w.items(case["items"], True, 0)
    lines = w.files["Makefile"]
    error = False
    if case["bad"]:
        k, pos = case["bad"]
        error = True
        l = [["!ENDIF"], ["!ELSE"], ["!IF 1", "!ELSE", "!ELSE", "!ENDIF"], ["!IF 0", "!ELSE", "!ELSEIF 1", "!ENDIF"], ["!IF 1"], ["!IF 0"], ["!ELSEIF 1"]][k]
        # only at the end: elsewhere the directive would belong to another conditional
        lines += l
    lines += ["", "all: " + " ".join("t%d" % t for t in w.targets), ""]
    files = [{"p": "C:/work/" + f, "d": "".join(x + "\n" for x in l)} for f, l in w.files.items()] + [{"p": "C:/work/inc/e", "d": ""}]
    r = sim.run({"argv": ["/NOLOGO", "/J1", "all"], "files": files, "hseed": case["hseed"], "snap": True, "progs": {str(k): [] for k in range(w.n + 1)}, "dirs": []})
    b = r.broken()
    if b: return b, {"broken"}, False
    gm = [l for l in r.text().split("\n") if l.startswith("m")]
    if gm != w.msgs: return "messages %s, expected %s" % (gm, w.msgs), set(), False
    if error:
        if r.code == 0 or r.starts() or not r.etext(): return "unbalanced directives are no error (exit status %s)" % r.code, set(), False
        return None, {"unbalanced%d" % case["bad"][0]}, w.nt
    if r.code != 0 or r.etext(): return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    got = [e["cmd"] for e in r.starts()]
    want = [c[1] for t in sorted(w.targets) for c in w.cmds if c[0] == t]
    if got != want: return "commands %s, expected %s" % (got, want), set(), False
    for e in r.starts():
        for c in w.cmds:
            if len(c) > 2 and c[1] == e["cmd"]:
                f = c[1].split()[-1]
                d = {p.lower().replace("\\", "/"): base64.b64decode(v).decode() for p, v in e["files"].items()}.get(f)
                if d != c[2]: return "inline file %s contains %r, expected %r" % (f, d, c[2]), set(), False
    return None, w.tags, w.nt
