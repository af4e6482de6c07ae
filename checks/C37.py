import base64, re
import mk
FLAVOUR = "plain"
RULE = ("makefiles of definitions, blocks, rules, inline files, messages, nested conditionals with skipped (also erroneous) text and nested include files in several encodings with LF or CR LF, with continuation lines, comments and empty lines, "
        "and at most one error of 30 kinds (directives, expressions, macro references, syntax, includes) at a random place, also in commands, inline text and include files; "
        "non-trivial: the error is in an include file or behind three or more statements of other kinds")
QUICK, THOROUGH = 14000, 700000
B = "$+"           # a reference that is always an error
NAMES = ["V1", "v.2", "LONG_NAME", "X"]
FILES = ["inc%d.mk", "sub\\i%d", "a b\\inc %d.x"]
# error statements: list of physical lines, and whether the statement may stand where a command or inline text is read
ERR = [(["!ERROR broken"], 1), (["!error broken \\", " more"], 1), (["!FOO x"], 1), (["!IF 1 +", "!ENDIF"], 1), (["!  IF \\", " == 1"], 1), (["!IF \"a\" == 1", "!ENDIF"], 1), (["!ENDIF"], 2), (["!ELSE"], 2), (["!ELSEIF 1"], 2),
       (["!INCLUDE missing.mk"], 1), (["!INCLUDE <missing \\", "file>"], 1), (["!MESSAGE a" + B], 1), (["!UNDEF $(X"], 1), (["!IFDEF $(X"], 1), (["!IF $(X:a)"], 1), (["!INCLUDE " + B], 1), (["include missing.mk"], 1), (["!INCLUDE \"$(MAKEDIR)\\Makefile\""], 1),
       (["no statement"], 0), (["no statement \\", "   at all"], 0), (["X Y = 1"], 0), (["$(X = 1"], 0), (["blk%d: " + B], 0), (["blk%d \\", " x: y \\", "  " + B], 0), (["$(): dep"], 0), ([".SUFFIXES: $(X"], 0), ([".FOO"], 0), (["blk%d : dep ; act " + B], 0), (["blk%d : dep", "\tact " + B], 0),
       (["blk%d: dep", "\tact a \\", "# remark \\", "    b " + B + " \\", "  c"], 0), (["CYC = $(CYD)", "CYD = $(CYC)", "blk%d: $(CYC)"], 0)]
INTEXT = ["text " + B, "$(X", "a $(X:b) c"]

def stmts(draw, depth, n, ctx):
    """list of statements; each is [kind, physical lines] or ["inc", file, statements] or ["if", ...]"""
    l = []
    for _ in range(n):
        k = mk.ints(draw, 0, 17)
        ctx["n"] += 1
        i = ctx["n"]
        if k == 0: l.append(["blank", [mk.pick(draw, ["", "  ", "\t"])]])
        elif k == 1: l.append(["comment", [mk.pick(draw, ["# remark", "#", "# ends with \\", "# $(X"])]])
        elif k < 4: l.append(["def", [mk.pick(draw, NAMES) + " = " + mk.pick(draw, ["1", "a # c", "$$x", "x^"[:1], "$(V1:a=b)"])]])
        elif k == 4: l.append(["def", ["M%d = a \\" % i] + mk.pick(draw, [["  b"], ["b \\", "  c"], ["# remark", "  c"]])])
        elif k < 7: l.append(["block", ["tgt%d: src" % i] + ["\tact %d%s" % (i, x) for x in ("", "b")][:mk.ints(draw, 0, 2)] + [""] * mk.ints(draw, 0, 2)])
        elif k == 7: l.append(["block", ["tgt%d: \\" % i, "   src", "\tact %d \\" % i, "   more^", "", "\tact %dx" % i]])
        elif k == 8: l.append(["inline", ["tgt%d: src" % i, "\tact %d <<%s" % (i, mk.pick(draw, ["", "f.tmp"]))] + [mk.pick(draw, ["text", "", "  # no remark", "a \\", "\t x:", "b^", "$(V1)"]) for _ in range(mk.ints(draw, 0, 4))] + [mk.pick(draw, ["<<", "<<KEEP"])] + [""] * mk.ints(draw, 0, 1)])
        elif k == 9: l.append(["rule", [".src.obj:", "\tact $<"]])
        elif k == 10: l.append(["msg", ["!MESSAGE m%d" % i]])
        elif k == 11: l.append(["msg", ["! message  m%d \\" % i, "  x"]])
        elif k == 12: l.append(["dot", [mk.pick(draw, [".SUFFIXES: .src", ".PRECIOUS: foo", ".SILENT:"])]])
        elif k < 15 and depth < 3:
            c = mk.pick(draw, [0, 1, 1])
            skipped = [mk.pick(draw, ["$(X", "no statement", "!ERROR skipped", "!FOO", "!MESSAGE not m", "A=1", "", "# c", "\tact", "!IF 0", "!IFDEF X"]) for _ in range(mk.ints(draw, 0, 3))]
            s = []
            for x in skipped:
                s.append(x)
                if x[:3] == "!IF": s += ["!ELSE", "!ENDIF"]
            head = [mk.pick(draw, ["!IF 1", "!IFNDEF NOTDEF", "!if 2 > \\"] if c else ["!IF 0", "!IFDEF NOTDEF", "!if 2 < \\"])]
            if head[0].endswith("\\"): head.append(" 1")
            l.append(["if", c, head, stmts(draw, depth + 1, mk.ints(draw, 0, 3), ctx), s, mk.pick(draw, ["!ELSE", "!else # c"])])
        elif k >= 15 and depth < 4 and ctx["files"] < 6:
            ctx["files"] += 1
            l.append(["inc", mk.pick(draw, FILES) % i, stmts(draw, depth + 1, mk.ints(draw, 0, 4), ctx), style(draw)])
        else: l.append(["def", ["Z = %d" % i]])
    return l
def style(draw):
    return [mk.pick(draw, ["", "", "bom", "utf16"]), mk.pick(draw, ["\n", "\n", "\r\n"]), mk.chance(draw, 1, 3)]
def lists(l, depth=0):
    """all statement lists, as (list, in a conditional)"""
    yield l, depth
    for s in l:
        if s[0] == "if": yield from lists(s[3], depth + 1)
        elif s[0] == "inc": yield from lists(s[2], depth)

def case(draw):
    ctx = {"n": 0, "files": 0}
    S = stmts(draw, 0, mk.ints(draw, 1, 8), ctx)
    c = {"S": S, "style": style(draw), "err": mk.chance(draw, 7, 8), "j": mk.pick(draw, [1, 2])}
    if c["err"]:
        ls = list(lists(S))
        l, d = ls[mk.ints(draw, 0, len(ls) - 1)]
        p = mk.ints(draw, 0, len(l))
        cand = [(x, k) for x, k in ERR if k < 2 or d == 0]
        inl = [s for s in l if s[0] == "inline"]
        if inl and mk.chance(draw, 1, 2):
            s = inl[mk.ints(draw, 0, len(inl) - 1)]
            p = mk.ints(draw, 2, max(i for i, x in enumerate(s[1]) if x.startswith("<<")))
            x = [mk.pick(draw, INTEXT)] if mk.chance(draw, 1, 2) else mk.pick(draw, [x for x, k in cand if k])
            s[0] = "errinline"
            # directive lines may not follow a text line that ends with a continuation
            s[1] = [y if not y.endswith(("\\", "^")) else y + "." for y in s[1][:p]] + [["E", x]] + s[1][p:]
        else:
            l.insert(p, ["err", [["E", [y.replace("%d", "0") for y in mk.pick(draw, cand)[0]]]]])
    return c

class P:
    """prints the makefiles and remembers where the error is and which messages come before it"""
    def __init__(self, case):
        self.case, self.files, self.err, self.msgs, self.kinds, self.names = case, {}, None, [], [], {}
        self.file("Makefile", case["S"], case["style"])
    def file(self, name, S, style):
        out = []
        self.put(name, out, S)
        t = style[1].join(out) + ("" if style[2] and out and out[-1] else style[1])
        self.names[name] = name
        self.files[name] = (b"\xff\xfe" + t.encode("utf-16-le") if style[0] == "utf16" else b"\xef\xbb\xbf" + t.encode() if style[0] == "bom" else t.encode())
    def put(self, name, out, S):
        for s in S:
            if s[0] == "if":
                a, b = (s[3], s[4]) if s[1] else (s[4], s[3])
                out += s[2]
                if s[1]: self.put(name, out, s[3])
                else: out += s[4]
                out.append(s[5])
                if s[1]: out += s[4]
                else: self.put(name, out, s[3])
                out.append("!ENDIF")
            elif s[0] == "inc":
                out.append("!INCLUDE \"%s\"" % s[1])
                self.file(s[1], s[2], s[3])
            else:
                if not self.err:
                    self.kinds.append(s[0])
                    if s[0] == "msg":
                        m = re.match(r"!\s*message\s+(m\d+)", s[1][0], re.I)
                        self.msgs.append(m.group(1) + ("   x" if len(s[1]) > 1 else ""))
                for y in s[1]:
                    if isinstance(y, str): out.append(y)
                    else:
                        if not self.err: self.err = (name, len(out) + 1, len(out) + len(y[1]), y[1])
                        out += y[1]

def path(name):
    return "C:/work/" + name.replace("\\", "/")

def judge(case, sim):
    p = P(case)
    r = sim.run({"argv": ["/NOLOGO", "/J%d" % case["j"], "/F", "Makefile"], "files": [{"p": path(n), "b": base64.b64encode(d).decode()} for n, d in p.files.items()] + [{"p": "C:/work/src", "d": ""}, {"p": "C:/work/dep", "d": ""}], "progs": {}})
    b = r.broken()
    if b:
        return b, {"broken"}, False
    out = [x.rstrip("\r") for x in r.text().split("\n")]
    if not p.err:
        got = [x for x in out if re.match(r"m\d+", x)]
        if "Error:" in r.etext() and " line " in r.etext():
            return "no error is in the makefile, but %r is reported" % r.etext(), {"false"}, False
        if got != p.msgs:
            return "messages %r, expected %r" % (got, p.msgs), {"msg"}, False
        return None, {"noerror"}, False
    tags = {"inc" if p.err[0] != "Makefile" else "main", p.err[3][0].split()[0].lower()[:8]}
    where = "C:\\work\\" + p.err[0]
    m = re.search(r"^Error: (.*) in (C:\\[^\r\n]*?) line (\d+)\r?\n$", r.etext(), re.S)
    if r.code != 2 or r.starts():
        return "exit status %s and %d commands after an error in %s" % (r.code, len(r.starts()), where), tags, False
    if not m:
        return "error in %s line %d..%d, but stderr is %r" % (where, p.err[1], p.err[2], r.etext()), tags, False
    if m.group(2).lower() != where.lower() or not p.err[1] <= int(m.group(3)) <= p.err[2]:
        return "error in %s line %d..%d is reported for %s line %s: %s" % (where, p.err[1], p.err[2], m.group(2), m.group(3), m.group(1)), tags, False
    got = [x for x in out if x]
    if got != p.msgs:
        return "messages %r before the error, expected %r" % (got, p.msgs), tags, False
    return None, tags, p.err[0] != "Makefile" or len(set(p.kinds) - {"err"}) >= 3
