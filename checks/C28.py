import sys
import mk
FLAVOUR = "asan"
RULE = ("sequences of up to 6 !IF expressions, generated from the grammar (depth up to 5, sometimes in up to 400 parentheses, numbers at the limits of 32 bits, strings with quotes, DEFINED, EXIST incl. names with blanks and parentheses, [commands]) "
        "or as mutated token lists, which a reference parser classifies as valid or malformed; the value is observed by comparing it; non-trivial: an expression with three or more operators, or a malformed one")
QUICK, THOROUGH = 6000, 400000
LOG, STR, CMP, SH, ADD, MUL, UN = ["&&", "||", "&", "|"], ["==", "!="], ["==", "!=", "<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"], ["-", "~", "!"]
STRS = ["", "a", "A", "a b", 'q"q', "x86 (y)", "[1]", "&&", "C:\\x\\", "1", "a'b", "%x%", "=="]
FILES = ["there", "dir with blank\\f", "pf (x86)\\f", "missing", "miss (x) ing", "dir with blank"]
EXIST = {"there", "dir with blank\\f", "pf (x86)\\f", "dir with blank"}
MACROS = ["DEF", "EMPTY", "undef", "x.y", "def"]
DEFINED = {"DEF", "EMPTY", "x.y"}
NUM = [0, 1, 2, 3, 7, 31, 32, 156, 65535, 65536, 2147483647, 2147483646, 1073741824]

def prim(draw, d):
    k = mk.ints(draw, 0, 11)
    if d > 0 and k < 4: return [["("]] + term0(draw, d - 1) + [[")"]]
    if k < 9: return [["n", mk.pick(draw, NUM)]]
    if k == 9: return [["d", mk.pick(draw, MACROS), mk.ints(draw, 0, 11)]]
    if k == 10: return [["e", mk.pick(draw, FILES), mk.ints(draw, 0, 11)]]
    return [["c", mk.pick(draw, [0, 1, 5, 255]), mk.ints(draw, 0, 3)]]
def level(draw, d, ops, sub, p=4):
    l = sub(draw, d)
    while mk.chance(draw, 1, p): l = l + [[mk.pick(draw, ops)]] + sub(draw, d)
    return l
def term6(draw, d): return ([[mk.pick(draw, UN)]] if mk.chance(draw, 1, 5) else []) + prim(draw, d)
def term5(draw, d): return level(draw, d, MUL, term6)
def term4(draw, d): return level(draw, d, ADD, term5)
def term3(draw, d): return level(draw, d, SH, term4, 8)
def term2(draw, d): return level(draw, d, CMP, term3)
def term1(draw, d):
    if mk.chance(draw, 1, 5):
        a = mk.pick(draw, STRS)
        return [["s", a], [mk.pick(draw, STR)], ["s", a if mk.chance(draw, 1, 2) else mk.pick(draw, STRS)]]
    return term2(draw, d)
def term0(draw, d): return level(draw, d, LOG, term1)
ALL = [[x] for x in LOG + CMP + SH + ADD + MUL + UN + ["(", ")"]]
BAD = ["@", "abc", '"open', "=", "'", "[fail 1", "DEFINED", "DEFINED X", "DEFINED(", "EXIST", "EXIST(a", ",", "1x", "exist b)", "0x1", "]", "1.5", ";", "{", "x == x"]
def anytoken(draw):
    k = mk.ints(draw, 0, 5)
    if k < 3: return mk.pick(draw, ALL)
    if k == 3: return ["n", mk.pick(draw, NUM)]
    if k == 4: return ["s", mk.pick(draw, STRS)]
    return ["x", mk.ints(draw, 0, len(BAD) - 1)]

def case(draw):
    l = []
    for i in range(mk.ints(draw, 1, 6)):
        t = term0(draw, mk.pick(draw, [0, 1, 2, 3, 5]))[:60]
        if mk.chance(draw, 1, 30):       # beyond the initial size of the parser's stacks
            n = mk.pick(draw, [60, 120, 130, 260, 400])
            t = [["("]] * n + t + [[")"]] * n
        l.append([t, mk.chance(draw, 1, 3), mk.schedule(draw, 10)])
    if mk.chance(draw, 1, 2):
        t = list(term0(draw, mk.pick(draw, [0, 1, 2]))[:30])
        for _ in range(mk.ints(draw, 1, 2)):
            k, p = mk.ints(draw, 0, 3), mk.ints(draw, 0, 30)
            if k == 0: t.insert(p % (len(t) + 1), anytoken(draw))
            elif not t: pass
            elif k == 1: del t[p % len(t)]
            elif k == 2: t[p % len(t)] = anytoken(draw)
            else: t.insert(p % len(t), t[p % len(t)])
        l.append([t, mk.chance(draw, 1, 2), mk.schedule(draw, 10)])
    return {"e": l}

class Bad(Exception): pass
class Unknown(Exception): pass
def w(x): return (x + 2**31) % 2**32 - 2**31
class P:
    """reference parser; values: int or ("s", text)"""
    def __init__(self, toks): self.t, self.i, self.unknown, self.zero = toks, 0, False, False
    def peek(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self): self.i += 1; return self.t[self.i - 1]
    def left(self, ops, sub, f):
        a = sub()
        while self.peek() in ops: o = self.next()[0]; a = f(o, a, sub())
        return a
    def term0(self): return self.left(LOG, self.term1, lambda o, a, b: {"&&": int(a != 0 and b != 0), "||": int(a != 0 or b != 0), "&": a & b, "|": a | b}[o])
    def term1(self):
        if self.peek() == "s":
            a = self.next()[1]
            if self.peek() not in STR: raise Bad()
            o = self.next()[0]
            if self.peek() != "s": raise Bad()
            return int((a == self.next()[1]) == (o == "=="))
        return self.left(CMP, self.term3, lambda o, a, b: int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]))
    def shift(self, o, a, b):
        if not 0 <= b < 32: self.unknown = True; return 0
        return w(a << b) if o == "<<" else a >> b
    def term3(self): return self.left(SH, self.term4, self.shift)
    def term4(self): return self.left(ADD, self.term5, lambda o, a, b: w(a + b if o == "+" else a - b))
    def mul(self, o, a, b):
        if o == "*": return w(a * b)
        if b == 0: self.zero = True; return 0
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return w(q) if o == "/" else a - b * q
    def term5(self): return self.left(MUL, self.term6, self.mul)
    def term6(self):
        if self.peek() in UN:
            o = self.next()[0]; v = self.prim()
            return w(-v) if o == "-" else ~v if o == "~" else int(v == 0)
        return self.prim()
    def prim(self):
        k = self.peek()
        if k == "n": return self.next()[1]
        if k == "d": return int(self.next()[1] in DEFINED)
        if k == "e": return int(self.next()[1] in EXIST)
        if k == "c": return self.next()[1]
        if k == "(":
            self.next(); v = self.term0()
            if self.peek() != ")": raise Bad()
            self.next()
            return v
        raise Bad()
    def run(self):
        v = self.term0()
        if self.i != len(self.t): raise Bad()
        return v

def text(toks, sp):
    s, prev = "", None
    for i, t in enumerate(toks):
        k = t[0]
        if k == "n": x = str(t[1])
        elif k == "s": x = '"' + t[1].replace('"', '""') + '"'
        elif k in "de" and len(t) == 3:
            n = '"%s"' % t[1] if t[2] % 2 else t[1]
            word = ["DEFINED", "defined", "Defined"][t[2] % 3] if k == "d" else ["EXIST", "exist", "eXist"][t[2] % 3]
            x = word + ["", " "][t[2] // 2 % 2] + ["(%s)", "( %s )", "(%s\t)"][t[2] // 4] % n
        elif k == "c": x = ["[exit %d]", "[ exit %d ]", "[echo ^[^]& exit %d]", "[echo ^^& exit %d]"][t[2]] % t[1]
        elif k == "x": x = BAD[t[1]]
        else: x = k
        word = k in ("n", "d", "e", "c", "s", "x")
        # operators never touch each other, nor do operands
        glue = prev is not None and prev != word and sp and sp[i % len(sp)] % 2 and k != "x"
        s += ("" if prev is None or glue else [" ", "\t", "  "][sp[i % len(sp)] % 3] if sp else " ") + x
        prev = word
    return s

def judge(case, sim):
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(100000)     # the reference parser on deep parentheses
    try:
        return judge1(case, sim)
    finally:
        sys.setrecursionlimit(old)
def judge1(case, sim):
    mf = ["DEF = 1", "EMPTY =", "x.y = y"]
    want, err, nt, tags = [], None, False, set()
    systems, free = 0, False
    for k, (toks, cmp, sp) in enumerate(case["e"]):
        p = P(toks)
        if err is not None: continue
        s = text(toks, sp)
        try: v = p.run()
        except Bad: v = None
        if p.unknown and v is not None:
            tags.add("shift")
            if k + 1 == len(case["e"]): mf += ["!IF " + s, "!ENDIF"]; free = True
            continue
        if p.zero and v is not None: v = None; tags.add("zero")
        elif v is None: tags.add("malformed")
        if v is None:
            # the value is an operand of nothing: the error must not depend on it
            mf += ["!IF " + s, "!MESSAGE no%d" % k, "!ELSE", "!MESSAGE no%d" % k, "!ENDIF", "!MESSAGE no%d" % k]
            err = k; nt = True
            continue
        systems += sum(1 for t in toks if t[0] == "c")
        if sum(1 for t in toks if t[0] in LOG + CMP + SH + ADD + MUL) > 2: nt = True
        if cmp:
            mf += ["!IF (%s) == %s" % (s, v if v > -2**31 else "(-2147483647 - 1)"), "!MESSAGE ok%d" % k, "!ELSE", "!MESSAGE wrong value of (%s), should be %d" % (s.replace("%", "%%"), v), "!ENDIF"]
            want.append("ok%d" % k)
        else:
            mf += ["!IF " + s, "!MESSAGE true%d" % k, "!ELSE", "!MESSAGE false%d" % k, "!ENDIF"]
            want.append(("true%d" if v else "false%d") % k)
        if sum(1 for t in toks if t[0] == "(") > 3: tags.add("deep")
    mf += ["all:", "\tact 1", ""]
    r = sim.run({"argv": ["/NOLOGO", "/J1"], "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf) + "\n"}, {"p": "C:/work/there", "d": ""}, {"p": "C:/work/dir with blank/f", "d": ""}, {"p": "C:/work/pf (x86)/f", "d": ""}],
                 "progs": {"1": []}})
    b = r.broken()
    if b: return b, {"broken"}, False
    got = [l for l in r.text().split("\n") if l[:2] in ("ok", "tr", "fa", "wr", "no")]
    if got != want: return "messages %s, expected %s; stderr %r" % (got, want, r.etext()[-300:]), set(), False
    if free: return None, tags, nt      # it must not crash, the value is undefined
    if err is not None:
        if r.code == 0 or r.starts() or "preprocessor expression" not in r.etext(): return "malformed expression is no error (exit status %s)" % r.code, set(), False
    else:
        if r.code != 0 or r.etext(): return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
        if sum(1 for e in r.events if e["e"] == "system") != systems: return "commands in brackets were not run exactly once", set(), False
    return None, tags, nt
