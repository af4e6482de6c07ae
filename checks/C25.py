import mk
FLAVOUR = "plain"
RULE = ("sequences of up to 16 definitions, !UNDEFs and probes (commands and !MESSAGE) over 9 macro names, values nested from literals, $(X), $X, $$, substitutions with ^-escaped parentheses, "
        "references to themselves and computed names, now and then a malformed reference; non-trivial: a probed value depends on two or more macros, one of them redefined or substituted")
QUICK, THOROUGH = 16000, 800000
NAMES = ["A", "B", "a", "LONG_1", "x.y", "1", "_u", "Ab", "aB", "INCLUDEPATH", "includes", "INCLUDE"]
LIT = ["a", "b.c", "x y", "-", "=", "xx", "a^b", '"q r"', "aXbXa", "c:d", ".c", "/p:q", "1", "foo.c bar.c", "\\", "(", ")", ","]
SUB = [("a", "b"), (".c", ".o"), ("x", ""), ("b", "(^)"), ("X", "^)"), ("^(", "["), ("^)", "]"), ("foo", "a a"), ("aa", "b"), (" ", "-"), ("\\", "/"), ("xx", "x")]

def value(draw, depth=0):
    l = []
    for _ in range(mk.pick(draw, [0, 1, 1, 2, 3, 4])):
        k = mk.ints(draw, 0, 9)
        if k < 4: l.append(["l", mk.pick(draw, LIT)])
        elif k < 7: l.append(["r", mk.pick(draw, NAMES)])
        elif k == 7: l.append(["1", mk.pick(draw, ["A", "B", "a", "1"])])
        elif k == 8: l.append(["s", mk.pick(draw, NAMES), mk.ints(draw, 0, len(SUB) - 1)])
        else: l.append(["$"])
    return l

def case(draw):
    ops = []
    for _ in range(mk.ints(draw, 2, 16)):
        k = mk.ints(draw, 0, 19)
        if k < 10: ops.append(["def", mk.pick(draw, NAMES), value(draw), mk.ints(draw, 0, 3)])
        elif k < 11: ops.append(["undef", mk.pick(draw, NAMES)])
        elif k < 12: ops.append(["ind", mk.pick(draw, NAMES), value(draw)])
        elif k < 16: ops.append(["cmd", value(draw)])
        elif k < 19: ops.append(["msg", value(draw)])
        else: ops.append(["bad", mk.ints(draw, 0, 7), mk.pick(draw, NAMES)])
    if mk.chance(draw, 5, 6): ops = [o for o in ops if o[0] != "bad"]
    ops.append(["cmd", value(draw)])
    return {"ops": ops, "hseed": mk.ints(draw, 0, 9)}

BAD = ["$(", "$(A", "$()", "$(:a=b)", "$(A:x)", "$+", "$ x", "$(A:x=y"]
def text(v):
    s = ""
    for x in v:
        if x[0] == "l": s += x[1]
        elif x[0] == "r": s += "$(%s)" % x[1]
        elif x[0] == "1": s += "$" + x[1]
        elif x[0] == "s": s += "$(%s:%s=%s)" % ((x[1],) + SUB[x[2]])
        elif x[0] == "$": s += "$$"
        else: s += x[1]
    return s

class Err(Exception): pass
def subst(v, k):
    a, b = SUB[k]
    return v.replace(a.replace("^", ""), b.replace("^", ""))
def expand(env, v, used, trace):
    """v is a list of tokens; literals never contain a dollar sign"""
    s = ""
    for x in v:
        if x[0] in ("l", "q"): s += x[1]
        elif x[0] == "$": s += "$"
        elif x[0] == "bad": raise Err()
        else:
            if x[1] in used: raise Err()
            trace.append(x[1])
            r = expand(env, env.get(x[1], []), used | {x[1]}, trace)
            if x[0] == "s": r = subst(r, x[2]); trace.append("*")
            s += r
    return s
def strip(v):
    """the value without blanks at its ends"""
    v = [list(x) for x in v]
    return v
def define(env, n, v):
    old = env.get(n, [])
    r = []
    for x in v:
        if x[0] in ("r", "1") and x[1] == n: r += old
        elif x[0] == "s" and x[1] == n:
            try: r.append(["q", subst(expand(env, old, {}.keys() | set(), []), x[2])])
            except Err: r.append(["bad", ""])
        else: r.append(x)
    env[n] = r

def judge(case, sim):
    env, mf, want, msgs, err, traces = {}, ["NIL =", "SP = x x"], [], [], False, []
    redefined = set()
    for k, o in enumerate(case["ops"]):
        if o[0] == "def":
            eq = ["=", " = ", "= ", " ="][o[3]]
            mf.append(o[1] + eq + "." + text(o[2]) + ".")
            if not err:
                if o[1] in env: redefined.add(o[1])
                define(env, o[1], [["l", "."]] + o[2] + [["l", "."]])
        elif o[0] == "ind":      # the name is computed, too
            mf.append("N%d = %s" % (k, o[1]))
            mf.append("$(N%d) = .%s." % (k, text(o[2])))
            if not err:
                if o[1] in env: redefined.add(o[1])
                define(env, o[1], [["l", "."]] + o[2] + [["l", "."]])
        elif o[0] == "undef":
            mf.append("!UNDEF " + o[1])
            if not err: env.pop(o[1], None)
        else:
            if o[0] == "bad":
                v = [["l", "x"], ["t", BAD[o[1]]]]
                bad = True
            else: v, bad = o[1], False
            t = []
            if not err:
                try:
                    if bad: raise Err()
                    s = "[" + expand(env, v, set(), t) + "]"
                    traces.append(t)
                    (msgs if o[0] == "msg" else want).append((k, s))
                except Err: err = True
            if o[0] == "msg": mf.append("!MESSAGE m%d [%s]" % (k, text(v)))
            else: mf += ["p%d:" % k, "\tact %d [%s]" % (k, text(v)), ""]
    probes = ["p%d" % k for k, o in enumerate(case["ops"]) if o[0] in ("cmd", "bad")]
    mf += ["all: " + " ".join(probes), ""]
    r = sim.run({"argv": ["/NOLOGO", "/J1", "all"], "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf) + "\n"}], "hseed": case["hseed"],
                 "progs": {str(k): [] for k in range(len(case["ops"]))}})
    b = r.broken()
    if b: return b, {"broken"}, False
    gm = [l for l in r.text().split("\n") if l.startswith("m")]
    wm = ["m%d %s" % x for x in msgs]
    if gm[:len(wm)] != wm or (not err and len(gm) != len(wm)): return "messages %s, expected %s" % (gm, wm), set(), False
    if err:
        if r.code == 0 or r.starts() or not r.etext(): return "malformed or cyclic reference is no error (exit status %s)" % r.code, set(), False
        return None, {"error"}, False
    if r.code != 0 or r.etext(): return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    got = sorted(e["cmd"] for e in r.starts())
    w = sorted("act %d %s" % x for x in want)
    if got != w: return "commands %s, expected %s" % (sorted(set(got) - set(w)), sorted(set(w) - set(got))), set(), False
    nt = any(len(set(t) - {"*"}) > 1 and ("*" in t or set(t) & redefined) for t in traces)
    return None, {"depth%d" % min(max([len(t) for t in traces] or [0]), 4)}, nt
