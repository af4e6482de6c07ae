import base64, re
import mk
FLAVOUR = "plain"
RULE = ("commands and inline files made of up to 6 file name macros with every modifier and substitution, adjacent or separated, directly or through macros, in blocks and rules, with and without !, "
        "for targets and dependents with blanks, dots and directories, older and newer; macros in dependents; non-trivial: two or more modifiers or substitutions, or ! with two or more dependents, or $?")
QUICK, THOROUGH = 13000, 650000
TN = ["t0.obj", "sub\\t0.c.o", "sub/u0.o", "noext", "with sp 0.x", "d.ir\\noext", "C:\\work\\abs0.x", "..\\work\\up0", "s p\\t0.x"]
DN = ["a.c", "sub\\b.cc.c", "sub/c.h", "noext2", "with sp.t", "d.ir\\noext3", "C:\\work\\abs1.x", "..\\work\\up.t", "x", "s p\\y z.c"]
SUBST = [(".c", ".o"), ("t", ""), ("sub", "a b"), ("zz", "q"), ("\\", "/"), ("noext", "(^)"), (".", ""), ("x", "x.xx"), ("o", "^)o"), ("work\\", "")]

def macro(draw, rule):
    m = mk.pick(draw, ["@", "*", "**", "?", "@", "**"] + (["<", "<"] if rule else []))
    mod = mk.pick(draw, ["", "", "D", "B", "F", "R"])
    sub = mk.ints(draw, 0, len(SUBST) - 1) if mk.chance(draw, 1, 3) else None
    par = bool(mod) or sub is not None or mk.chance(draw, 1, 4)
    return [m, mod, sub, par]

def template(draw, rule):
    return [[mk.pick(draw, ["", " ", " ", "-", "x"]), macro(draw, rule)] for _ in range(mk.ints(draw, 1, 6))] 

def case(draw):
    rule = mk.pick(draw, [0, 0, 0, 1, 2])
    ds = []
    for _ in range(mk.pick(draw, [0, 1, 2, 2, 3, 4])):
        d = mk.pick(draw, DN)
        if d not in [x[0] for x in ds]: ds.append([d, -mk.ints(draw, 1, 6), mk.chance(draw, 1, 6)])
    c = {"t": mk.pick(draw, TN), "tt": None if mk.chance(draw, 1, 3) else -mk.ints(draw, 1, 6), "d": ds, "rule": rule, "Y": mk.chance(draw, 1, 4),
         "cmd": template(draw, rule), "bang": mk.chance(draw, 1, 4), "inl": template(draw, rule) if mk.chance(draw, 1, 3) else None, "wrap": mk.ints(draw, 0, 5),
         "dd": [mk.pick(draw, ["@", "*"]) and ["@", mk.pick(draw, ["", "D", "B", "F", "R", "P"]), mk.pick(draw, [None, None, 0, 7])] for _ in range(mk.pick(draw, [0, 0, 0, 1, 2]))],
         "hseed": mk.ints(draw, 0, 5), "N": mk.chance(draw, 1, 6)}
    return c

def text(m):
    s = m[0] + m[1]
    if m[2] is not None:
        a, b = SUBST[m[2]]
        s += ":%s=%s" % (a, b)
    return "$(%s)" % s if m[3] else "$" + s
def base(n):
    k = n.rfind(".")
    return n[:k] if k > n.rfind("\\") else n
def apply(n, m):
    if m[1] == "D": n = n[:n.rfind("\\")] if "\\" in n else "."
    elif m[1] == "R": n = base(n)
    elif m[1] == "F": n = n[n.rfind("\\") + 1:]
    elif m[1] == "B": n = base(n[n.rfind("\\") + 1:])
    if m[2] is not None:
        a, b = SUBST[m[2]]
        n = n.replace(a, b.replace("^", ""))
    return n
def quote(n): return '"%s"' % n if " " in n or "\t" in n else n

class Env: pass
def value(m, e):
    l = {"@": [e.t], "*": [base(e.t)], "**": e.deps, "?": e.newer, "<": e.src}[m[0]]
    if m[0] == "<" and not m[3]:
        return "".join(x + " " for x in l) if e.batch else l[0]
    return " ".join(quote(apply(x, m)) for x in l)
def fill(tpl, e):
    return "".join(s + value(m, e) for s, m in tpl)
def ttext(tpl):
    return "".join(s + text(m) for s, m in tpl)

def judge(case, sim):
    rule = case["rule"]
    t = case["t"]
    nat = t.replace("/", "\\")
    tpl = case["cmd"]
    if rule: nat = t = base(nat.split("\\")[-1]) + ".rul"
    deps = [d[0].replace("/", "\\") for d in case["d"]]
    dlist = [mk.q(d[0], d[2]) for d in case["d"]]
    age = {d[0].replace("/", "\\"): d[1] for d in case["d"]}
    files = [{"p": mk.vfs(d[0]), "d": "x", "t": d[1]} for d in case["d"]]
    made = set(f["p"].lower() for f in files)
    dd = []
    if not rule:
        for x in case["dd"]:
            pre = x[1] == "P"       # the macro at the end of the name
            if pre and (nat[1:2] == ":" or nat[:1] == "."): continue
            if pre: x = [x[0], "", x[2]]
            n = apply(nat, ["@", x[1], x[2], True])
            nm = "gen_" + n if x[1] in ("B", "F") else n + ".gen"
            if x[1] == "D": nm = n + "\\gen"
            if pre: nm = "gen\\" + n
            if mk.vfs(nm).lower() in made or mk.vfs(nm).lower() == mk.vfs(nat).lower(): continue
            made.add(mk.vfs(nm).lower())
            files.append({"p": mk.vfs(nm), "d": "x", "t": -2}); age[nm] = -2
            raw = "$$(%s)" % ("@" + x[1] + (":%s=%s" % SUBST[x[2]] if x[2] is not None else "")) if x[1] or x[2] is not None else "$$@"
            raw = "gen_" + raw if x[1] in ("B", "F") else raw + "\\gen" if x[1] == "D" else "gen\\" + raw if pre else raw + ".gen"
            dd.append(raw); deps.append(nm)
    cmd = "act id " + ttext(tpl)
    if case["wrap"] == 0: pre = ["CMDL = " + cmd]; cmd = "$(CMDL)"
    elif case["wrap"] == 1: pre = ["ARGS = " + ttext(tpl)]; cmd = "act id $(ARGS)"
    else: pre = []
    if case["wrap"] == 1: tpl = [[tpl[0][0].lstrip(), tpl[0][1]]] + tpl[1:]     # blanks before a value are dropped
    body = ["\t" + ("!" if case["bang"] else "") + cmd + (" <<kept.txt" if case["inl"] else "")]
    if case["inl"]: body += [ttext(case["inl"]), "<<KEEP"]
    mf = pre
    if rule:
        mf += [".SUFFIXES:", ".SUFFIXES: .src", ".src.rul" + (":" if rule == 1 else "::")] + body + ["", "%s: %s" % (mk.q(t, False), " ".join(dlist))]
        src = base(nat) + ".src"
        files.append({"p": mk.vfs(src), "d": "x", "t": -2}); age[src] = -2
        deps = deps + [src]
    else:
        mf += ["%s: %s" % (mk.q(t, False), " ".join(dlist + dd))] + body
    if case["tt"] is not None: files.append({"p": mk.vfs(nat), "d": "x", "t": case["tt"]})
    argv = ["/NOLOGO", "/A", "/J1"] + (["/Y"] if case["Y"] else []) + (["/N"] if case["N"] else [])
    r = sim.run({"argv": argv, "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf) + "\n"}] + files, "dirs": ["C:/work/sub"], "progs": {"id": []}, "hseed": case["hseed"]})
    b = r.broken()
    if b: return b, {"broken"}, False
    if r.code != 0 or r.etext(): return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    want, content = [], None
    for d in (deps if case["bang"] else [None]):
        e = Env()
        e.t = nat
        e.deps = deps if d is None else [d]
        e.newer = [x for x in e.deps if case["tt"] is None or age[x] >= case["tt"]]
        e.src = [base(nat) + ".src"]
        e.batch = rule == 2 and not case["Y"]
        want.append(("act id " + fill(tpl, e)).rstrip(" ") + (" kept.txt" if case["inl"] else ""))
        if case["inl"]: content = fill(case["inl"], e)
    norm = lambda s: re.sub(" +kept.txt$", " kept.txt", s.rstrip(" "))
    got = [norm(x["cmd"]) for x in r.starts()] if not case["N"] else [norm(l.strip("\t")) for l in r.text().split("\n") if l]
    if got != [norm(w) for w in want]:
        return "commands %s, expected %s" % (got, want), set(), False
    if case["inl"] and want and not case["N"]:
        f = {k.lower(): v for k, v in r.fs.items()}.get("c:/work/kept.txt")
        g = base64.b64decode(f[1]).decode("latin1") if f else None
        if g != content + "\r\n": return "inline file contains %r, expected %r" % (g, content + "\r\n"), set(), False
    allm = [m for _, m in tpl + (case["inl"] or [])]
    nt = sum(bool(m[1]) or m[2] is not None for m in allm) > 1 or (case["bang"] and len(deps) > 1) or any(m[0] == "?" for m in allm)
    return None, {"rule%d" % rule} | {m[0] for m in allm} | ({"!"} if case["bang"] else set()), nt
