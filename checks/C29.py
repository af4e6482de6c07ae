import mk, C27, ntpath
FLAVOUR = "plain"
RULE = ("makefiles as in C27 (definitions, nested conditionals, targets, commands, inline files), cut into up to 7 nested include files at any line where an include directive is active, placed in 6 directories, "
        "named relative to the current directory or to one of the including files, as <name> on the INCLUDE path, or absolute, in any spelling, with decoys of lower priority, with and without final newline; "
        "or with a missing include file or a cycle; the oracle is the interpreter of C27 and a run of the makefile in one piece; non-trivial: two or more include files, one of them included by another")
QUICK, THOROUGH = 7000, 350000
DIRS = ["", "a", "a/b", "inc", "c d", "../up"]

class W(C27.W):
    """also remembers where an include directive would be executed"""
    def __init__(self, case):
        self.state, self.ok = True, []
        C27.W.__init__(self, case)
    def out(self, s):
        for i, l in enumerate(s.split("\n")):
            self.ok.append(self.state and i == 0)
            self.files[self.f].append(l)
    def items(self, l, active, depth):
        for o in l:
            self.state = active
            C27.W.items(self, [o], active, depth)
            self.state = active
        self.state = active

def drop(l):
    """no include files of C27"""
    r = []
    for o in l:
        if o[0] == "inc": continue
        if o[0] == "if": o = ["if", [[c, drop(b)] for c, b in o[1]], drop(o[2]) if o[2] is not None else None, o[3]]
        elif o[0] == "inl": o = ["inl", drop(o[1])]
        r.append(o)
    return r

def case(draw):
    it = []
    for _ in range(mk.ints(draw, 1, 3)): it += C27.items(draw, mk.pick(draw, [1, 2, 3]))
    cuts = [[mk.ints(draw, 0, 999), mk.ints(draw, 0, 40), mk.ints(draw, 0, len(DIRS) - 1), mk.ints(draw, 0, 3), mk.ints(draw, 0, 9), mk.ints(draw, 0, 99), mk.chance(draw, 1, 5), mk.chance(draw, 1, 3)]
            for _ in range(mk.ints(draw, 1, 7))]
    return {"items": drop(it), "cuts": cuts, "mkdir": mk.pick(draw, ["", "", "a", "sub"]), "hseed": mk.ints(draw, 0, 9),
            "bad": [mk.pick(draw, ["missing", "cycle"]), mk.ints(draw, 0, 9), mk.ints(draw, 0, 9)] if mk.chance(draw, 1, 4) else None}

def rel(d, f):
    return ntpath.relpath("C:/w/work/" + f, "C:/w/work/" + d).replace("\\", "/")
def norm(p):
    return ntpath.normpath(p if p[1:2] == ":" else "C:/w/work/" + p).replace("\\", "/").lower()

class F:
    def __init__(self, name, d, lines): self.name, self.d, self.lines = name, d, lines

def judge(case, sim):
    w = W(case)
    for x in C27.X: w.out("P%s = %s" % (x, x))
    w.out("t0:")
    w.items(case["items"], True, 0)
    body = w.files["Makefile"]
    tail = ["", "all: " + " ".join("t%d" % t for t in w.targets), ""]
    # a line is (text, include possible) or a file
    root = F("Makefile", case["mkdir"], list(zip(body, w.ok)) + [(l, True) for l in tail])
    files = [root]
    for k, (pos, n, d, *rest) in enumerate(case["cuts"]):
        f = files[pos % len(files)]
        cand = [i for i, l in enumerate(f.lines) if isinstance(l, tuple) and l[1] and not (i and isinstance(f.lines[i - 1], tuple) and f.lines[i - 1][0].endswith("\\"))]
        if not cand: continue
        i = cand[pos // 7 % len(cand)]
        j = min(len(f.lines), i + n)
        while j < len(f.lines) and j > i and isinstance(f.lines[j - 1], tuple) and f.lines[j - 1][0].endswith("\\"): j += 1
        if j == i and n: continue
        g = F(("i%d.mk" if rest[3] else "i%d x.mk") % k, DIRS[d], f.lines[i:j])
        g.style = rest
        f.lines[i:j] = [g]
        files.append(g)
    exist = {norm((f.d + "/" if f.d else "") + f.name) for f in files}
    vfs, decoys, ddirs = [], [], []
    depth = [0]
    def spell(f, chain):
        """an include line for f in the file chain[-1]"""
        how, up, k, old, case_ = f.style
        p = (f.d + "/" if f.d else "") + f.name
        angle = False
        dirs = [c.d for c in reversed(chain)]
        inc = ["inc", "c d"]
        if how == 1: s = rel(dirs[up % len(dirs)], p)
        elif how == 2 and f.d in inc: s = f.name; angle = True
        elif how == 3: s = "C:/w/work/" + p
        else: s = p
        # the search order of the statement
        order = [s] if s[1:2] == ":" else [s] + [(d + "/" if d else "") + s for d in dirs] + ([d + "/" + s for d in inc] if angle else [])
        first = next(i for i, o in enumerate(order) if norm(o) == norm(p))
        for o in order[:first]:
            if norm(o) in exist: return None
            if k % 5 == 1: ddirs.append(o)       # a directory of that name is no file
        for o in order[first + 1:]:
            if norm(o) not in exist and norm(o) not in map(norm, order[:first]) and k % 2: exist.add(norm(o)); vfs.append((o, "!MESSAGE mdecoy\n")); decoys.append(o)
        if k // 2 % 3 == 0: s = s.replace("/", "\\")
        if case_: s = s.swapcase()
        t = "<%s>" % s if angle else '"%s"' % s if " " in s or k // 6 % 2 else s
        if k // 12 % 4 == 1: t = t.replace("i", "$(L1)").replace("I", "$(L2)")
        if old: return ["include ", "INCLUDE\t", "Include  "][k % 3] + t
        return ["!INCLUDE ", "!include\t", "! Include "][k % 3] + t + ["", "  # comment", ""][k // 24 % 3]
    bad = case["bad"]
    where = None
    if bad:
        t = files[bad[1] % len(files)]
    def render(f, chain):
        nonlocal where
        lines = []
        chain = chain + [f]
        depth[0] = max(depth[0], len(chain))
        if bad and f is t:
            # an include is executed at the beginning of the file
            lines += ["# comment"] * (bad[1] % 4)
            if bad[0] == "missing": lines.append(["!INCLUDE nowhere.mk", "!include <no where.mk>", "include a\\nowhere.mk"][bad[2] % 3])
            else:
                c = chain[bad[2] % len(chain)]
                lines.append('!INCLUDE "%s"' % [(c.d + "/" if c.d else "") + c.name, rel(f.d, (c.d + "/" if c.d else "") + c.name)][bad[2] % 2])
                if bad[2] > 5: lines[-1] = lines[-1].upper()
            where = (f, len(lines))
        for l in f.lines:
            if isinstance(l, tuple): lines.append(l[0]); continue
            s = spell(l, chain)
            if s is None: s = '!INCLUDE "C:\\w\\work\\%s"' % ((l.d + "/" if l.d else "") + l.name).replace("/", "\\")
            lines.append(s)
            render(l, chain)
        nonl = f is not root and f.style[2] % 3 == 0
        vfs.append(((f.d + "/" if f.d else "") + f.name, "\n".join(lines) + ("" if nonl or not lines else "\n")))
    render(root, [])
    args = ["/NOLOGO", "/J1", "all", "L1=i", "L2=I", "INCDIR=inc"] + (["/F", case["mkdir"] + "\\Makefile"] if case["mkdir"] else [])
    progs = {str(k): [] for k in range(w.n + 1)}
    fs = {norm(p): {"p": "C:/w/work/" + p, "d": d} for p, d in vfs}
    for p in ("inc/e",): fs[p] = {"p": "C:/w/work/" + p, "d": ""}
    sc = {"argv": args, "cwd": "C:/w/work", "hseed": case["hseed"], "snap": True, "progs": progs, "env": {"INCLUDE": "$(INCDIR);missing;C:\\w\\work\\c d"},
          "dirs": ["C:/w/up", "C:/w/work/c d", "C:/w/work/a/b", "C:/w/work/inc", "C:/w/work/sub"] + [norm(d) for d in ddirs if norm(d) not in exist]}
    r = sim.run(dict(sc, files=list(fs.values())))
    b = r.broken()
    if b: return b, {"broken"}, False
    gm = [l for l in r.text().split("\n") if l.startswith("m")]
    if bad:
        # the directive may be in a part that is not executed
        e = r.etext()
        name = "\\".join(["C:", "w", "work"] + ([where[0].d.replace("/", "\\")] if where[0].d else []) + [where[0].name])
        if r.code == 0 or r.starts(): return "%s is no error" % bad[0], set(), False
        if bad[0] == "missing":
            if "cannot be found" not in e: return "stderr %r" % e, set(), False
            if "line %d" % where[1] not in e or where[0].name.lower() not in e.lower(): return "the error %r does not name line %d of %s" % (e, where[1], where[0].name), set(), False
        elif "cycle" not in e or where[0].name.lower() not in e.lower(): return "stderr %r" % e, set(), False
        return None, {bad[0]}, depth[0] > 2
    if gm != w.msgs: return "messages %s, expected %s; stderr %r" % (gm, w.msgs, r.etext()[-300:]), set(), False
    if r.code != 0 or r.etext(): return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    got = [e["cmd"] for e in r.starts()]
    want = [c[1] for t in sorted(w.targets) for c in w.cmds if c[0] == t]
    if got != want: return "commands %s, expected %s" % (got, want), set(), False
    one = sim.run(dict(sc, files=[{"p": "C:/w/work/" + (case["mkdir"] + "/" if case["mkdir"] else "") + "Makefile", "d": "\n".join(body + tail) + "\n"}, {"p": "C:/w/work/inc/e", "d": ""}]))
    b = one.broken()
    if b: return b, {"broken"}, False
    def seen(e): return e["cmd"], sorted((k, v) for k, v in (e.get("files") or {}).items())
    if [seen(e) for e in r.starts()] != [seen(e) for e in one.starts()]: return "commands or inline files differ from those of the makefile in one piece", set(), False
    if r.text() != one.text(): return "output differs from that of the makefile in one piece: %r %r" % (r.text()[-500:], one.text()[-500:]), set(), False
    return None, {"files%d" % (len(files) - 1), "decoys" if decoys else "plain"}, depth[0] > 2
