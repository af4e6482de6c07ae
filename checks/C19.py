import mk
FLAVOUR = "plain"
RULE = ("graphs of targets, rule targets and plain files whose dependents lines contain any number of .SYNC, several lines per target, dependents named with $$@, 2..8 jobs, all hash and completion "
        "orders; compared with the same makefile with the dependencies written out; non-trivial: a .SYNC separates two targets whose commands are run")
QUICK, THOROUGH = 16000, 700000

def case(draw):
    n = mk.ints(draw, 3, 9)
    I = []
    for i in range(n):
        kind = "t" if i == 0 else mk.pick(draw, ["t", "t", "t", "r", "f"])
        x = {"k": kind, "t": None if kind != "f" and mk.chance(draw, 2, 3) else -mk.ints(draw, 1, 9), "nops": mk.ints(draw, 0, 2), "cmd": mk.chance(draw, 7, 8), "w": mk.chance(draw, 5, 6), "lines": []}
        if kind == "r": x["s"] = -mk.ints(draw, 1, 9)
        I.append(x)
    for i, x in enumerate(I):
        if x["k"] != "t": continue
        for _ in range(mk.pick(draw, [1, 1, 2])):
            cand = list(range(i + 1, n))
            if not cand: continue
            d = [c for c in cand if mk.chance(draw, 2, 3 if i == 0 else 2 + len(cand) // 2)]
            l = []
            if len(d) > 1 and mk.chance(draw, 2, 3):
                d = sorted(d, reverse=True)
                cuts = sorted({mk.ints(draw, 0, len(d)) for _ in range(mk.ints(draw, 1, 3))})
                for k, y in enumerate(d):
                    if k in cuts: l.append(None)
                    l.append(y)
                if len(d) in cuts: l.append(None)
                if mk.chance(draw, 1, 6): l.insert(l.index(None), None)
            else:
                l = d
            x["lines"].append([[y, mk.ints(draw, 0, 9)] if y is not None else None for y in l])
    return {"I": I, "j": mk.ints(draw, 2, 8), "sched": mk.schedule(draw, 40), "hseed": mk.ints(draw, 0, 30), "A": mk.chance(draw, 1, 8)}

def name(I, i): return {"t": "tt%d", "r": "r%d.rul", "f": "f%d.txt"}[I[i]["k"]] % i
def spell(I, i, s, owner):
    n = name(I, i)
    if s == 2: return "$$(@:%s=%s)" % (name(I, owner), n)
    return n.upper() if s == 0 and I[i]["k"] != "f" else '"%s"' % n if s == 1 else n
def build(case, written):
    I = case["I"]
    mf = [".SUFFIXES:", ".SUFFIXES: .src", ".src.rul:", "\ttouch $@", ""]
    files, progs, extra = [], {}, []
    for i, x in enumerate(I):
        if x["t"] is not None: files.append({"p": "C:/work/" + name(I, i), "d": "x", "t": x["t"]})
        if x["k"] == "r": files.append({"p": "C:/work/r%d.src" % i, "d": "x", "t": x["s"]})
        if x["k"] != "t": continue
        cmds = ["\tact c%d" % i] if x["cmd"] else []
        progs["c%d" % i] = [["nop"]] * x["nops"] + ([["touch", "C:\\work\\tt%d" % i]] if x["w"] else [])
        for k, l in enumerate(x["lines"] or [[]]):
            w, before, group = [], [], []
            for y in l:
                if y is None:
                    w += [] if written else [".SYNC"]
                    before += group
                    group = []
                else:
                    w.append(spell(I, *y, i))
                    group.append(y)
                    if before and I[y[0]]["k"] != "f": extra.append((y[0], list(before)))
            mf += ["tt%d : %s" % (i, " ".join(w))] + (cmds if k == 0 else []) + [""]
    if written:
        for y, before in extra: mf += ["%s : %s" % (name(I, y), " ".join(spell(I, *b, y) for b in before)), ""]
    return {"argv": ["/NOLOGO", "/J", str(case["j"])] + (["/A"] if case["A"] else []) + ["tt0"], "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf) + "\n"}] + files,
            "progs": progs, "schedule": case["sched"], "hseed": case["hseed"]}, extra

def judge(case, sim):
    I = case["I"]
    a, extra = build(case, False)
    b, _ = build(case, True)
    r, ref = sim.run(a), sim.run(b)
    for x in (r, ref):
        w = x.broken()
        if w: return w, {"broken"}, False
    if r.code != 0 or ref.code != 0:
        return "exit status %s with .SYNC, %s with written dependencies; stderr %r" % (r.code, ref.code, r.etext()[-300:]), set(), False
    c1, c2 = (sorted(e["cmd"].lower() for e in x.starts()) for x in (r, ref))
    if c1 != c2:
        return "with .SYNC %s is run, with the dependencies written out %s" % (c1, c2), set(), False
    span, pid = {}, {}
    for pos, e in enumerate(r.events):
        if e["e"] == "start":
            w = e["cmd"].split()
            i = int(w[1][1:]) if w[0] == "act" else int(w[1][1:-4])
            span[i] = [pos, None]
            pid[e["pid"]] = i
        elif e["e"] == "exit": span[pid[e["pid"]]][1] = pos
    both = False
    for y, before in extra:
        for z, _ in before:
            if y in span and z in span:
                both = True
                if span[z][1] > span[y][0]:
                    return "%s is started before %s, which stands before a .SYNC, is finished" % (name(I, y), name(I, z)), set(), False
    tags = {"sync" if extra else "nosync"}
    if any(len({I[z]["k"] for z, _ in bf} | {I[y]["k"]}) > 1 for y, bf in extra): tags.add("mixed")
    return None, tags, both
