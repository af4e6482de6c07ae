import re
import mk
FLAVOUR = "plain"
RULE = ("up to 9 description blocks over 6 targets and 4 files, several targets per block and several blocks per target, : and ::, names with blanks, ; # and drive letters, macros on either side, "
        "commands behind ;, comments, blank lines and continuations; non-trivial: a target got its dependents or commands from two or more blocks, or a block has two or more targets")
QUICK, THOROUGH = 13000, 650000
TN = ["t%d", "T%d.Obj", "sub\\t%d.o", "with sp %d.x", "we;ird%d.x", "ha#sh %d.y", "C:\\work\\abs%d.x", "p(a)%d", "t^%d~+,-_.z", "x@%d", "x%%%d", "'%d'", "C:\\with sp\\a%d.x", "{%d}", ".dot%d", "include%d", "INCLUDES_%d"]
FN = ["f%d.c", "sub\\f%d.h", "f i%d.c", "C:\\work\\sub\\g%d.h"]

def case(draw):
    simple = mk.chance(draw, 1, 4)
    nt = mk.ints(draw, 2, 6)
    T = [("t%d" if simple else mk.pick(draw, TN)) % i for i in range(nt)]
    F = [("f%d.c" if simple else mk.pick(draw, FN)) % i for i in range(4)]
    kind = [2 if mk.chance(draw, 1, 3) else 1 for _ in T]
    B, hascmd = [], set()
    for b in range(mk.ints(draw, 1, 9)):
        k = mk.ints(draw, 1, 2)
        cand = [i for i in range(nt) if kind[i] == k]
        if not cand: k = 3 - k; cand = [i for i in range(nt) if kind[i] == k]
        ts = []
        for _ in range(mk.pick(draw, [1, 1, 1, 2, 3])):
            i = mk.pick(draw, cand)
            if i not in ts: ts.append(i)
        if mk.chance(draw, 1, 60): k = 3 - k
        lo = max(ts) + 1
        ds = []
        for _ in range(mk.pick(draw, [0, 1, 1, 2, 3, 5])):
            c = ["t%d" % i for i in range(lo, nt)] + ["f%d" % i for i in range(4)]
            ds.append(mk.pick(draw, c))
        nc = mk.pick(draw, [0, 1, 1, 2])
        if k == 1 and any(t in hascmd for t in ts): nc = 0
        if nc: hascmd |= set(ts)
        sp = lambda n: list(mk.respell(draw, n)) if not simple else [n, False]
        B.append({"k": k, "t": [[i] + sp(T[i]) for i in ts], "d": [[d] + sp(T[int(d[1:])] if d[0] == "t" else F[int(d[1:])]) for d in ds], "nc": nc, "semi": mk.chance(draw, 1, 4),
                  "lay": [mk.ints(draw, 0, 11) for _ in range(4)], "mac": mk.ints(draw, 0, 7)})
    used = [t[0] for b in B for t in b["t"]]
    # dependents must be defined somewhere: targets that have no block are dropped
    for b in B: b["d"] = [d for d in b["d"] if d[0][0] == "f" or int(d[0][1:]) in used]
    goal = None if mk.chance(draw, 1, 4) else mk.pick(draw, used) if mk.chance(draw, 1, 3) else -1
    gs = mk.respell(draw, T[goal])[0] if goal is not None and goal >= 0 else None
    if gs and mk.chance(draw, 1, 30): gs += "q"
    return {"T": T, "F": F, "B": B, "goal": goal, "gs": gs, "j": mk.pick(draw, [1, 1, 3]), "hseed": mk.ints(draw, 0, 5), "sched": mk.schedule(draw, 16)}

def quoted(name, force):
    return '"%s"' % name if force or re.search(r'[ ;#]', name) else name

def name_text(n):
    return n

def render(case):
    out = ["NIL ="]
    for x, b in enumerate(case["B"]):
        lay = b["lay"]
        left = [quoted(t[1], t[2]) for t in b["t"]]
        right = [quoted(d[1], d[2]) for d in b["d"]]
        plain = lambda l: all("#" not in w for w in l)
        if b["mac"] == 0 and plain(right):
            out.append("D%d = %s" % (x, " ".join(right))); right = ["$(D%d)" % x]
        elif b["mac"] == 1 and right and plain(right[:1]):
            out.append("D%d = %s" % (x, right[0])); right[0] = "$(D%d)" % x
        elif b["mac"] == 2 and plain(left):
            out.append("L%d = %s" % (x, " ".join(left))); left = ["$(L%d)" % x]
        elif b["mac"] == 3: right = ["$(NIL)"] + right + ["$(NIL)"]
        elif b["mac"] == 4: right = ["$(NOSUCHMACRO:a=b)"] + right
        sep = [" ", "  ", "\t", " \\\n", "\\\n   "][lay[1] if lay[1] < 5 else 0]
        c = [" %s ", "%s", "%s ", " %s", "\t%s\t", " %s ", "%s "][lay[0] % 7] % (":" * b["k"])
        l = " ".join(left)
        if l.endswith(":"): c = " " + c.strip() + " "
        line = l + c + sep.join(right)
        cmds = ["act b%dc%d $@ /// $**" % (x, k) for k in range(b["nc"])]
        tail = ""
        if b["semi"] and cmds:
            tail = [" ; ", ";", " ;"][lay[2] % 3] + cmds.pop(0)
        elif lay[2] < 3: tail = ["  ", " # remark : ; x", "\t# \"x"][lay[2]]
        out.append(line + tail)
        for k, cm in enumerate(cmds):
            if lay[3] == 1: out.append("# comment")
            if lay[3] == 2 and (k or tail and ";" in tail and False): out.append("")
            out.append(["\t", "  ", " ", "\t"][lay[3] % 4] + cm)
        if lay[3] != 3 or not b["nc"]: out.append("")
    out.append("")
    if case["goal"] == -1:
        out.append("zz_all: " + " ".join(quoted(case["T"][i], False) for i in sorted({t[0] for b in case["B"] for t in b["t"]})))
    return "\n".join(out) + "\n"

def judge(case, sim):
    T, F = case["T"], case["F"]
    model, order, err, blocks = {}, [], None, {}
    for x, b in enumerate(case["B"]):
        for i, n, qd in b["t"]:
            if i not in model:
                model[i] = {"n": n.replace("/", "\\"), "k": b["k"], "d": [], "c": []}
                order.append(i)
            m = model[i]
            if m["k"] != b["k"]: err = True
            m["d"] += [[d[0], d[1].replace("/", "\\")] for d in b["d"]]
            m["c"] += ["b%dc%d" % (x, k) for k in range(b["nc"])]
            if b["nc"] or b["d"]: blocks[i] = blocks.get(i, 0) + 1
    goal = case["goal"]
    files = [{"p": "C:/work/Makefile", "d": render(case)}] + [{"p": mk.vfs(f), "d": "x", "t": -3} for f in F]
    argv = ["/NOLOGO", "/A", "/J", str(case["j"])] + (["zz_all"] if goal == -1 else [case["gs"]] if goal is not None else [])
    r = sim.run({"argv": argv, "files": files, "dirs": ["C:/work/sub"], "progs": {"b%dc%d" % (x, k): [] for x in range(len(case["B"])) for k in range(2)}, "schedule": case["sched"], "hseed": case["hseed"]})
    b = r.broken()
    if b: return b, {"broken"}, False
    st = r.starts()
    if err:
        if r.code == 0 or st: return "mixing : and :: is not an error (exit status %s)" % r.code, set(), False
        return None, {"mixed"}, True
    if goal is not None and goal >= 0 and case["gs"].lower().replace("/", "\\") != T[goal].lower():
        if r.code == 0 or st or "doesn't exist" not in r.etext(): return "unknown target %r: exit status %s" % (case["gs"], r.code), set(), False
        return None, {"unknown goal"}, False
    if r.code != 0: return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    if r.etext(): return "stderr %r" % r.etext()[-300:], set(), False
    roots = order if goal == -1 else [goal if goal is not None else order[0]]
    reach = []
    def rec(i):
        if i in reach: return
        reach.append(i)
        for d, _ in model[i]["d"]:
            if d[0] == "t": rec(int(d[1:]))
    for i in roots: rec(i)
    qn = lambda n: '"%s"' % n if " " in n else n
    got = [e["cmd"][4:].strip() for e in st]
    want = []
    for i in reach:
        m = model[i]
        def tail(ds): return "%s /// %s" % (qn(m["n"]), " ".join(qn(d) for d in ds))
        full = [d[1] for d in m["d"]]
        # a file named twice may appear once or twice
        for c in m["c"]:
            alt = [("%s %s" % (c, tail(ds))).strip() for ds in (full, list(dict.fromkeys(full)))]
            want.append(alt[1] if alt[1] in got else alt[0])
    if sorted(got) != sorted(want):
        return "commands %s, expected %s" % ([g for g in got if g not in want] or sorted(got), [w for w in want if w not in got] or sorted(want)), set(), False
    # the commands of a target run in the order of its blocks
    for i in reach:
        tag = " %s /// " % qn(model[i]["n"])
        seq = [g.split(" ")[0] for g in got if tag in " " + g + " "]
        if seq != model[i]["c"]: return "order of commands %s, expected %s" % (seq, model[i]["c"]), set(), False
    nt = any(v > 1 for v in blocks.values()) or any(len(b["t"]) > 1 for b in case["B"])
    return None, {"default" if goal is None else "goal" if goal >= 0 else "all"} | ({"::"} if any(m["k"] == 2 for m in model.values()) else set()), nt
