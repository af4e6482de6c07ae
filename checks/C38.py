import re
import mk
FLAVOUR = "plain"
RULE = ("one to three big structures in one makefile: chains, ladders, layers, wide targets, trees, long command lists, nested macro references, long values and lines, inline text, nested conditionals and includes, "
        "many rules, batch rules, goals, command files, descriptions split over many blocks; sizes spread logarithmically up to 2000, 1 to 200 jobs, at most one failing command with and without /K; non-trivial: a structure of 50 or more")
QUICK, THOROUGH = 3500, 150000
GRAPHS = ["chain", "ladder", "layers", "wide", "tree", "split"]
OTHERS = ["cmds", "macros", "value", "line", "inline", "cond", "inc", "rules", "batch", "goals", "cfile", "msgs"]

def case(draw):
    c = {"shapes": [], "j": mk.pick(draw, [1, 2, 3, 8, 40, 64, 65, 200]), "K": mk.chance(draw, 1, 2), "u": mk.chance(draw, 1, 4), "hseed": mk.ints(draw, 0, 1 << 20), "sched": mk.schedule(draw) if mk.chance(draw, 1, 2) else []}
    for _ in range(mk.ints(draw, 1, 3)):
        top = mk.pick(draw, [5, 20, 80, 80, 300, 300, 700])
        c["shapes"].append([mk.pick(draw, GRAPHS + OTHERS), mk.ints(draw, 1, top), mk.ints(draw, 1, 12), mk.ints(draw, 0, 1 << 16)])
    if mk.chance(draw, 1, 3): c["fail"] = mk.ints(draw, 0, 1 << 20)
    return c

class B:
    """makefile text, files, and what has to happen"""
    def __init__(self, case):
        self.c, self.head, self.body, self.files, self.argv, self.cfile = case, [], [], {}, [], []
        self.deps, self.cmds, self.out, self.msg, self.goals = {}, {}, [], [], ["all"]
        self.batch, self.names = [], []
        for k, s in enumerate(case["shapes"]):
            self.p = "s%d_" % k
            n = getattr(self, "s_" + s[0])(s[1], s[2], s[3])
            if n: self.names.append(n)
    def target(self, n, deps, cmds=1, colon=":"):
        self.deps[n] = list(deps)
        self.cmds[n] = ["act %s.%d" % (n, i) for i in range(cmds)]
        self.body += ["%s%s %s" % (n, colon, " ".join(deps))] + ["\t" + x for x in self.cmds[n]]
        return n
    def s_chain(self, n, w, x):
        p = self.p + "c"
        for i in range(n): self.target(p + str(i), [p + str(i + 1)] if i < n - 1 else [])
        return p + "0"
    def s_ladder(self, n, w, x):
        p = self.p
        for i in range(n):
            self.target("%st%d" % (p, i), [p + "a%d" % i, p + "b%d" % i])
            self.target("%sa%d" % (p, i), [p + "t%d" % (i + 1)])
            self.target("%sb%d" % (p, i), [p + "t%d" % (i + 1)])
        self.target("%st%d" % (p, n), [])
        return p + "t0"
    def s_layers(self, n, w, x):
        p = self.p + "l"
        n = max(2, min(n, 4000 // (w * w)))
        for k in range(n):
            for i in range(w): self.target("%s%d_%d" % (p, k, i), ["%s%d_%d" % (p, k + 1, j) for j in range(w)] if k < n - 1 else [])
        return self.target(p + "x", ["%s0_%d" % (p, j) for j in range(w)])
    def s_wide(self, n, w, x):
        p = self.p + "w"
        for i in range(n): self.target(p + str(i), [])
        return self.target(p + "x", [p + str(i) for i in range(n)])
    def s_tree(self, n, w, x):
        p = self.p + "r"
        w = max(2, w)
        for i in range(n): self.target(p + str(i), [p + str(k) for k in range(i * w + 1, min(n, i * w + w + 1))])
        return p + "0"
    def s_split(self, n, w, x):
        p = self.p + "d"
        for i in range(n):
            self.target(p + str(i), [])
            self.body.append("%sx: %s%d" % (p, p, i))
        return self.target(p + "x", [p + str(i) for i in range(n)])
    def s_cmds(self, n, w, x):
        return self.target(self.p + "k", [], n)
    def one(self, name, text, cmd):
        """a target with a single command"""
        self.deps[name], self.cmds[name] = [], [cmd]
        self.body += [name + ":", "\t" + text]
        return name
    def s_macros(self, n, w, x):
        p = self.p + "M"
        f = "$(%s%d)y%d"
        self.head += [p + "0 = x"] + [(p + "%d = " + f) % (i + 1, p, i, i) for i in range(n)]
        return self.one(self.p + "m", "act %s $(%s%d)" % (self.p, p, n), "act %s x%s" % (self.p, "".join("y%d" % i for i in range(n))))
    def s_value(self, n, w, x):
        v = self.p + "V"
        words = ["w%d" % (i * 7919 % 1000) for i in range(n)]
        self.head += [v + " = "] + ["%s = $(%s) %s" % (v, v, y) for y in words]
        if w % 3 == 0: self.head += ["!IF \"$(%s: =,)\" != \"%s\"" % (v, "".join("," + y for y in words)), "!ERROR wrong value", "!ENDIF"]
        self.msg.append(self.p + " " + " ".join(y.replace("w1", "Q") for y in words))
        self.head.append("!MESSAGE %s$(%s:w1=Q)" % (self.p, v))
    def s_line(self, n, w, x):
        """line lengths around the size of the line buffer and far beyond it"""
        v = self.p + "L"
        l = max(1, (x % 5) * 2048 + n - 40) if w < 7 else 1 + n * (31 if w < 11 else 301)
        if w % 2: t = ("%d." % n * l)[:l]
        else: t = ("%dx.." % n * l)[:l]
        self.head += ["#" + "c" * (l // 2), v + "=" + t, "!IF \"$(%s)\" != \"%s\"" % (v, t), "!ERROR wrong line", "!ENDIF", "!MESSAGE %s $(%s)" % (self.p, v)]
        self.msg.append(self.p + " " + t)
    def s_inline(self, n, w, x):
        t = ["%sline %d" % (self.p, i) for i in range(n)]
        name = self.p + "i"
        self.one(name, "cat <<%s" % (name + ".txt"), "cat %s.txt" % name)
        self.body += t + ["<<"]
        self.out.append("\n".join(t) + "\n")
        return name
    def s_cond(self, n, w, x):
        n = min(n * (1 + x % 4), 1200)
        l, e = [], []
        for i in range(n):
            k = (x * (i + 1) + w) % 3
            l += [["!IF 1"], ["!IFDEF NOT", "bad line", "!IF 0", "!ELSE", "!ENDIF", "!ELSE"], ["!IF 0", "!ERROR no", "!ELSEIF 1"]][k]
            e += [["!ELSE", "!ERROR no", "!ENDIF"], ["!ENDIF"], ["!ELSE", "bad line", "!ENDIF"]][k][::-1]
        self.head += l + ["!MESSAGE %sinner" % self.p] + e[::-1] + ["!MESSAGE %souter" % self.p]
        self.msg += [self.p + "inner", self.p + "outer"]
    def s_inc(self, n, w, x):
        n = min(n, 300)
        if w % 2:
            for i in range(n): self.files["%s%d.mk" % (self.p, i)] = "!MESSAGE %sa%d\n%s!MESSAGE %sb%d\n" % (self.p, i, "!INCLUDE %s%d.mk\n" % (self.p, i + 1) if i < n - 1 else "", self.p, i)
            self.head.append("!INCLUDE %s0.mk" % self.p)
            self.msg += ["%sa%d" % (self.p, i) for i in range(n)] + ["%sb%d" % (self.p, i) for i in range(n - 1, -1, -1)]
        else:
            for i in range(n): self.files["%s%d.mk" % (self.p, i)] = "!MESSAGE %sa%d" % (self.p, i)
            self.head += ["!INCLUDE %s%d.mk" % (self.p, i) for i in range(n)]
            self.msg += ["%sa%d" % (self.p, i) for i in range(n)]
    def s_rules(self, n, w, x):
        n = min(n, 120)
        e = ["%sx%d" % (self.p, i) for i in range(n)]
        self.head += [".SUFFIXES: " + " ".join("." + y for y in e)] + [z for y in e for z in (".%s.%so:" % (y, self.p), "\tact %s $<" % y, "")]
        for i, y in enumerate(e):
            self.files["%s%d.%s" % (self.p, i, y)] = ""
            self.deps["%s%d.%so" % (self.p, i, self.p)], self.cmds["%s%d.%so" % (self.p, i, self.p)] = [], ["act %s %s%d.%s" % (y, self.p, i, y)]
        return self.target(self.p + "rx", ["%s%d.%so" % (self.p, i, self.p) for i in range(n)])
    def s_batch(self, n, w, x):
        p = self.p
        n = min(n, 400)
        self.head += [".SUFFIXES: .%ss" % p, ".%ss.%so::" % (p, p), "\tact %sb $<" % p, ""]
        for i in range(n): self.files["%s%d.%ss" % (p, i, p)] = ""
        self.batch.append((p + "b", ["%s%d.%ss" % (p, i, p) for i in range(n)]))
        return self.target(p + "bx", ["%s%d.%so" % (p, i, p) for i in range(n)])
    def s_goals(self, n, w, x):
        p = self.p + "g"
        for i in range(n): self.goals.append(self.target(p + str(i), []))
    def s_cfile(self, n, w, x):
        m = ["%sF%d" % (self.p, i) for i in range(n)]
        self.cfile.append((" " if w % 2 else "\n").join("%s=v%d" % (y, i) for i, y in enumerate(m)))
        self.head += ["!MESSAGE %s $(%s) $(%s)" % (self.p, m[0], m[-1])]
        self.msg.append("%s v0 v%d" % (self.p, n - 1))
    def s_msgs(self, n, w, x):
        self.head += ["!MESSAGE %s%d" % (self.p, i) for i in range(n)]
        self.msg += ["%s%d" % (self.p, i) for i in range(n)]

    def finish(self):
        if self.names or len(self.goals) < 2: self.target("all", self.names)
        else: self.goals = self.goals[1:]
        # "all" is first so that it is also the default
        return "\n".join(self.head + self.body) + "\n"

def judge(case, sim):
    b = B(case)
    mk_ = b.finish()
    ids = {}
    for t, l in b.cmds.items():
        for i, c in enumerate(l):
            if c.startswith("act "): ids[c.split()[1]] = (t, i)
    progs = {k: [["nop"]] * (hash_(k, case["hseed"]) % 3) for k in ids}
    for k, _ in b.batch: progs[k] = []
    bad = None
    if "fail" in case and ids:
        k = sorted(ids)[case["fail"] % len(ids)]
        bad = ids[k]
        progs[k] = [["exit", 1]]
    argv = ["/NOLOGO", "/S", "/J", str(case["j"])] + (["/K"] if case["K"] else [])
    files = {"Makefile": mk_}
    files.update(b.files)
    if b.cfile:
        argv.append("@args.txt")
        files["args.txt"] = "\n".join(b.cfile) + "\n"
    argv += b.goals
    total = sum(len(l) for l in b.cmds.values())
    enc = lambda t: {"b": __import__("base64").b64encode(b"\xff\xfe" + t.encode("utf-16-le")).decode()} if case["u"] else {"d": t}
    r = sim.run({"argv": argv, "files": [dict({"p": "C:/work/" + n}, **(enc(t) if n == "Makefile" else {"d": t})) for n, t in files.items()], "progs": progs, "schedule": case["sched"], "hseed": case["hseed"], "steps": 50000 + 100 * total})
    x = r.broken()
    if x:
        return x, {"broken"}, False
    tags = set("%s%d" % (s[0], len(str(s[1]))) for s in case["shapes"])
    big = any(s[1] >= 50 for s in case["shapes"])
    # who must not run
    blocked = set()
    if bad:
        users = {}
        for t, ds in b.deps.items():
            for d in ds: users.setdefault(d, []).append(t)
        todo = [bad[0]]
        while todo:
            for u in users.get(todo.pop(), []):
                if u not in blocked:
                    blocked.add(u)
                    todo.append(u)
    where = {}
    for t, l in b.cmds.items():
        for i, c in enumerate(l): where.setdefault(c, []).append((t, i))
    start, end, pids, got = {}, {}, {}, {k: [] for k, _ in b.batch}
    bfirst, blast = {}, {}
    # how many dependents of a target are not yet built, and which could be started
    left = {t: len(set(ds)) for t, ds in b.deps.items()}
    users = {}
    for t, ds in b.deps.items():
        for d in set(ds): users.setdefault(d, []).append(t)
    ready = {t for t, k in left.items() if not k and b.cmds[t]}
    acquiring = False
    model = not bad and len(b.goals) == 1 and all(b.cmds.values())
    cur = peak = 0
    for pos, e in enumerate(r.events):
        if e["e"] == "start":
            cur += 1
            peak = max(peak, cur)
            c = e["cmd"].rstrip()
            w = c.split()
            if len(w) > 1 and w[0] == "act" and w[1] in got:
                got[w[1]] += w[2:]
                pids[e["pid"]] = w[1]
                continue
            if c not in where: return "unexpected command %r" % c[:200], tags, False
            k = where[c][0]
            ready.discard(k[0])
            if k in start: return "%r is run twice" % c[:200], tags, False
            start[k] = pos
            pids[e["pid"]] = k
        elif e["e"] == "sem":
            if e["op"] in ("wait", "acq") and e["who"] == "jom": acquiring = e["op"] == "wait"
        elif e["e"] == "exit" and e["pid"] in pids:
            if e.get("q") and model and cur < case["j"] and ready and not acquiring: return "only %d of %d jobs are used although %s could be built" % (cur, case["j"], min(ready)), tags, False
            cur -= 1
            k = pids[e["pid"]]
            if not isinstance(k, str) and k[1] == len(b.cmds[k[0]]) - 1:
                for u in users.get(k[0], []):
                    left[u] -= 1
                    if not left[u]: ready.add(u)
            if isinstance(k, str): blast[k] = pos
            else: end[k] = pos
    if peak > case["j"]: return "%d commands at a time with /J%d" % (peak, case["j"]), tags, False
    full = not bad or case["K"]
    for t, l in b.cmds.items():
        for i in range(len(l)):
            k = (t, i)
            may = t not in blocked and not (bad and t == bad[0] and i > bad[1])
            if not may and k in start: return "%s is run, but %s failed" % (l[i][:200], b.cmds[bad[0]][bad[1]][:200]), tags, False
            if may and full and k not in start: return "%s is not run" % l[i][:200], tags, False
            if k in start:
                if k not in end: return "%s does not end" % l[i][:200], tags, False
                if i and not ((t, i - 1) in end and end[(t, i - 1)] < start[k]): return "%s starts before the previous command ends" % l[i][:200], tags, False
        if l and (t, 0) in start:
            for d in b.deps[t]:
                if b.cmds.get(d) and not end.get((d, len(b.cmds[d]) - 1), 1 << 40) < start[(t, 0)]: return "%s starts before its dependent %s is finished" % (t, d), tags, False
    for k, l in b.batch:
        if sorted(set(got[k])) != sorted(got[k]) or set(got[k]) - set(l) or (full and sorted(got[k]) != sorted(l)): return "sources of batch commands: %d, %d different, %d expected" % (len(got[k]), len(set(got[k])), len(l)), tags, False
        if (k + "x", 0) in start and not blast.get(k, 1 << 40) < start[(k + "x", 0)]: return "%sx starts before the batch commands are finished" % k, tags, False
    code = (1 if case["K"] else 2) if bad and bad in start else 0
    if bad and not case["K"] and bad not in start: return "the failing command is not run", tags, False
    if r.code != code: return "exit status %s, expected %d: %s" % (r.code, code, r.etext()[-300:]), tags, False
    out = r.text().replace("\r", "")
    for t in b.out:
        if full and out.count(t) != 1: return "output of %d bytes is missing" % len(t), tags, False
    lines = [x.rstrip() for x in out.split("\n")]
    if lines[:len(b.msg)] != [x.rstrip() for x in b.msg]:
        for x, y in zip(lines, b.msg):
            if x != y.rstrip(): break
        return "message of %d characters %r.., expected %d characters %r.." % (len(x), x[:100], len(y), y[:100]), tags, False
    return None, tags, big

def hash_(k, s):
    for c in k: s = (s * 31 + ord(c)) & 0xffffff
    return s >> 4
