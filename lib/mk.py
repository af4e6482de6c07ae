"""Dependency-graph makefiles: generator, renderer and reference model.

The model is written from nmake's and jom's documented behaviour, works on the abstract
makefile (never on its text) and shares no code with jom."""
from hypothesis import strategies as st
WORK = "C:\\work"

# ------------------------------------------------------------------ small drawing helpers
def chance(draw, num, den):
    return draw(st.integers(0, den - 1)) < num
def pick(draw, seq):
    return seq[draw(st.integers(0, len(seq) - 1))]
def ints(draw, lo, hi):
    return draw(st.integers(lo, hi))
def schedule(draw, size=64):
    return list(draw(st.binary(max_size=size)))

# ------------------------------------------------------------------ names
def key(name):
    return name.lower().replace("/", "\\")
def absname(name):
    n = name.replace("/", "\\")
    if len(n) > 1 and n[1] == ":":
        return n
    return WORK + "\\" + n
def vfs(name):
    """path used in scenario files"""
    parts = []
    for x in absname(name).replace("\\", "/").split("/"):
        if x == "..":
            parts.pop()
        elif x not in (".", ""):
            parts.append(x)
    return "/".join(parts)

STYLES = ["t%d", "T%d.Obj", "sub\\t%d.o", "sub/u%d.o", "with sp %d.x", "C:\\work\\abs%d.x", "t%d.c.o", "a+b-%d_.x", "..\\work\\up%d.z"]
LEAFSTYLES = ["s%d.c", "Src%d.cpp", "sub\\h%d.h", "le af %d.txt", "sub/i%d.inc", "C:\\work\\sub\\l%d.h"]

def respell(draw, name):
    """another spelling of the same name"""
    k = ints(draw, 0, 9)
    if k == 1:
        name = name.swapcase()
    elif k == 2:
        name = name.replace("\\", "/")
    elif k == 3:
        name = name.upper()
    elif k == 4:
        name = name.lower().replace("/", "\\")
    quoted = " " in name or k == 5
    return name, quoted

def q(name, quoted):
    return '"%s"' % name if quoted or " " in name else name

# ------------------------------------------------------------------ generator
def graph(draw, maxt=8, fails=0, multigoal=True, spell=True, leaves=True, outputs=False, cmdmax=3, pseudo=True,
          alla=True, allwrite=False, fresh=(2, 3), exist=(1, 2)):
    """abstract makefile; target i depends on targets with a larger index and on leaves"""
    n = pick(draw, [k for k in range(1, maxt + 1) for _ in range(1 if k < 3 else 2)])
    simple = not spell or chance(draw, 1, 3)
    T, L = [], []
    mostly = chance(draw, *fresh)     # mostly up to date
    nl = ints(draw, 0, 4) if leaves else 0
    for i in range(nl):
        name = ("s%d.c" if simple else pick(draw, LEAFSTYLES)) % i
        L.append({"n": name, "t": -ints(draw, 10 if mostly and not chance(draw, 1, 8) else 1, 20)})
    for i in range(n):
        name = ("t%d" if simple else pick(draw, STYLES)) % i
        t = {"n": name, "cmds": [], "deps": [], "ds": [], "t": None, "split": 0, "colon": 1}
        kind = ints(draw, 0, 9)
        if kind >= (3 if pseudo else 0):
            t["w"] = 1            # commands create or update the target
        else:
            t["w"] = 0
        if mostly:
            if chance(draw, 4, 5):
                t["t"] = -(i + 1) if chance(draw, 7, 8) else -ints(draw, 1, 20)
        elif chance(draw, *exist):
            t["t"] = -ints(draw, 1, 20)
        if allwrite:
            t["w"] = 1
        nc = ints(draw, 0, cmdmax + 1)
        nc = 1 if nc == cmdmax + 1 else nc
        if allwrite and nc == 0:
            nc = 1
        for k in range(nc):
            c = {"id": "c%d%s" % (i, "abcdefgh"[k]), "nops": ints(draw, 0, 2), "code": 0}
            if fails and chance(draw, fails, 20):
                c["code"] = pick(draw, [1, 2, 255, 256, 65535, 0x7fffffff, 3, 7, 0xc0000005, 0xf291, 259, 0xffffffff])
            if outputs:
                c["o"] = ints(draw, 0, 3)
            t["cmds"].append(c)
        T.append(t)
    parent = {}
    if chance(draw, 2, 3):          # make most targets reachable from the first one
        for j in range(1, n):
            if chance(draw, 5, 6):
                parent.setdefault(ints(draw, 0, j - 1) if chance(draw, 1, 2) else 0, []).append(j)
    for i in range(n):
        t = T[i]
        cand = list(range(i + 1, n)) + [n + k for k in range(nl)]
        if cand:
            m = pick(draw, [x for x in (0, 1, 2, 1, 2, 3, 2, 3, 4) if x <= len(cand) + 1])
            deps = list(parent.get(i, ()))
            for _ in range(m if not parent else min(m, 2)):
                d = pick(draw, cand)
                if d in deps and not chance(draw, 1, 4):
                    continue
                deps.append(d)
            t["deps"] = deps
            for d in deps:
                nm = T[d]["n"] if d < n else L[d - n]["n"]
                if d < n and len(nm) > 1 and nm[1] == ":" and spell and chance(draw, 1, 3):
                    nm = nm[len(WORK) + 1:]   # relative spelling of an absolute target
                if simple:
                    t["ds"].append([nm, False])
                else:
                    t["ds"].append(list(respell(draw, nm)))
            if len(deps) > 1 and chance(draw, 1, 4):
                t["split"] = ints(draw, 1, len(deps) - 1)
        if chance(draw, 1, 6):
            t["colon"] = 2
    order = list(range(n))
    if chance(draw, 1, 2):
        order = draw(st.permutations(order))
    goals = []
    g = ints(draw, 0, 5)
    if g == 0:
        goals = []
    elif g <= 3 or not multigoal:
        goals = [0]
    else:
        for _ in range(ints(draw, 1, 3)):
            x = ints(draw, 0, n - 1)
            if x not in goals:
                goals.append(x)
    c = {"T": T, "L": L, "order": order, "goals": goals, "j": pick(draw, [1, 2, 3, 4, 2, 8]),
         "A": alla and chance(draw, 1, 8), "hseed": ints(draw, 0, 3), "sched": schedule(draw)}
    return c

def goal_arg(case, i):
    return case["T"][i]["n"].replace("/", "\\")

# ------------------------------------------------------------------ rendering
def steps(case, i, k):
    t = case["T"][i]
    c = t["cmds"][k]
    s = []
    for x in range(c.get("o", 0)):
        s.append(["err" if x == 2 else "out", "%s.%d\n" % (c["id"], x)])
    s += [["nop"]] * c["nops"]
    if t["w"] and k == len(t["cmds"]) - 1 and not fatal(c):
        s.append(["touch", absname(t["n"])])
    if c.get("code"):
        s.append(["exit", c["code"]])
    return s

def cmd_text(c):
    return c.get("text") or (c.get("mods", "") + "act " + c["id"])

def seen_code(code):
    """the exit code jom works with: crashes count as 2"""
    return 2 if code >= 2 ** 31 or code == 0xf291 else code
def tolerance(mods, base=0):
    """largest tolerated exit code of a command with these modifiers"""
    i = 0
    while i < len(mods):
        if mods[i] == "-":
            while i < len(mods) and mods[i] == "-":
                i += 1
            j = i
            while j < len(mods) and mods[j].isdigit():
                j += 1
            base = int(mods[i:j]) if j > i else 2 ** 32 - 1
            i = j
        else:
            i += 1
    return base
def fatal(c, base=0):
    """does this command fail its target?"""
    return seen_code(c.get("code", 0)) > tolerance(c.get("mods", ""), c.get("base", base))
def failing_targets(case):
    return {i for i, t in enumerate(case["T"]) if any(fatal(c) for c in t["cmds"])}
def add_modifiers(draw, case, num=1, den=3):
    for t in case["T"]:
        for c in t["cmds"]:
            if c["code"] or chance(draw, 1, 8):
                m = ""
                if chance(draw, num, den):
                    m += pick(draw, ["-", "-1", "-2", "-3", "-255", "-256", "--7", "-65535"])
                if chance(draw, 1, 6):
                    m = "@" + m if chance(draw, 1, 2) else m + "@"
                c["mods"] = m

def render(case, header="", silent_ids=()):
    out = [header] if header else []
    T = case["T"]
    for i in case["order"]:
        t = T[i]
        name = q(t["n"], False)
        colon = " " + ":" * t["colon"]
        ds = [q(*d) for d in t["ds"]]
        cut = t["split"]
        body = ["\t" + cmd_text(c) for c in t["cmds"]]
        if cut:
            out.append(name + colon + " " + " ".join(ds[:cut]))
            if t["colon"] == 1:
                out.append("")
                out.append(name + colon + " " + " ".join(ds[cut:]))
                out += body
            else:
                h = len(body) // 2
                out += body[:h]
                out.append("")
                out.append(name + colon + " " + " ".join(ds[cut:]))
                out += body[h:]
        else:
            out.append(name + colon + " " + " ".join(ds))
            out += body
        out.append("")
    return "\n".join(out) + "\n"

def files(case):
    f = []
    for t in case["T"]:
        if t["t"] is not None:
            f.append({"p": vfs(t["n"]), "d": "old", "t": t["t"]})
    for l in case["L"]:
        f.append({"p": vfs(l["n"]), "d": "leaf", "t": l["t"]})
    return f

def scenario(case, header="", args=(), **kw):
    progs = {}
    for i, t in enumerate(case["T"]):
        for k, c in enumerate(t["cmds"]):
            progs[c["id"]] = c["steps"] if "steps" in c else steps(case, i, k)
    argv = ["/NOLOGO", "/J", str(case["j"])] + (["/A"] if case.get("A") else []) + list(args)
    argv += [goal_arg(case, g) for g in case["goals"]]
    s = {"argv": argv, "dirs": ["C:/work/sub"], "progs": progs, "schedule": case["sched"], "hseed": case["hseed"],
         "files": [{"p": "C:/work/Makefile", "d": render(case, header)}] + files(case)}
    if case.get("mf"):
        s["argv"][1:1] = ["/F", case["mf"]]
        s["files"][0]["p"] = vfs(case["mf"])
    s.update(kw)
    return s

def elsewhere(draw):
    """a makefile that is not in the working directory; names stay relative to the latter"""
    return pick(draw, ["sub\\build.mk", "..\\build.mk", "C:\\build.mk", "sub/../build.mk"]) if chance(draw, 1, 8) else None

# ------------------------------------------------------------------ reference model
class Ref:
    """Which targets a run executes, by the documented rules."""
    NOW = 10 ** 9
    def __init__(self, case):
        self.c = case
        T = case["T"]
        self.byname = {}
        for i, t in enumerate(T):
            self.byname[key(t["n"])] = i
        self.file = {}
        for f in files(case):
            self.file[f["p"].lower()] = f["t"]
        self.clock = 0
        self.cache = {}
    def norm(self, name):
        return vfs(name).lower()
    def stat(self, name):
        """time or None; positive answers are remembered per spelling"""
        if name in self.cache:
            return self.cache[name]
        r = self.file.get(self.norm(name))
        if r is not None:
            self.cache[name] = r
        return r
    def lookup(self, name):
        return self.byname.get(key(name))
    def edge(self, name):
        r = self.lookup(name)
        if r is None:
            r = self.byname.get(key(WORK + "\\" + name))
        return r
    def deps(self, i):
        """dependent names as the makefile has them after parsing"""
        return [d[0].replace("/", "\\") for d in self.c["T"][i]["ds"]]
    def children(self, i):
        r = []
        for d in self.deps(i):
            e = self.edge(d)
            if e is not None and e not in r:
                r.append(e)
        return r
    def reach(self, g):
        seen = []
        def rec(i):
            if i in seen:
                return
            for ch in self.children(i):
                rec(ch)
            seen.append(i)
        rec(g)
        return seen     # dependents first
    def missing(self, g):
        r = []
        for i in self.reach(g):
            for d in self.deps(i):
                if self.edge(d) is None and self.file.get(self.norm(d)) is None:
                    r.append(d)
        return r
    def uptodate(self, i):
        t = self.c["T"][i]
        tm = self.stat(t["n"].replace("/", "\\"))
        self.exists[i] = tm is not None
        if tm is not None:
            self.ts[i] = tm
        ds = self.deps(i)
        if not ds:
            up = self.exists[i]
        else:
            latest = None
            for d in ds:
                e = self.edge(d)
                x = None
                if e is not None:
                    x = self.ts.get(e)
                    if not self.exists.get(e) and self.c["T"][e]["cmds"]:
                        latest = self.NOW
                        break
                if x is None:
                    x = self.stat(d)
                if x is None:
                    latest = self.NOW
                    break
                if latest is None or x > latest:
                    latest = x
            if not self.exists[i]:
                self.ts[i] = latest
            up = self.exists[i] and latest <= self.ts[i]
        if not up and self.exists[i]:
            self.ts[i] = None
        return up
    def run(self, fail=None):
        """list of executed targets (one entry per execution); with fail: set of targets whose
        commands fail under /K; returns (executed, skipped)"""
        executed, skipped = [], []
        self.roots = []
        goals = self.c["goals"] or [self.c["order"][0]]
        for g in goals:
            self.ts, self.exists, self.cache = {}, {}, {}
            bad = set()
            self.roots.append([])
            for i in self.reach(g):
                t = self.c["T"][i]
                up = self.uptodate(i) if not self.c.get("A") else False
                if any(ch in bad for ch in self.children(i)):
                    bad.add(i)
                if up and i not in bad:
                    continue
                if not t["cmds"]:
                    continue
                if i in bad:
                    if not up:
                        skipped.append(i)
                    continue
                executed.append(i)
                self.roots[-1].append(i)
                self.cache.pop(t["n"].replace("/", "\\"), None)
                if fail and i in fail:
                    bad.add(i)
                elif t["w"]:
                    self.clock += 1
                    self.file[self.norm(t["n"])] = self.clock
                if self.c.get("side", [None])[0] == i:
                    self.clock += 1
                    self.file[self.norm(self.c["side"][1])] = self.clock
        return executed, skipped

    def run_by_root(self):
        self.run()
        return self.roots

def descendants(case):
    """for each target the set of targets it transitively depends on"""
    r = Ref(case)
    memo = {}
    def rec(i):
        if i not in memo:
            s = set()
            for ch in r.children(i):
                s.add(ch)
                s |= rec(ch)
            memo[i] = s
        return memo[i]
    return [rec(i) for i in range(len(case["T"]))]

# ------------------------------------------------------------------ observing a run
class Obs:
    """timeline of a run: which command of which target started and ended when"""
    def __init__(self, case, rep):
        self.ids = {}
        for i, t in enumerate(case["T"]):
            for k, c in enumerate(t["cmds"]):
                self.ids[c["id"]] = (i, k)
        self.pid = {}
        self.tl = []           # (pos, 'start'|'exit', target, k, code)
        self.unknown = []
        for pos, e in enumerate(rep.events):
            if e["e"] == "start":
                w = e["cmd"].split()
                x = self.ids.get(w[1]) if len(w) == 2 and w[0] == "act" else None
                if x is None:
                    self.unknown.append(e["cmd"])
                    continue
                self.pid[e["pid"]] = x
                self.tl.append((pos, "start", x[0], x[1], None))
            elif e["e"] == "exit" and e["pid"] in self.pid:
                x = self.pid[e["pid"]]
                self.tl.append((pos, "exit", x[0], x[1], e["code"]))
    def starts(self):
        return [(i, k) for _, w, i, k, _ in self.tl if w == "start"]
    def executions(self, case):
        """sequence of target executions (by their first command) and a complaint if command order is broken"""
        cur = {}
        ex = []
        for pos, w, i, k, code in self.tl:
            if w == "start":
                if i in cur and cur[i][1] == "running":
                    return ex, "command %d of %s started while another of its commands was running" % (k, case["T"][i]["n"])
                want = cur[i][0] if i in cur else 0
                if k != want:
                    return ex, "command %d of %s started, expected command %d" % (k, case["T"][i]["n"], want)
                if k == 0:
                    ex.append(i)
                cur[i] = (k, "running")
            else:
                nxt = k + 1
                c = case["T"][i]["cmds"][k]
                if nxt == len(case["T"][i]["cmds"]) or seen_code(code) > tolerance(c.get("mods", ""), c.get("base", 0)):
                    cur.pop(i)
                else:
                    cur[i] = (nxt, "idle")
        return ex, None
    def maxpar(self):
        m = n = 0
        for _, w, *_ in self.tl:
            n += 1 if w == "start" else -1
            m = max(m, n)
        return m
