import base64, copy, re, mk, C14
FLAVOUR = "plain"
RULE = ("random graph with commands of every kind (processes with output, shell commands, inline files, ! commands, rules, .SYNC, failures with /K), run under two "
        "different job counts, completion orders and hash orders, once possibly with processes running on their own; non-trivial: at least three targets are built and "
        "in one run two processes were running at the same time")
QUICK, THOROUGH = 11000, 500000

def config(draw):
    return {"j": mk.pick(draw, [1, 2, 3, 4, 8]), "sched": mk.schedule(draw, 60), "hseed": mk.ints(draw, 0, 20), "race": mk.chance(draw, 1, 4)}
def case(draw):
    c = mk.graph(draw, maxt=8, allwrite=True, cmdmax=2, outputs=True, fails=1 if mk.chance(draw, 1, 3) else 0, exist=(1, 3), fresh=(1, 3))
    n = 0
    for t in c["T"]:
        cs = []
        for x in t["cmds"]:
            while mk.chance(draw, 1, 4):
                e = mk.pick(draw, [e for e in C14.EXTRA if not e.startswith("set")])
                if "%s" in e: e = e.replace("%s", mk.pick(draw, ["", "KEEP", "NOKEEP"]))
                if "%d" in e: e = e % n
                n += 1
                cs.append({"id": "", "text": "-" + e.replace("%%", "%"), "nops": 0, "code": 0, "sil": mk.chance(draw, 1, 3)})
            x["sil"] = mk.chance(draw, 1, 4)
            cs.append(x)
        t["cmds"] = cs
    for t in c["T"]:
        if len(t["ds"]) > 1 and mk.chance(draw, 1, 4):
            t["ds"].insert(mk.ints(draw, 1, len(t["ds"]) - 1), [".SYNC", False])
            if t["split"]: t["split"] = 0
    c["rules"] = [[None if mk.chance(draw, 1, 2) else -mk.ints(draw, 1, 9), -mk.ints(draw, 1, 9), mk.ints(draw, 0, len(c["T"]) - 1)] for _ in range(mk.ints(draw, 0, 3))]
    c["batch"], c["SILENT"] = False, mk.chance(draw, 1, 10)
    c["K"] = any(x["code"] for t in c["T"] for x in t["cmds"])
    c["cfg"] = [config(draw), config(draw)]
    return c

def judge(case, sim):
    s = C14.build(case, True)
    mf = s["files"][0]["d"]
    s["files"][0] = {"p": "C:/work/Makefile", "d": mf.replace("\tact rule $<\n", "\ttouch $@\n")}
    rest = s["argv"][3:]
    obs = []
    par = []
    for cfg in case["cfg"]:
        x = copy.deepcopy(s)
        x["argv"] = ["/NOLOGO", "/J", str(cfg["j"])] + (["/K"] if case["K"] else []) + rest
        x["schedule"], x["hseed"], x["race"] = cfg["sched"], cfg["hseed"], cfg["race"]
        r = sim.run(x)
        b = r.broken()
        if b:
            return b, {"broken"}, False
        nm = lambda v: re.sub(r"\.4242\.\d+\.jom", ".4242.N.jom", v)
        n = m = 0
        for e in r.events:
            if e["e"] == "start": n += 1; m = max(m, n)
            elif e["e"] == "exit": n -= 1
        par.append(m)
        fs = sorted(nm(k).lower() + ":" + base64.b64decode(v[1]).decode("latin1") for k, v in r.fs.items())
        built = {e["cmd"] for e in r.starts() if re.match(r"act c\d", e["cmd"])}
        obs.append([("exit status", r.code), ("commands", sorted(nm(e["cmd"]) for e in r.starts())), ("output lines", sorted(nm(r.text()).splitlines())),
                    ("error lines", sorted(nm(r.etext()).splitlines())), ("files", fs)])
    for (w, a), (_, b) in zip(*obs):
        if a != b:
            if isinstance(a, list):
                from collections import Counter
                x, y = Counter(a), Counter(b)
                a, b = list((x - y).elements()), list((y - x).elements())
            return "%s differ: %r under %s, %r under %s" % (w, a, brief(case["cfg"][0]), b, brief(case["cfg"][1])), set(), False
    nb = len({x.split()[1][:2] for x in obs[0][1][1] if re.match(r"act c\d", x)})
    tags = {"K" if case["K"] else "ok", "par%d" % max(par)}
    return None, tags, nb >= 3 and max(par) >= 2
def brief(c): return "/J %d, hash %d%s" % (c["j"], c["hseed"], ", race" if c["race"] else "")
