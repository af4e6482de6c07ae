import base64, re, mk, inl
FLAVOUR = "plain"
RULE = ("1..5 targets (some by rules, some depending on others) with inline files of every kind, bystander files with similar names, failing commands, /K, "
        "names that cannot be created, a later goal with a missing dependent, 1..4 jobs, interruption by Ctrl-C at a random scheduling point; non-trivial: at least one file with and one "
        "without KEEP were written")
QUICK, THOROUGH = 14000, 700000

def case(draw):
    n = mk.ints(draw, 1, 5)
    T = [inl.target(draw, i, 3) for i in range(n)]
    for i, t in enumerate(T):
        if t["kind"] != "rule":
            t["deps"] = [T[d]["n"] for d in range(i + 1, n) if mk.chance(draw, 1, 4)]
        for c in t["cmds"]:
            for f in c["in"]:
                f["lines"] = f["lines"][:2]
                f["opt"] = mk.pick(draw, ["", "KEEP", "KEEP", "NOKEEP", "KEEP UNICODE", "UNICODE"])
    end = mk.pick(draw, ["ok", "ok", "fail", "fail", "k", "ctrlc", "ctrlc", "bad", "missing"])
    c = {"T": T, "j": mk.ints(draw, 1, 4), "sched": mk.schedule(draw, 40), "end": end,
         "pre": sorted({(mk.ints(draw, 0, n - 1), mk.ints(draw, 0, 40)) for _ in range(mk.ints(draw, 0, 6))})}
    if end in ("bad", "missing"): c["k"] = mk.chance(draw, 1, 2)
    if end in ("fail", "k", "bad", "missing"):
        for t in T:
            for x in t["cmds"]:
                if mk.chance(draw, 1, 5 if end not in ("bad", "missing") else 8): x["code"] = mk.pick(draw, [1, 2, 255])
    if end == "ctrlc": c["at"] = mk.ints(draw, 1, 30)
    if end == "bad":
        fs = [f for t in T for x in t["cmds"] if not x.get("bare") for f in x["in"]]
        if fs:
            f = mk.pick(draw, fs)
            f["name"], f["q"] = "nodir\\x%d.rsp" % mk.ints(draw, 0, 9), False
    return c

def judge(case, sim):
    T = case["T"]
    text, files = inl.render(T)
    progs = {c["id"]: [["nop"]] * c["nops"] + ([["exit", c["code"]]] if c["code"] else []) for t in T for c in t["cmds"]}
    progs.update({c["id"] + "_": [["nop"]] for t in T for c in t["cmds"] if c.get("bare")})
    pre = ["C:/temp/%s.4242.%d.jom" % (T[i]["n"].split("\\")[-1], k) for i, k in case["pre"]]
    sc = {"argv": ["/NOLOGO", "/J", str(case["j"])] + (["/K"] if case["end"] == "k" or case.get("k") else []) + ["all"] + (["later"] if case["end"] == "missing" else []), "dirs": inl.DIRS, "schedule": case["sched"],
          "progs": progs, "files": [{"p": "C:/work/Makefile", "d": text}] + files + [{"p": p, "d": "mine"} for p in pre]}
    if case["end"] == "missing": sc["files"][0]["d"] += "\nlater: nosuchfile\n\tact never\n"
    if case["end"] == "ctrlc": sc["ctrlc"] = case["at"]
    r = sim.run(sc)
    b = r.broken()
    if b:
        return b, {"broken"}, False
    interrupted = any(e["e"] == "ctrlc" for e in r.events)
    owner = {}      # path -> list of (target, command, inline file, content, start position)
    tpos = {}       # target -> position of its last start or exit
    pid = {}
    failed = False
    for pos, e in enumerate(r.events):
        if e["e"] == "start":
            w = e["cmd"].replace('/C "act', "/C act").split()
            if w[0].endswith("_.exe"): w = ["act", w[0][:-5]]
            if "act" not in w: return "unexpected command %r" % e["cmd"], set(), False
            cid = w[w.index("act") + 1]
            i, k = (int(x) for x in cid[1:].split("_"))
            t, c = T[i], T[i]["cmds"][k]
            pid[e["pid"]] = (i, k)
            tpos[i] = pos
            cmd = e["cmd"]
            for deps in inl.instances(t, c):
                pats = inl.patterns(t, c, deps)
                rx = " ".join(([] if c.get("bare") else ["act " + cid]) + [p for p, _, _ in pats]) + (" > nul" if c["sh"] else "")
                m = re.search(rx, cmd)
                if m:
                    for g, (p, f, fixed) in enumerate(pats):
                        path = inl.path(c, m.group(g + 1)).lower()
                        owner.setdefault(path, []).append((i, k, f, {inl.content(t, f, d) for d in inl.instances(t, c)}))
                    break
            else:
                return "started %r, expected %r" % (cmd, rx), set(), False
        elif e["e"] == "exit" and e["pid"] in pid:
            tpos[pid[e["pid"]][0]] = pos
            i, k = pid[e["pid"]]
            failed |= e["code"] != 0
    made = []
    for pos, e in enumerate(r.events):
        if e["e"] in ("create", "trunc") and e["who"] == "jom": made.append(e["p"].lower())
        if e["e"] == "remove" and e["who"] == "jom":
            o = owner.get(e["p"].lower())
            if not o and e["p"].lower() not in made:
                return "jom removed %s, which is not one of its inline files" % e["p"], set(), False
            if o and any("KEEP" in x[2]["opt"] and "NOKEEP" not in x[2]["opt"] for x in o):
                return "jom removed %s, which has KEEP" % e["p"], set(), False
            if o and not interrupted and pos < max(tpos[x[0]] for x in o):
                return "jom removed %s while target %s is still being built" % (e["p"], T[o[0][0]]["n"]), set(), False
    for p in made:
        if p not in owner and not any(f["name"] and inl.path(c, inl.expand(t, f["name"], [])).lower() == p for t in T for c in t["cmds"] for f in c["in"]) \
                and not re.fullmatch(r"c:/temp/.*\.4242\.\d+\.jom", p):
            return "jom wrote %s" % p, set(), False
    for p in pre:
        x = r.file(p)
        if x is None or x[1] != b"mine":
            return "%s, which existed before, was %s" % (p, "removed" if x is None else "overwritten"), set(), False
    kept = nokept = 0
    for p, o in owner.items():
        x = r.file(p)
        if "KEEP" in o[-1][2]["opt"] and "NOKEEP" not in o[-1][2]["opt"]:
            if x is None: return "inline file %s has KEEP and is not there after the end of jom" % p, set(), False
            if x[1] not in o[-1][3]: return "inline file %s has KEEP and contains %r at the end" % (p, x[1][:200]), set(), False
            kept += 1
        else:
            if x is not None: return "inline file %s has no KEEP and is left behind" % p, set(), False
            nokept += 1
    prel = {p.lower() for p in pre}
    for p in r.fs:      # whatever else is left
        q = p.lower()
        if q in owner or q in prel: continue
        if re.fullmatch(r"c:/temp/.*\.jom", q):
            i = next((i for i, t in enumerate(T) if q.startswith("c:/temp/" + t["n"].split("\\")[-1].lower() + ".4242")), None)
            if i is None or not any("KEEP" in f["opt"].replace("NOKEEP", "") for c in T[i]["cmds"] for f in c["in"]):
                return "file %s is left behind" % p, set(), False
        for t in T:
            for c in t["cmds"]:
                for f in c["in"]:
                    if f["name"] and "KEEP" not in f["opt"].replace("NOKEEP", "") and inl.path(c, inl.expand(t, f["name"], [])).lower() == q:
                        return "inline file %s has no KEEP and is left behind" % p, set(), False
    if not interrupted:
        bad = case["end"] == "bad" and any(f["name"] and f["name"].startswith("nodir") and inl.instances(t, c) for t in T for c in t["cmds"] for f in c["in"])
        want = 2 if case["end"] == "missing" else 0 if not failed and not bad else 1 if case["end"] == "k" or case.get("k") else 2
        if r.code != want:
            return "exit status %s, expected %d; stderr %r" % (r.code, want, r.etext()[-200:]), set(), False
    tags = {case["end"] + ("!" if interrupted else "")}
    return None, tags, bool(kept and nokept)
