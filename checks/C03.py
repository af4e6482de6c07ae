import mk
FLAVOUR = "plain"
RULE = ("random acyclic graph, 1..8 jobs, random completion order, failing commands with every kind of exit code and tolerance, /K, /I, other "
        "clients of the job server, delayed process notifications; non-trivial: at least two targets were executed and either a command "
        "failed or two processes ran at the same time")
QUICK, THOROUGH = 22000, 900000

def case(draw):
    c = mk.graph(draw, maxt=8, fails=mk.pick(draw, [0, 2, 5, 9]), fresh=(1, 6), exist=(1, 4), outputs=True)
    mk.add_modifiers(draw, c)
    for t in c["T"]:
        for x in t["cmds"]:
            k = mk.ints(draw, 0, 24)
            if k == 1: x["text"] = x.get("mods", "") + "act %s >nul" % x["id"]
            elif k == 2: x["text"] = x.get("mods", "") + "act %s && echo x" % x["id"]
            elif k == 3: x["code"] = mk.pick(draw, [259, 0xc0000005, 0xffffffff, 0x80000000, 0xf291, 0x7fffffff, 260, 258])
    c["opt"] = mk.pick(draw, [[], [], ["/K"], ["/K"], ["/I"], ["/I", "/K"]])
    c["race"] = mk.chance(draw, 1, 4)
    c["clients"] = [[["acq", "$SRV"], ["nop"], ["rel", "$SRV"]] for _ in range(mk.ints(draw, 0, 2))] if mk.chance(draw, 1, 5) else []
    return c

def judge(case, sim):
    if case["clients"]:
        r = sim.run(mk.scenario(case, args=case["opt"], race=case["race"], sems={"srv": case["j"] - 1},
                                clients=[[[s[0]] + [("srv" if x == "$SRV" else x) for x in s[1:]] for s in cl] for cl in case["clients"]],
                                env={"_JOMSRVKEY_": "srv", "_JOMJOBCOUNT_": str(case["j"])}))
    else:
        r = sim.run(mk.scenario(case, args=case["opt"], race=case["race"]))
    b = r.broken()
    if b:
        return b, {"broken"}, False
    ids = {c["id"]: c for t in case["T"] for c in t["cmds"]}
    failed, runs, running, par = [], set(), 0, False
    pid = {}
    for e in r.events:
        if e["e"] == "start":
            running += 1
            par |= running > 1
            c = next((w for w in e["cmd"].split() if w in ids), None)
            if c is None:
                return "unexpected command %r" % e["cmd"], set(), False
            pid[e["pid"]] = c
            runs.add(c)
        elif e["e"] == "exit" and e["pid"] in pid:
            running -= 1
            base = 2 ** 32 - 1 if "/I" in case["opt"] else 0
            if mk.seen_code(e["code"]) > mk.tolerance(ids[pid[e["pid"]]].get("mods", ""), base):
                failed.append(pid[e["pid"]])
    if r.running or running:
        return "jom ended while processes it started were running: %s" % r.running, set(), False
    kk = "/K" in case["opt"] and "/I" not in case["opt"]
    want = 0 if not failed else 1 if kk else 2
    if r.code != want:
        return "exit status %s, expected %s (failed commands %s, options %s)" % (r.code, want, failed, case["opt"]), set(), False
    tags = {"exit%d" % want} | set(case["opt"])
    if par: tags.add("parallel")
    if case["race"]: tags.add("race")
    if case["clients"]: tags.add("clients")
    return None, tags, len(runs) > 1 and bool(failed or par)
