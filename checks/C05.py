import mk
FLAVOUR = "plain"
RULE = ("jom started with the job server variables of a parent, with or without /J (command line or MAKEFLAGS) equal to or different from the "
        "inherited number, invalid or missing counts, other clients taking and returning tokens, failing commands; non-trivial: the run shares "
        "the server and waits for a token that another client holds, or it creates a server of its own")
QUICK, THOROUGH = 20000, 800000

def case(draw):
    c = mk.graph(draw, maxt=8, fails=mk.pick(draw, [0, 0, 4]), fresh=(1, 10), exist=(1, 6), alla=False, pseudo=False, spell=False)
    c["inh"] = mk.pick(draw, [1, 2, 2, 3, 4, 8])
    c["j"] = mk.pick(draw, [None, None, c["inh"], c["inh"], 1, 2, 3, 4, 8])
    c["count"] = mk.pick(draw, [None] * 8 + ["", "0", "-3", "x", None])       # None: the proper text
    c["src"] = mk.pick(draw, ["cmd", "cmd2", "MAKEFLAGS"])
    c["K"] = mk.chance(draw, 1, 3)
    c["logo"] = mk.chance(draw, 1, 2)
    c["np"] = mk.chance(draw, 1, 6)
    c["clients"] = []
    for _ in range(mk.ints(draw, 0, 3)):
        st = []
        for _ in range(mk.ints(draw, 1, 3)):
            st += [["nop"]] * mk.ints(draw, 0, 3) + [["acq", "srv"]] + [["nop"]] * mk.ints(draw, 0, 6) + [["rel", "srv"]]
        c["clients"].append(st)
    return c

def judge(case, sim):
    j, inh = case["j"], case["inh"]
    env = {"_JOMSRVKEY_": "srv", "_JOMJOBCOUNT_": str(inh) if case["count"] is None else case["count"]}
    argv = []
    if j is not None:
        if case["src"] == "cmd": argv = ["/J", str(j)]
        elif case["src"] == "cmd2": argv = ["-j", str(j)]
        else: env["MAKEFLAGS"] = "J%d" % j
    if not case["logo"]: argv.append("/NOLOGO")
    if case["K"]: argv.append("/K")
    argv += [mk.goal_arg(case, g) for g in case["goals"]]
    c2 = dict(case, j=1)
    np = case.get("np")
    s = mk.scenario(c2, header=".NOTPARALLEL:\n" if np else "", sems={"srv": inh - 1}, clients=case["clients"], env=env, envnames=["_JOMSRVKEY_", "_JOMJOBCOUNT_"])
    s["argv"] = argv
    r = sim.run(s)
    b = r.broken()
    if b:
        return b, {"broken"}, False
    # the number jom believes to have inherited; without a proper count it is its own number of jobs
    believed = inh if case["count"] is None else (j or 4)
    own = j is not None and j != believed
    n = j if own else inh
    msg = "jom: Overriding inherited number of jobs %d with %d. New jobserver created." % (believed, j or 0)
    if (msg in r.etext()) != own:
        return "message about a new job server %s, stderr %r" % ("missing" if own else "not expected", r.etext()), set(), False
    if "empower your cores" in r.etext():
        return "a sub-jom shows the logo", set(), False
    o = mk.Obs(case, r)
    if o.unknown:
        return "unexpected command started: %r" % o.unknown[0], set(), False
    key, held, cheld, acquiring, waited = "srv", 0, 0, False, False
    running = {}
    for e in r.events:
        if e["e"] == "sem":
            if e["op"] == "open":
                if e["key"] != "srv":
                    if not own:
                        return "a new job server was created", set(), False
                    if not e["existed"] and e["val"] != n - 1:
                        return "new job server has %s tokens for %s jobs" % (e["val"], n), set(), False
                    key = e["key"]
                continue
            if e["who"] == "jom":
                if e["key"] != key:
                    return "tokens of the wrong job server are used", set(), False
                if e["op"] == "wait":
                    acquiring = True
                    waited |= e["val"] == 0
                elif e["op"] == "acq":
                    acquiring = False
                    held += 1
                elif e["op"] == "rel": held -= e["n"]
            elif e["op"] == "acq": cheld += 1
            elif e["op"] == "rel": cheld -= e["n"]
        elif e["e"] == "start":
            running[e["pid"]] = 1
            want = {"_JOMSRVKEY_": key, "_JOMJOBCOUNT_": str(n) if own else env["_JOMJOBCOUNT_"]}
            got = {k: v for k, v in e["env"].items() if k in want}
            if {k: v for k, v in want.items() if v} != {k: v for k, v in got.items() if v}:
                return "a command got the job server variables %s, expected %s" % (got, want), set(), False
        elif e["e"] == "exit":
            if e["pid"] in running:
                if e.get("q") and held < len(running) - 1:
                    return "%d commands run with %d tokens held" % (len(running), held), set(), False
                if e.get("q") and not mk.failing_targets(case) and held > len(running) - (1 if acquiring or len(running) else 0):
                    return "%d tokens held for %d running commands" % (held, len(running)), set(), False
                del running[e["pid"]]
        if np and len(running) > 1: return "two commands run at a time in spite of .NOTPARALLEL", set(), False
        if len(running) + (0 if own else cheld) > n:
            return "%d commands run while others hold %d of %d jobs" % (len(running), cheld, n), set(), False
    if held:
        return "jom ends holding %d tokens" % held, set(), False
    if own and key == "srv":
        return "no job server of its own was created", set(), False
    failed = any(w == "exit" and mk.seen_code(code) > 0 for _, w, i, k, code in o.tl)
    want = 0 if not failed else 1 if case["K"] else 2
    if r.code != want:
        return "exit status %s, expected %s; stderr %r" % (r.code, want, r.etext()[-200:]), set(), False
    if not failed:
        exp, _ = mk.Ref(case).run()
        ex, bad = o.executions(case)
        if bad or sorted(ex) != sorted(exp):
            return "executed targets %s, expected %s" % (sorted(ex), sorted(exp)), set(), False
    tags = {"own" if own else "shared"}
    if waited: tags.add("waited")
    if np: tags.add("notparallel")
    if case["clients"]: tags.add("clients")
    if failed: tags.add("failed")
    return None, tags, bool(o.tl and (own or waited))
