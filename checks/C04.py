import mk
FLAVOUR = "plain"
RULE = ("random graph with many targets to build, -J 1..8 or the number of processors or .NOTPARALLEL, random completion order, failing commands, "
        "/K, and other clients taking and returning tokens of an inherited job server; non-trivial: at some moment as many processes run as "
        "slots are free and a further target is ready")
QUICK, THOROUGH = 20000, 800000

def case(draw):
    c = mk.graph(draw, maxt=10, fails=mk.pick(draw, [0, 0, 0, 4]), fresh=(1, 10), exist=(1, 6), alla=False, pseudo=False, spell=False)
    c["mode"] = mk.pick(draw, ["own", "own", "shared", "shared", "cpus", "notparallel"])
    c["K"] = mk.chance(draw, 1, 3)
    if c["mode"] == "shared":
        c["clients"] = []
        for _ in range(mk.ints(draw, 0, 3)):
            st = []
            for _ in range(mk.ints(draw, 1, 3)):
                st += [["nop"]] * mk.ints(draw, 0, 3) + [["acq", "srv"]] + [["nop"]] * mk.ints(draw, 0, 4) + [["rel", "srv"]]
            c["clients"].append(st)
    return c

def judge(case, sim):
    T = case["T"]
    n = case["j"] if case["mode"] != "cpus" else 4      # the simulated machine has 4 processors
    args = ["/K"] if case["K"] else []
    kw = {}
    header = ""
    if case["mode"] == "shared":
        kw = {"sems": {"srv": n - 1}, "clients": case["clients"], "env": {"_JOMSRVKEY_": "srv", "_JOMJOBCOUNT_": str(n)}}
    elif case["mode"] == "notparallel":
        header = ".NOTPARALLEL:\n"
    s = mk.scenario(case, header=header, args=args, **kw)
    if case["mode"] == "cpus":
        s["argv"] = [a for k, a in enumerate(s["argv"]) if a != "/J" and (k == 0 or s["argv"][k - 1] != "/J")]
    limit = 1 if case["mode"] == "notparallel" else n
    r = sim.run(s)
    b = r.broken()
    if b:
        return b, {"broken"}, False
    o = mk.Obs(case, r)
    if o.unknown:
        return "unexpected command started: %r" % o.unknown[0], set(), False
    ref = mk.Ref(case)
    nofail = not mk.failing_targets(case)
    roots = ref.run_by_root()
    desc = mk.descendants(case)
    n_exec = sum(1 for _, w, i, k, _ in o.tl if w == "start" and k == 0)
    model = nofail and n_exec == sum(len(x) for x in roots)
    # walk through the trace
    running, cheld, jheld, acquiring, value = {}, 0, 0, False, None
    key = None
    root, left, fin = 0, list(roots[0]) if model else [], set()
    full = False
    for e in r.events:
        if e["e"] == "start":
            i, k = o.pid[e["pid"]]
            if k == 0 and model:
                while i not in left and root + 1 < len(roots):
                    root += 1
                    left, fin = list(roots[root]), set()
                if i not in left:
                    model = False
                else:
                    left.remove(i)
            running[e["pid"]] = (i, k)
            if len(running) > limit:
                return "%d commands run at the same time with %d jobs allowed" % (len(running), limit), set(), False
            if len(running) + cheld > max(n, 1) :
                return "%d commands run while other clients hold %d of the %d jobs" % (len(running), cheld, n), set(), False
        elif e["e"] == "sem":
            if e["op"] == "open":
                if case["mode"] == "shared":
                    if e["key"] != "srv":
                        return "jom made a job server of its own although it was given one", set(), False
                elif not e["existed"]:
                    if e["val"] != n - 1:
                        return "job server created with %s tokens for %s jobs" % (e["val"], n), set(), False
                key = e["key"]
                continue
            if e["key"] != key:
                continue
            if e["op"] == "wait" and e["who"] == "jom": acquiring = True
            elif e["op"] == "acq":
                if e["who"] == "jom":
                    acquiring = False
                    jheld += 1
                else: cheld += 1
            elif e["op"] == "rel":
                if e["who"] == "jom": jheld -= e["n"]
                else: cheld -= e["n"]
            if len(running) + cheld > n:
                return "%d commands run while other clients hold %d of the %d jobs" % (len(running), cheld, n), set(), False
        elif e["e"] == "exit":
            if e["pid"] not in running:
                continue
            i, k = running[e["pid"]]
            if e.get("q"):
                if nofail:
                    occ = len(running)
                    if jheld != (occ - 1 if acquiring else max(0, occ - 1)):
                        return "jom holds %d tokens while it runs %d targets" % (jheld, occ), set(), False
                if model and len(running) < limit and not acquiring:
                    ready = [x for x in left if not (desc[x] & (set(left) | {a for a, _ in running.values()} ))]
                    if ready:
                        return "only %d of %d jobs are used although %s could be built" % (len(running), limit, T[ready[0]]["n"]), set(), False
                if model and left and (len(running) == limit or acquiring):
                    if [x for x in left if not (desc[x] & (set(left) | {a for a, _ in running.values()}))]:
                        full = True
            del running[e["pid"]]
            if k == len(T[i]["cmds"]) - 1:
                fin.add(i)
    if jheld:
        return "%d job tokens are missing when jom ends" % jheld, set(), False
    tags = {case["mode"], "j%d" % n}
    if model: tags.add("modelled")
    if not nofail: tags.add("fails")
    if full: tags.add("saturated")
    return None, tags, full
