import mk
FLAVOUR = "plain"
RULE = ("makefile in the current or another directory; random dependency graph (spellings, repeated dependents, split blocks, : and ::, pseudo targets, several goals, /A), 1..8 jobs, "
        "random completion order; non-trivial: more than one job slot and a target with commands executes after a direct or indirect "
        "dependent that also executes")
QUICK, THOROUGH = 26000, 1200000

def case(draw):
    c = mk.graph(draw, maxt=9, outputs=True, fresh=(1, 6), exist=(1, 4))
    c["mf"] = mk.elsewhere(draw)
    return c

def judge(case, sim):
    r = sim.run(mk.scenario(case))
    b = r.broken()
    if b:
        return b, {"broken"}, False
    o = mk.Obs(case, r)
    desc = mk.descendants(case)
    T = case["T"]
    ref = mk.Ref(case)
    roots = ref.run_by_root()
    want = sum(len(x) for x in roots)
    # assign observed target executions to the requested roots, which are handled one after the other
    n_exec = sum(1 for _, w, i, k, _ in o.tl if w == "start" and k == 0)
    bounds = None
    if n_exec == want:
        bounds, a = [], 0
        for x in roots:
            a += len(x)
            bounds.append(a)
    running, started, cnt, root, pairs = set(), [], 0, 0, 0
    lastend = {}
    for pos, w, i, k, code in o.tl:
        if w == "start":
            if k == 0:
                if bounds is not None:
                    while cnt >= bounds[root]:
                        root += 1
                        started, lastend = [], {}
                cnt += 1
            for d in running:
                if d in desc[i]:
                    return "%s starts while its dependent %s is running" % (T[i]["n"], T[d]["n"]), set(), False
            for s in started:
                if i in desc[s] and (bounds is not None or len(case["goals"]) < 2):
                    return "%s starts after %s, which depends on it" % (T[i]["n"], T[s]["n"]), set(), False
            if k == 0:
                started.append(i)
            if bounds is not None:
                for d in desc[i]:
                    if d in roots[root]:
                        if lastend.get(d) != len(T[d]["cmds"]) - 1:
                            return "%s starts before its dependent %s is finished" % (T[i]["n"], T[d]["n"]), set(), False
                        pairs += 1
            running.add(i)
        else:
            running.discard(i)
            lastend[i] = k
    tags = {"j%d" % case["j"]}
    if bounds is None: tags.add("unmodelled")
    if o.maxpar() > 1: tags.add("parallel")
    return None, tags, bool(pairs and case["j"] > 1)
