import re, mk
FLAVOUR = "plain"
RULE = ("random graph with failing commands and exit-code modifiers, 1..8 jobs, random completion order; non-trivial: a command fails "
        "untolerated while another target is being built or with targets left that depend on the failed one")
QUICK, THOROUGH = 22000, 900000

def case(draw):
    c = mk.graph(draw, maxt=8, fails=5, fresh=(1, 8), exist=(1, 5), outputs=True)
    mk.add_modifiers(draw, c)
    return c

ERR = re.compile(rb"jom: C:\\work\\Makefile \[(.*)\] Error (\d+)\r?\n")

def judge(case, sim):
    r = sim.run(mk.scenario(case))
    b = r.broken()
    if b:
        return b, {"broken"}, False
    T = case["T"]
    o = mk.Obs(case, r)
    ex, bad = o.executions(case)
    cmds = lambda i, k: T[i]["cmds"][k]
    fails = [(pos, i, k, code) for pos, w, i, k, code in o.tl if w == "exit" and
             mk.seen_code(code) > mk.tolerance(cmds(i, k).get("mods", ""))]
    msgs = sorted(m.groups() for m in ERR.finditer(r.err))
    want = sorted((T[i]["n"].replace("/", "\\").encode(), b"%d" % mk.seen_code(code)) for _, i, k, code in fails)
    if msgs != want:
        return "failures reported on stderr %s, failures that happened %s" % (msgs, want), set(), False
    if not fails:
        return None, {"nofail"}, False
    if r.code != 2:
        return "exit status %s although a command failed" % r.code, set(), False
    if r.running:
        return "jom ended while a process it started was still running", set(), False
    if bad:
        return bad, set(), False
    # jom knows of the failure as soon as it has reported it or has nothing left to do
    m = ERR.search(r.err)
    first = fails[0][0]
    noticed = len(r.events)
    for pos, e in enumerate(r.events):
        if e["e"] == "o" and e["s"] == 2 and e["n"] >= m.end() or pos > first and e["e"] == "exit" and e.get("q"):
            noticed = pos
            break
    busy, done, dead = {}, set(), set()
    parallel = False
    desc = mk.descendants(case)
    atfail = None
    for pos, w, i, k, code in o.tl:
        if pos >= noticed and atfail is None:
            atfail = set(busy)
        if w == "start":
            if atfail is not None and i not in atfail:
                return "%s was started after jom had dealt with the failure of %s" % (T[i]["n"], T[fails[0][1]]["n"]), set(), False
            for _, f, _, _ in [x for x in fails if x[0] < pos]:
                if f in desc[i] and i not in busy:
                    return "%s was started although its dependent %s had failed" % (T[i]["n"], T[f]["n"]), set(), False
            busy[i] = k
        else:
            if k == len(T[i]["cmds"]) - 1 or any(x[0] == pos for x in fails):
                busy.pop(i, None)
            if pos == first and busy:
                parallel = True
    if busy:
        return "targets left unfinished: %s" % [T[i]["n"] for i in busy], set(), False
    dependants = any(fails[0][1] in desc[i] for g in (case["goals"] or [case["order"][0]]) for i in mk.Ref(case).reach(g))
    tags = {"fail"}
    if parallel: tags.add("others-running")
    if len(fails) > 1: tags.add("several-failures")
    if atfail: tags.add("busy-at-report")
    return None, tags, bool(parallel or dependants)
