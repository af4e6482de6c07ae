import re, mk
FLAVOUR = "plain"
RULE = ("random graph with failing commands and tolerances under /K (sometimes with /I), 1..8 jobs, random completion order; non-trivial: a "
        "target fails, something depending on it is skipped and an unrelated target is still built after the failure was seen")
QUICK, THOROUGH = 24000, 900000

def case(draw):
    c = mk.graph(draw, maxt=9, fails=mk.pick(draw, [2, 5]), fresh=(1, 5), exist=(1, 3), outputs=False)
    mk.add_modifiers(draw, c)
    c["I"] = mk.chance(draw, 1, 10)
    if c["I"]:      # a tolerance written with a command is stronger than /I
        for t in c["T"]:
            for x in t["cmds"]:
                x["mods"] = "".join(y for y in x.get("mods", "") if not y.isdigit())
                x["base"] = 2 ** 32 - 1
    return c

SKIP = re.compile(r"jom: Target '(.*)' cannot be built due to failed dependencies\.\n")
def judge(case, sim):
    opts = ["/K"] + (["/I"] if case["I"] else [])
    r = sim.run(mk.scenario(case, args=opts))
    b = r.broken()
    if b:
        return b, {"broken"}, False
    o = mk.Obs(case, r)
    if o.unknown:
        return "unexpected command started: %r" % o.unknown[0], set(), False
    T = case["T"]
    bad = mk.failing_targets(case)
    ref = mk.Ref(case)
    want, skipped = ref.run(bad)
    n = lambda l: [T[i]["n"] for i in sorted(l)]
    # every executed target, and how far it got
    wantc = []
    for i in want:
        for k, c in enumerate(T[i]["cmds"]):
            wantc.append((i, k))
            if mk.fatal(c):
                break
    got = o.starts()
    if sorted(got) != sorted(wantc):
        return "commands run %s, expected %s" % (sorted(T[i]["cmds"][k]["id"] for i, k in got), sorted(T[i]["cmds"][k]["id"] for i, k in wantc)), set(), False
    names = SKIP.findall(r.etext())
    if sorted(names) != sorted(T[i]["n"].replace("/", "\\") for i in skipped):
        return "targets reported as not buildable %s, expected %s" % (sorted(names), n(skipped)), set(), False
    failed = [i for i in want if i in bad]
    if r.etext().count("Option /K specified. Continuing.") != len(failed):
        return "%d targets failed, but jom says so %d times" % (len(failed), r.etext().count("Continuing.")), set(), False
    if r.code != (1 if failed else 0):
        return "exit status %s with failed targets %s" % (r.code, n(failed)), set(), False
    if r.running:
        return "processes left running", set(), False
    after = False
    seen = False
    for _, w, i, k, code in o.tl:
        if w == "exit" and i in bad and mk.fatal(T[i]["cmds"][k]): seen = True
        if w == "start" and seen and k == 0: after = True
    tags = set()
    if failed: tags.add("failed")
    if skipped: tags.add("skipped")
    if after: tags.add("built-after-failure")
    if case["I"]: tags.add("/I")
    if len(case["goals"]) > 1: tags.add("multigoal")
    return None, tags, bool(failed and skipped and after)
