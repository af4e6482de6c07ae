import mk
FLAVOUR = "plain"
RULE = ("random acyclic graph, 1..8 jobs, commands that run directly, through the shell, that cannot be started, that fail or crash, cd and set, long command lists, inline files, much output, nested includes in any encoding, shell expressions in conditionals, "
        "/K /I /N /X /W /U and command files, random completion order and delayed notifications; non-trivial: three or more processes were started by one job slot, or one after another command failed to start")
QUICK, THOROUGH = 14000, 600000

def case(draw):
    c = mk.graph(draw, maxt=8, fails=mk.pick(draw, [0, 0, 2, 5]), outputs=True)
    mk.add_modifiers(draw, c)
    many = mk.chance(draw, 1, 10)
    for t in c["T"]:
        for x in t["cmds"]:
            m, i = x.get("mods", ""), x["id"]
            k = mk.ints(draw, 0, 24)
            if k < 2: x["text"] = m + "act %s >nul" % i
            elif k < 4: x["text"] = mk.pick(draw, ["-", "-", ""]) + "missing %s" % i
            elif k < 6: x["text"] = m + "echo %s" % i
            elif k == 6: x["text"] = m + "act %s <<\n%s\n<<%s" % (i, i, mk.pick(draw, ["", "KEEP"]))
            elif k == 7: x["text"] = m + "act %s <<%s.txt <<\n%s\n<<\nsecond\n<<%s" % (i, i, i, mk.pick(draw, ["", "KEEP"]))
            elif k == 8: x["text"] = mk.pick(draw, ["cd .", "set A=%s" % i, "-cd nowhere", "cd sub"])
            elif k == 9: x["big"] = mk.pick(draw, [10, 5000, 70000])
            elif k == 10: x["code"] = mk.pick(draw, [0xc0000005, 0xf291, 259])
            elif k == 11: x["text"] = "!act %s $**" % i
            elif k == 12 and many: x["text"] = "\n\t".join([mk.pick(draw, ["-missing", "echo x", m + "act " + i])] * mk.ints(draw, 2, 60))
    c["opt"] = mk.pick(draw, [[], [], ["/K"], ["/K"], ["/I"], ["/N"], ["/X", "err.txt"], ["/W"], ["/U"], ["@args"], ["/P"]])
    c["race"] = mk.chance(draw, 1, 4)
    c["inc"] = mk.ints(draw, 0, 3)
    c["head"] = [mk.pick(draw, ["!IF [cmd /C exit 0]\n!ENDIF", "!IF [missing] == 0\n!ENDIF", "!IF EXIST(inc0)\n!ENDIF", "!IFDEF X\n!ENDIF", "!MESSAGE x"]) for _ in range(mk.ints(draw, 0, 3))]
    c["enc"] = mk.ints(draw, 0, 2)
    return c

def judge(case, sim):
    head = "\n".join(case["head"] + (["!INCLUDE inc0"] if case["inc"] else []))
    s = mk.scenario(case, header=head, args=case["opt"], race=case["race"])
    for t in case["T"]:
        for x in t["cmds"]:
            if x.get("big"): s["progs"][x["id"]] = [["out", "o" * 79 + "\n"]] * (x["big"] // 80) + s["progs"][x["id"]]
    enc = ["utf-8", "utf-16", "utf-8-sig"][case["enc"]]
    import base64
    b64 = lambda t: base64.b64encode((b"\xff\xfe" + t.encode("utf-16-le")) if enc == "utf-16" else t.encode(enc)).decode()
    for i in range(case["inc"]): s["files"].append({"p": "C:/work/inc%d" % i, "b": b64("!INCLUDE inc%d\n" % (i + 1) if i + 1 < case["inc"] else "X = 1\n")})
    s["files"][0] = {"p": "C:/work/Makefile", "b": b64(s["files"][0]["d"])}
    s["files"].append({"p": "C:/work/args", "d": "/K Y=1\n"})
    r = sim.run(s)
    b = r.broken()
    if b:
        return b, {"broken"}, False
    started = 0
    J = case["j"]
    for e in r.starts():
        started += 1
        if e.get("open"):
            return "jom has files open while it runs %r: %s" % (e["cmd"], e["open"]), set(), False
        if e["handles"] > 6 + 4 * (J - 1):
            return "%d handles are open when %r is started with %d jobs" % (e["handles"], e["cmd"], J), set(), False
    h = r.end["handles"]
    if h[0]:
        return "%d handles are open at the end of a run of %d processes" % (h[0], started), set(), False
    if h[1] > 8 + 4 * (J - 1):
        return "%d handles were open with %d jobs" % (h[1], J), set(), False
    if h[2]:
        return "jom closed a handle that was not open", set(), False
    shell = any("missing" in e["cmd"] for e in r.starts())
    tags = {"j%d" % J} | {o for o in case["opt"] if o[0] == "/"}
    if shell: tags.add("fallback")
    return None, tags, started > 2 * J or (shell and started > 2)
