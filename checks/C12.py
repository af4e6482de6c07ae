import base64, re, mk, inl
FLAVOUR = "plain"
RULE = ("1..4 targets and inference rules with up to 4 commands with 0..3 inline files each (named, unnamed, quoted, macros in names and text, "
        "any kind of text line, options), after cd, LF, CR LF or BOM encodings, several jobs and requested targets; non-trivial: at least two inline files "
        "with text were read by commands")
QUICK, THOROUGH = 14000, 800000

def case(draw):
    n = mk.ints(draw, 1, 4)
    c = {"T": [inl.target(draw, i) for i in range(n)], "j": mk.ints(draw, 1, 3), "sched": mk.schedule(draw, 40),
         "enc": mk.pick(draw, ["", "", "", "crlf", "bom", "utf16"]), "again": mk.chance(draw, 1, 4)}
    if mk.chance(draw, 1, 12):         # the same name again in one target
        for t in c["T"]:
            fs = [f for x in t["cmds"] for f in x["in"]]
            if len(t["cmds"]) > 1 and len(fs) > 1 and not any(x.get("bare") for x in t["cmds"]):
                for x in t["cmds"]:
                    for n, f in enumerate(x["in"]): f["name"], f["q"] = "same%s_%d.rsp" % (re.sub(r"\D", "", t["n"]), n), False
    return c

def judge(case, sim):
    T = case["T"]
    text, files = inl.render(T)
    e = case["enc"]
    if e == "crlf": raw = text.replace("\n", "\r\n").encode()
    elif e == "bom": raw = b"\xef\xbb\xbf" + text.encode()
    elif e == "utf16": raw = b"\xff\xfe" + text.encode("utf-16-le")
    else: raw = text.encode()
    progs = {c["id"]: [["nop"]] * c["nops"] for t in T for c in t["cmds"]}
    progs["done"] = []
    goals = ["all"] + ([T[0]["n"]] if case["again"] else []) + ["last_"]
    r = sim.run({"argv": ["/NOLOGO", "/J", str(case["j"])] + goals, "dirs": inl.DIRS, "schedule": case["sched"], "progs": progs, "snap": True,
                 "files": [{"p": "C:/work/Makefile", "b": base64.b64encode(raw).decode()}] + files})
    b = r.broken()
    if b:
        return b, {"broken"}, False
    if r.code != 0:
        return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    runs = {}
    for s in r.starts():
        w = s["cmd"].replace('/C "act', "/C act").split()
        if w[0].endswith("_.exe"): w = ["act", w[0][:-5]]
        if "act" not in w: return "unexpected command %r" % s["cmd"], set(), False
        runs.setdefault(w[w.index("act") + 1], []).append(s)
    if [s["cmd"] for s in runs.pop("done", [])] != ["act done"]:
        return "text of an inline file was taken for a macro definition", set(), False
    used = 0
    tags = {e or "lf"}
    written = {}
    ended = {e["pid"]: n for n, e in enumerate(r.events) if e["e"] == "exit"}
    begun = {e["pid"]: n for n, e in enumerate(r.events) if e["e"] == "start"}
    for i, t in enumerate(T):
        for c in t["cmds"]:
            want = inl.instances(t, c) * (2 if case["again"] and i == 0 else 1)
            got = runs.pop(c["id"], [])
            if len(got) != len(want):
                return "command %s was run %d times, expected %d" % (c["id"], len(got), len(want)), set(), False
            for at, (deps, s) in enumerate(zip(want, got)):
                inst = i, at // len(inl.instances(t, c))
                pats = inl.patterns(t, c, deps)
                rx = " ".join(([] if c.get("bare") else ["act " + c["id"]]) + [p for p, _, _ in pats]) + (" > nul" if c["sh"] else "")
                sh = "C:\\Windows\\System32\\cmd.exe /C "
                cmd = s["cmd"]
                if mk.vfs(s["cwd"]) != ("C:/work/sub" if "cd" in c else "C:/work"):
                    return "%r started in %s" % (cmd, s["cwd"]), set(), False
                m = re.fullmatch((re.escape(sh) + '"?' + rx + '"?') if c["sh"] else rx, cmd)
                if not m:
                    return "started %r, expected %r" % (cmd, rx), set(), False
                seen = {k.lower().replace("/", "\\"): base64.b64decode(v) for k, v in s["files"].items()}
                for g, (p, f, fixed) in enumerate(pats):
                    name = m.group(g + 1)
                    data = seen.get(name.lower())
                    exp = inl.content(t, f, deps)
                    if data is None:
                        if c["sh"] and '"' in cmd: continue
                        return "inline file %s of %s does not exist when the command starts" % (name, c["id"]), set(), False
                    if data != exp:
                        return "inline file %s of %s contains %r, expected %r" % (name, c["id"], data[:200], exp[:200]), set(), False
                    if fixed is None:
                        written.setdefault(name.lower(), []).append((begun[s["pid"]], ended[s["pid"]], inst, f["opt"].strip().startswith("KEEP")))
                    used += len(exp) > 0
                    tags.add("named" if fixed else "unnamed")
                    if f["name"] and "$" in f["name"]: tags.add("macro-name")
            if c["bang"]: tags.add("bang")
            if c.get("bare"): tags.add("bare")
            if "cd" in c and any(f["name"] and f["name"][1] != ":" for f in c["in"]): tags.add("cd")
            if len(c["in"]) > 1: tags.add("several")
        tags.add(t["kind"])
    # the name of a removed file may be used again, but not by commands of one target or at the same time
    for name, use in written.items():
        use.sort()
        for (b0, e0, i0, kept), (b1, e1, i1, _) in zip(use, use[1:]):
            if kept or i0 == i1 or e0 > b1: return "inline file name %s is used twice" % name, set(), False
    if runs:
        return "unexpected commands %s" % list(runs), set(), False
    if case["again"]: tags.add("again")
    return None, tags, used > 1
