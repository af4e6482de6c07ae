import mk
FLAVOUR = "asan"
RULE = ("up to 10 words (targets, macro definitions with any text, options with their values) of which some are written to up to 3 command files, quoted as a whole or in parts, with \"\" for quotes, separated by any white space and empty lines; "
        "oracles: the values and the order of targets expected from the words, and a run with all words as arguments; non-trivial: a command file with three words, one of them quoted")
QUICK, THOROUGH = 4000, 400000
T = ["t1", "t 2", "t3.x", "T4", "dir\\t5", "t'6"]
NAMES = ["A", "B", "C", "low", "A", "m.x"]
PART = ["a", "b c", " ", "\"", "=", "#", "\\", "\t", "'", "x", ";", "\"\"", "/N", "@", "", "(", "%", "p" * 3000]
OPT = [["/K"], ["/J1"], ["/j", "2"], ["/f", "Makefile"], ["-f", "other make"], ["/NOLOGO"], ["-s"], ["/FMakefile"]]
SEP = [" ", "\n", "\r\n", "\t", "  \t ", "\n\n", " \r\n\r\n ", "\n \n"]

def case(draw):
    w = []
    for _ in range(mk.ints(draw, 0, 10)):
        k = mk.ints(draw, 0, 9)
        if k < 4: u = [mk.pick(draw, T)]
        elif k < 8: u = [mk.pick(draw, NAMES) + mk.pick(draw, ["=", "=", " = ", "= "]) + "".join(mk.pick(draw, PART) for _ in range(mk.ints(draw, 0, 4)))]
        else: u = mk.pick(draw, OPT)
        w.append([u, mk.ints(draw, 0, 3), mk.schedule(draw, 6)])      # 0: argument, otherwise a file
    return {"w": w, "at": [mk.ints(draw, 0, 9) for _ in range(3)], "names": [mk.pick(draw, ["c%d", "c %d.cmd", "dir\\c%d", "\"q %d\"", "\"q%d\""]) for _ in range(3)],
            "end": [mk.pick(draw, ["", " ", "\n", "\r\n", "\n\n"]) for _ in range(3)], "nested": mk.chance(draw, 1, 10)}

def quote(w, s):
    """one of the ways to write a word; at most one part is quoted in addition to what is necessary"""
    r, open_ = "", False
    for i, ch in enumerate(w):
        must = ch in ' \t"'
        if must and not open_: r += '"'; open_ = True
        elif not must and open_ and s[(i + 1) % len(s)] % 3 == 0: r += '"'; open_ = False
        elif not must and not open_ and i % 7 == s[0] % 7 and s[-1] % 2: r += '"'; open_ = True
        if ch == '"': r += '""'
        else: r += ch
    if open_: r += '"'
    return r

def judge(case, sim):
    argv, files, order = [], {1: "", 2: "", 3: ""}, {0: [], 1: [], 2: [], 3: []}
    count, quoted = {1: 0, 2: 0, 3: 0}, {1: 0, 2: 0, 3: 0}
    for unit, where, s in case["w"]:
        s = (s or [0])
        for x in unit:
            order[where].append(x)
            if where == 0: argv.append(x)
            else:
                q = quote(x, s)
                quoted[where] += '"' in q; count[where] += 1
                files[where] += (" " if s[0] == 3 and not files[where] else "") + q + SEP[s[-1] % len(SEP)]
    # positions between units
    starts, n = [0], 0
    for unit, where, s in case["w"]:
        if where == 0: n += len(unit); starts.append(n)
    pos, fs, nt, tags = [], [], False, set()
    for f in (1, 2, 3):
        if not count[f]: continue
        body = files[f].rstrip(" \t\r\n") if case["end"][f - 1] == "" and not files[f].rstrip("\r\n").endswith("\t\"") else files[f] + case["end"][f - 1]
        if case["nested"]: body = "@c1 " + body
        name = case["names"][f - 1] % f
        fs.append({"p": "C:/work/" + name.strip('"').replace("\\", "/"), "d": body})
        pos.append((starts[case["at"][f - 1] % len(starts)], f, "@" + name))
        if count[f] >= 3 and quoted[f]: nt = True
        tags.add("quoted" if quoted[f] else "plain")
    pos.sort()
    args = list(argv)
    for p, f, a in reversed(pos): args.insert(p, a)
    words = order[0] + [x for p, f, a in pos for x in order[f]]
    tags.add("files%d" % len(pos))
    mf = "".join("!MESSAGE %s [$(%s)]\n" % (n, n) for n in sorted(set(NAMES))) + "".join('"%s":\n\tact %d\n' % (t, i) for i, t in enumerate(T))
    base = [{"p": "C:/work/Makefile", "d": mf}, {"p": "C:/work/other make", "d": mf + "!MESSAGE other\n"}]
    def run(a):
        return sim.run({"argv": ["/J1"] + a, "files": base + fs, "progs": {str(i): [] for i in range(len(T))}, "dirs": ["C:/work/dir"]})
    r = run(args)
    b = r.broken()
    if b: return b, {"broken"}, False
    desc = " (arguments %r, files %r)" % ([a[:60] for a in args], [f["d"][:200] for f in fs])
    # expected
    goals, vals, i, make = [], {}, 0, "Makefile"
    while i < len(words):
        w = words[i]; i += 1
        if w in ("/f", "-f"): make = words[i]; i += 1
        elif w == "/j": i += 1
        elif w[0] in "/-": make = w[2:] if w.startswith("/F") else make
        elif "=" in w:
            n, v = w.split("=", 1)
            n = n.strip()
            v = v.lstrip(" \t")
            if n not in vals: vals[n] = v
        else:
            if w.strip() not in goals: goals.append(w.strip())
    if r.code != 0: return "exit status %s, stderr %r" % (r.code, r.etext()[-300:]) + desc, set(), False
    out = r.text()
    for n in sorted(set(NAMES)):
        v = vals.get(n, "")
        if n == "M.X": continue
        if "%s [%s]\n" % (n, v) not in out:
            return "%s should be %r, stdout %r" % (n, v[:80], out[:300]) + desc, set(), False
    if ("other\n" in out) != (make != "Makefile"): return "wrong makefile" + desc, set(), False
    got = [e["cmd"] for e in r.starts()]
    want = ["act %d" % T.index(g) for g in goals] or ["act 0"]
    if sorted(got) != sorted(want) or (got != want and "2" not in words): return "commands %s, expected %s" % (got, want) + desc, set(), False
    if fs:
        c = run(words)
        b = c.broken()
        if b: return b, {"broken"}, False
        for k, x, y in (("stdout", out, c.text()), ("stderr", r.etext(), c.etext()), ("exit status", r.code, c.code), ("commands", got, [e["cmd"] for e in c.starts()])):
            if x != y: return "%s is %r, but %r when all words are arguments" % (k, x, y) + desc, set(), False
    return None, tags, nt
