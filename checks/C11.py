import base64, re, mk
FLAVOUR = "plain"
RULE = ("random graph whose commands write up to 6 chunks of 1..9000 bytes (each command has bytes of its own, plus NUL, CR, LF, ^Z) to stdout and "
        "stderr, 1..8 jobs, random interleaving of processes, pipe reads and exits, sometimes a limit for the size of single writes to jom's stdout and stderr; non-trivial: at least two commands ran at the same time "
        "and wrote output")
QUICK, THOROUGH = 13000, 500000
SPECIAL = [b"\n", b"\r\n", b"\0", b"\x1a", b"%s", b"\n\n"]

def case(draw):
    c = mk.graph(draw, maxt=8, fails=mk.pick(draw, [0, 0, 1]), fresh=(1, 8), exist=(1, 4), spell=False, multigoal=False)
    n = 0
    for t in c["T"]:
        for x in t["cmds"]:
            big = mk.chance(draw, 1, 4)
            ch = []
            for _ in range(mk.pick(draw, [0, 1, 2, 3, 6])):
                ch.append([mk.pick(draw, [1, 1, 2]), mk.pick(draw, [1, 2, 4095, 4096, 4097, 9000]) if big else mk.ints(draw, 1, 40),
                           0 if big else mk.ints(draw, 0, len(SPECIAL))])
            x["out"] = ch
            x["own"] = n
            n += 1
            x["mods"] = mk.pick(draw, ["", "", "@", "-"])
    c["K"] = mk.chance(draw, 1, 2)
    c["race"] = mk.chance(draw, 1, 4)
    c["wmax"] = mk.pick(draw, [0, 0, 0, 0, 4096, 4097, 8192, 10000])     # larger writes to stdout and stderr fail
    c["merge"] = mk.chance(draw, 1, 6)          # stdout and stderr are the same file
    return c

def merged(case, o, r):
    """one stream: each command line comes before the output of its command, all of it before the report of its failure"""
    data, T = r.out, case["T"]
    for i, k in o.starts():
        x = T[i]["cmds"][k]
        own = [p for p, b in enumerate(data) if b >= 0x80 and (b - 0x80) // 2 == x["own"]]
        n = sum(len(re.sub(rb"[\0-\x7f]", b"", chunk(x, n))) for n in range(len(x["out"])))
        if len(own) % n if n else own: return "%d bytes of the output of %s, expected %d" % (len(own), x["id"], n)
        if not own: continue
        echo = data.find(b"\tact " + x["id"].encode() + b"\n")
        if echo > own[0]: return "the output of %s comes before its command line" % x["id"]
        if x["code"] and "-" not in x["mods"]:
            err = data.find(b"[" + T[i]["n"].encode() + b"] Error %d\n" % x["code"])
            if 0 <= err < own[-1]: return "the error of %s is reported before the end of its output" % x["id"]
    return None

def chunk(x, k):
    s, size, sp = x["out"][k]
    a = 0x80 + 2 * x["own"]
    b = bytes(a + ((k * 7 + i * i // 3) & 1) for i in range(size))
    if sp:
        h = 1 + size // 2
        b = b[:h] + SPECIAL[sp - 1] + b[h:]
    return b

def judge(case, sim):
    T = case["T"]
    for i, t in enumerate(T):
        for k, x in enumerate(t["cmds"]):
            s = [["nop"]] * x["nops"]
            for n in range(len(x["out"])):
                s.append(["err" if x["out"][n][0] == 2 else "out", {"b64": base64.b64encode(chunk(x, n)).decode()}])
            x["steps"] = s + [z for z in mk.steps(case, i, k) if z[0] in ("touch", "exit")]
            x["text"] = x["mods"] + "act " + x["id"]
    r = sim.run(mk.scenario(case, args=["/K"] if case["K"] else [], race=case["race"], wmax=case.get("wmax", 0), merge=case.get("merge", False)))
    for t in T:
        for x in t["cmds"]:
            x.pop("steps"); x.pop("text")
    b = r.broken()
    if b:
        return b, {"broken"}, False
    o = mk.Obs(case, r)
    if o.unknown:
        return "unexpected command started: %r" % o.unknown[0], set(), False
    ran = o.starts()
    tags = {"race"} if case["race"] else set()
    if case.get("wmax"): tags.add("write-limit")
    if case.get("merge"):
        m = merged(case, o, r)
        if m: return m + " (stdout and stderr in one file)", set(), False
        return None, {"merged"}, False
    for stream, data in ((1, r.out), (2, r.err)):
        if stream == 2:
            data = re.sub(rb"jom: C:\\work\\Makefile \[[^\]]*\] Error \d+\n|jom: Option /K specified. Continuing.\n|jom: Target '[^']*' cannot be built due to failed dependencies.\n", b"", data)
        want = {}
        name = {}
        for i, k in ran:
            x = T[i]["cmds"][k]
            w = b"".join(chunk(x, n) for n in range(len(x["out"])) if x["out"][n][0] == stream)
            if stream == 1 and "@" not in x["mods"]:
                w = b"\tact " + x["id"].encode() + b"\n" + w
            want.setdefault(x["own"], b"")
            want[x["own"]] += w
            name[x["own"]] = (x["id"], i)
        # split the stream into pieces of one command each
        ids = {x["id"]: x["own"] for t in T for x in t["cmds"]}
        got = {}
        seq = []
        pos, cur = 0, None
        while pos < len(data):
            m = re.compile(rb"\tact (\w+)\n").match(data, pos)
            if m and m.group(1).decode() in ids:
                who, piece = ids[m.group(1).decode()], m.group(0)
                new = True
            elif data[pos] >= 0x80:
                who = (data[pos] - 0x80) // 2
                m = re.compile(rb"[%s%s]+" % (bytes([0x80 + 2 * who]), bytes([0x81 + 2 * who]))).match(data, pos)
                piece = m.group(0)
            else:
                who = cur
                piece = data[pos:pos + 1]
            if who is None:
                return "unexpected output %r" % data[pos:pos + 40], set(), False
            got[who] = got.get(who, b"") + piece
            if who != cur:
                seq.append(who)
            cur = who
            pos += len(piece)
        names = "stdout" if stream == 1 else "stderr"
        for w in want:
            g = got.get(w, b"")
            if g != want[w]:
                if want[w].startswith(g):
                    return "the end of the output of %s is missing on %s: %d of %d bytes" % (name[w][0], names, len(g), len(want[w])), tags, False
                return "output of %s on %s: %r, expected %r" % (name[w][0], names, g[:60], want[w][:60]), tags, False
        for g in got:
            if g not in want:
                return "output of a command that was not run on %s" % names, tags, False
        # mixing: commands shown in more than one piece never overlap, unless they belong to one target
        first, last, cnt = {}, {}, {}
        for p, w in enumerate(seq):
            first.setdefault(w, p)
            last[w] = p
            cnt[w] = cnt.get(w, 0) + 1
        split = [w for w in cnt if cnt[w] > 1]
        if split:
            tags.add("live-split")
        for a in split:
            for c in split:
                if a < c and name[a][1] != name[c][1] and first[a] < last[c] and first[c] < last[a]:
                    return "output of %s and %s is mixed on %s" % (name[a][0], name[c][0], names), tags, False
    par = 0
    run = set()
    for _, w, i, k, code in o.tl:
        if w == "start":
            if T[i]["cmds"][k]["out"]: run.add(i)
            par = max(par, len(run))
        else:
            run.discard(i)
    if par > 1: tags.add("parallel-output")
    return None, tags, par > 1
