import re, mk
FLAVOUR = "plain"
RULE = ("1..3 targets or inference rules with up to 6 commands of random words (programs that exist or not, shell built-ins, comments, quotes, %, "
        "|<>&, macros, #, long texts), modifiers, .SILENT, /S, /C, programs that are named like shell built-ins; non-trivial: both a directly started and a shell command, an echoed and a "
        "silent one")
QUICK, THOROUGH = 22000, 900000
BUILTIN = set("assoc break call chdir cd cls color copy del dir echo endlocal erase exit for ftype goto if md move path pause popd prompt pushd ren "
              "rename setlocal shift time title type ver verify vol".split())
FIRST = ["act c", "act c", "act c", "ACT.exe c", '"act" c', "nosuchtool", "tools\\tool x", "C:\\work\\tools\\tool.exe y", '"with sp\\tool.exe" z',
         "echo", "Echo", "del", "copy", "if", "type", "ver ", "md", "ren", "title", "echoes", "delta", "copycat", "verify", ":label", "rem", "REM", "remx", "rem\t", "echo."]
WORDS = ["a", "bb", "x.c", "/Fo", "-o", "%%", "%PATH%", "%", "%%A", "100%%", '"q r"', '""', "#", "a#b", "'", "(", ")", "[x]", "=", "a=b", "$$", "$(V1)", "$(V2)", "$(V1)$(V2)", "$(UNDEF)",
         ",", ";", "!", "^", "\\", "c:\\x\\", "~", "`", "{", "}", "?", "*", "@", "-", ".", "&", "&&", "|", ">", "< nul", "> nul", "2>&1", "|| x", "$(LONG)", "  ", "\t"]

def case(draw):
    T = []
    for i in range(mk.ints(draw, 1, 3)):
        cs = []
        for k in range(mk.ints(draw, 1, 6)):
            w = [mk.pick(draw, FIRST) if mk.chance(draw, 5, 6) else mk.pick(draw, sorted(BUILTIN - {"cd"}))] + [mk.pick(draw, WORDS) for _ in range(mk.pick(draw, [0, 1, 1, 2, 2, 3, 5]))]
            cs.append({"w": w, "sep": mk.pick(draw, [" ", " ", " ", "  ", "\t"]), "at": mk.ints(draw, 0, 3), "trail": mk.pick(draw, ["", "", " ", "\t "]),
                       "lead": mk.pick(draw, ["\t", "\t", " ", "    "]), "d": mk.pick(draw, ["-", "-", "-99999", "--"])})
        T.append({"cmds": cs, "kind": mk.pick(draw, ["plain", "plain", "rule", "inline"])})
    return {"T": T, "silent": mk.ints(draw, 0, 3) if mk.chance(draw, 1, 4) else None, "S": mk.chance(draw, 1, 8), "C": mk.chance(draw, 1, 8), "exes": mk.chance(draw, 1, 4),
            "V1": mk.pick(draw, ["", "val", "a  b", "%%", "x|y", '"v w"', "$$"]), "V2": mk.pick(draw, ["", "z", "$(V1)y"]), "long": mk.pick(draw, [0, 3, 100, 3000])}

def whole(text):
    """Does cmd /C leave the text alone? It removes a leading and the last quote unless they enclose just the name of a program with blanks."""
    if not text.startswith('"'): return True
    inner = text.split('"')[1]
    return text.count('"') == 2 and not re.search(r"[&<>()@^|]", inner) and re.search(r"\s", inner) and inner.lower().split(".exe")[0] == "with sp\\tool"

def expand(case, s):
    V = {"V1": case["V1"], "V2": case["V2"], "LONG": "L" * case["long"], "UNDEF": ""}
    for _ in range(3):
        s = re.sub(r"\$\((\w+)\)", lambda m: V[m.group(1)], s)
    return s.replace("$$", "$")

def judge(case, sim):
    T = case["T"]
    names = [("r%d.obj" if t["kind"] == "rule" else "t%d") % i for i, t in enumerate(T)]
    mf = ["V1 = " + case["V1"], "V2 = " + case["V2"], "LONG = " + "L" * case["long"], "all: " + " ".join(names), ""]
    files = [{"p": "C:/work/tools/tool.exe", "d": "MZ"}, {"p": "C:/work/with sp/tool.exe", "d": "MZ"}]
    if case.get("exes"):      # programs named like built-in commands of the shell
        files += [{"p": "C:/work/%s.exe" % b, "d": "MZ"} for b in sorted(BUILTIN)]
    want = []
    rules = []
    silent = [False] * len(T)
    for i, t in enumerate(T):
        if case["silent"] == i:
            mf += [".SILENT:", ""]
        silent[i] = case["silent"] is not None and case["silent"] <= i
        lines = []
        for k, c in enumerate(t["cmds"]):
            if t["kind"] == "inline" and k == 0:
                w = [x for x in c["w"] if "#" not in x and x != ";" and x != "^"]
                if len(w) < 1 or ":" in w[0]: w = ["act c"]
            else:
                w = c["w"]
            body = c["sep"].join(w)
            if body[-1:] in "^\\":          # would escape the line end
                body += "x"
            mods = {0: "", 1: "", 2: "", 3: "@"}[c["at"]]
            mods = mods + c["d"] if k % 2 else c["d"] + mods
            lines.append((c["lead"], mods + body + c["trail"]))
            want.append((i, k, body, c["at"] == 3))
        if t["kind"] == "rule":
            rules.append(".s%d" % i)
            files.append({"p": "C:/work/r%d.s%d" % (i, i), "d": "s", "t": -1})
            mf += [".s%d.obj:" % i] + [a + b for a, b in lines] + ["", "r%d.obj:" % i, ""]
        elif t["kind"] == "inline":
            mf += ["t%d: ; %s" % (i, lines[0][1])] + [a + b for a, b in lines[1:]] + [""]
        else:
            mf += ["t%d:" % i] + [a + b for a, b in lines] + [""]
    if rules:
        mf.insert(0, ".SUFFIXES: " + " ".join(rules))
    argv = ["/NOLOGO", "/J1"] + (["/S"] if case["S"] else []) + (["/C"] if case["C"] else [])
    r = sim.run({"argv": argv, "files": [{"p": "C:/work/Makefile", "d": "\n".join(mf) + "\n"}] + files, "dirs": ["C:/work/tools"],
                 "progs": dict({b: [] for b in BUILTIN} if case.get("exes") else {}, tool=[], c=[])})
    b = r.broken()
    if b:
        return b, {"broken"}, False
    if r.code != 0:
        return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    # expected echo lines and processes
    echo, procs = [], []
    tags = set()
    for i, k, body, at in want:
        text = expand(case, body.strip())
        sil = at or silent[i] or case["S"] or case["C"]
        if not sil:
            echo.append("\t" + text + "\n")
        tags.add("silent" if sil else "echoed")
        text = text.replace("%%", "%")
        if text.startswith(":") or re.match(r"rem\s", text, re.I):
            tags.add("comment")
            continue
        word = re.match(r"\S*", text).group(0).lower()
        shell = re.search(r"[|<>&]", text) or (word in BUILTIN and len(text) > len(word))
        exe = text.split('"')[1] if text.startswith('"') else word
        if not shell and exe.lower().split(".exe")[0] not in ("act", "tools\\tool", "c:\\work\\tools\\tool", "with sp\\tool"):
            shell = True
        tags.add("shell" if shell else "direct")
        procs.append((bool(shell), text))
    got = [e["cmd"] for e in r.starts()]
    if len(got) != len(procs):
        return "%d processes started, expected %d: %s" % (len(got), len(procs), got), set(), False
    sh = "C:\\Windows\\System32\\cmd.exe /C "
    for g, (shell, text) in zip(got, procs):
        if case.get("exes") and text.strip().lower() in BUILTIN and g == text: continue       # without arguments it may be the program
        ok = ([sh + text] if whole(text) else []) + ([sh + '"' + text + '"'] if '"' in text else []) if shell else [text]
        if g not in ok:
            return "started %r, expected %r" % (g, ok[0]), set(), False
    out = r.text()
    pos = 0
    ends = []
    for l in echo:
        p = out.find(l, pos)
        if p < 0 or (p > 0 and out[p - 1] != "\n"):
            return "command line %r is not printed (in order); stdout %r" % (l, out[-400:]), set(), False
        pos = p + len(l)
        ends.append(pos)
    ntab = len(re.findall(r"(?m)^\t", out))
    extra = sum(1 for shell, text in procs if shell and re.match(r"echo.*\t", text, re.I))     # echo printing a tab
    if not len(echo) <= ntab <= len(echo) + extra:
        return "%d command lines printed, expected %d" % (ntab, len(echo)), set(), False
    # a command line is on stdout before its process is started
    size, si = 0, 0
    need = []
    e2 = iter(ends)
    for i, k, body, at in want:
        text = expand(case, body.strip())
        sil = at or silent[i] or case["S"] or case["C"]
        end = next(e2) if not sil else 0
        t2 = text.replace("%%", "%")
        if not (t2.startswith(":") or re.match(r"rem\s", t2, re.I)):
            need.append(end)
    for e in r.events:
        if e["e"] == "o" and e["s"] == 1: size = e["n"]
        elif e["e"] == "start":
            if size < need[si]:
                return "process %r started before its command line was printed" % e["cmd"], set(), False
            si += 1
    return None, tags, {"silent", "echoed", "shell", "direct"} <= tags
