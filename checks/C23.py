import fnmatch, re
import mk
FLAVOUR = "plain"
RULE = ("up to 14 files with related names in 4 directories, up to 4 patterns with * and ? relative, with directories, upwards, absolute and in another case, mixed with plain names, macros and file name macros, with the makefile "
        "in the current or another directory; non-trivial: a pattern matched some but not all files of its directory and a second run found everything up to date")
QUICK, THOROUGH = 13000, 650000
DIRS = ["", "sub\\", "sub dir\\", "..\\", "..\\workshop\\", "..\\other\\", "sub\\deep\\"]
STEM = ["a", "ab", "abc", "b", "main.x", "A1", "a b", "x-y", "a[1]", "a(1)", "f#1", "x^y", "worky", "a=b", "Z_"]
EXT = [".c", ".cpp", ".h", "", ".C", ".c.h"]
PSTEM = ["*", "a*", "?", "??", "*b", "a?", "*.x", "a*c", "*[*", "a[1]*", "???*", "A*", "*-*", "ab?"]
# file name macros as dependents: what they stand for, or None for the ones that are not allowed
FM = [("$$(@:all=keep)", "keep.out"), ("$*.dep", "all.dep"), ("$(*F).dep", "all.dep"), ("$(*:all=keep).out", "keep.out"), ("$(*B:all=keep).out", "keep.out"),
      ("$$(@R).dep", "all.dep"), ("$**", None), ("$?", None), ("$(**)", None), ("$(?F)", None)]
PEXT = [".c", ".*", ".c*", ".?", "", ".h", ".C"]

def case(draw):
    F = {}
    dirs = [mk.pick(draw, DIRS) for _ in range(3)]
    for _ in range(mk.ints(draw, 1, 14)):
        F[mk.pick(draw, dirs) + mk.pick(draw, STEM) + mk.pick(draw, EXT)] = -mk.ints(draw, 3, 9)
    l, seen = [], set()
    for f, t in F.items():
        k = mk.vfs(f).lower()
        if k not in seen: seen.add(k); l.append([f, t])
    P = []
    for _ in range(mk.ints(draw, 1, 4)):
        if mk.chance(draw, 1, 4): P.append(["name", mk.pick(draw, l)[0]])
        else: P.append(["pat", mk.pick(draw, dirs), mk.pick(draw, PSTEM) + mk.pick(draw, PEXT), mk.ints(draw, 0, 7)])
    return {"F": l, "P": P, "mac": mk.chance(draw, 1, 5), "old": mk.chance(draw, 1, 2), "elsewhere": mk.chance(draw, 1, 4), "dirs": mk.chance(draw, 1, 3), "j": mk.ints(draw, 1, 2), "fm": mk.pick(draw, [0] * 14 + list(range(1, 11))),
            "tgt": mk.ints(draw, 0, len(l) - 1) if mk.chance(draw, 1, 3) else None}

OWN = ("keep.out", "all.dep")
def glob(p):
    return re.compile("".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in p) + r"\Z", re.I | re.S)

def judge(case, sim):
    want, words, tags, part = [], [], set(), False
    # a matching file that is a target itself and out of date
    tgt = case["F"][case["tgt"]][0] if case.get("tgt") is not None and case["tgt"] < len(case["F"]) else None
    if tgt and (re.search(r"[#=^()]|\.\.", tgt) or tgt[1:2] == ":" or len(tgt) == 1): tgt = None
    found = False
    byd = {}
    for f, t in case["F"]: byd.setdefault(mk.vfs(f).lower().rsplit("/", 1)[0], []).append(f)
    for p in case["P"]:
        if p[0] == "name":
            words.append('"%s"' % p[1] if re.search("[ #=]", p[1]) else p[1]); want.append(mk.vfs(p[1]).lower()); continue
        _, d, pat, sp = p
        full = mk.vfs(d + "q").rsplit("/", 1)[0]
        cand = byd.get(full.lower(), [])
        hit = [f for f in cand if glob(pat).match(mk.vfs(f).rsplit("/", 1)[1])]
        # the makefiles and the target lie there, too
        names = [("Makefile" if not case["elsewhere"] else None, "c:/work"), ("all.out", "c:/work"), ("build.mk" if case["elsewhere"] else None, "c:/work/sub")]
        for n, dd in names:
            if n and dd == full.lower() and glob(pat).match(n): return None, {"skipped"}, False
        want += [mk.vfs(f).lower() for f in hit]
        if tgt in hit:
            found = True
            if sp == 6 and d: tgt = None       # not the name of the target
        if hit and len(hit) < len(cand): part = True
        s = {0: d, 1: d.replace("\\", "/"), 2: d.upper(), 3: full.replace("/", "\\") + "\\", 4: full + "/", 5: full.upper() + "/", 6: d + (".\\" if d else ""), 7: d}[sp]
        w = s + pat
        words.append('"%s"' % w if " " in w else w)
        tags.add("match%d" % min(len(hit), 3))
    mf = []
    deps = " ".join(words)
    if case["mac"] and "#" not in deps: mf.append("DEPS = " + deps); deps = "$(DEPS)"
    fm = FM[case["fm"] - 1] if case["fm"] else None
    if fm:
        deps = fm[0] + " " + deps
        if fm[1]: want = ["c:/work/" + fm[1]] + want
    mf += ["all.out: " + deps, "\tact id $**"]
    files = [{"p": mk.vfs(f), "d": "x", "t": t} for f, t in case["F"]] + [{"p": "C:/work/" + k, "d": "x", "t": -20} for k in OWN]
    if case["old"]: files.append({"p": "C:/work/all.out", "d": "x", "t": -9})
    if not found: tgt = None
    if tgt:
        mf += ["", '"%s": C:\\trigger\\t.in' % tgt, "\tact gen"]
        files.append({"p": "C:/trigger/t.in", "d": "x", "t": -1})
    mfile = "C:/work/sub/build.mk" if case["elsewhere"] else "C:/work/Makefile"
    files.append({"p": mfile, "d": "\n".join(mf) + "\n"})
    dirs = ["C:/work/sub/deep", "C:/workshop", "C:/other", "C:/work/sub dir"]
    if case["dirs"]: dirs += ["C:/work/adir.c", "C:/work/sub/ab.c", "C:/workshop/abd"]
    if any(mk.vfs(f).lower() in [x.lower() for x in dirs] for f, _ in case["F"]): return None, {"skipped"}, False
    sc = {"argv": ["/NOLOGO", "/J", str(case["j"])] + (["/F", "sub\\build.mk"] if case["elsewhere"] else []), "files": files, "dirs": dirs, "progs": {"id": [["touch", "C:\\work\\all.out"]], "gen": [["touch", tgt]]}}
    if any(glob(p[2]).match(k) and mk.vfs(p[1] + "q").lower().rsplit("/", 1)[0] == "c:/work" for p in case["P"] if p[0] == "pat" for k in OWN): return None, {"skipped"}, False
    times = {mk.vfs(f).lower(): t for f, t in case["F"]}
    for k in OWN: times["c:/work/" + k] = -20
    r = sim.run(sc)
    b = r.broken()
    if b: return b, {"broken"}, False
    if fm and not fm[1]:
        if r.code != 2 or r.starts() or not r.etext(): return "%s as dependent is no error: exit status %s, stderr %r" % (fm[0], r.code, r.etext()[-300:]), set(), False
        return None, {"macro not allowed"}, False
    if r.code != 0 or r.etext(): return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    st = r.starts()
    if tgt:
        if not st or st[0]["cmd"] != "act gen": return "%s matches, is a target and out of date, but is not made first: %s" % (tgt, [e["cmd"] for e in st]), set(), False
        st = st[1:]
        times[mk.vfs(tgt).lower()] = 1
        tags.add("target")
    ran = bool(st)
    need = not case["old"] or any(times[w] > -9 for w in want)
    if ran != need: return "target %s although its dependents are %s" % ("built" if ran else "not built", sorted(want)), set(), False
    if not ran: return None, tags | {"up to date"}, part
    got, cur, rest = [], "", st[0]["cmd"][len("act id"):].strip()
    for m in re.finditer(r'"([^"]*)"|(\S+)', rest): got.append(mk.vfs(m.group(1) or m.group(2)).lower())
    if sorted(set(got)) != sorted(set(want)) or len(got) > len(want): return "dependents %s, expected %s" % (sorted(got), sorted(want)), set(), False
    r2 = sim.run(dict(sc, files=r.files_list(), now=60))
    if r2.broken(): return r2.broken(), {"broken"}, False
    if r2.starts() or r2.code != 0: return "second run: started %s, exit status %s, stderr %r" % ([e["cmd"] for e in r2.starts()], r2.code, r2.etext()[-200:]), set(), False
    return None, tags, part
