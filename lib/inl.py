"""Inline files: generator, renderer and model."""
import base64, re, mk
WORDS = ["word", "$(V1)", "$(V2)", "$(V1)$(V2)", "$(E)", "$@", "$(@B)", "$(@F)", "$(@R)", "$**", "$$", "#x", "a#b", "^", "\\", "\t", "a: b", "=", "<", "x<<y", "'", '"q r"', "%%", "%A%",
         "$$(V1)", ".SUFFIXES:", "(", ")", ";", "$(V1:l=LL)", "$*", "|"]
V = {"V1": "val", "V2": "two words", "E": ""}

def draw_lines(draw, rule):
    L = []
    for _ in range(mk.pick(draw, [0, 1, 1, 2, 3, 6])):
        kind = mk.ints(draw, 0, 19)
        if kind == 0: L.append({"blank": mk.pick(draw, ["", " ", "\t"])})
        elif kind == 1 and not rule: L.append({"if": mk.ints(draw, 0, 1), "a": "in first branch", "b": "in second branch"})
        elif kind == 2: L.append(mk.pick(draw, [{"w": ["X", "=", "5"]}, {"lead": " ", "w": ["<<"]}, {"lead": "\t", "w": ["<<KEEP", "x"]}]))
        elif kind == 3: L.append({"w": ["long" + "x" * mk.pick(draw, [1000, 5000, 6141, 6142, 6143, 6144, 7168, 20000])]})
        else:
            w = [mk.pick(draw, WORDS + (["$<"] if rule else [])) for _ in range(mk.ints(draw, 1, 4))]
            L.append({"lead": mk.pick(draw, ["", "", "", "\t", "  "]), "w": w, "end": mk.pick(draw, ["", "", "", " ", "\\", " \\", "^", "\\\\"])})
    return L

def draw_inline(draw, i, k, n, rule, blank=False):
    f = {"name": None, "q": False, "lines": draw_lines(draw, rule), "at": mk.chance(draw, 2, 3)}
    kind = mk.ints(draw, 0, 7)
    if kind >= 4:
        f["name"] = mk.pick(draw, ["r%d_%d_%d.rsp", "sub/r%d_%d_%d.x", "C:\\temp\\n%d_%d_%d.tmp", "r%d_%d_%d", "na me%d_%d_%d.y", "$(V1)%d_%d_%d", ] + ([] if blank else ["$(@B)%d_%d_%d.rsp", "sub\\$(@F)%d_%d_%d"])) % (i, k, n)
        f["q"] = " " in f["name"] or mk.chance(draw, 1, 5)
    f["opt"] = mk.pick(draw, ["", "", "KEEP", "NOKEEP", "KEEP ", "NOKEEP\t", " KEEP", "KEEP UNICODE"]) if mk.chance(draw, 1, 2) else ""
    return f

def draw_cmd(draw, i, k, rule, blank=False):
    c = {"id": "c%d_%d" % (i, k), "nops": mk.ints(draw, 0, 2), "code": 0, "at": mk.chance(draw, 1, 4), "sh": mk.chance(draw, 1, 8), "bang": not rule and mk.chance(draw, 1, 10),
         "in": [draw_inline(draw, i, k, n, rule, blank) for n in range(mk.pick(draw, [0, 1, 1, 1, 2, 3]))]}
    if c["in"] and mk.chance(draw, 1, 8):       # the inline file is the program
        f = c["in"][0]
        f["at"], f["name"], f["q"], c["bare"], c["sh"] = False, c["id"] + "_.exe", False, True, False
    return c

def target(draw, i, maxc=4):
    kind = mk.pick(draw, ["plain", "plain", "plain", "rule"])
    name = ("r%d.out" if kind == "rule" else mk.pick(draw, ["t%d", "t%d.obj", "sub\\u%d.x", "ta rg%d.z"])) % i
    t = {"kind": kind, "n": name, "leaf": [] if kind == "rule" else [mk.pick(draw, ["s%d.c", "le af%d.h", "sub\\l%d.h"]) % x for x in range(mk.ints(draw, 0, 2))],
         "cmds": [draw_cmd(draw, i, k, kind == "rule", " " in name) for k in range(mk.ints(draw, 1, maxc))]}
    if mk.chance(draw, 1, 6):           # change of directory before some command
        cs = t["cmds"][mk.ints(draw, 0, len(t["cmds"]) - 1):]
        for c in cs if not any(c.get("bare") for c in cs) else []:
            c["cd"] = "" if t.get("cd") else mk.pick(draw, ["sub", "C:\\work\\sub", ".\\sub", "sub/sub/.."])
            t["cd"] = True
    return t

def path(c, name):
    """file for a name used by a command"""
    if "cd" in c and name[1:2] != ":": name = "C:\\work\\sub\\" + name
    return mk.vfs(name)
DIRS = ["C:/work/sub", "C:/temp", "C:/work/sub/sub"]

def expand(t, text, deps):
    """macros, then file name macros"""
    src = "r%s.in%s" % ((re.sub(r"\D", "", t["n"]),) * 2) if t["kind"] == "rule" else ""
    q = lambda s: '"%s"' % s if " " in s or "\t" in s else s
    n = t["n"]
    f = n.split("\\")[-1]
    stem = lambda s: s.rsplit(".", 1)[0] if "." in s else s
    def sub(m):
        s = m.group(0)
        if s == "$$": return "$"
        if s == "$@": return q(n)
        if s == "$(@B)": return q(f.split(".")[0])
        if s == "$(@F)": return q(f)
        if s in ("$(@R)", "$*"): return q(stem(n))
        if s == "$**": return " ".join(q(d) for d in deps)
        if s == "$<": return src
        if s == "$(V1:l=LL)": return "vaLL"
        return V[m.group(1)]
    return re.sub(r"\$\$|\$@|\$\*\*|\$\*|\$<|\$\(@[BFR]\)|\$\(V1:l=LL\)|\$\((\w+)\)", sub, text)

def line_text(l):
    if "blank" in l: return [l["blank"]]
    if "if" in l: return ["!IF %d" % l["if"], l["a"], "!ELSE", l["b"], "!ENDIF"]
    s = l.get("lead", "") + " ".join(l["w"]) + l.get("end", "")
    return [s]

def content(t, f, deps):
    out = []
    for l in f["lines"]:
        if "if" in l: out.append(l["a"] if l["if"] else l["b"])
        else: out += [expand(t, s, deps) for s in line_text(l)]
    return "".join(s + "\r\n" for s in out).encode()

def render_cmd(c):
    """text of the command line"""
    s = ("@" if c["at"] else "") + ("!" if c["bang"] else "") + ("" if c.get("bare") else "act " + c["id"])
    for f in c["in"]:
        n = f["name"] or ""
        s += " " + ("@" if f["at"] else "") + "<<" + ('"%s"' % n if f["q"] else n)
    if c["sh"]: s += " > nul"
    return s.replace(" <<", "<<", 1) if c.get("bare") else s
def render_lines(c):
    out = []
    for f in c["in"]:
        for l in f["lines"]: out += line_text(l)
        out.append("<<" + f["opt"])
    return out

def render(T, goals_all=True):
    mf = ["V1 = val", "V2 = two words", "E =", ""]
    sfx = [".in%d" % i for i, t in enumerate(T) if t["kind"] == "rule"]
    if sfx: mf += [".SUFFIXES: " + " ".join(sfx), ""]
    q = lambda s: '"%s"' % s if " " in s else s
    mf += ["all: " + " ".join(q(t["n"]) for t in T), ""]
    files = []
    for i, t in enumerate(T):
        if t["kind"] == "rule":
            mf.append(".in%d.out:" % i)
            files.append({"p": "C:/work/r%d.in%d" % (i, i), "d": "src", "t": -5})
        else:
            mf.append(q(t["n"]) + " : " + " ".join(q(d) for d in t["leaf"] + t.get("deps", [])))
            files += [{"p": mk.vfs(d), "d": "leaf", "t": -5} for d in t["leaf"]]
        for c in t["cmds"]:
            if c.get("cd"): mf.append("\tcd " + c["cd"])
            mf.append("\t" + render_cmd(c))
            mf += render_lines(c)
        mf.append("")
        if t["kind"] == "rule":
            mf += [t["n"] + ":", ""]
    mf += ["last_: ; act done$(X)", ""]
    return "\n".join(mf), files

def instances(t, c):
    """dependents for each start of a command"""
    deps = t["leaf"] + t.get("deps", []) if t["kind"] != "rule" else ["r%s.in%s" % ((re.sub(r"\D", "", t["n"]),) * 2)]
    return [[d] for d in deps] if c["bang"] else [deps]

def patterns(t, c, deps):
    """expected words after 'act ID': list of (regex, inline file, fixed path or None)"""
    r = []
    for f in c["in"]:
        if f["name"] is None:
            tn = t["n"].split("\\")[-1]
            p = re.escape("C:\\temp\\" + tn) + r"\.4242\.\d+\.jom"
            fixed = None
            blank = " " in tn
        else:
            nm = expand(t, f["name"], deps).replace('"', "")
            p = re.escape(nm.replace("/", "\\"))
            fixed = nm
            blank = " " in nm
        r.append((("@" if f["at"] else "") + ('"(%s)"' if blank else "(%s)") % p, f, fixed))
    return r
