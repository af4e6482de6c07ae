import mk, base64
FLAVOUR = "asan"
RULE = ("makefiles of definitions, messages, targets, commands, inline files, comments and include files, whose words are separated by blanks, tabs, continuation backslashes (also with comment lines in between) or ^ line ends, with ^#, ^\\, \\\\ and trailing comments, "
        "each file in 8 bit, UTF-8 or UTF-16 encoding with LF, CR LF or mixed line ends, with or without final newline, lines padded to lengths and file offsets around the buffer sizes 6144+1024k and 16384; "
        "the oracle is a model of the logical lines; non-trivial: a padded line near a buffer size, or at least three continuations, in a file with CR LF or a byte order mark")
QUICK, THOROUGH = 5000, 300000
WORDS = ["a", "b1", "x.y", "(q)", "d\\e", "'s'", "c:\\f\\", "~", "=", "a=b", "[k]", "$$", "x$$y"]
UNI = ["\u00e4", "\u65e5\u672c", "\U0001F600x", "\u0a0d", "\u0d0a\u0d0a", "\u0100", "\u010a"]
SEP = [" ", "  ", "\t", "\\\n", " \\\n   ", "\\\n# comment \\\n\t", "\\\n# c\n", "\\\n", "\\\n#\n"]
JOIN = [" ", "  ", "\t", " ", "  ", " ", " ", " ", " "]           # outside of directives
DJOIN = [" ", "  ", "\t", "", "    ", "\t", "", "", ""]          # in directives
END = ["", "", " ", "\t ", " # comment", "# c \\\n more",  " # a^#b", " #", ' # "x', " # a \\\n# b\n c"]
LENS = [6144 + 1024 * k + d for k in range(0, 5) for d in range(-5, 4)]
OFFS = [16384 * k + d for k in (1, 2) for d in range(-4, 4)]

def word(draw):
    k = mk.ints(draw, 0, 9)
    if k < 6: return mk.pick(draw, WORDS)
    if k == 6: return ["m", mk.ints(draw, 0, 9)]
    if k == 7: return ["u", mk.ints(draw, 0, len(UNI) - 1)]
    return ["h", mk.pick(draw, ["x", ""])]
def words(draw, lo=0):
    return [[word(draw), mk.ints(draw, 0, len(SEP) - 1)] for _ in range(mk.ints(draw, lo, 4))]
def pad(draw):
    if not mk.chance(draw, 1, 5): return None
    return ["len", mk.pick(draw, LENS)] if mk.chance(draw, 2, 3) else ["off", mk.pick(draw, OFFS)]
def items(draw, depth):
    l = []
    for _ in range(mk.ints(draw, 1, 6)):
        k = mk.ints(draw, 0, 15)
        end, p = mk.ints(draw, 0, len(END) - 1), pad(draw)
        if k < 4: l.append(["def", words(draw), end, p, mk.ints(draw, 0, 5), mk.ints(draw, 0, 2)])
        elif k < 6: l.append(["msg", words(draw), end, p])
        elif k < 9: l.append(["cmd", words(draw), mk.ints(draw, 0, 3), p])
        elif k == 9: l.append(["target", [mk.ints(draw, 0, 9) for _ in range(mk.ints(draw, 0, 3))], mk.schedule(draw, 7), end, p, mk.chance(draw, 1, 3), words(draw)])
        elif k == 10: l.append(["rem", p, mk.ints(draw, 0, 3)])
        elif k < 14: l.append(["inl", [[words(draw), mk.ints(draw, 0, 7), pad(draw)] for _ in range(mk.ints(draw, 0, 4))]])
        elif depth: l.append(["inc", file(draw, depth - 1)])
    return l
def file(draw, depth):
    return {"enc": mk.pick(draw, ["8", "8", "utf8", "utf16"]), "eol": mk.pick(draw, ["lf", "crlf", "mixed"]), "nl": mk.chance(draw, 1, 2), "mix": [mk.chance(draw, 1, 2) for _ in range(4)],
            "items": items(draw, depth)}
def case(draw):
    return {"f": file(draw, 2), "hseed": mk.ints(draw, 0, 9)}

class M:
    def __init__(self):
        self.n = 0; self.files = []; self.msgs = []; self.cmds = []; self.targets = []; self.vals = []
        self.cont = 0; self.padded = 0; self.tags = set()
    def num(self): self.n += 1; return self.n
    def render(self, ws, f, join, kind, last=True):
        """raw text and meaning of words with their separators; PAD is one character in both"""
        raw = val = ""
        for i, (w, s) in enumerate(ws):
            r = v = w
            if not isinstance(w, str):
                if w[0] == "u": r = v = UNI[w[1]] if f["enc"] != "8" and kind in ("def", "cmd") else "u"
                elif w[0] == "h":
                    v = w[1] + "#y"
                    r = w[1] + ("#y" if kind in ("cmd", "inl") else "^#y")
                    if r.startswith("#") and (raw == "" and kind == "inl" or raw.endswith("\n")): r, v = "_" + r, "_" + v
                else:
                    c = [(n, x) for n, x in self.vals if (kind == "inl" or "\n" not in x) and (kind == "cmd" or x.isascii())]
                    if c:
                        n, x = c[w[1] % len(c)]
                        r, v = "$(%s)" % n, x
                    else: r = v = "m"
            else: v = w.replace("$$", "$")
            raw += r; val += v
            if i + 1 < len(ws) or not last:
                if "\n" in SEP[s]:
                    self.cont += 1
                    if raw.endswith(("\\", "^")): raw += "z"; val += "z"
                raw += SEP[s]; val += join[s]
        return raw, val
    def emit(self, f, text, p=None, mark=None):
        """text with lines separated by newline, possibly with a character to be multiplied; returns its count"""
        ls = text.split("\n")
        n = 1
        for l in ls:
            if mark and mark in l:
                if p:
                    enc = len(self.enc(f, l)) - len(self.enc(f, mark)) + self.eollen(f)
                    if p[0] == "len": n = p[1] - len(l) + 1 - (self.eollen(f) // (2 if f["enc"] == "utf16" else 1))
                    else: n = (p[1] - f["size"] - enc) // (2 if f["enc"] == "utf16" else 1)
                    if n < 1 or n > 33000: n = 1
                    else: self.padded += 1; self.tags.add("padded " + p[0])
                l = l.replace(mark, "p" * n)
            self.line(f, l)
        return n
    def enc(self, f, s):
        return s.encode({"8": "latin1", "utf8": "utf-8", "utf16": "utf-16-le"}[f["enc"]])
    def eol(self, f):
        return "\n" if f["eol"] == "lf" or (f["eol"] == "mixed" and f["mix"][f["count"] % 4]) else "\r\n"
    def eollen(self, f): return len(self.enc(f, self.eol(f)))
    def line(self, f, l):
        b = self.enc(f, l)
        f["last"] = len(b) + f["size"]
        b += self.enc(f, self.eol(f))
        f["data"].append(b); f["size"] += len(b); f["count"] += 1
    def start(self, f, name):
        f = dict(f, data=[{"8": b"", "utf8": b"\xef\xbb\xbf", "utf16": b"\xff\xfe"}[f["enc"]]], count=0, name=name)
        f["size"] = f["last"] = len(f["data"][0])
        self.files.append(f)
        if f["enc"] != "8": self.tags.add(f["enc"])
        self.tags.add(f["eol"])
        return f
    def close(self, f):
        d = b"".join(f["data"])
        f["data"] = d if f["nl"] else d[:f["last"]]
        if not f["nl"]: self.tags.add("no final newline")
    PAD = "\x01"
    def items(self, f, l):
        PAD = self.PAD
        for o in l:
            if o[0] == "def":
                k = self.num()
                ws = o[1] + [[PAD, 0]] if o[3] else o[1]
                raw, val = self.render(ws, f, JOIN, "def")
                if o[5] == 1 and ws: raw, val = "n^\n" + raw, "n\n" + val       # keeps the line break
                eq = ["=", " = ", " \\\n = ", "\\\n=\\\n", "=  ", "\t=\t"][o[4]] if raw else " ="
                if raw.endswith(("\\", "^")): raw += ["^\\", "\\"][o[5] == 2] if END[o[2]] == "" else ""
                if raw.endswith("^\\"): val, raw = raw[:0] + val + "\\", raw
                elif raw.endswith("\\\\"): val += "\\"
                n = self.emit(f, "M%d%s%s%s" % (k, eq, raw, END[o[2]]), o[3], PAD)
                self.vals.append(("M%d" % k, val.replace(PAD, "p" * n)))
            elif o[0] == "msg":
                k = self.num()
                ws = o[1] + [[PAD, 0]]
                raw, val = self.render([["m%d" % k, 0]] + ws, f, DJOIN, "msg")
                n = self.emit(f, "!MESSAGE " + raw + END[o[2]], o[3], PAD)
                self.msgs.append(val.replace(PAD, "p" * n).rstrip())
            elif o[0] == "cmd" or (o[0] == "target" and not self.targets): 
                if not self.targets:
                    self.targets.append(0); self.line(f, "t0:")
                if o[0] != "cmd": continue
                k = self.num()
                ws = o[1] + ([[PAD, 0]] if o[3] else [])
                raw, val = self.render([["act", 0], [str(k), 0]] + ws, f, JOIN, "cmd")
                e = ["", " ", "\t", ""][o[2]]
                if raw.endswith("\\") and not e:
                    raw, val = (raw + "\\", val + "\\") if o[2] else (raw[:-1] + "^\\", val)
                n = self.emit(f, "\t" + raw + e, o[3], PAD)
                self.cmds.append([self.targets[-1], val.replace(PAD, "p" * n), None])
            elif o[0] == "target":
                k = self.num()
                deps = [["t%d" % self.targets[d % len(self.targets)], s] for d, s in zip(o[1], o[2] + [0] * 9)]
                deps = [[d, s % len(SEP)] for d, s in deps]
                raw, _ = self.render([["t%d" % k, 0], [":", 0]] + deps, f, JOIN, "t")
                self.targets.append(k)
                if o[5]:
                    c = self.num()
                    cr, cv = self.render([["act", 0], [str(c), 0]] + o[6] + ([[PAD, 0]] if o[4] else []), f, JOIN, "cmd")
                    if ";" not in cr and not cr.endswith("\\"):
                        n = self.emit(f, raw + " ; " + cr, o[4], PAD)
                        self.cmds.append([k, cv.replace(PAD, "p" * n), None])
                        continue
                self.emit(f, raw + END[o[3]] + ((" # " + PAD) if o[4] and "#" not in END[o[3]] else ""), o[4], PAD)
            elif o[0] == "rem" and not o[1]: self.line(f, ["#", "#p", "# ", "##"][o[2]])
            elif o[0] == "rem": self.emit(f, "#" + self.PAD + ["", "\\", "^", "$("][(o[1] or ["", 0])[1] % 4], o[1], PAD)
            elif o[0] == "inl":
                if not self.targets:
                    self.targets.append(0); self.line(f, "t0:")
                k = self.num()
                self.line(f, "\tact %d <<f%d" % (k, k))
                c = []
                for ws, e, p in o[1]:
                    raw, val = self.render([[w, s % 3] for w, s in ws] + ([[PAD, 0]] if p else []), f, JOIN, "inl")
                    if raw.startswith("<<"): raw, val = " " + raw, " " + val
                    pre = ["", "# ", "#", "\t", " ", "", "", ""][e]
                    post = ["", "", "\\", "^", " \\", "^\\", "\\\\", " "][e]
                    n = self.emit(f, pre + raw + post, p, PAD)
                    c.append(pre + val.replace(PAD, "p" * n) + post)
                self.line(f, "<<")
                self.cmds.append([self.targets[-1], "act %d f%d" % (k, k), "".join(x + "\r\n" for x in c)])
            elif o[0] == "inc":
                k = self.num()
                self.line(f, "!INCLUDE i%d.mk" % k)
                g = self.start(o[1], "i%d.mk" % k)
                self.items(g, o[1]["items"])
                self.close(g)

def judge(case, sim):
    m = M()
    f = m.start(case["f"], "Makefile")
    m.items(f, f["items"])
    if not m.targets: m.targets.append(0); m.line(f, "t0:")
    m.line(f, "")
    m.line(f, "all: " + " ".join("t%d" % t for t in m.targets))
    m.close(f)
    if any(len(c[1]) > 32700 for c in m.cmds): return None, {"command too long for Windows"}, False
    files = [{"p": "C:/work/" + x["name"], "b": base64.b64encode(x["data"]).decode()} for x in m.files]
    r = sim.run({"argv": ["/NOLOGO", "/J1", "all"], "files": files, "hseed": case["hseed"], "snap": True, "progs": {str(k): [] for k in range(m.n + 1)}})
    b = r.broken()
    if b: return b, {"broken"}, False
    if r.code != 0 or r.etext(): return "exit status %s; stderr %r" % (r.code, r.etext()[-300:]), set(), False
    def diff(a, b):
        for i in range(max(len(a), len(b))):
            x, y = a[i] if i < len(a) else None, b[i] if i < len(b) else None
            if x != y:
                if x and y:
                    j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                    return "number %d differs at character %d: %r, expected %r" % (i, j, x[max(0, j - 30):j + 50], y[max(0, j - 30):j + 50])
                return "number %d is %r, expected %r" % (i, x and x[:100], y and y[:100])
    got = [l.rstrip() for l in r.text().split("\n") if l.startswith("m")]
    d = diff(got, m.msgs)
    if d: return "message " + d, set(), False
    # the order of targets is not part of this property
    key = lambda c: int((c.split() + ["0", "0"])[1]) if (c.split() + ["", ""])[1].isdigit() else 0
    want = sorted(m.cmds, key=lambda c: key(c[1]))
    starts = sorted(r.starts(), key=lambda e: key(e["cmd"]))
    d = diff([e["cmd"] for e in starts], [c[1] for c in want])
    if d: return "command " + d, set(), False
    for t in m.targets:
        if [e["cmd"] for e in r.starts() if e["cmd"] in [c[1] for c in m.cmds if c[0] == t]] != [c[1] for c in m.cmds if c[0] == t]: return "order of the commands of t%d" % t, set(), False
    for e, c in zip(starts, want):
        if c[2] is not None:
            n = c[1].split()[-1]
            g = {p.lower().replace("\\", "/"): base64.b64decode(v).decode("latin1") for p, v in e["files"].items()}.get(n)
            d = diff([g], [c[2]])
            if d: return "inline file " + d, set(), False
    special = any(x["enc"] != "8" or x["eol"] != "lf" for x in m.files)
    return None, m.tags, bool(special and (m.padded or m.cont >= 3))
