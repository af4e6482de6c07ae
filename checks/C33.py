import mk, base64
FLAVOUR = "asan"
RULE = ("makefiles, include files, command files, JOMFLAGS/MAKEFLAGS, other environment variables and arguments, made of up to 60 tokens of the makefile language (also unterminated, misplaced and with NUL and non-ASCII bytes, in 8 bit, UTF-8 or UTF-16), "
        "or of a valid makefile with inserted, removed, doubled or cut bytes; run under AddressSanitizer and UBSan with limits on time and memory; non-trivial: the makefile has at least five lines, and jom executes a command or reports an error behind the first line")
QUICK, THOROUGH = 9000, 600000
TOK = ["\n", "\n", "\n", "\n", "\t", " ", "\n\t", "\n!", "!", "\\\n", "^\n", "^", "\\", "#", "$", "$$", "$(", ")", "(", "$(A)", "$(B:a=b)", "$(A:", "$(A:=)", "$(A:a=", "$(:x=y)", "$()", "$A", "$@", "$<", "$*", "$?", "$**", "$(@D)", "$(@", "$(*F)", "$(<X)", "$$@", "$$(@F)",
       "=", "A=", "B = $(A)", "A=$(A)x", "C=$(C", ":", "::", ":=", ";", "a", "b", "all", "x.obj", "x.c", "x.c.obj", ".c.obj:", ".c.obj::", "{a}.c{b}.obj:", "{a}.c", "{", "}", ".SUFFIXES:", ".SUFFIXES: .a .b", ".PRECIOUS:", ".SILENT:", ".IGNORE:", ".SYNC: a", ".NOTPARALLEL:", ".FOO:",
       "a: b", "a : b\n\tact 1\n", "b:\n\tact 2 $<\n", "all: a b x.obj", "\"", "\"a b\"", "*", "?", "*.c", "[", "]", "<<", "\n<<", "<<\n", "<<f\n", "<<\"", "<<KEEP", "\n<<NOKEEP UNICODE\n", "@", "-", "-2", "@-!", "!act 3 $**", "%", "%%", "%|dpfF", "&&", "|", ">", "cd ", "cd \"x", "set X=", "set", "rem", "echo", "act 1", "fail 1",
       "!IF ", "!IF 1", "!IF 0", "!IFDEF A", "!IFNDEF A", "!ELSE", "!ELSE IF 1", "!ELSEIF", "!ENDIF", "!INCLUDE ", "!INCLUDE inc", "!INCLUDE <inc>", "include inc", "!INCLUDE \"\"", "!MESSAGE ", "!ERROR", "!UNDEF A", "!CMDSWITCHES +I", "!FOO", "DEFINED(A)", "EXIST(x.c)", "EXIST(", "DEFINED", "==", "!=", "<", ">>", "1/0", "1%0", "99999999999", "-2147483648", "[act 1]", "[", "\"a\"==\"b\"", "~", "!1",
       "\0", "\x01", "\x1a", "\x7f", "\u00e4", "\u00ff", "\ufeff", "\u2028", "\ud7ff", "\r", "\r\n", "\f", "\v", "\n\tact 1 $(LONG)$(LONG)\n", "\n\t-act 1 $(LONG)$(LONG)\n", "C:", "C:\\", "\\\\srv\\x", "..\\", "/", "con", "x" * 300, "y " * 200, "$(A)" * 30, "(" * 70]
ARG = ["/", "-", "//", "/F", "/X", "/J", "/J4", "/N", "/K", "/I", "/P", "/D", "/U", "/W", "/S", "/?", "/Q", "/VERSION", "/DUMPGRAPH", "/DUMPGRAPHDOT", "/DEBUG", "/F-", "-f", "@", "@\"", "@\"\"", "@cmd", "@cmd", "@missing", "", " ", "=", "=x", "A", "A=", "A=$(A)", "A=$(", "A=$(B)", "B=$(A)", "b=$(c)", "a", "all", "b", "x.obj",
       "\"", "\"a", "*", "a b", "/A /B", "/J300", "/J-1", "/J0x4", "/E", "/R", "/Y", "/NOLOGO", "MAKEFLAGS=x", "A.B=1", "1=2", "A B=1", "$=1", "$(A)", "\u00e4=\u00f6", "/\u00e4", "%X%", "x" * 3000]
ENVN = ["JOMFLAGS", "MAKEFLAGS", "INCLUDE", "A", "B", "X Y", "P$", "(", "a", "PROMPT", "=C:", "PATH", "_JOMJOBCOUNT_", "_JOMSRVKEY_", "TMP", "ComSpec", "\u00e4"]
ENVV = ["", "-", "J", "J2", "F", "NOLOGO", "XYZ", "$(", "$(A)", "$(B)", "$+$P$_", "inc", ";;C:\\;", "x", "-1", "99999999999", "C:\\missing", "a\nb", "\u00e4", "y" * 2000, "$", "/", "-J"]
VALID = """A = a b
B = $(A:a=c) \\
    d
!IF "$(A)" == "a b" && DEFINED(B)
!MESSAGE $(B)
!ELSE
!ERROR no
!ENDIF
!INCLUDE inc
.SUFFIXES: .c .obj
{src}.c{.}.obj::
	act 1 $< %|fF
.c.obj:
	-act 2 $(<F) $*
all: a "b c" x.obj *.c
	@act 3 $** $? <<t.txt
$(A) # text
<<KEEP
	!act 4 $(**F)
a: b ; act 5
	cd sub && act 6
	cd sub
	set V=1
"b c":: a
	act 7 <<
!IFDEF A
x
!ENDIF
<<
.SYNC: a
b:
.SILENT:
.PRECIOUS: a
"""

def text(draw, n):
    k = mk.ints(draw, 0, 2)
    if k == 0: return "".join(mk.pick(draw, TOK) for _ in range(mk.ints(draw, 0, n)))
    if k == 1:
        ls = VALID.split("\n")
        r = list(ls[:mk.ints(draw, 1, len(ls))])
        for _ in range(mk.ints(draw, 1, 4)):
            i = mk.ints(draw, 0, len(r))
            op = mk.ints(draw, 0, 3)
            if op == 0: r.insert(i, "".join(mk.pick(draw, TOK) for _ in range(mk.ints(draw, 1, 4))))
            elif op == 1: r[i:i + mk.ints(draw, 1, 3)] = []
            elif op == 2 and i < len(r):
                j = mk.ints(draw, 0, len(r[i]))
                r[i] = r[i][:j] + mk.pick(draw, TOK) + r[i][j + mk.ints(draw, 0, 2):]
            else: r[i:i] = r[mk.ints(draw, 0, len(r)):][:mk.ints(draw, 1, 3)]
        return "\n".join(r)[:4000] + mk.pick(draw, ["", "\n"])
    s = VALID
    for _ in range(mk.ints(draw, 1, 5)):
        i = mk.ints(draw, 0, len(s))
        op = mk.ints(draw, 0, 4)
        if op == 0: s = s[:i]
        elif op == 1: s = s[:i] + s[i + mk.ints(draw, 1, 20):]
        elif op == 2: s = s[:i] + mk.pick(draw, TOK) + s[i:]
        elif op == 3: s = s[:i] + s[max(0, i - mk.ints(draw, 1, 60)):]
        else: s = s[:i] + mk.pick(draw, ["$", "(", ")", ":", "\"", "\\", "!", "<", "=", "\0", "\u00e4", "^", "#", " ", "\t"]) + s[i + 1:]
    return s[:6000]
def case(draw):
    return {"mk": text(draw, 60), "inc": text(draw, 15) if mk.chance(draw, 1, 2) else "D = 1\n", "cmd": "".join(mk.pick(draw, ARG + ["\n", " ", " ", "\"", "\0"]) for _ in range(mk.ints(draw, 0, 8))) if mk.chance(draw, 1, 4) else "a",
            "enc": mk.pick(draw, ["latin", "latin", "latin", "utf8", "utf16", "utf16odd", "raw"]), "args": [mk.pick(draw, ARG) for _ in range(mk.ints(draw, 1, 4))] if mk.chance(draw, 1, 3) else [],
            "env": [[mk.pick(draw, ENVN), mk.pick(draw, ENVV)] for _ in range(mk.ints(draw, 1, 3))] if mk.chance(draw, 1, 4) else [], "sched": mk.schedule(draw, 5), "files": mk.ints(draw, 0, 3)}

def enc(s, e):
    if e == "latin": return s.encode("latin1", "replace")
    if e == "utf8": return b"\xef\xbb\xbf" + s.encode("utf-8", "replace")
    if e == "raw": return s.encode("utf-8", "replace")
    return b"\xff\xfe" + s.encode("utf-16-le", "replace") + (b"\x00" if e == "utf16odd" else b"")

def judge(case, sim):
    e = case["enc"]
    b64 = lambda b: base64.b64encode(b).decode()
    files = [{"p": "C:/work/Makefile", "b": b64(enc(case["mk"], e))}, {"p": "C:/work/inc", "b": b64(enc(case["inc"], e if mk else e))}, {"p": "C:/work/cmd", "b": b64(case["cmd"].encode("latin1", "replace"))},
             {"p": "C:/work/sub/f", "d": ""}]
    if case["files"] & 1: files += [{"p": "C:/work/x.c", "d": ""}, {"p": "C:/work/src/y.c", "d": ""}]
    if case["files"] & 2: files += [{"p": "C:/work/" + n, "d": ""} for n in ("a", "b", "b c", "all", "x.obj")]
    env = {"LONG": "y" * 17000}; env.update((k, v) for k, v in case["env"])
    sc = {"argv": case["args"], "files": files, "env": env, "progs": {str(i): [["out", "o\n"]] for i in range(10)}, "schedule": case["sched"], "dirs": []}
    r = sim.run(sc)
    b = r.broken()
    if b: return b, {"broken"}, False
    if r.code not in (0, 1, 2, 3, 128): return "exit status %s" % r.code, set(), False
    if r.code and not r.etext().strip() and not any("X" in a.upper() for a in case["args"]) and not any("X" in v.upper() for k, v in case["env"]) and "X" not in case["cmd"].upper():
        return "exit status %s without any message" % r.code, set(), False
    tags = {"exit %s" % r.code}
    if r.starts(): tags.add("commands")
    import re
    m = re.search(r" line (\d+)", r.etext())
    if m: tags.add("error with line number")
    return None, tags, case["mk"].count("\n") >= 5 and bool(r.starts() or (m and int(m.group(1)) > 1))
