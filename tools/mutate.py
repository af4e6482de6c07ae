#!/usr/bin/env python3
"""Systematic mutation of /repo's sources: mutate.py OUT.jsonl COUNT SEED [FILE-SUBSTRING]

Works in copies (VCOPY of /verif, /tmp/mm* of /repo); every mutant that builds is run against
all checks with few cases until one of them reports it. OUT gets one line per mutant."""
import json, os, random, re, shutil, subprocess, sys, threading
from collections import defaultdict
OUT, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ONLY = sys.argv[4] if len(sys.argv) > 4 else ""
VC = os.environ.get("VCOPY", "/tmp/vcopy")
BASE = os.environ.get("MUTBASE", "/tmp/mbase")
CASES = os.environ.get("MUTCASES", "1200")
SLOTS = int(os.environ.get("SLOTS", "4"))
CHECKS = sorted(f[:-3] for f in os.listdir(VC + "/checks") if re.match(r"C\d\d\.py$", f))

def mutants(path, rel):
    src = open(path, encoding="latin-1").read().split("\n")
    res = []
    incomment = False
    for i, l in enumerate(src):
        s = l.strip()
        if "/*" in s: incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if not s or s.startswith(("//", "#", "*", "Q_", "namespace", "using", "class", "struct", "case ", "default")):
            continue
        if "qDebug" in s or "debug" in s.lower():
            continue
        def add(new, op):
            if new != l:
                res.append((rel, i, l, new, op))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\)\s*\{?)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "neg")
            for op in ("&&", "||"):
                parts = re.split(r"\s*%s\s*" % re.escape(op), m.group(2))
                if len(parts) > 1 and all(p.count("(") == p.count(")") for p in parts):
                    for k in range(len(parts)):
                        add(m.group(1) + (" %s " % op).join(parts[:k] + parts[k + 1:]) + m.group(3), "dropterm")
        if re.match(r"^\s+[\w.>\-\[\]()]+(\(.*\)| [-+|]?= .*|\+\+|--);$", l) and not re.match(r"^\s+(const|static|return|delete|throw|else|int|bool|Q\w+|uint|size_t|DWORD|auto) ", l):
            add(re.match(r"^\s*", l).group(0) + ";", "del")
        if re.match(r"^\s+(break|continue);$", l):
            add(";", "del")
        for a, b in (("&&", "||"), ("||", "&&"), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "),
                     (" == ", " != "), (" != ", " == "), (" + 1", ""), (" - 1", ""), ("++", "--"), ("true", "false"), ("false", "true"),
                     ("CaseInsensitive", "CaseSensitive"), ("prepend", "append"), ("append", "prepend"), ("first()", "last()"),
                     ("takeFirst", "takeLast"), ("left(", "right("), ("indexOf", "lastIndexOf"), ("lastIndexOf", "indexOf"),
                     ("startsWith", "endsWith"), ("endsWith", "startsWith"), (".trimmed()", ""), (".toLower()", ""), (".toUpper()", ""),
                     ("+=", "=")):
            for m in re.finditer(r"(?<![\w])" + re.escape(a) + r"(?![\w])" if a[0].isalpha() and a[-1].isalpha() else re.escape(a), l):
                if a == "indexOf" and l[max(0, m.start() - 4):m.start()] == "last": continue
                add(l[:m.start()] + b + l[m.end():], a.strip() + ">" + b.strip())
        for m in re.finditer(r"(?<![\w.])([0-9]+)(?![\w.])", l):
            if '"' in l[:m.start()]: continue
            add(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "num+1")
            if int(m.group(1)) > 0: add(l[:m.start()] + str(int(m.group(1)) - 1) + l[m.end():], "num-1")
        for m in re.finditer(r"!(?=[\w(])", l):
            add(l[:m.start()] + l[m.end():], "dropnot")
    return res

allm = []
for d in ("jomlib", "app"):
    for f in sorted(os.listdir(BASE + "/src/" + d)):
        if f.endswith((".cpp", ".h")) and f not in ("ppexpr_grammar.cpp", "jomprocess_qt.cpp", "ppexpr_grammar_p.h") and ONLY in f:
            allm += mutants("%s/src/%s/%s" % (BASE, d, f), "src/%s/%s" % (d, f))
done = set()
kills = defaultdict(lambda: defaultdict(int))
if os.path.exists(OUT):
    for l in open(OUT):
        e = json.loads(l); done.add((e["f"], e["line"], e["new"]))
        if e["res"] in CHECKS: kills[e["f"]][e["res"]] += 1
random.Random(SEED).shuffle(allm)
todo = [m for m in allm if (m[0], m[1] + 1, m[3]) not in done][:COUNT]
print("%d possible mutants, running %d" % (len(allm), len(todo)), flush=True)
lock = threading.Lock()
def slot(k):
    R, B = "/tmp/mm%d" % k, "/tmp/mmb%d" % k
    vc = "/tmp/mmv%d" % k
    shutil.rmtree(R, ignore_errors=True); shutil.copytree(BASE, R, ignore=shutil.ignore_patterns(".git", "build*"))
    shutil.rmtree(vc, ignore_errors=True); shutil.copytree(VC, vc, ignore=shutil.ignore_patterns(".git", "build", "evidence", "seeded"))
    env = dict(os.environ, SIMJOM_REPO=R, SIMJOM_BUILD=B, VERIF_SEED="1", VERIF_TIER="quick", VERIF_CASES=CASES, VERIF_WORKERS=os.environ.get("MUTWORKERS", "1"))
    while True:
        with lock:
            if not todo: return
            rel, i, old, new, op = todo.pop()
            order = sorted(CHECKS, key=lambda c: (-kills[rel][c], random.random()))
        p = R + "/" + rel
        text = open(p, encoding="latin-1").read()
        lines = text.split("\n"); lines[i] = new
        open(p, "w", encoding="latin-1").write("\n".join(lines))
        e = {"f": rel, "line": i + 1, "old": old.strip(), "new": new, "op": op}
        r = subprocess.run([sys.executable, VC + "/sim/build.py", "plain"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            e["res"] = "nobuild"
        else:
            e["res"] = "SURVIVED"
            # all checks with few cases, then with many
            for c, n in [(c, "150") for c in order] + [(c, CASES) for c in order]:
                try:
                    r = subprocess.run(["./check", c, "quick"], cwd=vc, env=dict(env, VERIF_CASES=n), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 1:
                    e["res"] = c
                    e["msg"] = r.stdout.decode("utf-8", "replace").split("\n")[0][:200]
                    break
                elif rc:
                    e["res"] = "rc%d %s" % (rc, c)
            with lock:
                if e["res"] in CHECKS: kills[rel][e["res"]] += 1
        open(p, "w", encoding="latin-1").write(text)
        with lock:
            open(OUT, "a").write(json.dumps(e) + "\n")
ts = [threading.Thread(target=slot, args=(k,)) for k in range(SLOTS)]
for t in ts: t.start()
for t in ts: t.join()
