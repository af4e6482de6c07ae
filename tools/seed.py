#!/usr/bin/env python3
"""Makes a planted bug under /verif/seeded/ID and confirms it.

  seed.py make SPEC.py     SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python text)
  seed.py verify [ID..]    demo on the clean tree and on the changed one, stable tests on the changed one
  seed.py check [ID..]     runs the property's check against the changed tree
DEMO sees run(scenario) -> Reply and must call fail(text) if the behaviour is wrong."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO_SH = '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
HEAD = '''import os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import sim as simlib
def fail(text):
    print("FAILED: " + text)
    sys.exit(1)
def main():
    with tempfile.TemporaryDirectory() as t:
        env = dict(os.environ, SIMJOM_REPO=os.getcwd(), SIMJOM_BUILD=t)
        r = subprocess.run([sys.executable, os.path.join(here, "sim", "build.py"), "plain"], env=env, stdout=subprocess.PIPE)
        if r.returncode:
            print("cannot build the simulated machine")
            sys.exit(2)
        s = simlib.Sim(r.stdout.decode().strip().splitlines()[-1])
        try:
            demo(s.run)
        finally:
            s.close()
    print("ok")

'''
def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def clean():
    r = sh("git -C /repo checkout -- . && git -C /repo status --porcelain")
    assert r.stdout.strip() == "", r.stdout
def make(spec):
    d = {}
    exec(open(spec).read(), d)
    clean()
    p = os.path.join(S, d["ID"])
    os.makedirs(p, exist_ok=True)
    try:
        for f, old, new in d["EDITS"]:
            f = "/repo/src/" + f
            s = open(f).read()
            assert s.count(old) == 1, "%d matches in %s: %r" % (s.count(old), f, old)
            open(f, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
    finally:
        clean()
    open(os.path.join(p, "patch.diff"), "wb").write(diff)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(p, "meta.json"), "w"), indent=1)
    open(os.path.join(p, "demo.py"), "w").write(HEAD + d["DEMO"].strip() + "\n\nmain()\n")
    open(os.path.join(p, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(p, "demo.sh"), 0o755)
    sync(d["ID"])
    return d["ID"]
def sync(i):
    p = os.path.join(S, i)
    shutil.rmtree(os.path.join(p, "sim"), ignore_errors=True)
    shutil.copytree(os.path.join(V, "sim"), os.path.join(p, "sim"), ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(os.path.join(V, "lib", "sim.py"), os.path.join(p, "sim.py"))
def applied(i):
    clean()
    r = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
    assert r.returncode == 0, r.stdout
def demo(i):
    t = tempfile.mkdtemp()
    try:
        q = os.path.join(t, "d")
        shutil.copytree(os.path.join(S, i), q, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        return sh("cd /repo && bash %s/demo.sh" % q)
    finally:
        shutil.rmtree(t)
def verify(i):
    clean()
    a = demo(i)
    try:
        applied(i)
        b = demo(i)
        sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base.get("passed") or base.get("stable") or base.get("tests") or base
        got = set(json.load(open("/tmp/seedtest.json"))["passed"])
        lost = [n for n in names if n not in got]
    finally:
        clean()
    ok = a.returncode == 0 and b.returncode == 1 and not lost
    print(i, "OK" if ok else "BAD", "clean=%d %s" % (a.returncode, a.stdout.strip()[-300:] if a.returncode else ""),
          "patched=%d %s" % (b.returncode, b.stdout.strip()[-200:]), "lost tests: %s" % lost[:3] if lost else "")
    return ok
def check(i):
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    try:
        applied(i)
        r = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick ./check %s quick" % (V, prop))
    finally:
        clean()
    print(i, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED (%d)" % r.returncode, "|", " / ".join(r.stdout.strip().splitlines()[-3:])[:300])
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        for f in a[1:]:
            i = make(f)
            if verify(i): check(i)
    else:
        ids = a[1:] or sorted(os.listdir(S))
        for i in ids:
            if a[0] == "sync": sync(i)
            else: (verify if a[0] == "verify" else check)(i)
