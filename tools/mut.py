#!/usr/bin/env python3
"""mut.py FILE  : FILE defines M = [(check, file, old, new), ...]; runs check against mutated copy"""
import subprocess, sys, shutil, os
d={}; exec(open(sys.argv[1]).read(), d)
sel=sys.argv[2:]
R="/tmp/mrepo"; BASE=os.environ.get("MUTBASE","/repo")
for n,(chk,f,old,new) in enumerate(d["M"]):
    if sel and str(n) not in sel: continue
    shutil.rmtree(R, ignore_errors=True); shutil.copytree(BASE, R, ignore=shutil.ignore_patterns(".git","build*"))
    p=R+"/src/"+f; s=open(p).read()
    if s.count(old)!=1: print(n,chk,"MATCHES",s.count(old)); continue
    open(p,"w").write(s.replace(old,new))
    env=dict(os.environ, SIMJOM_REPO=R, SIMJOM_BUILD="/tmp/mbuild", VERIF_SEED="1", VERIF_TIER="quick")
    r=subprocess.run(["./check",chk,"quick"],cwd="/verif",env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print(n,chk,"CAUGHT" if r.returncode==1 else "MISSED %d"%r.returncode, "|", " / ".join(r.stdout.strip().splitlines()[-3:])[:260], flush=True)
