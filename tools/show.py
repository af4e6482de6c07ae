import sys,json
sys.path.insert(0,'/verif/lib'); sys.path.insert(0,'/verif/checks'); sys.path.insert(0,'/verif/sim')
import importlib, sim as S
d=json.load(open(sys.argv[1])); m=importlib.import_module(d['property'])
b=S.build(getattr(m,'FLAVOUR','plain')); s=S.Sim(b)
orig=s.run
def run(sc):
    r=orig(sc)
    print('=== argv',sc.get('argv'),{k:v for k,v in sc.items() if k not in('argv','files')})
    for f in sc.get('files',[]): print('--',f['p']); import base64; print(f['d'] if 'd' in f else __import__('re').sub(rb'p{20,}',lambda m:b'<%d>'%len(m.group()),base64.b64decode(f['b']).replace(b'p\0',b'p'))[-600:])
    print('>>> out'); print(r.text()); print('>>> err'); print(r.etext())
    for e in r.events: print(json.dumps(e)[:300])
    return r
s.run=run
print(m.judge(d['case'],s))
