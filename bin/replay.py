#!/usr/bin/env python3
"""replay.py DIR : run a recorded counterexample against the compiled code (and, with --engine, in the engine)."""
import sys,json,os
sys.argv[1:]=sys.argv[1:]; d=sys.argv[1]
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import check
v=json.load(open(d+'/violation.json'))
st,tx=check.NAT.run(v['harness'],v['np'],v['violation']['inputs'],v['params'],order=v['params'].get('order',0)%2)
print(tx[-4000:]); print('native run:',st)
if '--engine' in sys.argv or st=='ok':
    eng,b=check.B.build([v['harness']]); m=check.run_engine(eng,b[v['harness']],dict(h=v['harness'],np=v['np'],p=v['params']),['-in',d+'/inputs'],jobs=1)
    for w in m.get('violations',[]): print('engine:',w['kind'],w['msg'],w['where']); print('  '+'\n  '.join(w['stack']))
    st='fail' if m.get('violations') else st
sys.exit(0 if st=='ok' else 1)
