#!/usr/bin/env python3
"""Assemble DESIGN.md from doc/, properties.jsonl, props.py, known_findings.json and seeded/*/meta.json."""
import json,os,sys,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[os.path.join(V,'bin'),os.path.join(V,'doc')]
from props import PROPS
from how import HOW
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
out=[open(V+'/doc/head.md').read().rstrip(),'\n## 4. The properties\n\nAll are decided by solver-based symbolic execution of the real code (section 1); level: bounded model checking. `nv`, `ne`, `k`, `np`: vertices, edges, pins per edge, processes.\n']
for p in P:
    i=p['id']; q=PROPS[i]; w=HOW[i]
    np_=sorted({c['np'] for c in q['quick']}); nv=sorted({c['p'].get('nv') for c in q['quick']+q['thorough'] if c['p'].get('nv')}); 
    out.append('### %s %s\n\n%s\n'%(i,p['title'],p['statement']))
    out.append('* *Specified:* %s\n* *Oracle:* %s\n* *Bounds:* %s %d quick and %d thorough configurations, %s processes%s.%s\n* *Outside:* %s%s\n* *Beyond the tests:* %s\n'%(w[0],w[1],q['bounds'],len(q['quick']),len(q['thorough']),('%d to %d'%(np_[0],np_[-1]) if len(np_)>1 else str(np_[0])),(', up to %d vertices'%nv[-1] if nv else ''),'',w[2],(' Assumed: '+'; '.join(q['assumptions'])+'.') if q['assumptions'] else '',p['why_tests_cant']))
t=open(V+'/doc/tail.md').read()
k=json.load(open(V+'/known_findings.json'))
fx=['* %s `%s` %s'%re.match(r'fixed: property=(\S+) (\S+) (.*)',x).groups() for x in k['fixed']]
rows=['| property | planted bug | needs | caught by |','|---|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json'),key=lambda f:(json.load(open(f))['property'],f)):
    m=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(m['property'],os.path.basename(os.path.dirname(f)),m['needs'].replace('|','/'),m.get('caught_by',m['property'])))
out.append(t.replace('@FIXED@','\n'.join(fx)).replace('@SEEDS@','\n'.join(rows)))
open(V+'/DESIGN.md','w').write('\n'.join(out)); print(len('\n'.join(out)),'characters')
