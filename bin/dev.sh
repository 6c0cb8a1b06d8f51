#!/bin/bash
# run.sh harness np [args]
cd /verif; H=$1; NP=$2; shift 2
OUT=$(python3 bin/build.py $H 2>&1) || { echo "$OUT" | grep -E "error|Error" | cut -c1-300 | head -8; exit 1; }
E=$(echo "$OUT"|head -1); BC=$(echo "$OUT"|grep "^$H "|awk '{print $2}')
rm -f /tmp/o_$H.json*
$E -np $NP -t ${T:-100} -j ${J:-8} -o /tmp/o_$H.json "$@" $BC
python3 - <<P
import json,glob
tot={};v=[];un={};re={}
for f in sorted(glob.glob('/tmp/o_$H.json*')):
    d=json.load(open(f))
    for k,x in d.items():
        if isinstance(x,(int,float)): tot[k]=max(tot.get(k,0),x) if k=='wall_s' else tot.get(k,0)+x
    v+=d['violations']
    for k,x in d['unsupported_msgs'].items(): un[k]=un.get(k,0)+x
    for k,x in d['reached'].items(): re[k]=re.get(k,0)+x
print({k:round(x,2) for k,x in tot.items()}); print(un); print({k:v for k,v in re.items() if not k.startswith('check:')})
seen=set()
for x in v:
    k=(x['kind'],x['msg'],x['where'])
    if k in seen: continue
    seen.add(k); print('VIOL',x['kind'],x['msg'],x['where'],'rank',x['rank']); print('   ',' '.join('%s=%s'%q for q in x['inputs'].items())); print('    '+'\n    '.join(x['stack'][:8]))
P
