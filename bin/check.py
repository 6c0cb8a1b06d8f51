#!/usr/bin/env python3
"""check.py Pxx [--tier quick|thorough] [--strict] : decide one property with the symbolic engine on /repo's current tree."""
import os, sys, json, time, subprocess, glob, hashlib, shutil, threading, concurrent.futures as cf, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(V,'bin'))
import build as B
from props import PROPS
CAP=780.0
t0=time.time()
def left(): return CAP-(time.time()-t0)
# ------------------------------------------------------------------ native build and replay
NENV=dict(os.environ,OMPI_CXX='clang++-18',OMPI_CC='clang-18',OMPI_ALLOW_RUN_AS_ROOT='1',OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',OMPI_MCA_rmaps_base_oversubscribe='1',OMPI_MCA_hwloc_base_binding_policy='none',OMPI_MCA_plm='isolated',OMPI_MCA_btl='self,vader',OMPI_MCA_btl_vader_single_copy_mechanism='none',OMPI_MCA_mpi_yield_when_idle='1',ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=78:alloc_dealloc_mismatch=0',HOME='/root')
class Native:
    def __init__(s): s.objs=None; s.bins={}; s.lock=threading.Lock()
    def cc(s,src,std,extra=()):
        cpp=src.endswith('.cpp'); hh=s.hh; cmd=['mpicxx' if cpp else 'mpicc']+([std] if cpp else [])+['-O0','-g1','-fsanitize=address','-fno-access-control' if cpp else '-DVF_C','-w','-c']+list(extra)+['-I'+os.path.join(V,'harness')]+['-I'+os.path.join(B.R,d) for d in B.INC]+['-I/usr/include/trilinos']+B.DEFS
        key=B.h(B.rd(src),src,hh,' '.join(cmd)); out=os.path.join(B.B,'nat',key+'.o')
        if not os.path.exists(out):
            tmp=out+'.%d.%d.tmp'%(os.getpid(),threading.get_ident()); B.sh(cmd+[src,'-o',tmp],env=NENV); os.rename(tmp,out)
        return out
    def get(s,harness):
        with s.lock:
            if harness in s.bins: return s.bins[harness]
            os.makedirs(os.path.join(B.B,'nat'),exist_ok=True); s.hh=B.headers_hash(); vi=['-I'+os.path.join(B.B,'nat','inc')]
            os.makedirs(os.path.join(B.B,'nat','inc'),exist_ok=True); shutil.copy(os.path.join(V,'models/include/vf.h'),os.path.join(B.B,'nat','inc','vf.h'))
            with cf.ThreadPoolExecutor(8) as ex:
                if s.objs is None:
                    fs=[ex.submit(s.cc,x,'-std=gnu++11') for x in B.repo_sources()]+[ex.submit(s.cc,os.path.join(V,'models',m),'-std=gnu++17',vi) for m in ('vf_native.cpp','ext_model.c')]
                fh=ex.submit(s.cc,os.path.join(V,'harness',harness+'.cpp'),'-std=gnu++17',vi)
                if s.objs is None: s.objs=[f.result() for f in fs]
                ho=fh.result()
            out=os.path.join(B.B,'nat',harness+'-'+B.h(ho,*s.objs)); 
            if not os.path.exists(out): tmp=out+'.%d.tmp'%os.getpid(); B.sh(['mpicxx','-fsanitize=address',ho]+s.objs+['-o',tmp],env=NENV); os.rename(tmp,out)
            s.bins[harness]=out; return out
    def run(s,harness,np,inputs,params,tmo=20,order=0):
        """-> (status, text): ok | fail | range | timeout"""
        exe=s.get(harness); d=tempfile.mkdtemp(prefix='vfrun')
        try:
            os.mkdir(os.path.join(d,'dir')); wr(os.path.join(d,'in'),inputs); wr(os.path.join(d,'par'),params)
            env=dict(NENV,VF_INPUT=d+'/in',VF_PARAMS=d+'/par',VF_ALARM=str(tmo),VF_ORDER=str(order),TMPDIR='/tmp')
            try: r=subprocess.run(['timeout','-k','5',str(tmo+15),'mpirun','-np',str(np),exe],cwd=d,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,stdin=subprocess.DEVNULL)
            except Exception as e: return 'error',str(e)
            tx=r.stdout.decode('latin1')
            if 'VF-FAIL' in tx or 'AddressSanitizer' in tx or 'Assertion' in tx or 'terminate called' in tx or 'VF-SIGNAL' in tx: return 'fail',tx
            if 'VF-ALARM' in tx or r.returncode==124: return 'timeout',tx
            if 'VF-RANGE' in tx or 'VF-ASSUME-FALSE' in tx: return 'range',tx
            if r.returncode==0 or 'VF-END' in tx: return 'ok',tx
            if 'signal' in tx or 'exited on' in tx: return 'fail',tx
            return 'error',tx
        finally: shutil.rmtree(d,ignore_errors=True)
def wr(p,d):
    with open(p,'w') as f:
        for k,v in d.items(): f.write('%s %d\n'%(k,v))
NAT=Native()
# ------------------------------------------------------------------ engine
def run_engine(eng,bc,c,extra=(),jobs=None,tlim=None,stop=None):
    d=tempfile.mkdtemp(prefix='vse'); out=os.path.join(d,'o')
    try:
        j=jobs or c.get('j',1); t=min(tlim or c.get('t',120),max(5,left()))
        cmd=[eng,'-np',str(c['np']),'-o',out,'-j',str(j),'-t',str(t),'-repo',os.path.join(B.R,'')]
        for k,v in c.get('p',{}).items(): cmd+=['-p','%s=%d'%(k,v)]
        if 'steps' in c: cmd+=['-steps',str(c['steps'])]
        cmd+=list(extra)+[bc]; err=''
        log=open(out+'.log','w+b'); pr=subprocess.Popen(cmd,stdout=log,stderr=subprocess.STDOUT,start_new_session=True); end=time.time()+t+60; rc=None
        while rc is None:
            try: rc=pr.wait(timeout=0.05 if time.time()-end<-t-58 else 0.3)
            except subprocess.TimeoutExpired:
                if time.time()>end or (stop is not None and stop.is_set()):
                    err='engine time-out' if time.time()>end else 'stopped'
                    try: os.killpg(pr.pid,9)
                    except OSError: pass
                    pr.wait(); rc=124
        if not err: log.seek(0); err=log.read().decode('latin1')[-500:]
        log.close()
        m={}
        for f in sorted(x for x in glob.glob(out+'*') if not x.endswith('.log')):
            try: x=json.load(open(f))
            except Exception: rc=rc or 5; continue
            merge(m,x)
        m['rc']=rc; m['err']=err
        return m
    finally: shutil.rmtree(d,ignore_errors=True)
def merge(m,x):
    for k,v in x.items():
        if k in('wall_s','symbols'): m[k]=max(m.get(k,0),v)
        elif isinstance(v,(int,float)): m[k]=m.get(k,0)+v
        elif k in('reached','unsupported_msgs'):
            q=m.setdefault(k,{})
            for a,b in v.items(): q[a]=q.get(a,0)+b
        elif k in('violations','samples'): m.setdefault(k,[]).extend(v)
        elif k=='functions':
            q=m.setdefault(k,{})
            for f in v: z=(f['file'],f['line'],f['f']); o=q.get(z,(0,0)); q[z]=(max(o[0],f['hit']),f['total'])
        elif k=='lines':
            q=m.setdefault(k,{})
            for f,l in v.items(): h=q.setdefault(f,[set(),set()]); h[0].update(l['hit']); h[1].update(l['miss'])
def cname(c): return '%s/np%d%s'%(c['h'],c['np'],''.join(' %s=%d'%kv for kv in c.get('p',{}).items()))
def sched_config(c): p=c.get('p',{}); return p.get('order',0)==2 or p.get('late',0) or p.get('sched',0) or p.get('slow',0)
def confirm(pid,eng,bc,c,v):
    """True when the counterexample is real: reproduced by the compiled code, or (schedules, undefined reads) by a concrete re-run."""
    d=tempfile.mkdtemp(prefix='vfrep'); 
    try:
        wr(os.path.join(d,'in'),v['inputs'])
        m=run_engine(eng,bc,c,['-in',os.path.join(d,'in')],jobs=1,tlim=120)
        again=any(w['kind']==v['kind'] and w['msg']==v['msg'] for w in m.get('violations',[]))
    finally: shutil.rmtree(d,ignore_errors=True)
    st='?'
    try:
        order=c.get('p',{}).get('order',0)
        for o in ([order%2]*2+[1-order%2] if c['np']>1 else [0]):
            st,tx=NAT.run(c['h'],c['np'],v['inputs'],c.get('p',{}),tmo=20,order=o)
            if st=='fail' or (st=='timeout' and v['kind'] in('deadlock','hang','recursion')): return True,'reproduced by the compiled code: '+next((l for l in tx.splitlines() if 'VF-FAIL' in l or 'ERROR: AddressSanitizer' in l or 'Assertion' in l or 'VF-ALARM' in l or 'VF-SIGNAL' in l),st)
    except Exception as e: st='native build failed: %s'%str(e)[-300:]
    if not again: return False,'not reproduced (%s)'%st
    if sched_config(c): return True,'reproduced by a concrete re-run under the recorded schedule (native run: %s)'%st
    if v['kind'] in('uninitialised','memory','deadlock','interface','leak'): return True,'reproduced by a concrete re-run (native run: %s)'%st
    return False,'concrete re-run fails but the compiled code does not (%s)'%st
def known():
    p=os.path.join(V,'known_findings.json')
    return json.load(open(p)).get('findings',[]) if os.path.exists(p) else []
def main():
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick'); strict='--strict' in sys.argv
    if '--tier' in sys.argv: tier=sys.argv[sys.argv.index('--tier')+1]
    if tier=='thorough':
        global CAP; CAP=float(os.environ.get('VF_CAP','7200'))
    P=PROPS[pid]; cfgs=list(P['quick'])+(list(P.get('thorough',[])) if tier=='thorough' else [])
    if os.environ.get('VF_FAST'): fast=json.load(open(os.environ['VF_FAST'])); cfgs=[c for c in cfgs if fast.get(pid+' '+cname(c),9)<3]  # development: only the quick configurations
    seed=int(os.environ.get('VERIF_SEED','1')); notes=[]; ev={'property':pid,'tier':tier,'seed':seed,'level':'model_checking'}
    tot={}; per=[]; viol=[]; sus=[]; kf=[]; samples=[]; validated=0; mism=0
    try: eng,bcs=B.build(sorted({c['h'] for c in cfgs}))
    except Exception as e: # does not compile for the engine: nothing can be said
        print('INCOMPLETE property=%s build failed: %s'%(pid,str(e)[-1500:])); eng=None; notes.append('build failed: '+str(e)[-300:])
    if eng:
        done=threading.Event(); lk=threading.Lock(); KN=[k for k in known() if k['property']==pid]
        seen=set()
        def sift(c,vs):
            for v in vs:
                k=next((k for k in KN if k['harness']==c['h'] and k['kind']==v['kind'] and k['msg']==v['msg'] and k.get('where','')==v['where'].split(':')[0] and all(c.get('p',{}).get(a)==b for a,b in k.get('params',{}).items())),None)
                if k:
                    with lk:
                        if k['text'] not in kf: kf.append(k['text']); print('KNOWN-FINDING: property=%s %s'%(pid,k['text']),flush=True)
                    continue
                if done.is_set(): return True
                key=(cname(c),v['kind'],v['msg'],str(v['inputs']))
                if key in seen: continue
                seen.add(key); ok,how=confirm(pid,eng,bcs[c['h']],c,v)
                with lk:
                    if ok and not done.is_set(): done.set(); viol.append((c,v,how))
                    elif not ok: sus.append((c,v,how)); notes.append('%s: unconfirmed %s "%s" at %s: %s'%(cname(c),v['kind'],v['msg'],v['where'],how))
                if ok: return True
            return False
        def one(c):
            if done.is_set() or left()<10:
                with lk: notes.append('skipped '+cname(c)); 
                return
            m=run_engine(eng,bcs[c['h']],c,['-maxviol','1'],stop=done); early=None
            if m.get('violations') and not done.is_set(): # one counterexample is enough when it is real and not listed; otherwise explore the rest too
                early=sift(c,m['violations'])
                if not early: m=run_engine(eng,bcs[c['h']],c,['-maxviol','12'],stop=done)
            if done.is_set() and m['rc']==124: return
            with lk:
                merge(tot,{k:v for k,v in m.items() if k not in('rc','err','violations','samples','functions','lines','wall_s','symbols')})
                for k in('functions','lines'):
                    if k in m:
                        q=tot.setdefault(k,{})
                        for z,o in m[k].items():
                            if k=='functions': w=q.get(z,(0,0)); q[z]=(max(w[0],o[0]),o[1])
                            else: h=q.setdefault(z,[set(),set()]); h[0].update(o[0]); h[1].update(o[1])
                inc=[]
                if m.get('rc'): inc.append('engine ended with %s %s'%(m['rc'],m['err']))
                if m.get('unexplored'): inc.append('%d states unexplored (time)'%m['unexplored'])
                if m.get('unknown'): inc.append('%d solver answers unknown'%m['unknown'])
                if m.get('unsupported'): inc.append('unmodelled: '+'; '.join(list(m['unsupported_msgs'])[:3]))
                if not m.get('violations'):
                    for k in c.get('need',['end']):
                        if not m.get('reached',{}).get(k): inc.append('never reached "%s"'%k)
                per.append({'config':cname(c),'paths':m.get('paths',0),'completed':m.get('completed',0),'instructions':m.get('instructions',0),'queries':m.get('queries',0),'solver_s':round(m.get('solver_s',0),3),'wall_s':round(m.get('wall_s',0),2),'incomplete':inc})
                for i in inc: notes.append(cname(c)+': '+i)
                if m.get('samples'): samples.append((c,m['samples'][-1])); 
            if early is None: sift(c,m.get('violations',[]))
        small=[c for c in cfgs if c.get('j',1)==1]; big=[c for c in cfgs if c.get('j',1)>1]
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one,small))
        for c in big: one(c)
        if not viol: # conformance: the compiled code on inputs the engine explored to the end
            rng=(seed*7919)%max(1,len(samples)); pick=[samples[(rng+i*max(1,len(samples)//6))%len(samples)] for i in range(min(len(samples),3 if tier=='quick' else 12))] if samples else []
            try:
                for h in sorted({c['h'] for c,_ in pick}): NAT.get(h)
                def rp(x):
                    for _ in range(2):
                        r=NAT.run(x[0]['h'],x[0]['np'],x[1],x[0].get('p',{}),tmo=30)
                        if r[0]=='ok': break
                    return x,r
                with cf.ThreadPoolExecutor(2) as ex:
                    for x,(st,tx) in ex.map(rp,pick):
                        if st=='ok': validated+=1
                        else: mism+=1; notes.append('conformance: %s %s on %s: %s'%(cname(x[0]),st,x[1],tx[-300:]))
            except Exception as e: notes.append('native build: '+str(e)[-300:])
    for c,v,how in viol:
        h=hashlib.sha256(json.dumps([cname(c),v['kind'],v['msg'],v['inputs']]).encode()).hexdigest()[:10]; d=os.path.join(V,'replays',pid+'-'+h); os.makedirs(d,exist_ok=True)
        wr(d+'/inputs',v['inputs']); wr(d+'/params',c.get('p',{}))
        json.dump({'property':pid,'harness':c['h'],'np':c['np'],'params':c.get('p',{}),'violation':v,'confirmation':how},open(d+'/violation.json','w'),indent=1)
        print('%s on process %s: %s at %s\n  inputs: %s\n  %s\n  %s'%(v['kind'],v['rank'],v['msg'],v['where'],' '.join('%s=%s'%q for q in v['inputs'].items()),'\n  '.join(v['stack'][:10]),how))
        print('replay with: python3 %s/bin/replay.py %s'%(V,d))
        print('VIOLATION property=%s replay=%s'%(pid,d),flush=True)
    fn=tot.get('functions',{}); own=[f for f in P['files']]; enc=sorted('%s:%d %s (%d/%d instructions reached)'%(z[0],z[1],z[2].split('(')[0][:80],o[0],o[1]) for z,o in fn.items() if any(z[0].startswith(x) for x in own))
    cov={'states':tot.get('paths',0),'transitions':tot.get('instructions',0),'traces_validated_against_impl':validated,'conformance_mismatches':mism,'exhaustive':not any(x['incomplete'] for x in per) and bool(per) and not viol,
      'explanation':P['bounds'],'paths_run_to_completion':tot.get('completed',0),'assertions_evaluated':tot.get('checks',0),'assertions_with_symbolic_condition':tot.get('checks_symbolic',0),'solver_queries':tot.get('queries',0),'solver_sat':tot.get('sat',0),'solver_unsat':tot.get('unsat',0),'solver_unknown':tot.get('unknown',0),'solver_s':round(tot.get('solver_s',0),3),
      'functions_encoded':len(fn),'functions_of_this_property':enc[:150],'configurations':per,'reachability_witnesses':{k:v for k,v in tot.get('reached',{}).items() if not k.startswith('check:')},'assertions':{k[6:]:v for k,v in tot.get('reached',{}).items() if k.startswith('check:')},
      'samples':[{'config':cname(c),'inputs':i} for c,i in samples[:8]] or [{'note':'none completed'}],'notes':notes,'known_findings':kf}
    ev.update(coverage=cov,assumptions=P.get('assumptions',[])+BASE_ASSUME,wall_s=round(time.time()-t0,2),violations=len(viol))
    E=os.environ.get('VF_EVID',os.path.join(V,'evidence')); os.makedirs(E,exist_ok=True); tmp=os.path.join(E,'.%s.%d'%(pid,os.getpid())); json.dump(ev,open(tmp,'w'),indent=1); os.rename(tmp,os.path.join(E,pid+'.json'))
    if '--cov' in sys.argv:
        json.dump({f:[sorted(a),sorted(b-a)] for f,(a,b) in tot.get('lines',{}).items()},open(sys.argv[sys.argv.index('--cov')+1],'w'))
    for n in notes[:12]: print('INCOMPLETE property=%s %s'%(pid,n))
    print('%s %s: %d configurations, %d paths, %d instructions, %d assertions, %d queries (%.1f s in the solver), %d native replays, %.1f s'%(pid,'VIOLATED' if viol else 'held',len(per),cov['states'],cov['transitions'],cov['assertions_evaluated'],cov['solver_queries'],cov['solver_s'],validated,time.time()-t0))
    if viol: return 1
    if strict and notes: return 3
    return 0
BASE_ASSUME=['clang 18 -O1 bitcode of /repo stands for the code the compilers generate (x86-64 data layout)','allocation never fails','the MPI model: reliable, non-overtaking channels, synchronous sends, collectives matched by call order per communicator','floating-point inputs are integers small enough for exact double arithmetic, values from small tables, or (tags, files, messages) arbitrary bit patterns that are only moved; no symbolic rounding','formatted output to stdout/stderr has no effect']
if __name__=='__main__':
    try: rc=main()
    except Exception as e:
        import traceback; traceback.print_exc(); print('INCOMPLETE property=%s internal error: %s'%(sys.argv[1] if len(sys.argv)>1 else '?',e)); rc=3 if '--strict' in sys.argv else 0
    sys.stdout.flush(); sys.exit(rc)
