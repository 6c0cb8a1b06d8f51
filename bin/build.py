#!/usr/bin/env python3
"""Compile the engine, /repo's current sources (to LLVM bitcode) and harnesses. Content-addressed cache in /verif/build."""
import os, sys, subprocess, hashlib, glob, concurrent.futures as cf, shutil, fcntl, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=os.environ.get('VF_REPO','/repo'); B=os.path.join(V,'build')
INC=['pcu','pcu/reel','pcu/noto','agi','support','partition','partition/Diffusive','partition/Diffusive/src','partition/Metrics','partition/Multilevel','partition/Coloring','interfaces']
DEFS=['-DENGPAR_HAS_MALLINFO2','-DHAS_PARMETIS','-DHAS_ZOLTAN','-DLOCAL_ID_FTYPE=C_INT32_T','-DLOCAL_ID_TYPE=int32_t']
CL='/usr/lib/llvm-18/bin/'
def sh(a,**k):
    r=subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
    if r.returncode: raise RuntimeError('%s\n%s'%(' '.join(a),r.stdout[-4000:]))
    return r.stdout
def repo_sources():
    s=[]
    for p in ('pcu/*.c','pcu/reel/*.c','pcu/noto/*.c','agi/*.cpp','support/*.cpp','partition/*.cpp','partition/*/*.cpp','partition/*/src/*.cpp','interfaces/binGraph.cpp','interfaces/cengpar.cpp'):
        s+=sorted(glob.glob(os.path.join(R,p)))
    return [x for x in s if not x.endswith('engpar_version.cpp') and 'kokkos' not in x.lower()]
def h(*parts):
    m=hashlib.sha256()
    for p in parts: m.update(p if isinstance(p,bytes) else p.encode()); m.update(b'\0')
    return m.hexdigest()[:24]
def rd(p):
    with open(p,'rb') as f: return f.read()
def headers_hash():
    hs=[]
    for d in INC+['']:
        for e in ('*.h','*.hpp','*.tpp'): hs+=glob.glob(os.path.join(R,d,e))
    hs+=glob.glob(os.path.join(V,'models/include/*'))+glob.glob(os.path.join(V,'harness/*.hpp'))
    return h(*[x for p in sorted(set(hs)) for x in (p,rd(p))])
def flags(src,opt='-O1'):
    f=[opt,'-g1','-emit-llvm','-c','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-fno-pic','-fno-pie','-Wno-everything','-ffp-contract=off','-fno-strict-aliasing','-fno-inline-functions' if 0 else '-DVF_SYMBOLIC','-U_FORTIFY_SOURCE','-fno-access-control' if src.endswith('.cpp') else '-DVF_C','-I'+os.path.join(V,'models/include'),'-I'+os.path.join(V,'harness')]
    f+=['-I'+os.path.join(R,d) for d in INC]+['-I/usr/include/trilinos']+DEFS
    if '/libc_model' in src: f+=['-fno-builtin']
    return f
def comp(src,hh,extra=()):
    cpp=src.endswith('.cpp'); fl=flags(src)+list(extra)
    key=h(rd(src),src,hh,' '.join(fl)); out=os.path.join(B,'bc',key+'.bc')
    if not os.path.exists(out):
        tmp=out+'.%d.tmp'%os.getpid()
        sh([CL+('clang++' if cpp else 'clang')]+(['-std=gnu++17' if ('/verif/' in src or V in src) else '-std=gnu++11'] if cpp else [])+fl+[src,'-o',tmp]); os.rename(tmp,out)
    return out
def link(outs,extra_opt=True):
    key=h(*[os.path.basename(o) for o in outs],'v3'); out=os.path.join(B,'ln',key+'.bc')
    if not os.path.exists(out):
        tmp=out+'.%d.tmp'%os.getpid()
        sh([CL+'llvm-link']+outs+['-o',tmp])
        sh([CL+'opt','-passes=internalize,globaldce','-internalize-public-api-list=vf_main,stdout,stderr,stdin',tmp,'-o',tmp+'2']); os.unlink(tmp); os.rename(tmp+'2',out)
    return out
def engine():
    src=[os.path.join(V,'engine',x) for x in ('vse.cpp','expr.hpp','externs.inc')]; key=h(*[rd(s) for s in src]); out=os.path.join(B,'vse-'+key)
    if not os.path.exists(out):
        tmp=out+'.%d.tmp'%os.getpid()
        sh(['g++','-std=c++17','-O2','-g1','-w','-I/usr/lib/llvm-18/include','-D_GNU_SOURCE',src[0],'-o',tmp,'-L/usr/lib/llvm-18/lib','-lLLVM-18','-lz3']); os.rename(tmp,out)
    return out
def dirs():
    for d in ('bc','ln'): os.makedirs(os.path.join(B,d),exist_ok=True)
def build(harnesses,only=None):
    """returns (engine, {harness: linked bitcode})"""
    dirs(); hh=headers_hash()
    models=[os.path.join(V,'models',m) for m in ('mpi_model.c','libc_model.c','stdcxx_model.cpp','ext_model.c')]
    srcs=repo_sources()
    with cf.ThreadPoolExecutor(8) as ex:
        fe=ex.submit(engine); fs=[ex.submit(comp,s,hh) for s in srcs]; fm=[ex.submit(comp,m,hh) for m in models]; fh={x:ex.submit(comp,os.path.join(V,'harness',x+'.cpp'),hh) for x in harnesses}
        outs=[f.result() for f in fs]; mo=[f.result() for f in fm]; ho={k:f.result() for k,f in fh.items()}
        ln={k:ex.submit(link,[v]+mo+outs) for k,v in ho.items()}
        return fe.result(),{k:f.result() for k,f in ln.items()}
if __name__=='__main__':
    e,b=build(sys.argv[1:]); print(e); [print(k,v) for k,v in b.items()]
