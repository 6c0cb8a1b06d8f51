// ---------------------------------------------------------------- external functions modelled by the engine
#include <atomic>
static std::map<std::string,int64_t> params, fixedInputs; static bool haveFixed=false;
#define H(n) static void n(State&s,const Inst&in,std::vector<Val>&a)
#define RET(v) do{ setRes(s,in,v); nextPc(s,in); return; }while(0)
static void freeP(State&s,uint64_t p,int want,const char*what){
  if(!p) return; uint32_t id=p>>32; Obj*o=id&&id<s.h.next&&p<FBASE? s.h.get(id):nullptr; if(!o) fail(s,"memory",std::string(what)+" of a pointer that is not live heap memory"); if((uint32_t)p) fail(s,"memory",std::string(what)+" of an interior pointer");
  if(o->kind!=KHEAP&&o->kind!=KNEW&&o->kind!=KNEWARR) fail(s,"memory",std::string(what)+" of non-heap memory"); if(o->kind!=want) fail(s,"memory",std::string(what)+" does not match the allocation function"); s.h.free(id); }
H(h_malloc){ uint64_t n=conc(s,a[0],64); RET(Val(newObj(s,n,KHEAP,false))); }
H(h_calloc){ uint64_t n=conc(s,a[0],64),m=conc(s,a[1],64); RET(Val(newObj(s,n*m,KHEAP,true))); }
H(h_new){ uint64_t n=conc(s,a[0],64); RET(Val(newObj(s,n,KNEW,false))); }
H(h_newa){ uint64_t n=conc(s,a[0],64); RET(Val(newObj(s,n,KNEWARR,false))); }
H(h_free){ uint64_t p=conc(s,a[0],64); freeP(s,p,KHEAP,"free"); RET(Val()); }
H(h_del){ uint64_t p=conc(s,a[0],64); freeP(s,p,KNEW,"delete"); RET(Val()); }
H(h_dela){ uint64_t p=conc(s,a[0],64); freeP(s,p,KNEWARR,"delete[]"); RET(Val()); }
H(h_realloc){ uint64_t p=conc(s,a[0],64),n=conc(s,a[1],64); if(!p) RET(Val(newObj(s,n,KHEAP,false)));
  Obj*o=(p>>32)<s.h.next? s.h.get(p>>32):nullptr; if(!o||(uint32_t)p||o->kind!=KHEAP) fail(s,"memory","realloc of an invalid pointer"); uint64_t m=std::min<uint64_t>(o->size,n); uint64_t q=newObj(s,n,KHEAP,false); copyMem(s,q,p,m); s.h.free(p>>32); RET(Val(q)); }
H(h_memcpy){ uint64_t d=conc(s,a[0],64),r=conc(s,a[1],64),n=conc(s,a[2],64); copyMem(s,d,r,n); RET(Val(d)); }
H(h_memset){ uint64_t d=conc(s,a[0],64),n=conc(s,a[2],64); Val v=a[1]; if(v.e) v=mk(X.extract(v.e,0,8)); if(n){ Obj*o=chk(s,d,n,true,"write"); if(!v.e){ memset(&o->data[(uint32_t)d],(int)v.c,n); if(!o->simple()) memset(&o->flags[(uint32_t)d],0,n);} else for(uint64_t i=0;i<n;i++) storeC(s,d+i,v,8);} RET(Val(d)); }
H(h_nop){ RET(a.size()&&in.nres? a[0]:Val()); }
H(h_zero){ RET(Val(0)); }
H(h_one){ RET(Val(1)); }
H(h_abort){ if(s.mayAbort){ reached["refused by ending the program"]++; completed(s); throw PathEnd(); } fail(s,"abort","the program aborted"); }
H(h_exit){ fail(s,"abort","the program called exit"); }
H(h_throw){ uint64_t e=conc(s,a[0],64),ty=conc(s,a[1],64); s.pr[s.cur].excs.push_back({e,ty}); unwind(s,e,ty,"uncaught exception"); }
H(h_rethrow){ Proc&p=s.pr[s.cur]; if(p.caught.empty()) fail(s,"exception","rethrow without an exception"); uint64_t e=p.caught.back(),ty=0; for(auto&x:p.excs) if(x.first==e) ty=x.second; p.again.push_back(e); unwind(s,e,ty,"uncaught exception"); }
H(h_catch){ uint64_t e=conc(s,a[0],64); s.pr[s.cur].caught.push_back(e); RET(Val(e)); }
H(h_endcatch){ Proc&p=s.pr[s.cur]; if(!p.caught.empty()){ uint64_t e=p.caught.back(); p.caught.pop_back(); auto it=std::find(p.again.begin(),p.again.end(),e); if(it!=p.again.end()) p.again.erase(it); else { s.h.free(e>>32); for(size_t i=0;i<p.excs.size();i++) if(p.excs[i].first==e){ p.excs.erase(p.excs.begin()+i); break; } } } RET(Val()); }
H(h_expabort){ s.mayAbort=true; RET(Val()); }
H(h_typeid){ RET(Val((conc(s,a[0],64)>>32)&0x7fffffff)); }
H(h_mark){ RET(Val(s.h.next)); }
H(h_leaks){ uint64_t m=conc(s,a[0],64); std::map<std::string,int> w; for(uint32_t id=m;id<s.h.next;id++){ Obj*o=s.h.get(id); if(!o||o->kind>KNEWARR||o->proc!=s.cur||(o->site[0]&&(o->site[0]->name=="MPI_Barrier"||(o->site[1]&&o->site[1]->name=="MPI_Barrier")||o->site[0]->name=="vf_newfile"||o->site[0]->name=="vf_growfile"||(o->site[1]&&(o->site[1]->name=="vf_newfile"||o->site[1]->name=="vf_growfile"))))) continue; std::string t; for(int k=0;k<4&&o->site[k];k++){ std::string q=fnName((FnCode*)o->site[k]); q=q.substr(0,q.find('(')); if(q.compare(0,3,"std")==0||q.find(" std::")!=std::string::npos||q.find("__gnu")!=std::string::npos||q=="calloc"||q=="vf_main") continue; t+=(t.empty()?"":" in ")+q; } if(t.empty()) t=o->site[0]? fnName((FnCode*)o->site[0]):"?"; w[t]++; }
  if(!w.empty()){ std::string t; for(auto&x:w) t+=(t.empty()?"":"; ")+x.first; fail(s,"leak","memory is not given back, allocated in "+t); } RET(Val()); }
H(h_throwx){ fail(s,"exception","uncaught standard library exception ("+demangle(*in.sname)+")"); }
H(h_assert){ std::string m=readStr(s,conc(s,a[0],64)); fail(s,"assertion","assertion failed: "+m); }
H(h_allocexc){ uint64_t n=conc(s,a[0],64); RET(Val(newObj(s,n,KHEAP,false))); }
// --- integer intrinsics
static E minmax(E x,E y,Op lt,bool mx){ E c=X.bin(lt,x,y); return mx? X.ite(c,y,x):X.ite(c,x,y); }
H(h_umax){ RET(mk(minmax(ex(a[0],in.w),ex(a[1],in.w),ULT,true))); } H(h_umin){ RET(mk(minmax(ex(a[0],in.w),ex(a[1],in.w),ULT,false))); }
H(h_smax){ RET(mk(minmax(ex(a[0],in.w),ex(a[1],in.w),SLT,true))); } H(h_smin){ RET(mk(minmax(ex(a[0],in.w),ex(a[1],in.w),SLT,false))); }
H(h_abs){ E x=ex(a[0],in.w); RET(mk(X.ite(X.bin(SLT,x,X.c(0,in.w)),X.bin(SUB,X.c(0,in.w),x),x))); }
H(h_usubsat){ E x=ex(a[0],in.w),y=ex(a[1],in.w); RET(mk(X.ite(X.bin(ULT,x,y),X.c(0,in.w),X.bin(SUB,x,y)))); }
H(h_bswap){ E x=ex(a[0],in.w); unsigned n=in.w/8; E r=nullptr; for(unsigned i=0;i<n;i++){ E b=X.extract(x,8*i,8); r=r? X.concat(r,b):b; } RET(mk(r)); }
H(h_fshl){ E x=ex(a[0],in.w),y=ex(a[1],in.w); uint64_t k=conc(s,a[2],in.w)%in.w; if(!k) RET(mk(x)); RET(mk(X.bin(OR,X.bin(SHL,x,X.c(k,in.w)),X.bin(LSHR,y,X.c(in.w-k,in.w))))); }
H(h_fshr){ E x=ex(a[0],in.w),y=ex(a[1],in.w); uint64_t k=conc(s,a[2],in.w)%in.w; if(!k) RET(mk(y)); RET(mk(X.bin(OR,X.bin(SHL,x,X.c(in.w-k,in.w)),X.bin(LSHR,y,X.c(k,in.w))))); }
H(h_ctpop){ unsigned w=in.w; E x=ex(a[0],w),r=X.c(0,w); for(unsigned i=0;i<w;i++) r=X.bin(ADD,r,X.zext(X.extract(x,i,1),w)); RET(mk(r)); }
H(h_ctlz){ unsigned w=in.w; E x=ex(a[0],w),r=X.c(w,w); for(unsigned i=0;i<w;i++) r=X.ite(X.extract(x,i,1),X.c(w-1-i,w),r); RET(mk(r)); }
H(h_cttz){ unsigned w=in.w; E x=ex(a[0],w),r=X.c(w,w); for(int i=w-1;i>=0;i--) r=X.ite(X.extract(x,i,1),X.c(i,w),r); RET(mk(r)); }
static void ovf(State&s,const Inst&in,std::vector<Val>&a,Op op,bool sg){ unsigned w=in.argw[0]; E x=ex(a[0],w),y=ex(a[1],w); E r=X.bin(op,x,y),o;
  if(x->op==CONST&&y->op==CONST){ __int128 p=sg?sx(x->k,w):(__int128)x->k,q=sg?sx(y->k,w):(__int128)y->k; __int128 t=op==ADD?p+q:op==SUB?p-q:p*q; bool ov=sg? (t<smin(w)||t>smax(w)):(t<0||t>(__int128)maskw(w)); o=X.c(ov,1); }
  else if(w<=32||op!=MUL){ unsigned w2=std::min(64u,w*2); if(w2>w){ E xx=sg?X.sext(x,w2):X.zext(x,w2),yy=sg?X.sext(y,w2):X.zext(y,w2); E rr=X.bin(op,xx,yy); E back=sg?X.sext(r,w2):X.zext(r,w2); o=X.lnot(X.eq(rr,back)); }
    else if(!sg) o= op==ADD? X.bin(ULT,r,x):X.bin(ULT,x,y); else { E z=X.c(0,w); E sxx=X.bin(SLT,x,z),sy=X.bin(SLT,y,z),sr=X.bin(SLT,r,z); if(op==SUB) sy=X.lnot(sy); o=X.land(X.eq(sxx,sy),X.lnot(X.eq(sxx,sr))); } }
  else { // 64-bit multiply: exact when intervals rule overflow out
    __int128 hi=(__int128)x->hi*y->hi; if(x->lo>=0&&y->lo>=0&&hi<=INT64_MAX) o=X.fls(); else { uint64_t v=concretize(s,x->op==CONST?y:x); (void)v; throw Unsupported{"64-bit multiply overflow check"}; } }
  Frame&f=s.f(); f.r[in.dst]=mk(r); f.r[in.dst+1]=mk(o); nextPc(s,in); }
H(h_uaddo){ ovf(s,in,a,ADD,false);} H(h_usubo){ ovf(s,in,a,SUB,false);} H(h_umulo){ ovf(s,in,a,MUL,false);} H(h_saddo){ ovf(s,in,a,ADD,true);} H(h_ssubo){ ovf(s,in,a,SUB,true);} H(h_smulo){ ovf(s,in,a,MUL,true);}
H(h_fabs){ if(!a[0].e) RET(Val(a[0].c&~(1ull<<63))); E x=X.toInt(a[0].e); if(x) RET(mk(X.s2d(X.ite(X.bin(SLT,x,X.c(0,64)),X.bin(SUB,X.c(0,64),x),x)))); RET(mk(X.fun1(a[0].e,&s.known,[](double d){return std::fabs(d);}))); }
H(h_sqrt){ RET(mk(X.fun1(ex(a[0],64),&s.known,[](double d){return std::sqrt(d);}))); }
H(h_floor){ RET(mk(X.fun1(ex(a[0],64),&s.known,[](double d){return std::floor(d);}))); }
H(h_ceil){ RET(mk(X.fun1(ex(a[0],64),&s.known,[](double d){return std::ceil(d);}))); }
H(h_round){ RET(mk(X.fun1(ex(a[0],64),&s.known,[](double d){return std::round(d);}))); }
#define F1(n,e) H(n){ RET(mk(X.fun1(ex(a[0],64),&s.known,[](double d){return (double)(e);}))); }
F1(h_trunc,std::trunc(d)) F1(h_rint,std::rint(d)) F1(h_log,std::log(d)) F1(h_log2,std::log2(d)) F1(h_log10,std::log10(d)) F1(h_exp,std::exp(d)) F1(h_cbrt,std::cbrt(d))
static double asd(uint64_t u){ double d; memcpy(&d,&u,8); return d; } static uint64_t asu(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
#define F2(n,e) H(n){ double x=asd(conc(s,a[0],64)),y=asd(conc(s,a[1],64)); RET(Val(asu(e))); }
F2(h_pow,std::pow(x,y)) F2(h_fmod,std::fmod(x,y)) F2(h_hypot,std::hypot(x,y)) F2(h_copysign,std::copysign(x,y))
H(h_powi){ double x=asd(conc(s,a[0],64)); int y=(int)conc(s,a[1],32); RET(Val(asu(std::pow(x,(double)y)))); }
H(h_lround){ RET(Val((uint64_t)std::llround(asd(conc(s,a[0],64))))); }
H(h_lrint){ RET(Val((uint64_t)std::llrint(asd(conc(s,a[0],64))))); }
H(h_fmuladd){ E m=X.fbin(Ctx::FMUL,ex(a[0],64),ex(a[1],64),&s.known); RET(mk(X.fbin(Ctx::FADD,m,ex(a[2],64),&s.known))); }
H(h_fmin){ E x=ex(a[0],64),y=ex(a[1],64); RET(mk(X.ite(X.fcmp(4,x,y,&s.known),x,y))); }
H(h_fmax){ E x=ex(a[0],64),y=ex(a[1],64); RET(mk(X.ite(X.fcmp(4,x,y,&s.known),y,x))); }
H(h_assume){ nextPc(s,in); }
H(h_objsize){ RET(Val(in.w==64?~0ull:maskw(in.w))); }
// --- varargs
H(h_vastart){ Frame&f=s.f(); uint64_t ap=conc(s,a[0],64); uint64_t area=newObj(s,8*f.va.size()+8,KSTACK,false); f.allocas.push_back(area>>32); for(size_t i=0;i<f.va.size();i++) storeC(s,area+8*i,f.vaw[i]==64? f.va[i]: f.va[i].e? mk(X.zext(f.va[i].e,64)):f.va[i],64);
  storeC(s,ap,Val(48),32); storeC(s,ap+4,Val(176),32); storeC(s,ap+8,Val(area),64); storeC(s,ap+16,Val(0),64); nextPc(s,in); }
H(h_vacopy){ copyMem(s,conc(s,a[0],64),conc(s,a[1],64),24); nextPc(s,in); }
struct ArgSrc { State&s; std::vector<Val>*v; size_t i; uint64_t ap; Val next(){ if(v){ if(i<v->size()) return (*v)[i++]; return Val(0); } uint64_t area=conc(s,loadC(s,ap+8,64),64); Val r=loadC(s,area,64); storeC(s,ap+8,Val(area+8),64); return r; } };
static std::string fmt(State&s,const std::string&f,ArgSrc src,uint64_t dst=0){ std::string o; for(size_t i=0;i<f.size();i++){ if(f[i]!='%'){ o+=f[i]; continue; } std::string sp="%"; i++; while(i<f.size()&&strchr("-+ #0123456789.lhzjt*",f[i])){ if(f[i]=='*') sp+=std::to_string((int)conc(s,src.next(),64)); else sp+=f[i]; i++; } char c=f[i]; sp+=c; char b[512]; b[0]=0;
    if(c=='%'){ o+='%'; continue; } Val v=src.next();
    if(c=='s'){ uint64_t q=conc(s,v,64); std::string t=readStr(s,q); if(dst&&q<=dst+o.size()&&dst<=q+t.size()) fail(s,"memory","a text is formatted into the buffer it is read from"); o+=t; continue; }
    if(strchr("diuxXoc",c)){ if(sp.find('l')!=std::string::npos||sp.find('z')!=std::string::npos) snprintf(b,sizeof b,sp.c_str(),(long)conc(s,v,64)); else snprintf(b,sizeof b,sp.c_str(),(int)conc(s,v,32)); }
    else if(strchr("feEgG",c)&&v.e) snprintf(b,sizeof b,"?"); // the text of a symbolic real is not modelled
    else if(strchr("feEgG",c)) snprintf(b,sizeof b,sp.c_str(),asD(conc(s,v,64))); else snprintf(b,sizeof b,"?"); o+=b; } return o; }
static void putStr(State&s,uint64_t d,const std::string&t,uint64_t cap){ if(!cap) return; size_t n=std::min<uint64_t>(t.size(),cap-1); for(size_t i=0;i<n;i++) storeC(s,d+i,Val((uint8_t)t[i]),8); storeC(s,d+n,Val(0),8); }
// a formatter must not fork after it has consumed a va_list, so arguments are concretised on a copy first
H(h_sprintf){ uint64_t d=conc(s,a[0],64); std::string f=readStr(s,conc(s,a[1],64)); std::string t=fmt(s,f,ArgSrc{s,&a,2,0},d); putStr(s,d,t,1u<<30); RET(Val(t.size())); }
H(h_snprintf){ uint64_t d=conc(s,a[0],64),n=conc(s,a[1],64); std::string f=readStr(s,conc(s,a[2],64)); std::string t=fmt(s,f,ArgSrc{s,&a,3,0},d); putStr(s,d,t,n); RET(Val(t.size())); }
H(h_vsnprintf){ uint64_t d=conc(s,a[0],64),n=conc(s,a[1],64); std::string f=readStr(s,conc(s,a[2],64)); std::string t=fmt(s,f,ArgSrc{s,nullptr,0,conc(s,a[3],64)},d); putStr(s,d,t,n); RET(Val(t.size())); }
H(h_strtod){ uint64_t p=conc(s,a[0],64),e=conc(s,a[1],64); std::string t=readStr(s,p); char*q; double d=strtod(t.c_str(),&q); if(e) storeC(s,e,Val(p+(q-t.c_str())),64); RET(Val(asu(d))); }
// --- verification interface
static E symFor(State&s,const std::string&n,unsigned bits,uint64_t maxv){ static std::map<std::string,unsigned> ids; auto it=ids.find(n); unsigned id; if(it==ids.end()){ id=X.newSymbol(n,bits,maxv,false); ids[n]=id; } else { id=it->second; if(X.symbols[id].bits!=bits||X.symbols[id].maxv!=maxv) throw Unsupported{"symbol "+n+" redeclared"}; } return X.sym(id,bits); }
H(h_range){ std::string n=readStr(s,conc(s,a[0],64)); int64_t lo=(int64_t)conc(s,a[1],64),hi=(int64_t)conc(s,a[2],64); if(hi<lo){ ST.assumeDead++; throw PathEnd(); }
  auto it=s.byName.find(n); E e; if(it!=s.byName.end()) e=it->second; else {
    if(haveFixed&&fixedInputs.count(n)) e=X.c(fixedInputs[n],64); else if(lo==hi) e=X.c(lo,64);
    else { uint64_t mx=(uint64_t)hi-(uint64_t)lo; unsigned bits=64-__builtin_clzll(mx); if(bits<2) bits=2; E y=symFor(s,n,bits,mx); e=X.bin(ADD,X.zext(y,64),X.c(lo,64)); }
    s.byName[n]=e; s.inputs.push_back({n,e}); }
  RET(mk(e)); }
H(h_bits){ std::string n=readStr(s,conc(s,a[0],64)); unsigned bits=conc(s,a[1],32); auto it=s.byName.find(n); E e; if(it!=s.byName.end()) e=it->second; else { if(haveFixed&&fixedInputs.count(n)) e=X.c(fixedInputs[n],64); else e=X.zext(symFor(s,n,bits,maskw(bits)),64); s.byName[n]=e; s.inputs.push_back({n,e}); } RET(mk(e)); }
H(h_vassume){ E c=ex(a[0],32); c=c->w==1?c:X.lnot(X.eq(c,X.c(0,c->w))); c=substK(s,c); if(c->op==CONST){ if(!c->k){ ST.assumeDead++; throw PathEnd(); } RET(Val()); }
  s.model.resize(X.symbols.size(),0); if(!X.evalModel(c,s.model)){ std::vector<uint64_t> m; int r=solve(s,c,&m); if(r==0){ ST.assumeDead++; throw PathEnd(); } if(r<0){ ST.unexplored++; throw PathEnd(); } s.model=m; } addPC(s,c); RET(Val()); }
H(h_vcheck){ E c=ex(a[0],32); c=X.lnot(X.eq(c,X.c(0,c->w))); std::string m=readStr(s,conc(s,a[1],64)); ST.checks++; reached["check:"+m]++;
  c=substK(s,c); if(c->op==CONST){ if(!c->k) fail(s,"check",m); RET(Val()); }
  if(c->undef&&dependsOnUndef(s,c)) fail(s,"uninitialised","checked value is uninitialised: "+m);
  ST.checksSym++; std::vector<uint64_t> md; int r=solve(s,X.lnot(c),&md); if(r==1){ report(s,"check",m,md); s.model.resize(X.symbols.size(),0); if(!X.evalModel(c,s.model)){ std::vector<uint64_t> m2; if(solve(s,c,&m2)!=1) throw PathEnd(); s.model=m2; } addPC(s,c); } else if(r<0){ ST.unexplored++; unsupportedMsgs["solver gave no answer on a check"]++; } else { s.known[c]=1; }
  RET(Val()); }
H(h_vfail){ std::string m=readStr(s,conc(s,a[0],64)); fail(s,"check",m); }
H(h_vreach){ std::string m=readStr(s,conc(s,a[0],64)); reached[m]++; RET(Val()); }
H(h_self){ RET(Val(s.cur)); } H(h_size){ RET(Val(s.pr.size())); }
H(h_yield){ setRes(s,in,Val()); nextPc(s,in); if(++s.idle>300*(int)s.pr.size()) fail(s,"deadlock","no process can make progress"); pickNext(s); }
H(h_switchto){ uint64_t p=conc(s,a[0],64); setRes(s,in,Val()); nextPc(s,in); if(p<s.pr.size()&&!s.pr[p].done) s.cur=p; }
H(h_live){ uint64_t p=conc(s,a[0],64); RET(Val(p<s.pr.size()&&!s.pr[p].done)); }
H(h_progress){ s.idle=0; RET(Val()); }
H(h_conc){ RET(Val(conc(s,a[0],64))); }
H(h_param){ std::string n=readStr(s,conc(s,a[0],64)); auto it=params.find(n); int64_t d=(int64_t)conc(s,a[1],64); RET(Val(it==params.end()?d:it->second)); }
H(h_choose){ // schedule choice: fresh symbol each time, decided here
  uint64_t n=conc(s,a[0],64); if(n<=1) RET(Val(0)); std::string nm="choice"+std::to_string(s.choices)+"of"+std::to_string(n); E e; auto it=s.byName.find(nm); if(it!=s.byName.end()) e=it->second; else { if(haveFixed&&fixedInputs.count(nm)) e=X.c(fixedInputs[nm],64); else { unsigned bits=64-__builtin_clzll(n-1); if(bits<2)bits=2; e=X.zext(symFor(s,nm,bits,n-1),64);} s.byName[nm]=e; s.inputs.push_back({nm,e}); }
  uint64_t v=e->op==CONST? e->k:concretize(s,e); s.choices++; RET(Val(v)); }
H(h_end){ completed(s); throw PathEnd(); }
H(h_issym){ RET(Val(a[0].e?1:0)); }
H(h_fnobj){ fail(s,"abort",readStr(s,conc(s,a[0],64))); }

static Handler findHandler(const std::string&n){
  static std::unordered_map<std::string,Handler> m={
  {"malloc",h_malloc},{"calloc",h_calloc},{"realloc",h_realloc},{"free",h_free},{"_Znwm",h_new},{"_Znam",h_newa},{"_ZdlPv",h_del},{"_ZdlPvm",h_del},{"_ZdaPv",h_dela},{"_ZdaPvm",h_dela},
  {"_ZnwmRKSt9nothrow_t",h_new},{"_ZnamRKSt9nothrow_t",h_newa},
  {"memcpy",h_memcpy},{"memmove",h_memcpy},{"memset",h_memset},{"abort",h_abort},{"exit",h_exit},{"_exit",h_exit},{"__assert_fail",h_assert},{"__cxa_throw",h_throw},{"__cxa_rethrow",h_rethrow},{"__cxa_begin_catch",h_catch},{"__cxa_end_catch",h_endcatch},{"_ZSt9terminatev",h_abort},{"__cxa_pure_virtual",h_abort},{"__clang_call_terminate",h_abort},{"__cxa_allocate_exception",h_allocexc},{"__cxa_free_exception",h_nop},
  {"__cxa_atexit",h_zero},{"atexit",h_zero},
  {"printf",h_zero},{"puts",h_zero},{"putchar",h_zero},{"fprintf",h_zero},{"vfprintf",h_zero},{"vprintf",h_zero},{"fflush",h_zero},{"fputs",h_zero},{"fputc",h_zero},{"putc",h_zero},{"perror",h_nop},
  {"sprintf",h_sprintf},{"strtod",h_strtod},{"snprintf",h_snprintf},{"vsnprintf",h_vsnprintf},
  {"sqrt",h_sqrt},{"floor",h_floor},{"ceil",h_ceil},{"fabs",h_fabs},{"round",h_round},{"trunc",h_trunc},{"rint",h_rint},{"nearbyint",h_rint},{"log",h_log},{"log2",h_log2},{"log10",h_log10},{"exp",h_exp},{"cbrt",h_cbrt},{"pow",h_pow},{"fmod",h_fmod},{"hypot",h_hypot},{"copysign",h_copysign},{"lround",h_lround},{"llround",h_lround},{"lrint",h_lrint},{"llrint",h_lrint},{"fmin",h_fmin},{"fmax",h_fmax},
  {"vf_range",h_range},{"vf_bits",h_bits},{"vf_assume",h_vassume},{"vf_check",h_vcheck},{"vf_fail",h_vfail},{"vf_reach",h_vreach},{"vf_self",h_self},{"vf_size",h_size},{"vf_yield",h_yield},{"vf_switch",h_switchto},{"vf_live",h_live},{"vf_progress",h_progress},{"vf_conc",h_conc},{"vf_param",h_param},{"vf_choose",h_choose},{"vf_end",h_end},{"vf_issym",h_issym},{"vf_expect_abort",h_expabort},{"vf_mark",h_mark},{"vf_leaks",h_leaks} };
  auto it=m.find(n); if(it!=m.end()) return it->second;
  auto pre=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
  if(pre("llvm.")){
    static std::vector<std::pair<const char*,Handler>> p={{"llvm.memcpy",h_memcpy},{"llvm.memmove",h_memcpy},{"llvm.memset",h_memset},{"llvm.umax",h_umax},{"llvm.umin",h_umin},{"llvm.smax",h_smax},{"llvm.smin",h_smin},{"llvm.abs",h_abs},{"llvm.usub.sat",h_usubsat},{"llvm.bswap",h_bswap},{"llvm.fshl",h_fshl},{"llvm.fshr",h_fshr},{"llvm.ctpop",h_ctpop},{"llvm.ctlz",h_ctlz},{"llvm.cttz",h_cttz},
      {"llvm.uadd.with.overflow",h_uaddo},{"llvm.usub.with.overflow",h_usubo},{"llvm.umul.with.overflow",h_umulo},{"llvm.sadd.with.overflow",h_saddo},{"llvm.ssub.with.overflow",h_ssubo},{"llvm.smul.with.overflow",h_smulo},
      {"llvm.fabs",h_fabs},{"llvm.sqrt",h_sqrt},{"llvm.floor",h_floor},{"llvm.ceil",h_ceil},{"llvm.round",h_round},{"llvm.trunc",h_trunc},{"llvm.rint",h_rint},{"llvm.nearbyint",h_rint},{"llvm.log.",h_log},{"llvm.log2.",h_log2},{"llvm.log10.",h_log10},{"llvm.exp.",h_exp},{"llvm.powi.",h_powi},{"llvm.pow.",h_pow},{"llvm.copysign",h_copysign},{"llvm.fmuladd",h_fmuladd},{"llvm.minnum",h_fmin},{"llvm.maxnum",h_fmax},{"llvm.assume",h_assume},{"llvm.expect",h_nop},{"llvm.dbg",h_assume},{"llvm.experimental.noalias",h_assume},{"llvm.trap",h_abort},{"llvm.ubsantrap",h_abort},{"llvm.objectsize",h_objsize},{"llvm.stacksave",h_zero},{"llvm.stackrestore",h_assume},{"llvm.va_start",h_vastart},{"llvm.va_end",h_assume},{"llvm.va_copy",h_vacopy},{"llvm.is.constant",h_zero},{"llvm.eh.typeid",h_typeid},{"llvm.prefetch",h_assume},{"llvm.lifetime",h_assume},{"llvm.invariant",h_assume},{"llvm.launder",h_nop},{"llvm.strip.invariant",h_nop},{"llvm.threadlocal.address",h_nop}};
    for(auto&q:p) if(pre(q.first)) return q.second; return nullptr; }
  if(pre("_ZSt")&&n.find("__throw_")!=std::string::npos&&n.compare(0,6,"_ZSt__")!=0) return h_throwx;
  if(pre("_ZNSo")||pre("_ZStls")||pre("_ZSt4endl")||pre("_ZSt16__ostream_insert")||pre("_ZNSolsE")||pre("_ZSt5flush")||pre("_ZNSt8ios_base4Init")||pre("_ZNKSt9basic_ios")||pre("_ZNSt9basic_ios")) return h_nop;
  if(pre("_ZNSt13runtime_errorC")||pre("_ZNSt11logic_errorC")||pre("_ZNSt13runtime_errorD")||pre("_ZNSt9exceptionD")||pre("_ZNSt12out_of_range")||pre("_ZNSt16invalid_argument")) return h_nop;
  return nullptr; }
