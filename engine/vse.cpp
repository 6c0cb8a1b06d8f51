// vse: a path-forking symbolic executor for LLVM IR deciding properties with z3.
// See /verif/DESIGN.md for what it covers and how its verdicts are to be read.
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Transforms/Utils/LowerAtomic.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <set>
#include <deque>
#include <fstream>
#include <sstream>
#include <functional>
#include <iostream>
using namespace llvm;

static Ctx X;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static double tStart, tDeadline=1e18;
static uint64_t stepLimit=200000000ull;
static unsigned maxEnum=4096;
static int nProcs=1;
static bool verbose=false;

struct Stats { uint64_t paths=0,instrs=0,queries=0,sat=0,unsat=0,unknown=0,checks=0,checksSym=0,forks=0,cacheHits=0,stepLim=0,unsupported=0,unexplored=0,assumeDead=0; double solverS=0; } ST;
static std::map<std::string,uint64_t> reached, unsupportedMsgs;

// ---------------------------------------------------------------- values
struct Val { E e; uint64_t c; Val():e(nullptr),c(0){} Val(uint64_t v):e(nullptr),c(v){} };
static inline Val mk(E e){ Val v; if(e->op==CONST){ v.c=e->k; } else v.e=e; return v; }
static inline E ex(const Val&v,unsigned w){ return v.e? v.e: X.c(v.c,w); }

// ---------------------------------------------------------------- memory
struct Cell { E e; uint8_t idx; };
enum Kind : uint8_t { KHEAP,KNEW,KNEWARR,KSTACK,KGLOBAL,KCONST };
struct Obj {
  int refs=0; uint32_t size=0; Kind kind=KHEAP; int16_t proc=-1; const char* name=""; const struct FnCode* site[4]={0,0,0,0}; // allocating process and functions
  std::vector<uint8_t> data, flags; std::vector<Cell> cells; // flags: 0 concrete 1 uninit 2 symbolic
  bool simple() const { return flags.empty(); }
};
template<class T> struct Ref { T*p=nullptr; Ref(){} Ref(T*q):p(q){ if(p)p->refs++; } Ref(const Ref&o):p(o.p){ if(p)p->refs++; } Ref(Ref&&o):p(o.p){o.p=nullptr;}
  ~Ref(){ rel(); } void rel(){ if(p&&--p->refs==0) delete p; p=nullptr; } Ref&operator=(const Ref&o){ if(o.p) o.p->refs++; rel(); p=o.p; return *this; } Ref&operator=(Ref&&o){ std::swap(p,o.p); return *this; } T*operator->()const{return p;} T*get()const{return p;} };
static const int CH=128;
struct Chunk { int refs=0; Ref<Obj> o[CH]; };
struct Heap {
  std::vector<Ref<Chunk>> ch; uint32_t next=1;
  Obj* get(uint32_t id){ uint32_t c=id/CH; return c<ch.size()? ch[c]->o[id%CH].get():nullptr; }
  Ref<Obj>& slot(uint32_t id){ uint32_t c=id/CH; while(ch.size()<=c) ch.emplace_back(new Chunk); if(ch[c]->refs>1){ Chunk*n=new Chunk; for(int i=0;i<CH;i++) n->o[i]=ch[c]->o[i]; ch[c]=Ref<Chunk>(n);} return ch[c]->o[id%CH]; }
  Obj* wr(uint32_t id){ Ref<Obj>&r=slot(id); if(r.get()->refs>1){ Obj*n=new Obj(*r.get()); n->refs=0; r=Ref<Obj>(n);} return r.get(); }
  uint32_t alloc(uint32_t size,Kind k,bool init){ Obj*o=new Obj; o->size=size;o->kind=k;o->data.resize(size); if(!init) o->flags.assign(size,1); uint32_t id=next++; slot(id)=Ref<Obj>(o); return id; }
  void free(uint32_t id){ slot(id)=Ref<Obj>(); }
};
static const uint64_t FBASE=1ull<<62;

// ---------------------------------------------------------------- code
struct Opd { int32_t slot=-1; int32_t g=-1; uint64_t imm=0; };
struct FnCode; struct State; struct Inst;
typedef void (*Handler)(State&,const Inst&,std::vector<Val>&);
struct MemTy { uint32_t off; uint8_t w; uint8_t bytes; };
struct PhiMove { int dst; Opd src; int n; };
struct Edge { int target; std::vector<PhiMove> moves; };
struct Inst {
  uint8_t op=0; uint8_t w=0,w2=0; uint8_t pred=0; int dst=-1; int nres=0;
  std::vector<Opd> ops; std::vector<MemTy> leaves; std::vector<std::pair<int64_t,int>> scales; // gep: per index operand scale,width
  int64_t off=0; uint32_t size=0; bool exact=false;
  FnCode* callee=nullptr; Handler h=nullptr; std::vector<Edge> edges; std::vector<uint64_t> cases; std::vector<uint8_t> argw; std::string* sname=nullptr;
  const Instruction* ll=nullptr; mutable uint64_t hits=0;
};
enum { I_BIN,I_ICMP,I_FCMP,I_FBIN,I_FNEG,I_CAST,I_LOAD,I_STORE,I_GEP,I_ALLOCA,I_CALL,I_CALLX,I_CALLI,I_RET,I_BR,I_CBR,I_SWITCH,I_SELECT,I_MOVE,I_INSERT,I_UNREACH,I_UNSUP,I_VASTART,I_NOP,I_LPAD,I_RESUME };
enum { C_ZEXT,C_SEXT,C_TRUNC,C_S2D,C_U2D,C_D2S,C_D2U,C_FEXT,C_FTRUNC };
struct FnCode { const Function* f; std::string name; std::vector<Inst> code; int nslots=0; std::vector<int> argslots; std::vector<uint8_t> argn; int nargs=0; bool va=false; bool decoded=false; int id; bool executed=false; std::vector<int> blockStart; bool repo=false; };
static std::vector<std::unique_ptr<FnCode>> fns; static std::unordered_map<const Function*,FnCode*> fnOf;
static const DataLayout* DL; static Module* M;
struct GInfo { const GlobalVariable* gv; uint32_t size; bool shared; bool perProc; };
static std::vector<GInfo> gl; static std::unordered_map<const GlobalVariable*,int> glOf;

struct Frame { FnCode* fn; int pc; int ret; int nret; std::vector<Val> r; std::vector<uint32_t> allocas; std::vector<Val> va; std::vector<uint8_t> vaw; };
struct Proc { std::vector<Frame> st; std::vector<uint32_t> gaddr; bool done=false; std::vector<std::pair<uint64_t,uint64_t>> excs; std::vector<uint64_t> caught,again; std::pair<uint64_t,uint64_t> flying; }; // exceptions: object and type
struct PC { int refs=0; E e; Ref<PC> prev; int n; };
struct State {
  Heap h; std::vector<Proc> pr; int cur=0; Ref<PC> pc; std::vector<uint64_t> model; std::unordered_map<E,uint64_t> known;
  uint64_t steps=0; int idle=0; std::vector<std::pair<std::string,E>> inputs; std::map<std::string,E> byName; int choices=0; int depth=0; std::vector<int> trace; bool mayAbort=false;
  Frame& f(){ return pr[cur].st.back(); }
};
struct Violation { std::string kind,msg,where; std::vector<std::pair<std::string,uint64_t>> inputs; std::vector<std::string> stack; int proc; };
static std::vector<Violation> viols; static std::set<std::string> violKeys; static unsigned maxViol=4;
struct PathEnd {}; // terminate this path

static std::vector<State*> work;

// ---------------------------------------------------------------- solver
static Z3_context zc; static Z3_solver zs; static unsigned zCount=0; static unsigned zTimeout=20000;
static std::vector<Z3_ast> zkeep;
static void zerr(Z3_context,Z3_error_code e){ fprintf(stderr,"z3 error %d %s\n",e,Z3_get_error_msg(zc,e)); }
static void zinit(){ Z3_config c=Z3_mk_config(); zc=Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(zc,zerr);
  zs=Z3_mk_solver_for_logic(zc,Z3_mk_string_symbol(zc,"QF_FD")); Z3_solver_inc_ref(zc,zs);
  Z3_params p=Z3_mk_params(zc); Z3_params_inc_ref(zc,p); Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"timeout"),zTimeout); Z3_solver_set_params(zc,zs,p); }
// Encoding: zx encodes booleans; zfit(e,n) encodes the low n bits of e (n may exceed e's width: then e's signed value).
// Arithmetic is pushed down to the width the comparison needs, as given by sound signed intervals, so a comparison of sums
// of small numbers is decided on few bits. Models are checked against the full-width evaluator afterwards.
static Z3_ast zx(E e); static Z3_ast zfit(E e,unsigned n);
static unsigned nb(E e){ unsigned w=e->w; if(w==1) return 1; for(unsigned n=2;n<w;n++) if(e->lo>=-(1ll<<(n-1))&&e->hi<=(1ll<<(n-1))-1) return n; return w; }
static Z3_ast znum(uint64_t v,unsigned w){ return Z3_mk_unsigned_int64(zc,v&maskw(w),Z3_mk_bv_sort(zc,w)); }
static Z3_ast zadapt(Z3_ast r,unsigned from,unsigned to){ return from==to? r: from<to? Z3_mk_sign_ext(zc,to-from,r):Z3_mk_extract(zc,to-1,0,r); }
static unsigned symBits(unsigned i){ auto&si=X.symbols[i]; if(si.bits==1) return 1; unsigned u=si.maxv? 64-__builtin_clzll(si.maxv):1; return std::min(u,si.bits); }
static Z3_ast zsym(unsigned i){ std::string n="s"+std::to_string(i); return Z3_mk_const(zc,Z3_mk_string_symbol(zc,n.c_str()), X.symbols[i].bits==1?Z3_mk_bool_sort(zc):Z3_mk_bv_sort(zc,symBits(i))); }
static std::unordered_map<uint64_t,Z3_ast> zmemo;
static Z3_ast zfit(E e,unsigned n){
  unsigned w=e->w; if(w==1){ Z3_ast r=Z3_mk_ite(zc,zx(e),znum(1,1),znum(0,1)); return n==1? r:Z3_mk_sign_ext(zc,n-1,r); }
  if(e->op==CONST) return znum((uint64_t)sx(e->k,w),n);
  uint64_t key=((uint64_t)e->id<<7)|n; auto it=zmemo.find(key); if(it!=zmemo.end()) return it->second;
  Z3_ast r=nullptr; unsigned m=nb(e); bool exact=e->lo!=smin(w)||e->hi!=smax(w), push=n<=w;
  switch(e->op){
  case SYM: { r=zsym(e->k); unsigned u=symBits(e->k); if(n<=w||u<w) r= n<=u? (n<u?Z3_mk_extract(zc,n-1,0,r):r):Z3_mk_zero_ext(zc,n-u,r); else r=zadapt(r,w,n); break; }
  case ITE: r=Z3_mk_ite(zc,zx(e->a),zfit(e->b,n),zfit(e->c,n)); break;
  case ADD: case SUB: case MUL: if(push||exact){ Z3_ast a=zfit(e->a,n),b=zfit(e->b,n); r=e->op==ADD?Z3_mk_bvadd(zc,a,b):e->op==SUB?Z3_mk_bvsub(zc,a,b):Z3_mk_bvmul(zc,a,b); } else r=zadapt(zfit(e,m),m,n); break;
  case AND: case OR: case XOR: if(n<=m||m==w){ if(push){ Z3_ast a=zfit(e->a,n),b=zfit(e->b,n); r=e->op==AND?Z3_mk_bvand(zc,a,b):e->op==OR?Z3_mk_bvor(zc,a,b):Z3_mk_bvxor(zc,a,b); } else r=zadapt(zfit(e,w),w,n); } else r=zadapt(zfit(e,m),m,n); break;
  case ZEXT: if(e->a->w>1&&e->a->lo>=0) r=zfit(e->a,n); else if(n<=e->a->w) r=zfit(e->a,n); else r=zadapt(Z3_mk_zero_ext(zc,w-e->a->w,zfit(e->a,e->a->w)),w,n); break;
  case SEXT: r=zfit(e->a,n); break;
  case EXTRACT: if(e->k==0&&(n<=w)) r=zfit(e->a,n); else if(e->k==0) r=zadapt(zfit(e->a,w),w,n); else r=zadapt(Z3_mk_extract(zc,e->k+w-1,e->k,zfit(e->a,e->a->w)),w,n); break;
  case CONCAT: r=zadapt(Z3_mk_concat(zc,zfit(e->a,e->a->w),zfit(e->b,e->b->w)),w,n); break;
  case S2D: throw Unsupported{"double bits escaping to the solver"};
  case TAB: { E t=X.c(fromD(e->tab->v.back()),64); for(int64_t i=(int64_t)e->tab->v.size()-2;i>=0;i--) t=X.intern(ITE,64,X.bin(EQ,e->a,X.c(i,e->a->w)),X.c(fromD(e->tab->v[i]),64),t,0); r=zfit(t,n); break; }
  case UDIV: case SDIV: case UREM: case SREM: { bool ok=e->a->lo>=0&&e->b->lo>0; unsigned d=ok?std::max(nb(e->a),nb(e->b)):w; Z3_ast a=zfit(e->a,d),b=zfit(e->b,d); bool dv=e->op==UDIV||e->op==SDIV, sg=!ok&&(e->op==SDIV||e->op==SREM);
    r= dv? (sg?Z3_mk_bvsdiv(zc,a,b):Z3_mk_bvudiv(zc,a,b)) : (sg?Z3_mk_bvsrem(zc,a,b):Z3_mk_bvurem(zc,a,b)); r=zadapt(r,d,n); break; }
  case SHL: r=zadapt(Z3_mk_bvshl(zc,zfit(e->a,w),zfit(e->b,w)),w,n);break; case LSHR: r=zadapt(Z3_mk_bvlshr(zc,zfit(e->a,w),zfit(e->b,w)),w,n);break; case ASHR: r=zadapt(Z3_mk_bvashr(zc,zfit(e->a,w),zfit(e->b,w)),w,n);break;
  default: throw Unsupported{"op"}; }
  return zmemo[key]=r; }
static Z3_ast zx(E e){
  if(e->w>1) throw Unsupported{"boolean expected"};
  if(e->z3) return (Z3_ast)e->z3;
  Z3_ast r=nullptr;
  switch(e->op){
  case CONST: r=e->k?Z3_mk_true(zc):Z3_mk_false(zc); break;
  case SYM: r=zsym(e->k); break;
  case ITE: r=Z3_mk_ite(zc,zx(e->a),zx(e->b),zx(e->c)); break;
  case EXTRACT: r=Z3_mk_eq(zc,Z3_mk_extract(zc,e->k,e->k,zfit(e->a,e->a->w)),znum(1,1)); break;
  default: {
    unsigned aw=e->a->w;
    if(aw==1){ Z3_ast a=zx(e->a),b=zx(e->b); Z3_ast ab[2]={a,b}; switch(e->op){
      case AND: case MUL: r=Z3_mk_and(zc,2,ab); break; case OR: r=Z3_mk_or(zc,2,ab); break; case XOR: case ADD: case SUB: r=Z3_mk_xor(zc,a,b); break; case EQ: r=Z3_mk_iff(zc,a,b); break;
      case ULT: { Z3_ast x[2]={Z3_mk_not(zc,a),b}; r=Z3_mk_and(zc,2,x); break; } case ULE: r=Z3_mk_implies(zc,a,b); break;
      case SLT: { Z3_ast x[2]={Z3_mk_not(zc,b),a}; r=Z3_mk_and(zc,2,x); break; } case SLE: r=Z3_mk_implies(zc,b,a); break;
      default: throw Unsupported{"i1 op"}; } }
    else { unsigned d=std::max(nb(e->a),nb(e->b)); if((e->op==ULT||e->op==ULE)&&!(e->a->lo>=0&&e->b->lo>=0)) d=aw; Z3_ast a=zfit(e->a,d),b=zfit(e->b,d);
      switch(e->op){ case EQ: r=Z3_mk_eq(zc,a,b);break; case ULT: r=Z3_mk_bvult(zc,a,b);break; case ULE: r=Z3_mk_bvule(zc,a,b);break; case SLT: r=Z3_mk_bvslt(zc,a,b);break; case SLE: r=Z3_mk_bvsle(zc,a,b);break; default: throw Unsupported{"op"}; } } } }
  e->z3=(void*)r; return r; }
// EQ on S2D vs ITE etc. can reach the solver: eliminate doubles structurally first
static E noDbl(E e);
static std::vector<char> rangeAsserted;
static void ensureRanges(const SymSet& s){
  for(uint32_t i:s){ if(rangeAsserted.size()<=i) rangeAsserted.resize(std::max<size_t>(X.symbols.size(),i+1),0); if(rangeAsserted[i]) continue; rangeAsserted[i]=1; auto&si=X.symbols[i];
    if(si.maxv!=maskw(si.bits)&&si.bits>1){ unsigned u=symBits(i); if(si.maxv!=maskw(u)) Z3_solver_assert(zc,zs,Z3_mk_bvule(zc,zsym(i),znum(si.maxv,u))); } } }
struct QRes { int r; std::vector<std::pair<uint32_t,uint64_t>> m; };
static std::unordered_map<uint64_t,std::vector<std::pair<std::vector<uint32_t>,QRes>>> qcache;
// decide pc /\ q ; on sat fills model (copy of base overwritten with slice)
static int solve(State&s,E q,std::vector<uint64_t>*out){
  if(q->op==CONST){ if(!q->k) return 0; if(out)*out=s.model; return 1; }
  // slice
  std::vector<E> sel; SymSet need=*q->syms; std::vector<E> all; for(PC*p=s.pc.get();p;p=p->prev.get()) all.push_back(p->e);
  std::vector<char> used(all.size(),0); bool ch=true;
  std::vector<char> inNeed(X.symbols.size(),0); for(auto i:need) inNeed[i]=1;
  while(ch){ ch=false; for(size_t i=0;i<all.size();i++) if(!used[i]){ bool hit=false; for(auto y:*all[i]->syms) if(inNeed[y]){hit=true;break;} if(hit){ used[i]=1; ch=true; sel.push_back(all[i]); for(auto y:*all[i]->syms) if(!inNeed[y]){ inNeed[y]=1; need.push_back(y);} } } }
  std::vector<uint32_t> key; for(E e:sel) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end()); key.push_back(q->id);
  uint64_t h=key.size(); for(auto k:key) h=Ctx::mix(h,k);
  auto& bucket=qcache[h]; for(auto&b:bucket) if(b.first==key){ ST.cacheHits++; if(b.second.r==1&&out){ *out=s.model; out->resize(X.symbols.size(),0); for(auto&m:b.second.m)(*out)[m.first]=m.second; } return b.second.r; }
  double t0=now(); ST.queries++;
  // one query per solver: asserting the slice directly (no assumption literals) lets the solver simplify it first
  Z3_solver_reset(zc,zs); rangeAsserted.clear(); ensureRanges(need); for(E e:sel) Z3_solver_assert(zc,zs,zx(noDbl(e))); Z3_solver_assert(zc,zs,zx(noDbl(q)));
  Z3_lbool r=Z3_solver_check(zc,zs);
  QRes qr; qr.r= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
  if(qr.r==1){ ST.sat++; Z3_model m=Z3_solver_get_model(zc,zs); Z3_model_inc_ref(zc,m);
    for(uint32_t i:need){ Z3_ast v; Z3_ast sy=zsym(i); uint64_t val=0; if(Z3_model_eval(zc,m,sy,true,&v)){ if(X.symbols[i].bits==1) val=Z3_get_bool_value(zc,v)==Z3_L_TRUE; else Z3_get_numeral_uint64(zc,v,&val); } qr.m.push_back({i,val}); }
    Z3_model_dec_ref(zc,m);
    // validate the model against our own evaluator (guards the translation)
    std::vector<uint64_t> mm=s.model; mm.resize(X.symbols.size(),0); for(auto&p:qr.m) mm[p.first]=p.second; uint64_t ep=++X.epochCounter; bool okm=X.eval(q,mm,ep); for(E e:sel) okm=okm&&X.eval(e,mm,ep);
    if(!okm){ fprintf(stderr,"vse: solver model disagrees with evaluator\n"); qr.r=-1; }
  } else if(qr.r==0) ST.unsat++; if(qr.r<0) ST.unknown++;
  ST.solverS+=now()-t0; bucket.push_back({key,qr});
  if(qr.r==1&&out){ *out=s.model; out->resize(X.symbols.size(),0); for(auto&m:qr.m)(*out)[m.first]=m.second; }
  return qr.r; }
static E noDbl(E e){ static std::unordered_map<E,E> memo; auto it=memo.find(e); if(it!=memo.end()) return it->second; E r=e;
  if(e->op==S2D){ // represent as integer with tag by table when small
    __int128 n=(__int128)e->a->hi-e->a->lo+1; if(n>4096) throw Unsupported{"wide integer double escaping to the solver"}; std::vector<double> t; for(int64_t i=0;i<(int64_t)n;i++) t.push_back((double)(e->a->lo+i)); const Table*tb=X.internTab(std::move(t)); r=X.intern(TAB,64,noDbl(X.bin(SUB,e->a,X.c(e->a->lo,64))),0,0,0,tb); }
  else if(e->a){ E a=noDbl(e->a),b=e->b?noDbl(e->b):nullptr,c=e->c?noDbl(e->c):nullptr; if(a!=e->a||b!=e->b||c!=e->c) r=X.intern(e->op,e->w,a,b,c,e->k,e->tab); }
  return memo[e]=r; }

// ---------------------------------------------------------------- helpers
static std::string whereOf(const Inst&i){ std::string s; if(i.ll){ if(auto&d=i.ll->getDebugLoc()){ s=d->getFilename().str()+":"+std::to_string(d->getLine()); } } return s; }
static std::string fnName(FnCode*f){ return demangle(f->name); }
static E substK(State&s,E e){ if(e->op==CONST||s.known.empty()) return e; std::unordered_map<E,E> memo; int b=400; return X.subst(e,s.known,memo,b); }
static void addPC(State&s,E e){ if(e->op==CONST) return;
  if(e->op==AND&&e->w==1){ addPC(s,e->a); addPC(s,e->b); return; }
  PC*p=new PC; p->e=e; p->prev=s.pc; p->n=s.pc.get()?s.pc->n+1:1; s.pc=Ref<PC>(p);
  s.known[e]=1; E n=X.lnot(e); s.known[n]=0;
  if(e->op==EQ&&e->b->op==CONST) s.known[e->a]=e->b->k;
  if(e->op==XOR) s.known[e->a]=0; }
static void report(State&s,const char*kind,const std::string&msg,const std::vector<uint64_t>&model){
  Proc&p=s.pr[s.cur]; std::string where; std::vector<std::string> stk;
  for(int i=(int)p.st.size()-1;i>=0;i--){ Frame&f=p.st[i]; int pc=f.pc; if(pc<0||pc>=(int)f.fn->code.size()) pc=0; std::string w=whereOf(f.fn->code[pc]); stk.push_back(fnName(f.fn)+" "+w); }
  where=stk.empty()?"":stk[0]; std::string key=std::string(kind)+"|"+msg+"|"+where;
  if(violKeys.count(key)||viols.size()>=64) return; violKeys.insert(key);
  Violation v; v.kind=kind;v.msg=msg;v.where=where;v.stack=stk;v.proc=s.cur; uint64_t ep=++X.epochCounter; for(auto&i:s.inputs) v.inputs.push_back({i.first,X.eval(i.second,model,ep)}); viols.push_back(v);
  if(verbose) fprintf(stderr,"VIOL %s %s at %s\n",kind,msg.c_str(),where.c_str()); }
static bool traceForks=getenv("VSE_FORKS")!=nullptr; // development: where paths split, and over which symbols
static void noteFork(State&s,E c){ Proc&p=s.pr[s.cur]; std::set<std::string> names; std::set<E> seen; std::function<void(E)> go=[&](E x){ if(!x||!seen.insert(x).second) return; if(x->op==SYM) names.insert(X.symbols[x->k].name); go(x->a);go(x->b);go(x->c); }; go(c); std::string o="FORK"; for(int i=(int)p.st.size()-1,n=0;i>=0&&n<4;i--,n++){ Frame&f=p.st[i]; int pc=f.pc; if(pc<0||pc>=(int)f.fn->code.size()) pc=0; o+=" | "+fnName(f.fn)+" "+whereOf(f.fn->code[pc]); } o+=" ::"; for(auto&n:names) o+=" "+n; fprintf(stderr,"%s\n",o.c_str()); }
static uint64_t nCompleted=0; static std::vector<std::vector<std::pair<std::string,uint64_t>>> samples;
static void completed(State&s){ uint64_t n=++nCompleted; if((n&(n-1))||samples.size()>=12) return; s.model.resize(X.symbols.size(),0); uint64_t ep=++X.epochCounter; std::vector<std::pair<std::string,uint64_t>> v; for(auto&i:s.inputs) v.push_back({i.first,X.eval(i.second,s.model,ep)}); samples.push_back(v); }
[[noreturn]] static void fail(State&s,const char*kind,const std::string&msg){ s.model.resize(X.symbols.size(),0); report(s,kind,msg,s.model); throw PathEnd(); }
static State* clone(State&s){ ST.forks++; State*n=new State(s); return n; }
// does an undefined input influence e? (two completions of the undefined bits disagree)
static bool dependsOnUndef(State&s,E e){
  if(!e->undef) return false; std::unordered_map<E,E> memo; std::function<E(E)> ren=[&](E x)->E{ if(x->op==CONST||!x->undef) return x; auto it=memo.find(x); if(it!=memo.end()) return it->second; E r;
    if(x->op==SYM){ static std::map<uint64_t,unsigned> tw; auto t=tw.find(x->k); unsigned id; if(t==tw.end()){ id=X.newSymbol("undef'",X.symbols[x->k].bits,maskw(X.symbols[x->k].bits),true); tw[x->k]=id; } else id=t->second; r=X.sym(id,x->w); }
    else r=X.rebuild(x,x->a?ren(x->a):nullptr,x->b?ren(x->b):nullptr,x->c?ren(x->c):nullptr); return memo[x]=r; };
  E e2=ren(e); E ne=X.lnot(X.bin(EQ,e,e2)); return solve(s,ne,nullptr)!=0; }

static Handler findHandler(const std::string&n);
static const Inst& curInst(State&s){ return s.f().fn->code[s.f().pc]; }

// Decide a boolean: returns the side taken by this state, forking the other.
static bool branch(State&s,E c){
  c=substK(s,c); if(c->op==CONST) return c->k;
  if(c->undef&&dependsOnUndef(s,c)) fail(s,"uninitialised","control flow depends on an uninitialised value");
  s.model.resize(X.symbols.size(),0);
  bool v=X.evalModel(c,s.model); E yes=v?c:X.lnot(c), no=v?X.lnot(c):c;
  std::vector<uint64_t> m2; int r=solve(s,no,&m2);
  if(r<0){ ST.unknown++; unsupportedMsgs["solver gave no answer at a branch"]++; }
  if(r!=0){ if(traceForks) noteFork(s,c); State*o=clone(s); o->depth++; addPC(*o,no); if(r==1) o->model=m2; if(r==1) work.push_back(o); else { delete o; ST.unexplored++; } addPC(s,yes); s.depth++; }
  else { s.known[yes]=1; s.known[no]=0; } // implied: remembered for folding only
  return v; }
// Enumerate feasible values: this state continues with one of them, forks take the others.
static uint64_t concretize(State&s,E e){
  e=substK(s,e); if(e->op==CONST) return e->k;
  if(e->undef&&dependsOnUndef(s,e)) fail(s,"uninitialised","an address, size or value used for control depends on an uninitialised value");
  s.model.resize(X.symbols.size(),0);
  uint64_t first=X.evalModel(e,s.model); std::vector<uint64_t> m2; unsigned n=0;
  State* base=nullptr; E restr=X.lnot(X.eq(e,X.c(first,e->w)));
  while(true){ if(now()>tDeadline){ ST.unexplored++; unsupportedMsgs["time limit while enumerating"]++; break; } std::vector<uint64_t> m; int r=solve(s,restr,&m); if(r==0) break; if(r<0){ ST.unexplored++; unsupportedMsgs["solver gave no answer while enumerating"]++; break; } if(traceForks) noteFork(s,e);
    uint64_t v=X.evalModel(e,m); State*o=clone(s); o->depth++; addPC(*o,X.eq(e,X.c(v,e->w))); o->known[e]=v; o->model=m; work.push_back(o);
    restr=X.land(restr,X.lnot(X.eq(e,X.c(v,e->w)))); if(++n>maxEnum){ ST.unexplored++; unsupportedMsgs["too many values to enumerate"]++; break; } }
  (void)base; addPC(s,X.eq(e,X.c(first,e->w))); s.known[e]=first; return first; }
static inline Val norm(State&s,Val v){ if(v.e){ auto it=s.known.find(v.e); if(it!=s.known.end()) return Val(it->second); } return v; }
static uint64_t conc(State&s,Val v,unsigned w){ (void)w; return v.e? concretize(s,v.e):v.c; }

// ---------------------------------------------------------------- memory access
static Obj* chk(State&s,uint64_t addr,uint64_t n,bool wr,const char*what){
  uint32_t id=addr>>32, off=(uint32_t)addr;
  if(id==0) fail(s,"memory",std::string(what)+(addr<4096?" through a null pointer":" through an invalid pointer"));
  if(addr>=FBASE) fail(s,"memory",std::string(what)+" through a function pointer");
  Obj*o=id<s.h.next? s.h.get(id):nullptr;
  if(!o) fail(s,"memory",std::string(what)+" of freed or unknown memory");
  if((uint64_t)off+n>o->size) fail(s,"memory",std::string(what)+" out of bounds");
  if(wr&&o->kind==KCONST) fail(s,"memory","write to constant memory");
  return wr? s.h.wr(id):o; }
static E byteExpr(Obj*o,uint32_t i);
static E newUndef(unsigned w){ static std::vector<E> dummy; unsigned id=X.newSymbol("undef",w,maskw(w),true); return X.sym(id,w); }
static E cellByte(const Cell&c){ return X.extract(c.e,8*c.idx,8); }
static Val loadC(State&s,uint64_t addr,unsigned w){ // w bits, concrete address
  unsigned n=(w+7)/8; Obj*o=chk(s,addr,n,false,"read"); uint32_t off=(uint32_t)addr;
  if(!o->simple()){
    bool any=false; for(unsigned i=0;i<n;i++) if(o->flags[off+i]){any=true;break;}
    if(any){
      bool allU=true; for(unsigned i=0;i<n;i++) if(o->flags[off+i]!=1){allU=false;break;}
      if(allU){ E u=newUndef(w<8?8:w); Obj*o2=s.h.wr(addr>>32); if(o2->cells.empty()) o2->cells.resize(o2->size); for(unsigned i=0;i<n;i++){ o2->flags[off+i]=2; o2->cells[off+i]=Cell{u,(uint8_t)i}; } return mk(X.extract(u,0,w)); }
      if(o->flags[off]==2){ Cell&c0=o->cells[off]; bool same=c0.idx==0&&c0.e->w==8*n; for(unsigned i=1;same&&i<n;i++) same=o->flags[off+i]==2&&o->cells[off+i].e==c0.e&&o->cells[off+i].idx==i; if(same) return mk(X.extract(c0.e,0,w)); }
      E r=nullptr; for(int i=(int)n-1;i>=0;i--){ E b; if(o->flags[off+i]==0) b=X.c(o->data[off+i],8); else if(o->flags[off+i]==1) b=newUndef(8); else b=cellByte(o->cells[off+i]); r=r? X.concat(r,b):b; }
      return mk(X.extract(r,0,w)); } }
  uint64_t v=0; memcpy(&v,&o->data[off],n); return Val(v&maskw(w)); }
static void storeC(State&s,uint64_t addr,Val v,unsigned w){
  unsigned n=(w+7)/8; Obj*o=chk(s,addr,n,true,"write"); uint32_t off=(uint32_t)addr;
  if(!v.e){ uint64_t c=v.c&maskw(w); memcpy(&o->data[off],&c,n); if(!o->simple()) memset(&o->flags[off],0,n); return; }
  if(o->simple()) o->flags.assign(o->size,0);
  if(o->cells.empty()) o->cells.resize(o->size);
  E e=v.e; if(e->w!=8*n) e=X.zext(e,8*n);
  for(unsigned i=0;i<n;i++){ o->flags[off+i]=2; o->cells[off+i]=Cell{e,(uint8_t)i}; } }
// symbolic address: if it always stays inside one object, list candidate offsets
static bool candidates(State&s,E a,unsigned n,std::vector<uint64_t>&out){
  s.model.resize(X.symbols.size(),0);
  uint64_t v=X.evalModel(a,s.model); uint32_t id=v>>32; Obj*o=id&&id<s.h.next? s.h.get(id):nullptr; if(!o||o->size<n) return false;
  uint64_t base=(uint64_t)id<<32; E off=X.bin(SUB,a,X.c(base,64)); E ok=X.bin(ULE,off,X.c(o->size-n,64)); ok=substK(s,ok);
  if(ok->op==CONST? !ok->k : solve(s,X.lnot(ok),nullptr)!=0) return false;
  int64_t lo=std::max<int64_t>(0,off->lo),hi=std::min<int64_t>(o->size-n,off->hi); uint64_t step=1;
  if(off->op==ADD&&off->b->op==CONST){ unsigned tz=off->a->tz; step=tz>=20?1<<20:1ull<<tz; uint64_t r=off->b->k%step; while((uint64_t)lo%step!=r&&lo<=hi) lo++; }
  else { unsigned tz=off->tz; step=tz>=20?1<<20:1ull<<tz; while((uint64_t)lo%step&&lo<=hi) lo++; }
  for(int64_t x=lo;x<=hi;x+=step){ out.push_back(base+x); if(out.size()>48) return false; }
  return !out.empty(); }
static Val load(State&s,Val a,unsigned w){
  if(!a.e) return loadC(s,a.c,w);
  E ae=substK(s,a.e); if(ae->op==CONST) return loadC(s,ae->k,w);
  if(ae->undef&&dependsOnUndef(s,ae)) fail(s,"uninitialised","read through an uninitialised pointer");
  std::vector<uint64_t> c; if(!candidates(s,ae,(w+7)/8,c)) return loadC(s,concretize(s,ae),w);
  E r=nullptr; for(auto it=c.rbegin();it!=c.rend();++it){ E v=ex(loadC(s,*it,w),w); r=r? X.ite(X.eq(ae,X.c(*it,64)),v,r):v; } return mk(r); }
static void store(State&s,Val a,Val v,unsigned w){
  if(!a.e) return storeC(s,a.c,v,w);
  E ae=substK(s,a.e); if(ae->op==CONST) return storeC(s,ae->k,v,w);
  if(ae->undef&&dependsOnUndef(s,ae)) fail(s,"uninitialised","write through an uninitialised pointer");
  std::vector<uint64_t> c; if(!candidates(s,ae,(w+7)/8,c)) return storeC(s,concretize(s,ae),v,w);
  for(uint64_t x:c){ E old=ex(loadC(s,x,w),w); storeC(s,x,mk(X.ite(X.eq(ae,X.c(x,64)),ex(v,w),old)),w); } }
static void copyMem(State&s,uint64_t d,uint64_t sr,uint64_t n){
  if(!n) return; Obj*so=chk(s,sr,n,false,"read"); Ref<Obj> hold(so); Obj*o=chk(s,d,n,true,"write"); so=hold.get(); uint32_t so_=(uint32_t)sr,do_=(uint32_t)d;
  if(o==so){ // overlapping within one object
    std::vector<uint8_t> t(so->data.begin()+so_,so->data.begin()+so_+n),fl; std::vector<Cell> ce; if(!so->simple()) fl.assign(so->flags.begin()+so_,so->flags.begin()+so_+n); if(!so->cells.empty()) ce.assign(so->cells.begin()+so_,so->cells.begin()+so_+n);
    memcpy(&o->data[do_],t.data(),n); if(!fl.empty()) memcpy(&o->flags[do_],fl.data(),n); if(!ce.empty()) std::copy(ce.begin(),ce.end(),o->cells.begin()+do_); return; }
  memcpy(&o->data[do_],&so->data[so_],n);
  if(!so->simple()){ if(o->simple()) o->flags.assign(o->size,0); memcpy(&o->flags[do_],&so->flags[so_],n); if(!so->cells.empty()){ if(o->cells.empty()) o->cells.resize(o->size); std::copy(so->cells.begin()+so_,so->cells.begin()+so_+n,o->cells.begin()+do_);} }
  else if(!o->simple()) memset(&o->flags[do_],0,n); }
static std::string readStr(State&s,uint64_t a){ std::string r; for(int i=0;i<4096;i++){ Val v=loadC(s,a+i,8); uint64_t c=conc(s,v,8); if(!c) break; r+=(char)c; } return r; }
static uint64_t newObj(State&s,uint64_t n,Kind k,bool init){ if(n>(64u<<20)) throw Unsupported{"allocation larger than 64 MB"}; uint32_t id=s.h.alloc((uint32_t)n,k,init); if(k<=KNEWARR){ Obj*o=s.h.get(id); o->proc=s.cur; auto&st=s.pr[s.cur].st; for(size_t i=0;i<4&&i<st.size();i++) o->site[i]=st[st.size()-1-i].fn; } return (uint64_t)id<<32; }

// ---------------------------------------------------------------- decode
static int nslotsOf(Type*t){ if(t->isVoidTy()) return 0; if(auto*st=dyn_cast<StructType>(t)){ int n=0; for(auto*e:st->elements()) n+=nslotsOf(e); return n; } if(auto*at=dyn_cast<ArrayType>(t)) return at->getNumElements()*nslotsOf(at->getElementType()); return 1; }
static unsigned widthOf(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
static bool leavesOf(Type*t,uint32_t off,std::vector<MemTy>&o){
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) if(!leavesOf(st->getElementType(i),off+sl->getElementOffset(i),o)) return false; return true; }
  if(auto*at=dyn_cast<ArrayType>(t)){ uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) if(!leavesOf(at->getElementType(),off+i*es,o)) return false; return true; }
  unsigned w=widthOf(t); if(w==0||w>64) return false; o.push_back({off,(uint8_t)w,(uint8_t)((w+7)/8)}); return true; }
static FnCode* getFn(const Function*f){ auto it=fnOf.find(f); if(it!=fnOf.end()) return it->second; auto c=std::make_unique<FnCode>(); c->f=f;c->name=f->getName().str();c->id=fns.size(); FnCode*p=c.get(); fns.push_back(std::move(c)); fnOf[f]=p; return p; }
static int getG(const GlobalVariable*g){ auto it=glOf.find(g); if(it!=glOf.end()) return it->second; throw Unsupported{"unknown global "+g->getName().str()}; }
static Opd constOpd(const Constant*c){
  Opd o;
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ if(ci->getValue().getActiveBits()>64) throw Unsupported{"wide constant"}; } o.imm=ci->getValue().getLoBits(64).getZExtValue(); return o; }
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)){ o.imm=0; return o; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ o.imm=cf->getValueAPF().bitcastToAPInt().getZExtValue(); return o; }
  if(auto*f=dyn_cast<Function>(c)){ o.imm=FBASE+((uint64_t)getFn(f)->id<<4); return o; }
  if(auto*gv=dyn_cast<GlobalVariable>(c)){ o.g=getG(gv); return o; }
  if(auto*ga=dyn_cast<GlobalAlias>(c)) return constOpd(ga->getAliasee());
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr: { APInt off(64,0); auto*g=cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL,off)) throw Unsupported{"const gep"}; o=constOpd(cast<Constant>(g->getPointerOperand())); o.imm+=off.getSExtValue(); return o; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constOpd(ce->getOperand(0));
    case Instruction::Sub: { Opd a=constOpd(ce->getOperand(0)),b=constOpd(ce->getOperand(1)); if(a.g==b.g){ Opd r; r.imm=a.imm-b.imm; return r; } break; }
    case Instruction::Add: { Opd a=constOpd(ce->getOperand(0)),b=constOpd(ce->getOperand(1)); if(b.g<0){ a.imm+=b.imm; return a; } break; }
    default: break; } }
  throw Unsupported{"constant expression"}; }
static void constLeaves(const Constant*c,Type*t,std::vector<Opd>&out){
  if(t->isStructTy()||t->isArrayTy()){ unsigned n=t->isStructTy()? t->getStructNumElements():t->getArrayNumElements(); for(unsigned i=0;i<n;i++){ Type*et=t->isStructTy()? t->getStructElementType(i):t->getArrayElementType(); const Constant*e=c->getAggregateElement(i); constLeaves(e,et,out);} return; }
  out.push_back(constOpd(c)); }
struct HandlerEnt { const char*name; Handler h; };
static Handler findHandler(const std::string&n);
static void decode(FnCode*fc){
  fc->decoded=true; const Function*F=fc->f; std::unordered_map<const Value*,int> slot; int ns=0;
  for(auto&a:F->args()){ fc->argslots.push_back(ns); slot[&a]=ns; int n=nslotsOf(a.getType()); fc->argn.push_back(n); ns+=n; }
  fc->nargs=ns; fc->va=F->isVarArg();
  for(auto&bb:*F) for(auto&i:bb){ slot[&i]=ns; ns+=nslotsOf(i.getType()); }
  fc->nslots=ns;
  auto opds=[&](const Value*v)->std::vector<Opd>{ std::vector<Opd> r; if(auto*c=dyn_cast<Constant>(v)){ constLeaves(c,v->getType(),r); return r; } int n=nslotsOf(v->getType()); int s=slot.at(v); for(int i=0;i<n;i++){ Opd o; o.slot=s+i; r.push_back(o);} return r; };
  auto opd=[&](const Value*v)->Opd{ auto r=opds(v); if(r.size()!=1) throw Unsupported{"aggregate operand"}; return r[0]; };
  std::unordered_map<const BasicBlock*,int> bi; int bn=0; for(auto&bb:*F) bi[&bb]=bn++; fc->blockStart.assign(bn,0);
  auto edge=[&](const BasicBlock*from,const BasicBlock*to)->Edge{ Edge e; e.target=bi[to]; for(auto&phi:to->phis()){ const Value*v=phi.getIncomingValueForBlock(from); if(isa<UndefValue>(v)&&0) continue; auto os=opds(v); for(size_t k=0;k<os.size();k++) e.moves.push_back({slot[&phi]+(int)k,os[k],1}); } return e; };
  for(auto&bb:*F){ fc->blockStart[bi[&bb]]=fc->code.size();
    for(auto&I:bb){ if(isa<PHINode>(&I)) continue; Inst in; in.ll=&I; in.dst=slot[&I]; in.nres=nslotsOf(I.getType());
      try{
      if(auto*b=dyn_cast<BinaryOperator>(&I)){ unsigned w=widthOf(I.getType()); in.w=w; in.ops={opd(b->getOperand(0)),opd(b->getOperand(1))}; if(!w||w>64) throw Unsupported{"vector or wide arithmetic"};
        in.op=I_BIN; switch(b->getOpcode()){ case Instruction::Add:in.pred=ADD;break;case Instruction::Sub:in.pred=SUB;break;case Instruction::Mul:in.pred=MUL;break;case Instruction::UDiv:in.pred=UDIV;break;case Instruction::SDiv:in.pred=SDIV;break;case Instruction::URem:in.pred=UREM;break;case Instruction::SRem:in.pred=SREM;break;case Instruction::And:in.pred=AND;break;case Instruction::Or:in.pred=OR;break;case Instruction::Xor:in.pred=XOR;break;case Instruction::Shl:in.pred=SHL;break;case Instruction::LShr:in.pred=LSHR;break;case Instruction::AShr:in.pred=ASHR;break;
          case Instruction::FAdd:in.op=I_FBIN;in.pred=Ctx::FADD;break;case Instruction::FSub:in.op=I_FBIN;in.pred=Ctx::FSUB;break;case Instruction::FMul:in.op=I_FBIN;in.pred=Ctx::FMUL;break;case Instruction::FDiv:in.op=I_FBIN;in.pred=Ctx::FDIV;break;case Instruction::FRem:in.op=I_FBIN;in.pred=Ctx::FREM;break; default: throw Unsupported{"binop"}; } }
      else if(auto*ic=dyn_cast<ICmpInst>(&I)){ in.op=I_ICMP; in.w=widthOf(ic->getOperand(0)->getType()); if(!in.w) throw Unsupported{"vector icmp"}; in.ops={opd(ic->getOperand(0)),opd(ic->getOperand(1))}; in.pred=ic->getPredicate(); }
      else if(auto*fcm=dyn_cast<FCmpInst>(&I)){ in.op=I_FCMP; in.w=widthOf(fcm->getOperand(0)->getType()); if(!in.w) throw Unsupported{"vector fcmp"}; in.ops={opd(fcm->getOperand(0)),opd(fcm->getOperand(1))}; in.pred=fcm->getPredicate(); }
      else if(auto*u=dyn_cast<UnaryOperator>(&I)){ in.op=I_FNEG; in.w=widthOf(I.getType()); in.ops={opd(u->getOperand(0))}; }
      else if(auto*c=dyn_cast<CastInst>(&I)){ in.w=widthOf(c->getSrcTy()); in.w2=widthOf(c->getDestTy()); if(!in.w||!in.w2) throw Unsupported{"vector cast"}; in.ops={opd(c->getOperand(0))}; in.op=I_CAST;
        switch(c->getOpcode()){ case Instruction::ZExt:in.pred=C_ZEXT;break;case Instruction::SExt:in.pred=C_SEXT;break;case Instruction::Trunc:in.pred=C_TRUNC;break;case Instruction::PtrToInt:case Instruction::IntToPtr: in.pred= in.w2<=in.w? (in.w2==in.w?255:C_TRUNC):C_ZEXT; break; case Instruction::BitCast: in.pred=255; break;
          case Instruction::SIToFP:in.pred=C_S2D;break;case Instruction::UIToFP:in.pred=C_U2D;break;case Instruction::FPToSI:in.pred=C_D2S;break;case Instruction::FPToUI:in.pred=C_D2U;break;case Instruction::FPExt:in.pred=C_FEXT;break;case Instruction::FPTrunc:in.pred=C_FTRUNC;break; default: throw Unsupported{"cast"}; } }
      else if(auto*l=dyn_cast<LoadInst>(&I)){ in.op=I_LOAD; in.ops={opd(l->getPointerOperand())}; if(!leavesOf(l->getType(),0,in.leaves)) throw Unsupported{"load of unsupported type"}; }
      else if(auto*st=dyn_cast<StoreInst>(&I)){ in.op=I_STORE; in.ops={opd(st->getPointerOperand())}; for(auto&o:opds(st->getValueOperand())) in.ops.push_back(o); if(!leavesOf(st->getValueOperand()->getType(),0,in.leaves)) throw Unsupported{"store of unsupported type"}; if(isa<UndefValue>(st->getValueOperand())) in.op=I_NOP; }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ in.op=I_GEP; in.ops={opd(g->getPointerOperand())}; for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ const Value*ix=gi.getOperand(); if(StructType*sty=gi.getStructTypeOrNull()){ in.off+=DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) in.off+=ci->getSExtValue()*sc; else { in.ops.push_back(opd(ix)); in.scales.push_back({sc,(int)widthOf(ix->getType())}); } } } }
      else if(auto*al=dyn_cast<AllocaInst>(&I)){ in.op=I_ALLOCA; in.size=DL->getTypeAllocSize(al->getAllocatedType()); in.ops={opd(al->getArraySize())}; }
      else if(auto*r=dyn_cast<ReturnInst>(&I)){ in.op=I_RET; if(r->getReturnValue()) in.ops=opds(r->getReturnValue()); }
      else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ in.op=I_CBR; in.ops={opd(br->getCondition())}; in.edges={edge(&bb,br->getSuccessor(0)),edge(&bb,br->getSuccessor(1))}; } else { in.op=I_BR; in.edges={edge(&bb,br->getSuccessor(0))}; } }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ in.op=I_SWITCH; in.w=widthOf(sw->getCondition()->getType()); in.ops={opd(sw->getCondition())}; in.edges={edge(&bb,sw->getDefaultDest())}; for(auto&cs:sw->cases()){ in.cases.push_back(cs.getCaseValue()->getZExtValue()); in.edges.push_back(edge(&bb,cs.getCaseSuccessor())); } }
      else if(auto*se=dyn_cast<SelectInst>(&I)){ in.op=I_SELECT; in.ops={opd(se->getCondition())}; leavesOf(I.getType(),0,in.leaves); auto a=opds(se->getTrueValue()),b=opds(se->getFalseValue()); for(size_t k=0;k<a.size();k++){ in.ops.push_back(a[k]); in.ops.push_back(b[k]); } }
      else if(auto*fr=dyn_cast<FreezeInst>(&I)){ in.op=I_MOVE; in.ops=opds(fr->getOperand(0)); }
      else if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ in.op=I_MOVE; Type*t=ev->getAggregateOperand()->getType(); int o=0; for(unsigned ix:ev->indices()){ if(auto*st2=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) o+=nslotsOf(st2->getElementType(k)); t=st2->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); o+=ix*nslotsOf(t);} } auto all=opds(ev->getAggregateOperand()); in.ops.assign(all.begin()+o,all.begin()+o+in.nres); }
      else if(auto*iv=dyn_cast<InsertValueInst>(&I)){ in.op=I_MOVE; Type*t=iv->getAggregateOperand()->getType(); int o=0; for(unsigned ix:iv->indices()){ if(auto*st2=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) o+=nslotsOf(st2->getElementType(k)); t=st2->getElementType(ix);} else { t=cast<ArrayType>(t)->getElementType(); o+=ix*nslotsOf(t);} } auto all=opds(iv->getAggregateOperand()); auto v=opds(iv->getInsertedValueOperand()); for(size_t k=0;k<v.size();k++) all[o+k]=v[k]; in.ops=all; }
      else if(auto*cb=dyn_cast<CallBase>(&I)){
        const InvokeInst*inv=dyn_cast<InvokeInst>(&I); if(inv) in.edges={edge(&bb,inv->getNormalDest()),edge(&bb,inv->getUnwindDest())};
        if(isa<DbgInfoIntrinsic>(&I)||isa<LifetimeIntrinsic>(&I)) continue;
        const Value*cv=cb->getCalledOperand()->stripPointerCasts(); const Function*cf=dyn_cast<Function>(cv); if(!cf) if(auto*ga=dyn_cast<GlobalAlias>(cv)) cf=dyn_cast<Function>(ga->getAliasee());
        for(unsigned k=0;k<cb->arg_size();k++){ if(cb->getArgOperand(k)->getType()->isMetadataTy()){ in.ops.push_back(Opd()); in.argw.push_back(64); continue; } auto os=opds(cb->getArgOperand(k)); std::vector<MemTy> lv; if(!leavesOf(cb->getArgOperand(k)->getType(),0,lv)) throw Unsupported{"call argument type"}; for(size_t q=0;q<os.size();q++){ in.ops.push_back(os[q]); in.argw.push_back(lv[q].w); } }
        // byval pointers are passed as pointers: copy is made by the callee's frame below
        for(unsigned k=0;k<cb->arg_size();k++) if(cb->isByValArgument(k)){ in.cases.push_back(k); in.cases.push_back(DL->getTypeAllocSize(cb->getParamByValType(k))); }
        if(cf){ in.sname=new std::string(cf->getName().str()); Handler h=(!cf->isDeclaration()&&(*in.sname=="vfprintf"||*in.sname=="fprintf"||*in.sname=="fputs"||*in.sname=="fputc"||*in.sname=="putc"))?nullptr:findHandler(*in.sname); if(h){ in.op=I_CALLX; in.h=h; } else if(!cf->isDeclaration()){ in.op=I_CALL; in.callee=getFn(cf); } else { in.op=I_UNSUP; } in.w=widthOf(I.getType()); }
        else { in.op=I_CALLI; in.ops.insert(in.ops.begin(),opd(cb->getCalledOperand())); in.argw.insert(in.argw.begin(),64); } }
      else if(isa<UnreachableInst>(&I)) in.op=I_UNREACH;
      else if(isa<LandingPadInst>(&I)) in.op=I_LPAD; else if(auto*rs=dyn_cast<ResumeInst>(&I)){ in.op=I_RESUME; in.ops=opds(rs->getValue()); }
      else if(isa<FenceInst>(&I)) in.op=I_NOP;
      else throw Unsupported{std::string("instruction ")+I.getOpcodeName()};
      } catch(Unsupported&u){ in.op=I_UNSUP; if(!in.sname) in.sname=new std::string(u.what); }
      fc->code.push_back(std::move(in)); } } }

// ---------------------------------------------------------------- interpreter
static inline Val get(State&s,Frame&f,const Opd&o){ if(o.slot>=0){ Val v=f.r[o.slot]; if(v.e) return norm(s,v); return v; } if(o.g>=0) return Val(((uint64_t)s.pr[s.cur].gaddr[o.g]<<32)+o.imm); return Val(o.imm); }
static void take(State&s,Frame&f,const Edge&e){
  if(!e.moves.empty()){ if(e.moves.size()==1) f.r[e.moves[0].dst]=get(s,f,e.moves[0].src); else { static std::vector<Val> tmp; tmp.clear(); for(auto&m:e.moves) tmp.push_back(get(s,f,m.src)); for(size_t i=0;i<e.moves.size();i++) f.r[e.moves[i].dst]=tmp[i]; } }
  f.pc=f.fn->blockStart[e.target]; }
static void pushFrame(State&s,FnCode*fn,std::vector<Val>&args,std::vector<uint8_t>*aw,int ret,int nret){
  if(!fn->decoded) decode(fn); fn->executed=true; if(s.pr[s.cur].st.size()>400) fail(s,"recursion","call depth exceeded 400"); s.pr[s.cur].st.emplace_back(); Frame&f=s.pr[s.cur].st.back(); f.fn=fn; f.pc=0; f.ret=ret; f.nret=nret; f.r.resize(fn->nslots);
  for(int i=0;i<fn->nargs&&i<(int)args.size();i++) f.r[i]=args[i]; if(fn->va) for(size_t i=fn->nargs;i<args.size();i++){ f.va.push_back(args[i]); f.vaw.push_back(aw?(*aw)[i]:64); } }
static void doRet(State&s,std::vector<Val>&rv){
  Proc&p=s.pr[s.cur]; Frame&f=p.st.back(); for(uint32_t a:f.allocas) s.h.free(a); int ret=f.ret,n=f.nret; p.st.pop_back();
  if(p.st.empty()){ p.done=true; return; }
  Frame&g=p.st.back(); if(g.pc<0){ g.pc=0; return; } for(int i=0;i<n&&i<(int)rv.size();i++) g.r[ret+i]=rv[i];
  const Inst&ci=g.fn->code[g.pc]; if(!ci.edges.empty()) take(s,g,ci.edges[0]); else g.pc++; }
// Exceptions: find a frame with a handler for the type, then leave frames up to the next landing pad (clean-ups run in order).
static uint64_t addrOf(State&s,const Value*v){ v=v->stripPointerCasts(); auto*g=dyn_cast<GlobalVariable>(v); if(!g) return 0; return (uint64_t)s.pr[s.cur].gaddr[glOf[g]]<<32; }
static bool stdExc(State&s,uint64_t ty){ for(auto&g:M->globals()) if(g.getName().starts_with("_ZTISt")&&addrOf(s,&g)==ty) return true; return false; }
static const LandingPadInst* padOf(const Frame&f){ const Inst&ci=f.fn->code[f.pc]; auto*inv=ci.ll?dyn_cast<InvokeInst>(ci.ll):nullptr; return inv? inv->getLandingPadInst():nullptr; }
static void unwind(State&s,uint64_t exc,uint64_t ty,const char*how){
  Proc&p=s.pr[s.cur]; bool caught=false; for(size_t k=p.st.size();k-->0&&!caught;) if(auto*lp=padOf(p.st[k])) for(unsigned c=0;c<lp->getNumClauses();c++) if(lp->isCatch(c)){ auto*cl=lp->getClause(c); if(isa<ConstantPointerNull>(cl)||addrOf(s,cl)==ty||(cl->getName()=="_ZTISt9exception"&&stdExc(s,ty))) caught=true; }
  if(!caught) fail(s,"exception",how);
  p.flying={exc,ty}; while(!padOf(p.st.back())){ for(uint32_t a:p.st.back().allocas) s.h.free(a); p.st.pop_back(); }
  Frame&f=p.st.back(); take(s,f,f.fn->code[f.pc].edges[1]); }
static void setRes(State&s,const Inst&in,Val v){ Frame&f=s.f(); if(in.nres) f.r[in.dst]=v; }
static void nextPc(State&s,const Inst&in){ Frame&f=s.f(); if(!in.edges.empty()) take(s,f,in.edges[0]); else f.pc++; }
static bool pickNext(State&s){ // round-robin over live procs; false when all done
  int n=s.pr.size(); for(int k=1;k<=n;k++){ int j=(s.cur+k)%n; if(!s.pr[j].done){ s.cur=j; return true; } } return false; }

static void step(State&s,const Inst&in){
  Frame&f=s.f();
  switch(in.op){
  case I_BIN: { Val a=get(s,f,in.ops[0]),b=get(s,f,in.ops[1]); Op op=(Op)in.pred;
    if(op==UDIV||op==SDIV||op==UREM||op==SREM){ E z=X.eq(ex(b,in.w),X.c(0,in.w)); if(branch(s,z)) fail(s,"arithmetic","integer division by zero"); }
    if(!a.e&&!b.e){ f.r[in.dst]=Val(Ctx::fold(op,in.w,a.c,b.c)&maskw(in.w)); } else f.r[in.dst]=mk(X.bin(op,ex(a,in.w),ex(b,in.w))); f.pc++; break; }
  case I_ICMP: { Val a=get(s,f,in.ops[0]),b=get(s,f,in.ops[1]); unsigned w=in.w; uint64_t r=0; 
    if(!a.e&&!b.e){ uint64_t x=a.c&maskw(w),y=b.c&maskw(w); int64_t sxx=sx(x,w),sy=sx(y,w); switch(in.pred){ case ICmpInst::ICMP_EQ:r=x==y;break;case ICmpInst::ICMP_NE:r=x!=y;break;case ICmpInst::ICMP_UGT:r=x>y;break;case ICmpInst::ICMP_UGE:r=x>=y;break;case ICmpInst::ICMP_ULT:r=x<y;break;case ICmpInst::ICMP_ULE:r=x<=y;break;case ICmpInst::ICMP_SGT:r=sxx>sy;break;case ICmpInst::ICMP_SGE:r=sxx>=sy;break;case ICmpInst::ICMP_SLT:r=sxx<sy;break;default:r=sxx<=sy;} f.r[in.dst]=Val(r); }
    else { E x=ex(a,w),y=ex(b,w),e; switch(in.pred){ case ICmpInst::ICMP_EQ:e=X.bin(EQ,x,y);break;case ICmpInst::ICMP_NE:e=X.lnot(X.bin(EQ,x,y));break;case ICmpInst::ICMP_UGT:e=X.bin(ULT,y,x);break;case ICmpInst::ICMP_UGE:e=X.bin(ULE,y,x);break;case ICmpInst::ICMP_ULT:e=X.bin(ULT,x,y);break;case ICmpInst::ICMP_ULE:e=X.bin(ULE,x,y);break;case ICmpInst::ICMP_SGT:e=X.bin(SLT,y,x);break;case ICmpInst::ICMP_SGE:e=X.bin(SLE,y,x);break;case ICmpInst::ICMP_SLT:e=X.bin(SLT,x,y);break;default:e=X.bin(SLE,x,y);} f.r[in.dst]=mk(e); } f.pc++; break; }
  case I_FCMP: { Val a=get(s,f,in.ops[0]),b=get(s,f,in.ops[1]);
    if(in.w==32){ if(a.e||b.e) throw Unsupported{"symbolic float"}; float x,y; uint32_t u=a.c,v=b.c; memcpy(&x,&u,4); memcpy(&y,&v,4); f.r[in.dst]=Val(Ctx::fcmpC(in.pred,x,y)); }
    else f.r[in.dst]=mk(X.fcmp(in.pred,ex(a,64),ex(b,64),&s.known)); f.pc++; break; }
  case I_FBIN: { Val a=get(s,f,in.ops[0]),b=get(s,f,in.ops[1]);
    if(in.w==32){ if(a.e||b.e) throw Unsupported{"symbolic float"}; float x,y,r=0; uint32_t u=a.c,v=b.c; memcpy(&x,&u,4); memcpy(&y,&v,4); switch(in.pred){case 0:r=x+y;break;case 1:r=x-y;break;case 2:r=x*y;break;case 3:r=x/y;break;default:r=fmodf(x,y);} memcpy(&u,&r,4); f.r[in.dst]=Val(u); }
    else f.r[in.dst]=mk(X.fbin((Ctx::FOp)in.pred,ex(a,64),ex(b,64),&s.known)); f.pc++; break; }
  case I_FNEG: { Val a=get(s,f,in.ops[0]); if(!a.e) f.r[in.dst]=Val(a.c^(1ull<<(in.w-1))); else { E x=X.toInt(a.e); if(x&&(x->lo>0||x->hi<0)) f.r[in.dst]=mk(X.s2d(X.bin(SUB,X.c(0,64),x))); else f.r[in.dst]=mk(X.fun1(a.e,&s.known,[](double d){return -d;})); } f.pc++; break; }
  case I_CAST: { Val a=get(s,f,in.ops[0]); unsigned w=in.w,w2=in.w2; Val r;
    switch(in.pred){ case 255: r=a; break;
      case C_ZEXT: r=a.e? mk(X.zext(a.e,w2)):Val(a.c&maskw(w)); break; case C_SEXT: r=a.e? mk(X.sext(a.e,w2)):Val((uint64_t)sx(a.c,w)&maskw(w2)); break; case C_TRUNC: r=a.e? mk(X.extract(a.e,0,w2)):Val(a.c&maskw(w2)); break;
      case C_S2D: if(w2==32){ if(a.e) throw Unsupported{"symbolic float"}; float d=(float)sx(a.c,w); uint32_t u; memcpy(&u,&d,4); r=Val(u);} else r=a.e? mk(X.s2d(X.sext(a.e,64))):Val(fromD((double)sx(a.c,w))); break;
      case C_U2D: if(w2==32){ if(a.e) throw Unsupported{"symbolic float"}; float d=(float)(a.c&maskw(w)); uint32_t u; memcpy(&u,&d,4); r=Val(u);} else r=a.e? mk(X.s2d(X.zext(a.e,64))):Val(fromD((double)(a.c&maskw(w)))); break;
      case C_D2S: case C_D2U: if(w==32){ if(a.e) throw Unsupported{"symbolic float"}; float d; uint32_t u=a.c; memcpy(&d,&u,4); r=Val((uint64_t)(int64_t)d&maskw(w2)); } else r=mk(X.d2i(ex(a,64),w2,in.pred==C_D2S,&s.known)); break;
      case C_FEXT: { if(a.e) throw Unsupported{"symbolic float"}; float d; uint32_t u=a.c; memcpy(&d,&u,4); r=Val(fromD((double)d)); break; }
      case C_FTRUNC: { if(a.e) throw Unsupported{"symbolic float"}; float d=(float)asD(a.c); uint32_t u; memcpy(&u,&d,4); r=Val(u); break; } }
    f.r[in.dst]=r; f.pc++; break; }
  case I_LOAD: { Val a=get(s,f,in.ops[0]); if(in.leaves.size()==1){ Val v=load(s,a,in.leaves[0].w); s.f().r[in.dst]=v; } else { uint64_t p=conc(s,a,64); for(size_t k=0;k<in.leaves.size();k++) s.f().r[in.dst+k]=loadC(s,p+in.leaves[k].off,in.leaves[k].w); } s.f().pc++; break; }
  case I_STORE: { Val a=get(s,f,in.ops[0]); if(in.leaves.size()==1){ store(s,a,get(s,f,in.ops[1]),in.leaves[0].w); } else { uint64_t p=conc(s,a,64); for(size_t k=0;k<in.leaves.size();k++) storeC(s,p+in.leaves[k].off,get(s,f,in.ops[1+k]),in.leaves[k].w); } f.pc++; break; }
  case I_GEP: { Val b=get(s,f,in.ops[0]); uint64_t c=in.off; E sy=b.e; if(!b.e) c+=b.c; for(size_t k=1;k<in.ops.size();k++){ Val v=get(s,f,in.ops[k]); auto sc=in.scales[k-1]; if(!v.e) c+=(uint64_t)sx(v.c,sc.second)*(uint64_t)sc.first; else { E t=X.bin(MUL,X.sext(v.e,64),X.c(sc.first,64)); sy=sy? X.bin(ADD,sy,t):t; } } f.r[in.dst]= sy? mk(X.bin(ADD,sy,X.c(c,64))):Val(c); f.pc++; break; }
  case I_ALLOCA: { uint64_t n=conc(s,get(s,f,in.ops[0]),64); uint64_t p=newObj(s,n*in.size,KSTACK,false); s.f().allocas.push_back(p>>32); s.f().r[in.dst]=Val(p); s.f().pc++; break; }
  case I_CALL: case I_CALLI: { std::vector<Val> args; size_t k0=in.op==I_CALLI?1:0; for(size_t k=k0;k<in.ops.size();k++) args.push_back(get(s,f,in.ops[k]));
    FnCode*fn=in.callee; std::vector<uint8_t> aw(in.argw.begin()+k0,in.argw.end());
    if(in.op==I_CALLI){ uint64_t p=conc(s,get(s,f,in.ops[0]),64); if(p<FBASE||((p-FBASE)>>4)>=fns.size()) fail(s,"memory","call through an invalid function pointer"); fn=fns[(p-FBASE)>>4].get(); Handler h=findHandler(fn->name); if(h){ Inst tmp=in; tmp.sname=new std::string(fn->name); tmp.w=in.nres? widthOf(in.ll->getType()):0; h(s,tmp,args); return; } if(fn->f->isDeclaration()) throw Unsupported{"call of unmodelled external "+fn->name}; }
    for(size_t k=0;k<in.cases.size();k+=2){ uint64_t sz=in.cases[k+1],ai=in.cases[k]; uint64_t src=conc(s,args[ai],64); uint64_t p=newObj(s,sz,KSTACK,false); copyMem(s,p,src,sz); args[ai]=Val(p); }
    pushFrame(s,fn,args,&aw,in.dst,in.nres); break; }
  case I_CALLX: { std::vector<Val> args; for(auto&o:in.ops) args.push_back(get(s,f,o)); in.h(s,in,args); break; }
  case I_RET: { std::vector<Val> rv; for(auto&o:in.ops) rv.push_back(get(s,f,o)); doRet(s,rv); break; }
  case I_BR: take(s,f,in.edges[0]); break;
  case I_CBR: { Val c=get(s,f,in.ops[0]); bool t= c.e? branch(s,c.e):(c.c&1); take(s,f,in.edges[t?0:1]); break; }
  case I_SWITCH: { Val v=get(s,f,in.ops[0]); uint64_t c=conc(s,v,in.w)&maskw(in.w); int e=0; for(size_t k=0;k<in.cases.size();k++) if((in.cases[k]&maskw(in.w))==c){ e=k+1;break; } take(s,f,in.edges[e]); break; }
  case I_SELECT: { Val c=get(s,f,in.ops[0]); if(!c.e){ for(int k=0;k<in.nres;k++) f.r[in.dst+k]=get(s,f,in.ops[1+2*k+((c.c&1)?0:1)]); } else { E ce=substK(s,c.e); for(int k=0;k<in.nres;k++){ unsigned w=in.leaves[k].w; Val a=get(s,f,in.ops[1+2*k]),b=get(s,f,in.ops[2+2*k]); f.r[in.dst+k]=mk(X.ite(ce,ex(a,w),ex(b,w))); } } f.pc++; break; }
  case I_MOVE: { if(in.nres==1) f.r[in.dst]=get(s,f,in.ops[0]); else { std::vector<Val> t; for(auto&o:in.ops) t.push_back(get(s,f,o)); for(size_t k=0;k<t.size();k++) f.r[in.dst+k]=t[k]; } f.pc++; break; }
  case I_NOP: f.pc++; break;
  case I_LPAD: { auto&fl=s.pr[s.cur].flying; f.r[in.dst]=Val(fl.first); if(in.nres>1){ uint64_t sel=fl.second; if(auto*lp=dyn_cast<LandingPadInst>(in.ll)) for(unsigned c=0;c<lp->getNumClauses();c++) if(lp->isCatch(c)&&lp->getClause(c)->getName()=="_ZTISt9exception"&&stdExc(s,sel)) sel=addrOf(s,lp->getClause(c)); f.r[in.dst+1]=Val((sel>>32)&0x7fffffff); } f.pc++; break; }
  case I_RESUME: { uint64_t e=conc(s,get(s,f,in.ops[0]),64); uint64_t ty=0; for(auto&x:s.pr[s.cur].excs) if(x.first==e) ty=x.second; Proc&p=s.pr[s.cur]; for(uint32_t a:p.st.back().allocas) s.h.free(a); p.st.pop_back(); unwind(s,e,ty,"uncaught exception"); break; }
  case I_UNREACH: fail(s,"unreachable","execution reached code marked unreachable (undefined behaviour)");
  case I_UNSUP: if(in.sname&&(in.sname->compare(0,8,"cengpar_")==0||in.sname->find(" cengpar_")!=std::string::npos)) fail(s,"interface","a function declared by the C interface is not defined: "+*in.sname); throw Unsupported{"unmodelled: "+(in.sname?*in.sname:std::string("?"))+" in "+fnName(f.fn)};
  default: throw Unsupported{"opcode"}; } }

// run until the path ends; forks are pushed on `work`
static bool killNow(){ return now()>tDeadline; }
static bool runPath(State*sp,bool bfs=false){ // true when the state should be rescheduled
  State&s=*sp; uint64_t cnt=0,lastQ=ST.queries; size_t w0=work.size();
  try{
    while(true){
      if(s.pr[s.cur].done){ s.idle=0; if(!pickNext(s)){ completed(s); ST.paths++; return false; } }
      Frame&f=s.f(); const Inst&in=f.fn->code[f.pc]; in.hits++; s.steps++; ST.instrs++;
      if(((++cnt&0xffff)==0||ST.queries!=lastQ)&&(lastQ=ST.queries,killNow())){ ST.unexplored++; return false; }
      if(bfs&&work.size()>w0) return true;
      if(s.steps>stepLimit){ ST.stepLim++; ST.paths++; s.model.resize(X.symbols.size(),0); report(s,"hang","no completion within the step bound",s.model); return false; }
      try{ step(s,in); } catch(ForkOn&fo){ concretize(s,fo.e); /* instruction is retried */ }
    }
  } catch(PathEnd&){ ST.paths++; }
  catch(Unsupported&u){ ST.unsupported++; Proc&p=s.pr[s.cur]; std::string w=p.st.empty()?"":whereOf(curInst(s)); unsupportedMsgs[u.what+" at "+w]++; }
  return false;
}
#include "externs.inc"

// ---------------------------------------------------------------- globals
static void initConst(State&s,int proc,uint64_t addr,const Constant*c){
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return; Type*t=c->getType();
  if(auto*cds=dyn_cast<ConstantDataSequential>(c)){ unsigned es=cds->getElementByteSize(); for(unsigned i=0;i<cds->getNumElements();i++){ uint64_t v; if(cds->getElementType()->isFloatingPointTy()) v=cds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); else v=cds->getElementAsInteger(i); Obj*o=s.h.get(addr>>32); memcpy(&o->data[(uint32_t)addr+i*es],&v,es);} return; }
  if(t->isStructTy()){ auto*sl=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<t->getStructNumElements();i++) initConst(s,proc,addr+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
  if(t->isArrayTy()){ uint64_t es=DL->getTypeAllocSize(t->getArrayElementType()); for(unsigned i=0;i<t->getArrayNumElements();i++) initConst(s,proc,addr+i*es,c->getAggregateElement(i)); return; }
  Opd o=constOpd(c); uint64_t v=o.g>=0? (((uint64_t)s.pr[proc].gaddr[o.g]<<32)+o.imm):o.imm; unsigned n=DL->getTypeStoreSize(t); Obj*ob=s.h.get(addr>>32); if(n>8) throw Unsupported{"wide global init"}; memcpy(&ob->data[(uint32_t)addr],&v,n); }
static std::string jesc(const std::string&x){ std::string r; for(char c:x){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static std::string repoPrefix="/repo/";
static std::string diPath(const DIScope*sc){ if(!sc) return ""; auto*f=sc->getFile(); if(!f) return ""; std::string p=f->getFilename().str(); if(!p.empty()&&p[0]!='/') p=f->getDirectory().str()+"/"+p; return p; }
static void writeOut(const std::string&path){
  std::ofstream o(path); o<<"{\"paths\":"<<ST.paths<<",\"instructions\":"<<ST.instrs<<",\"queries\":"<<ST.queries<<",\"sat\":"<<ST.sat<<",\"unsat\":"<<ST.unsat<<",\"unknown\":"<<ST.unknown<<",\"query_cache_hits\":"<<ST.cacheHits<<",\"checks\":"<<ST.checks<<",\"checks_symbolic\":"<<ST.checksSym<<",\"forks\":"<<ST.forks<<",\"step_limited\":"<<ST.stepLim<<",\"unsupported\":"<<ST.unsupported<<",\"unexplored\":"<<ST.unexplored<<",\"solver_s\":"<<ST.solverS<<",\"wall_s\":"<<now()-tStart<<",\"symbols\":"<<X.symbols.size();
  o<<",\"unsupported_msgs\":{"; bool first=true; for(auto&m:unsupportedMsgs){ o<<(first?"":",")<<"\""<<jesc(m.first)<<"\":"<<m.second; first=false; } o<<"}";
  o<<",\"reached\":{"; first=true; for(auto&m:reached){ o<<(first?"":",")<<"\""<<jesc(m.first)<<"\":"<<m.second; first=false; } o<<"}";
  o<<",\"functions\":["; first=true; for(auto&f:fns) if(f->executed){ auto*sp=f->f->getSubprogram(); std::string p=diPath(sp); if(p.compare(0,repoPrefix.size(),repoPrefix)) continue; size_t hit=0,tot=0; for(auto&i:f->code){ if(i.op==I_NOP||i.op==I_UNREACH) continue; tot++; if(i.hits) hit++; } o<<(first?"":",")<<"{\"f\":\""<<jesc(fnName(f.get()))<<"\",\"file\":\""<<jesc(p.substr(repoPrefix.size()))<<"\",\"line\":"<<(sp?sp->getLine():0)<<",\"hit\":"<<hit<<",\"total\":"<<tot<<"}"; first=false; } o<<"]";
  // line coverage (repo files)
  std::map<std::string,std::map<int,bool>> cov; for(auto&f:fns) if(f->decoded) for(auto&i:f->code) if(i.ll) if(auto&d=i.ll->getDebugLoc()){ std::string p=diPath(cast<DIScope>(d->getScope())); if(p.compare(0,repoPrefix.size(),repoPrefix)) continue; bool&b=cov[p.substr(repoPrefix.size())][d->getLine()]; b=b||i.hits; }
  o<<",\"lines\":{"; first=true; for(auto&c:cov){ o<<(first?"":",")<<"\""<<jesc(c.first)<<"\":{\"hit\":["; first=false; bool f2=true; for(auto&l:c.second) if(l.second){ o<<(f2?"":",")<<l.first; f2=false; } o<<"],\"miss\":["; f2=true; for(auto&l:c.second) if(!l.second){ o<<(f2?"":",")<<l.first; f2=false; } o<<"]}"; } o<<"}";
  o<<",\"completed\":"<<nCompleted<<",\"samples\":["; first=true; for(auto&v:samples){ o<<(first?"":",")<<"{"; bool f2=true; for(auto&i:v){ o<<(f2?"":",")<<"\""<<jesc(i.first)<<"\":"<<(int64_t)i.second; f2=false; } o<<"}"; first=false; } o<<"]";
  o<<",\"violations\":["; first=true; for(auto&v:viols){ o<<(first?"":",")<<"{\"kind\":\""<<v.kind<<"\",\"msg\":\""<<jesc(v.msg)<<"\",\"where\":\""<<jesc(v.where)<<"\",\"rank\":"<<v.proc<<",\"inputs\":{"; bool f2=true; for(auto&i:v.inputs){ o<<(f2?"":",")<<"\""<<jesc(i.first)<<"\":"<<(int64_t)i.second; f2=false; } o<<"},\"stack\":["; f2=true; for(auto&k:v.stack){ o<<(f2?"":",")<<"\""<<jesc(k)<<"\""; f2=false; } o<<"]}"; first=false; } o<<"]}\n"; }

#include <atomic>
int main(int argc,char**argv){
  tStart=now(); std::string bc,out="/dev/stdout",entry="vf_main"; int jobs=1; double tl=1e9; 
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="-np") nProcs=atoi(argv[++i]); else if(a=="-o") out=nx(); else if(a=="-j") jobs=atoi(argv[++i]); else if(a=="-t") tl=atof(argv[++i]); else if(a=="-v") verbose=true; else if(a=="-e") entry=nx(); else if(a=="-steps") stepLimit=strtoull(argv[++i],0,10); else if(a=="-maxviol") maxViol=atoi(argv[++i]); else if(a=="-repo") repoPrefix=nx();
    else if(a=="-p"){ std::string kv=nx(); auto q=kv.find('='); params[kv.substr(0,q)]=atoll(kv.c_str()+q+1); }
    else if(a=="-in"){ std::ifstream f(nx()); std::string n; long long v; while(f>>n>>v) fixedInputs[n]=v; haveFixed=true; }
    else bc=a; }
  tDeadline=tStart+tl;
  struct rlimit rl={512u<<20,RLIM_INFINITY}; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(256u<<20)&&!getenv("VSE_STK")){ rl.rlim_cur=512u<<20; if(rl.rlim_max!=RLIM_INFINITY&&rl.rlim_max<rl.rlim_cur) rl.rlim_cur=rl.rlim_max; setrlimit(RLIMIT_STACK,&rl); setenv("VSE_STK","1",1); execv("/proc/self/exe",argv); }
  LLVMContext lc; SMDiagnostic err; auto mod=parseIRFile(bc,err,lc); if(!mod){ err.print("vse",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout();
  { std::vector<Instruction*> at; for(auto&f:*M) for(auto&b:f) for(auto&i:b) if(isa<AtomicRMWInst>(i)||isa<AtomicCmpXchgInst>(i)) at.push_back(&i); // one thread per process: atomics are plain accesses
    for(auto*i:at) if(auto*r=dyn_cast<AtomicRMWInst>(i)) lowerAtomicRMWInst(r); else lowerAtomicCmpXchgInst(cast<AtomicCmpXchgInst>(i)); }
  zinit();
  for(auto&g:M->globals()){ GInfo gi; gi.gv=&g; gi.size=g.getValueType()->isSized()? DL->getTypeAllocSize(g.getValueType()):0; gi.shared=g.hasSection()&&g.getSection()=="vfshared"; gi.perProc=!gi.shared; glOf[&g]=gl.size(); gl.push_back(gi); }
  State*s0=new State; s0->pr.resize(nProcs);
  for(int p=0;p<nProcs;p++){ s0->pr[p].gaddr.resize(gl.size()); for(size_t i=0;i<gl.size();i++){ bool share=gl[i].shared; if(share&&p>0){ s0->pr[p].gaddr[i]=s0->pr[0].gaddr[i]; continue; } s0->pr[p].gaddr[i]=s0->h.alloc(gl[i].size,gl[i].gv->isConstant()?KCONST:KGLOBAL,true); s0->h.get(s0->pr[p].gaddr[i])->name=""; } }
  for(int p=0;p<nProcs;p++) for(size_t i=0;i<gl.size();i++){ if(gl[i].shared&&p>0) continue; if(gl[i].gv->hasInitializer()) try{ initConst(*s0,p,(uint64_t)s0->pr[p].gaddr[i]<<32,gl[i].gv->getInitializer()); }catch(Unsupported&u){ if(verbose) fprintf(stderr,"init %s: %s\n",gl[i].gv->getName().str().c_str(),u.what.c_str()); } }
  // entry: static constructors then vf_main
  Function*mf=M->getFunction(entry); if(!mf){ fprintf(stderr,"no %s\n",entry.c_str()); return 3; }
  std::vector<FnCode*> ctors; if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(auto*arr=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&op:arr->operands()) if(auto*f=dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1))) ctors.push_back(getFn(f));
  try{ for(int p=0;p<nProcs;p++){ s0->cur=p; std::vector<Val> none; pushFrame(*s0,getFn(mf),none,nullptr,0,0); for(auto it=ctors.rbegin();it!=ctors.rend();++it){ pushFrame(*s0,*it,none,nullptr,0,0); } } }catch(Unsupported&u){ fprintf(stderr,"%s\n",u.what.c_str()); return 3; }
  // ctor frames sit above main: a return from a ctor must not advance main's pc
  for(auto&p:s0->pr) for(auto&f:p.st) if(&f!=&p.st.back()) f.pc=-1;
  s0->cur=0; work.push_back(s0);
  auto drain=[&](size_t limit){ // breadth-first until limit states are pending
    while(!work.empty()&&work.size()<limit){ State*s=work.front(); work.erase(work.begin()); 
      if(runPath(s,true)) work.push_back(s); else delete s; if(viols.size()>=maxViol||killNow()) break; } };
  if(jobs>1) drain(jobs*24);
  if(jobs>1&&!work.empty()&&viols.size()<maxViol){
    auto*ctr=(std::atomic<int>*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(ctr) std::atomic<int>(0); auto*stop=ctr+1; new(stop) std::atomic<int>(0);
    std::vector<State*> init=work; work.clear(); writeOut(out+".0"); std::vector<pid_t> kids;
    for(int j=0;j<jobs;j++){ pid_t pid=fork(); if(pid==0){ ST=Stats(); viols.clear(); violKeys.clear(); reached.clear(); nCompleted=0; samples.clear(); unsupportedMsgs.clear(); 
        while(true){ int i=ctr->fetch_add(1); if(i>=(int)init.size()) break; if(killNow()||stop->load()){ ST.unexplored++; continue; }
          work.push_back(init[i]); while(!work.empty()){ State*s=work.back(); work.pop_back(); if(killNow()||viols.size()>=maxViol){ ST.unexplored++; if(viols.size()>=maxViol) stop->store(1); delete s; continue; } runPath(s); delete s; } }
        writeOut(out+"."+std::to_string(j+1)); fflush(0); _exit(0); }
      kids.push_back(pid); }
    int bad=0; for(pid_t k:kids){ int st; waitpid(k,&st,0); if(st) bad++; } if(bad) fprintf(stderr,"vse: %d worker(s) died\n",bad); return bad?4:0; }
  while(!work.empty()){ State*s=work.back(); work.pop_back(); if(killNow()||viols.size()>=maxViol){ ST.unexplored++; delete s; continue; } runPath(s); delete s; }
  writeOut(out+(jobs>1?".0":"")); return 0; }
