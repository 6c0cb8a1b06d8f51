// Symbolic expression DAG with constant folding, interval reasoning and
// exact treatment of integer-valued / finitely tabulated doubles.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <memory>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>

enum Op : uint8_t {
  CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
  S2D,  // double bit pattern of an exactly representable 64-bit signed integer
  TAB   // double bit pattern: table[k] indexed by a (0 <= a < n)
};

typedef std::vector<uint32_t> SymSet;
struct Table { std::vector<double> v; uint64_t h; };

struct Expr {
  Op op; uint8_t w; bool undef; uint8_t tz; uint8_t leaves;
  uint32_t id;
  const Expr *a, *b, *c;
  uint64_t k;            // const value / symbol index / extract low bit
  int64_t lo, hi;        // signed interval
  const SymSet* syms;
  const Table* tab;
  mutable uint64_t epoch; mutable uint64_t val;
  mutable void* z3;
};
typedef const Expr* E;

struct ForkOn { E e; };
struct Unsupported { std::string what; };

static inline uint64_t maskw(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline int64_t sx(uint64_t v, unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }
static inline double asD(uint64_t v){ double d; memcpy(&d,&v,8); return d; }
static inline uint64_t fromD(double d){ uint64_t v; memcpy(&v,&d,8); return v; }
static inline int64_t smin(unsigned w){ return w>=64? INT64_MIN : -(1ll<<(w-1)); }
static inline int64_t smax(unsigned w){ return w>=64? INT64_MAX : (1ll<<(w-1))-1; }

struct SymInfo { std::string name; unsigned bits; uint64_t maxv; bool undef; };

struct Ctx {
  struct Key { uint64_t h; };
  std::unordered_multimap<uint64_t,Expr*> cons;
  std::vector<SymInfo> symbols;
  std::map<SymSet,const SymSet*> symsets;
  std::map<std::pair<const SymSet*,const SymSet*>,const SymSet*> unions;
  std::unordered_map<uint64_t,std::vector<Table*>> tables;
  const SymSet* emptySet;
  uint32_t nextId=1;
  uint64_t epochCounter=1;
  E smallc[65][17];
  Ctx(){ SymSet s; emptySet=internSet(s); memset(smallc,0,sizeof smallc); }
  const SymSet* internSet(const SymSet& s){
    auto it=symsets.find(s); if(it!=symsets.end()) return it->second;
    auto* p=new SymSet(s); symsets[*p]=p; return p; }
  const SymSet* unite(const SymSet* x,const SymSet* y){
    if(x==y||y->empty()) return x; if(x->empty()) return y;
    if(x>y) std::swap(x,y);
    auto key=std::make_pair(x,y); auto it=unions.find(key); if(it!=unions.end()) return it->second;
    SymSet r; std::set_union(x->begin(),x->end(),y->begin(),y->end(),std::back_inserter(r));
    return unions[key]=internSet(r); }
  static uint64_t mix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; return h^(h>>32); }
  E intern(Op op,unsigned w,E a,E b,E c,uint64_t k,const Table* t=nullptr){
    uint64_t h=mix(mix(mix(mix(mix(op*131+w,(uint64_t)a),(uint64_t)b),(uint64_t)c),k),(uint64_t)t);
    auto rg=cons.equal_range(h);
    for(auto it=rg.first;it!=rg.second;++it){ Expr*e=it->second;
      if(e->op==op&&e->w==w&&e->a==a&&e->b==b&&e->c==c&&e->k==k&&e->tab==t) return e; }
    Expr* e=new Expr; memset((void*)e,0,sizeof *e);
    e->op=op;e->w=w;e->a=a;e->b=b;e->c=c;e->k=k;e->tab=t;e->id=nextId++;
    e->undef=(a&&a->undef)||(b&&b->undef)||(c&&c->undef);
    e->syms=emptySet; if(a) e->syms=unite(e->syms,a->syms); if(b) e->syms=unite(e->syms,b->syms); if(c) e->syms=unite(e->syms,c->syms);
    if(op==SYM){ SymSet s; s.push_back((uint32_t)k); e->syms=internSet(s); e->undef=symbols[k].undef; }
    interval(e);
    cons.emplace(h,e);
    return e; }
  const Table* internTab(std::vector<double>&& v){
    uint64_t h=v.size(); for(double d:v) h=mix(h,fromD(d));
    auto& l=tables[h];
    for(auto*t:l) if(t->v.size()==v.size()&&!memcmp(t->v.data(),v.data(),8*v.size())) return t;
    auto*t=new Table{std::move(v),h}; l.push_back(t); return t; }

  void setFull(Expr*e){ e->lo=smin(e->w); e->hi=smax(e->w); }
  bool clampSet(Expr*e,__int128 lo,__int128 hi){
    if(lo<smin(e->w)||hi>smax(e->w)){ setFull(e); return false; }
    e->lo=(int64_t)lo;e->hi=(int64_t)hi; return true; }
  void interval(Expr*e){
    unsigned w=e->w; setFull(e); e->tz=0; e->leaves=0;
    E a=e->a,b=e->b,c=e->c;
    switch(e->op){
    case CONST: e->lo=e->hi=sx(e->k,w); e->tz=e->k? std::min<unsigned>(w,__builtin_ctzll(e->k)):w; e->leaves=1; break;
    case SYM: if(symbols[e->k].maxv<=(uint64_t)smax(w)){ e->lo=0; e->hi=symbols[e->k].maxv; } break;
    case ADD: clampSet(e,(__int128)a->lo+b->lo,(__int128)a->hi+b->hi); e->tz=std::min(a->tz,b->tz); break;
    case SUB: clampSet(e,(__int128)a->lo-b->hi,(__int128)a->hi-b->lo); e->tz=std::min(a->tz,b->tz); break;
    case MUL: { __int128 p[4]={(__int128)a->lo*b->lo,(__int128)a->lo*b->hi,(__int128)a->hi*b->lo,(__int128)a->hi*b->hi};
      clampSet(e,*std::min_element(p,p+4),*std::max_element(p,p+4)); e->tz=std::min<unsigned>(w,a->tz+b->tz); break; }
    case UDIV: if(a->lo>=0&&b->lo>0){ e->lo=a->lo/b->hi; e->hi=a->hi/b->lo; } break;
    case SDIV: if(a->lo>=0&&b->lo>0){ e->lo=a->lo/b->hi; e->hi=a->hi/b->lo; } break;
    case UREM: case SREM: if(a->lo>=0&&b->lo>0){ e->lo=0; e->hi=std::min(a->hi,b->hi-1); } break;
    case AND: if(w>1){ if(a->lo>=0||b->lo>=0){ e->lo=0; e->hi=std::min(a->lo>=0?a->hi:INT64_MAX,b->lo>=0?b->hi:INT64_MAX);} e->tz=std::max(a->tz,b->tz);} break;
    case OR: case XOR: if(w>1&&a->lo>=0&&b->lo>=0){ uint64_t m=(uint64_t)a->hi|b->hi; int bl=m?64-__builtin_clzll(m):0; e->lo=(e->op==OR)?std::max(a->lo,b->lo):0; e->hi= bl>=63?smax(w):(int64_t)((1ull<<bl)-1); e->tz=std::min(a->tz,b->tz);} break;
    case SHL: if(b->op==CONST&&b->k<w){ e->tz=std::min<unsigned>(w,a->tz+b->k); clampSet(e,(__int128)a->lo<<b->k,(__int128)a->hi<<b->k);} break;
    case LSHR: if(b->op==CONST&&b->k<w&&a->lo>=0){ e->lo=a->lo>>b->k; e->hi=a->hi>>b->k; e->tz=a->tz>b->k?a->tz-b->k:0;} else if(b->op==CONST&&b->k>0&&b->k<w){ e->lo=0; e->hi=(int64_t)(maskw(w)>>b->k);} break;
    case ASHR: if(b->op==CONST&&b->k<w){ e->lo=a->lo>>b->k; e->hi=a->hi>>b->k; e->tz=a->tz>b->k?a->tz-b->k:0;} break;
    case ITE: e->lo=std::min(b->lo,c->lo); e->hi=std::max(b->hi,c->hi); e->tz=std::min(b->tz,c->tz);
      if(b->leaves&&c->leaves&&b->leaves+c->leaves<=64) e->leaves=b->leaves+c->leaves; break;
    case ZEXT: if(a->w==1){ e->lo=0;e->hi=1; } else if(a->lo>=0){ e->lo=a->lo;e->hi=a->hi; } else { e->lo=0; e->hi=(int64_t)maskw(a->w);} e->tz=a->tz; break;
    case SEXT: if(a->w==1){ e->lo=-1;e->hi=0;} else { e->lo=a->lo;e->hi=a->hi; e->tz=a->tz; } break;
    case EXTRACT: if(e->k==0&&w>1&&a->lo>=smin(w)&&a->hi<=smax(w)){ e->lo=a->lo;e->hi=a->hi; } if(e->k==0) e->tz=std::min<unsigned>(w,a->tz); break;
    case CONCAT: // a high, b low
      if(a->op==CONST&&a->k==0&&w>1){ if(b->lo>=0){e->lo=b->lo;e->hi=b->hi;} else {e->lo=0;e->hi=(int64_t)maskw(b->w);} } e->tz=b->tz; break;
    default: break; }
    if(w==1&&e->op!=CONST){ e->lo=-1; e->hi=0; e->tz=0; }
  }
  // ---- constructors
  E c(uint64_t v,unsigned w){ v&=maskw(w); if(v<=16){ E&s=smallc[w][v]; if(!s) s=intern(CONST,w,0,0,0,v); return s; } return intern(CONST,w,0,0,0,v); }
  E tru(){ return c(1,1); } E fls(){ return c(0,1); }
  E sym(unsigned id,unsigned w){ return intern(SYM,w,0,0,0,id); }
  unsigned newSymbol(const std::string&n,unsigned bits,uint64_t maxv,bool undef){ symbols.push_back({n,bits,maxv,undef}); return symbols.size()-1; }
  static bool isC(E e){ return e->op==CONST; }
  static uint64_t fold(Op op,unsigned w,uint64_t a,uint64_t b){
    switch(op){
    case ADD: return a+b; case SUB: return a-b; case MUL: return a*b;
    case UDIV: return b? a/b:maskw(w); case UREM: return b? a%b:a;
    case SDIV: { int64_t x=sx(a,w),y=sx(b,w); if(!y) return x>=0?maskw(w):1; if(y==-1) return (uint64_t)0-(uint64_t)x; return x/y; }
    case SREM: { int64_t x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return x%y; }
    case AND: return a&b; case OR: return a|b; case XOR: return a^b;
    case SHL: return b>=w?0:a<<b; case LSHR: return b>=w?0:(a&maskw(w))>>b; case ASHR: return b>=w?(sx(a,w)<0?~0ull:0):(uint64_t)(sx(a,w)>>b);
    case EQ: return (a&maskw(w))==(b&maskw(w)); case ULT: return (a&maskw(w))<(b&maskw(w)); case ULE: return (a&maskw(w))<=(b&maskw(w));
    case SLT: return sx(a,w)<sx(b,w); case SLE: return sx(a,w)<=sx(b,w);
    default: abort(); } }
  bool isCmp(Op o){ return o>=EQ&&o<=SLE; }
  E lnot(E a){ if(isC(a)) return c(!a->k,1);
    if(a->op==XOR&&isC(a->b)) return a->a;
    if(a->op==ULT) return bin(ULE,a->b,a->a); if(a->op==ULE) return bin(ULT,a->b,a->a);
    if(a->op==SLT) return bin(SLE,a->b,a->a); if(a->op==SLE) return bin(SLT,a->b,a->a);
    return intern(XOR,1,a,c(1,1),0,0); }
  E mapLeaves(E t,bool tIsA,Op op,E other){ // apply op to an ITE tree with constant leaves and a const
    if(isC(t)) return tIsA?bin(op,t,other):bin(op,other,t);
    return ite(t->a,mapLeaves(t->b,tIsA,op,other),mapLeaves(t->c,tIsA,op,other)); }
  E bin(Op op,E a,E b){
    unsigned w=a->w, rw=isCmp(op)?1:w;
    if(a->w!=b->w) throw Unsupported{"width mismatch"};
    if(isC(a)&&isC(b)) return c(fold(op,w,a->k,b->k),rw);
    switch(op){
    case ADD: case MUL: case AND: case OR: case XOR: case EQ:
      if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b); break;
    default: break; }
    if(a->op==ITE&&a->leaves&&a->leaves<=16&&isC(b)&&w>1) return mapLeaves(a,true,op,b);
    if(b->op==ITE&&b->leaves&&b->leaves<=16&&isC(a)&&w>1) return mapLeaves(b,false,op,a);
    bool bc=isC(b); uint64_t bk=b->k;
    switch(op){
    case ADD: if(w==1) return bin(XOR,a,b);
      if(bc&&bk==0) return a;
      if(bc&&a->op==ADD&&isC(a->b)) return bin(ADD,a->a,c(a->b->k+bk,w));
      if(!bc&&a->op==ADD&&isC(a->b)) return bin(ADD,bin(ADD,a->a,b),a->b);
      if(!bc&&b->op==ADD&&isC(b->b)) return bin(ADD,bin(ADD,a,b->a),b->b);
      break;
    case SUB: if(w==1) return bin(XOR,a,b);
      if(a==b) return c(0,w); if(bc) return bin(ADD,a,c(0-bk,w));
      if(a->op==ADD&&a->a==b) return a->b; if(a->op==ADD&&a->b==b) return a->a;
      if(a->op==ADD&&isC(a->b)&&b->op==ADD&&isC(b->b)&&a->a==b->a) return c(a->b->k-b->b->k,w);
      if(a->op==ADD&&isC(a->b)) return bin(ADD,bin(SUB,a->a,b),a->b);
      if(b->op==ADD&&isC(b->b)) return bin(ADD,bin(SUB,a,b->a),c(0-b->b->k,w));
      break;
    case MUL: if(w==1) return bin(AND,a,b);
      if(bc&&bk==0) return b; if(bc&&bk==1) return a;
      if(bc&&a->op==MUL&&isC(a->b)) return bin(MUL,a->a,c(a->b->k*bk,w));
      if(bc&&a->op==ADD&&isC(a->b)) return bin(ADD,bin(MUL,a->a,b),c(a->b->k*bk,w));
      break;
    case UDIV: if(bc&&bk==1) return a;
      if(bc&&bk&&!(bk&(bk-1))) return bin(LSHR,a,c(__builtin_ctzll(bk),w)); break;
    case SDIV: if(bc&&bk==1) return a;
      if(a->lo>=0&&b->lo>0) return bin(UDIV,a,b); break;
    case UREM: if(bc&&bk==1) return c(0,w);
      if(bc&&bk&&!(bk&(bk-1))) return bin(AND,a,c(bk-1,w));
      if(bc&&a->lo>=0&&sx(bk,w)>0&&a->hi<sx(bk,w)) return a; break;
    case SREM: if(a->lo>=0&&b->lo>0) return bin(UREM,a,b); break;
    case AND: if(a==b) return a; if(bc&&bk==0) return b; if(bc&&bk==maskw(w)) return a;
      if(bc&&w>1&&a->lo>=0&&!(bk&(bk+1))&&(uint64_t)a->hi<=bk) return a;
      if(bc&&a->op==AND&&isC(a->b)) return bin(AND,a->a,c(a->b->k&bk,w));
      if(w==1&&a==lnotIf(b)) return c(0,1);
      break;
    case OR: if(a==b) return a; if(bc&&bk==0) return a; if(bc&&bk==maskw(w)) return b;
      if(w==1&&a==lnotIf(b)) return c(1,1);
      break;
    case XOR: if(a==b) return c(0,w); if(bc&&bk==0) return a; if(bc&&w==1) return lnot(a); break;
    case SHL: if(bc&&bk==0) return a; if(bc&&bk>=w) return c(0,w); if(bc&&bk<w) return bin(MUL,a,c(1ull<<bk,w)); break;
    case LSHR: if(bc&&bk==0) return a; if(bc&&bk>=w) return c(0,w);
      if(bc&&a->op==MUL&&isC(a->b)&&a->b->k==(1ull<<bk)&&a->a->lo>=0&&a->hi!=smax(w)&&a->lo>=0) return a->a; break;
    case ASHR: if(bc&&bk==0) return a; if(a->lo>=0) return bin(LSHR,a,b);
      break;
    case EQ: if(a==b) return c(1,1);
      if(w==1&&bc) return bk? a:lnot(a);
      if(w>1&&(a->hi<b->lo||b->hi<a->lo)) return c(0,1);
      if(bc&&a->op==ADD&&isC(a->b)) return bin(EQ,a->a,c(bk-a->b->k,w));
      if(bc&&a->op==ZEXT) return bk>maskw(a->a->w)? c(0,1):bin(EQ,a->a,c(bk,a->a->w));
      if(bc&&a->op==SEXT){ if(sx(bk,w)!=sx(bk,a->a->w)) return c(0,1); return bin(EQ,a->a,c(bk,a->a->w)); }
      if(bc&&a->op==MUL&&isC(a->b)&&a->b->k){ int64_t m=sx(a->b->k,w); if(m>0&&(a->lo!=smin(w)||a->hi!=smax(w))){ int64_t v=sx(bk,w); if(v%m) return c(0,1); return bin(EQ,a->a,c(v/m,w)); } }
      if(bc&&a->tz<64&&a->tz>0&&a->tz<w&&(bk&maskw(a->tz))) return c(0,1);
      if(bc&&a->op==S2D){ double d=asD(bk); if(d!=std::floor(d)||std::fabs(d)>9007199254740992.0||fromD((double)(int64_t)d)!=bk) return c(0,1); return bin(EQ,a->a,c((int64_t)d,64)); }
      if(a->op==S2D&&b->op==S2D) return bin(EQ,a->a,b->a);
      if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w&&w>1) return bin(EQ,a->a,b->a);
      if(bc&&a->op==TAB) return tabPred(a,[bk](double d){return fromD(d)==bk;});
      if(a->op==ADD&&b->op==ADD&&isC(a->b)&&isC(b->b)) return bin(EQ,bin(SUB,a,c(b->b->k,w)),b->a);
      if(bc&&a->op==ITE&&isC(a->b)&&w>1){ return bin(OR,bin(AND,a->a,c(a->b->k==bk,1)),bin(AND,lnot(a->a),bin(EQ,a->c,b))); }
      if(bc&&a->op==ITE&&isC(a->c)&&w>1){ return bin(OR,bin(AND,lnot(a->a),c(a->c->k==bk,1)),bin(AND,a->a,bin(EQ,a->b,b))); }
      break;
    case ULT: if(a==b) return c(0,1); if(bc&&bk==0) return c(0,1); if(bc&&bk==1) return bin(EQ,a,c(0,w));
      if(w>1&&a->lo>=0&&b->lo>=0){ if(a->hi<b->lo) return c(1,1); if(a->lo>=b->hi) return c(0,1); }
      if(w>1&&a->lo>=0&&b->hi<0) return c(1,1);
      if(w>1&&a->hi<0&&b->lo>=0) return c(0,1);
      if(w>1&&a->lo>=0&&b->lo>=0) return bin(SLT,a,b); break;
    case ULE: if(a==b) return c(1,1); if(isC(a)&&a->k==0) return c(1,1); if(bc&&bk==maskw(w)) return c(1,1);
      if(w>1&&a->lo>=0&&b->lo>=0) return bin(SLE,a,b);
      if(w>1&&a->lo>=0&&b->hi<0) return c(1,1);
      if(w>1&&a->hi<0&&b->lo>=0) return c(0,1);
      break;
    case SLT: if(a==b) return c(0,1); if(w>1){ if(a->hi<b->lo) return c(1,1); if(a->lo>=b->hi) return c(0,1);}
      if(a->op==ADD&&b->op==ADD&&isC(a->b)&&a->b==b->b&&noWrapAdd(a)&&noWrapAdd(b)) return bin(SLT,a->a,b->a);
      if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w&&a->a->w>1) return bin(ULT,a->a,b->a);
      if(bc&&a->op==ADD&&isC(a->b)&&noWrapAdd(a)&&inS((__int128)sx(bk,w)-sx(a->b->k,w),w)) return bin(SLT,a->a,c(bk-a->b->k,w));
      if(isC(a)&&b->op==ADD&&isC(b->b)&&noWrapAdd(b)&&inS((__int128)sx(a->k,w)-sx(b->b->k,w),w)) return bin(SLT,c(a->k-b->b->k,w),b->a);
      if(bc&&a->op==ZEXT&&a->a->w>1&&a->a->lo>=0&&sx(bk,w)<=smax(a->a->w)) return bin(SLT,a->a,c(bk,a->a->w));
      if(isC(a)&&b->op==ZEXT&&b->a->w>1&&b->a->lo>=0&&sx(a->k,w)<=smax(b->a->w)) return bin(SLT,c(a->k,b->a->w),b->a);
      break;
    case SLE: if(a==b) return c(1,1); if(w>1){ if(a->hi<=b->lo) return c(1,1); if(a->lo>b->hi) return c(0,1);}
      if(a->op==ADD&&b->op==ADD&&isC(a->b)&&a->b==b->b&&noWrapAdd(a)&&noWrapAdd(b)) return bin(SLE,a->a,b->a);
      if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w&&a->a->w>1) return bin(ULE,a->a,b->a);
      if(bc&&a->op==ADD&&isC(a->b)&&noWrapAdd(a)&&inS((__int128)sx(bk,w)-sx(a->b->k,w),w)) return bin(SLE,a->a,c(bk-a->b->k,w));
      if(isC(a)&&b->op==ADD&&isC(b->b)&&noWrapAdd(b)&&inS((__int128)sx(a->k,w)-sx(b->b->k,w),w)) return bin(SLE,c(a->k-b->b->k,w),b->a);
      break;
    default: break; }
    return intern(op,rw,a,b,0,0); }
  static bool inS(__int128 v,unsigned w){ return v>=smin(w)&&v<=smax(w); }
  bool noWrapAdd(E e){ // signed interval of e equals exact sum
    return inS((__int128)e->a->lo+e->b->lo,e->w)&&inS((__int128)e->a->hi+e->b->hi,e->w); }
  E lnotIf(E b){ // returns negation only if cheap
    if(b->op==XOR&&isC(b->b)&&b->w==1) return b->a;
    return nullptr; }
  E ite(E cnd,E a,E b){
    if(isC(cnd)) return cnd->k? a:b; if(a==b) return a;
    if(cnd->op==XOR&&isC(cnd->b)) return ite(cnd->a,b,a);
    if(a->w==1){
      if(isC(a)) return a->k? bin(OR,cnd,b):bin(AND,lnot(cnd),b);
      if(isC(b)) return b->k? bin(OR,lnot(cnd),a):bin(AND,cnd,a); }
    if(a->op==ITE&&a->a==cnd) return ite(cnd,a->b,b);
    if(b->op==ITE&&b->a==cnd) return ite(cnd,a,b->c);
    if(b->op==ITE&&b->b==a) return ite(bin(OR,cnd,b->a),a,b->c);
    if(a->op==S2D&&b->op==S2D) return s2d(ite(cnd,a->a,b->a));
    if(a->op==S2D||b->op==S2D){ E x=toInt(a),y=toInt(b); if(x&&y&&!(isC(a)&&isC(b))) return s2d(ite(cnd,x,y)); }
    if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return zext(ite(cnd,a->a,b->a),a->w);
    return intern(ITE,a->w,cnd,a,b,0); }
  E zext(E a,unsigned w){ if(a->w==w) return a; if(isC(a)) return c(a->k,w);
    if(a->op==ZEXT) return zext(a->a,w);
    if(a->op==ITE&&a->leaves&&a->leaves<=16) return ite(a->a,zext(a->b,w),zext(a->c,w));
    return intern(ZEXT,w,a,0,0,0); }
  E sext(E a,unsigned w){ if(a->w==w) return a; if(isC(a)) return c((uint64_t)sx(a->k,a->w),w);
    if(a->op==SEXT) return sext(a->a,w); if(a->op==ZEXT) return zext(a->a,w);
    if(a->w>1&&a->lo>=0) return zext(a,w);
    if(a->op==ITE&&a->leaves&&a->leaves<=16) return ite(a->a,sext(a->b,w),sext(a->c,w));
    return intern(SEXT,w,a,0,0,0); }
  E extract(E a,unsigned low,unsigned w){ if(low==0&&a->w==w) return a; if(isC(a)) return c(a->k>>low,w);
    if(a->op==EXTRACT) return extract(a->a,a->k+low,w);
    if(a->op==ZEXT||a->op==SEXT){
      if(low+w<=a->a->w) return extract(a->a,low,w);
      if(low>=a->a->w&&a->op==ZEXT) return c(0,w);
      if(low==0) return a->op==ZEXT? zext(a->a,w):sext(a->a,w);
      if(a->op==ZEXT) return zext(extract(a->a,low,a->a->w-low),w);
    }
    if(a->op==CONCAT){ unsigned lw=a->b->w; if(low+w<=lw) return extract(a->b,low,w); if(low>=lw) return extract(a->a,low-lw,w);
      return concat(extract(a->a,0,low+w-lw),extract(a->b,low,lw-low)); }
    if(low==0&&(a->op==ADD||a->op==SUB||a->op==MUL||a->op==AND||a->op==OR||a->op==XOR)&&w>1) return bin(a->op,extract(a->a,0,w),extract(a->b,0,w));
    if(a->op==ITE&&a->leaves&&a->leaves<=16) return ite(a->a,extract(a->b,low,w),extract(a->c,low,w));
    return intern(EXTRACT,w,a,0,0,low); }
  E concat(E hi,E lo){ unsigned w=hi->w+lo->w; if(w>64) throw Unsupported{"wide concat"};
    if(isC(hi)&&isC(lo)) return c((hi->k<<lo->w)|lo->k,w);
    if(isC(hi)&&hi->k==0) return zext(lo,w);
    if(hi->op==EXTRACT&&lo->op==EXTRACT&&hi->a==lo->a&&hi->k==lo->k+lo->w) return extract(hi->a,lo->k,w);
    if(hi->op==EXTRACT&&hi->a==lo&&hi->k==lo->w) return extract(lo,0,w); // unreachable normally
    if(lo->op==CONCAT){ // reassociate: (hi . (x . y)) -> ((hi . x) . y) when joinable
      E x=lo->a; if(hi->op==EXTRACT&&x->op==EXTRACT&&hi->a==x->a&&hi->k==x->k+x->w) return concat(extract(hi->a,x->k,hi->w+x->w),lo->b);
      if(hi->op==EXTRACT&&hi->a->w>x->w&&0) {} }
    return intern(CONCAT,w,hi,lo,0,0); }
  E eq(E a,E b){ return bin(EQ,a,b);} E land(E a,E b){ return bin(AND,a,b);} E lor(E a,E b){ return bin(OR,a,b);}
  // ---- doubles
  static bool exactInt(double d){ return d==std::floor(d)&&std::fabs(d)<=4503599627370496.0&&!(d==0&&std::signbit(d)); }
  E s2d(E x){ if(isC(x)) return c(fromD((double)(int64_t)x->k),64);
    if(x->lo<-(1ll<<52)||x->hi>(1ll<<52)) throw Unsupported{"integer too wide for exact double"};
    return intern(S2D,64,x,0,0,0); }
  std::unordered_map<E,E> intMemo;
  E toInt(E e){ if(isC(e)){ double d=asD(e->k); return exactInt(d)? c((uint64_t)(int64_t)d,64):nullptr; }
    if(e->op==S2D) return e->a;
    if(e->op==ITE){ auto it=intMemo.find(e); if(it!=intMemo.end()) return it->second;
      E x=toInt(e->b); E y=x?toInt(e->c):nullptr; E r=y?ite(e->a,x,y):nullptr; intMemo[e]=r; return r; }
    return nullptr; }
  static const int TABMAX=65536;
  // Fetch (index,table); index==nullptr means constant
  bool toTab(E e,E&idx,std::vector<double>&t,std::unordered_map<E,uint64_t>*known){
    if(isC(e)){ idx=nullptr; t.assign(1,asD(e->k)); return true; }
    if(e->op==TAB){ if(known){auto it=known->find(e->a); if(it!=known->end()){ idx=nullptr; t.assign(1,e->tab->v[it->second]); return true; }} idx=e->a; t=e->tab->v; return true; }
    if(E x=toInt(e)){ if(known){auto it=known->find(x); if(it!=known->end()){ idx=nullptr; t.assign(1,(double)(int64_t)it->second); return true; }}
      __int128 n=(__int128)x->hi-x->lo+1; if(n>TABMAX) throw ForkOn{x};
      idx=bin(SUB,x,c(x->lo,64)); t.resize((size_t)n); for(int64_t i=0;i<(int64_t)n;i++) t[i]=(double)(x->lo+i); return true; }
    if(e->op==ITE){ // tabulate (cond,b,c) by cases
      E ib,ic; std::vector<double> tb,tc; if(!toTab(e->b,ib,tb,known)||!toTab(e->c,ic,tc,known)) return false;
      size_t nb=tb.size(),nc=tc.size();
      E xb=ib?ib:c(0,64), xc=ic?ic:c(0,64);
      idx=ite(e->a,xb,bin(ADD,xc,c(nb,64))); t=tb; t.insert(t.end(),tc.begin(),tc.end()); (void)nc; if(t.size()>TABMAX) throw ForkOn{e->a}; return true; }
    return false; }
  E mkTab(E idx,std::vector<double>&&t){
    if(!idx) return c(fromD(t[0]),64);
    bool same=true; for(size_t i=1;i<t.size();i++) if(fromD(t[i])!=fromD(t[0])){same=false;break;}
    if(same) return c(fromD(t[0]),64);
    bool ident=true; for(double d:t) if(!exactInt(d)){ident=false;break;}
    if(ident){ bool lin=true; for(size_t i=1;i<t.size();i++) if(t[i]-t[i-1]!=t[1]-t[0]){lin=false;break;}
      if(lin) return s2d(bin(ADD,bin(MUL,idx,c((uint64_t)(int64_t)(t[1]-t[0]),64)),c((uint64_t)(int64_t)t[0],64))); }
    const Table* tb=internTab(std::move(t)); return intern(TAB,64,idx,0,0,0,tb); }
  template<class F> E runs(E idx,size_t n,F f){ // predicate over idx as union of intervals
    E r=fls(); size_t i=0; size_t cnt=0; for(size_t j=0;j<n;j++) cnt+=f(j);
    bool neg=cnt*2>n; 
    while(i<n){ if(f(i)!=neg){ size_t j=i; while(j+1<n&&f(j+1)!=neg) j++;
        E p=tru(); if(i>0) p=land(p,bin(ULE,c(i,64),idx)); if(j+1<n) p=land(p,bin(ULE,idx,c(j,64)));
        if(i==j) p=eq(idx,c(i,64));
        r=lor(r,p); i=j+1; } else i++; }
    return neg? lnot(r):r; }
  template<class F> E tabPred(E t,F f){ auto&v=t->tab->v; return runs(t->a,v.size(),[&](size_t i){return f(v[i]);}); }
  // combine two operands on a joint index
  void joint(E a,E b,std::unordered_map<E,uint64_t>*known,E&idx,std::vector<double>&x,std::vector<double>&y){
    E ia,ib; std::vector<double> ta,tb;
    if(!toTab(a,ia,ta,known)) throw Unsupported{"floating point on a value of unknown shape"};
    if(!toTab(b,ib,tb,known)) throw Unsupported{"floating point on a value of unknown shape"};
    if(!ia&&!ib){ idx=nullptr; x=ta;y=tb; return; }
    if(!ib){ idx=ia; x=ta; y.assign(ta.size(),tb[0]); return; }
    if(!ia){ idx=ib; y=tb; x.assign(tb.size(),ta[0]); return; }
    if(ia==ib&&ta.size()==tb.size()){ idx=ia;x=ta;y=tb;return; }
    if(ta.size()*tb.size()>TABMAX) throw ForkOn{ta.size()>tb.size()? ia:ib};
    idx=bin(ADD,bin(MUL,ia,c(tb.size(),64)),ib); x.resize(ta.size()*tb.size()); y.resize(x.size());
    for(size_t i=0;i<ta.size();i++) for(size_t j=0;j<tb.size();j++){ x[i*tb.size()+j]=ta[i]; y[i*tb.size()+j]=tb[j]; } }
  template<class F> E fun2(E a,E b,std::unordered_map<E,uint64_t>*known,F f){
    E idx; std::vector<double> x,y; joint(a,b,known,idx,x,y); std::vector<double> r(x.size()); for(size_t i=0;i<x.size();i++) r[i]=f(x[i],y[i]); return mkTab(idx,std::move(r)); }
  template<class F> E pred2(E a,E b,std::unordered_map<E,uint64_t>*known,F f){
    E idx; std::vector<double> x,y; joint(a,b,known,idx,x,y); if(!idx) return c(f(x[0],y[0]),1); return runs(idx,x.size(),[&](size_t i){return (bool)f(x[i],y[i]);}); }
  bool inExact(__int128 lo,__int128 hi){ return lo>=-(1ll<<52)&&hi<=(1ll<<52); }
  enum FOp { FADD,FSUB,FMUL,FDIV,FREM };
  bool bare(E e){ return e->op==SYM&&e->undef; } // an uninitialised value; arithmetic on it stays uninitialised
  E fbin(FOp op,E a,E b,std::unordered_map<E,uint64_t>*known){
    if(bare(a)) return a; if(bare(b)) return b;
    if(isC(a)&&isC(b)){ double x=asD(a->k),y=asD(b->k),r=0; switch(op){case FADD:r=x+y;break;case FSUB:r=x-y;break;case FMUL:r=x*y;break;case FDIV:r=x/y;break;case FREM:r=fmod(x,y);break;} return c(fromD(r),64); }
    if(op==FDIV&&isC(b)&&asD(b->k)==1.0) return a;
    if(op<=FMUL){ E x=toInt(a),y=toInt(b);
      if(x&&y){
        if(op==FADD&&inExact((__int128)x->lo+y->lo,(__int128)x->hi+y->hi)) return s2d(bin(ADD,x,y));
        if(op==FSUB&&inExact((__int128)x->lo-y->hi,(__int128)x->hi-y->lo)) return s2d(bin(SUB,x,y));
        if(op==FMUL){ __int128 p[4]={(__int128)x->lo*y->lo,(__int128)x->lo*y->hi,(__int128)x->hi*y->lo,(__int128)x->hi*y->hi};
          bool okz=(x->lo>=0&&y->lo>=0)||x->lo>0||x->hi<0; // no -0.0 possible
          if(x->lo<0&&(y->lo<=0&&y->hi>=0)) okz=false;
          if(okz&&inExact(*std::min_element(p,p+4),*std::max_element(p,p+4))) return s2d(bin(MUL,x,y)); }
      } }
    switch(op){ case FADD: return fun2(a,b,known,[](double x,double y){return x+y;});
      case FSUB: return fun2(a,b,known,[](double x,double y){return x-y;});
      case FMUL: return fun2(a,b,known,[](double x,double y){return x*y;});
      case FDIV: return fun2(a,b,known,[](double x,double y){return x/y;});
      default: return fun2(a,b,known,[](double x,double y){return fmod(x,y);}); } }
  // pred: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,10 ugt,11 uge,12 ult,13 ule,14 une,15 true (LLVM numbering)
  static bool fcmpC(int p,double x,double y){ bool un=std::isnan(x)||std::isnan(y); if(un) return p>=8; bool r=false; if((p&1)&&x==y) r=true; if((p&2)&&x>y) r=true; if((p&4)&&x<y) r=true; return r; }
  E fcmp(int p,E a,E b,std::unordered_map<E,uint64_t>*known){
    if(p==0) return fls(); if(p==15) return tru();
    if((a->op==SYM&&a->undef)||(b->op==SYM&&b->undef)) return sym(newSymbol("undef",1,1,true),1);
    if(isC(a)&&isC(b)) return c(fcmpC(p,asD(a->k),asD(b->k)),1);
    E x=toInt(a),y=toInt(b);
    if(x&&y){ switch(p&7){ case 0: return fls(); case 1: return bin(EQ,x,y); case 2: return bin(SLT,y,x); case 3: return bin(SLE,y,x); case 4: return bin(SLT,x,y); case 5: return bin(SLE,x,y); case 6: return lnot(bin(EQ,x,y)); case 7: return p==7? tru(): tru(); } }
    if((x&&isC(b)&&!std::isnan(asD(b->k)))||(y&&isC(a)&&!std::isnan(asD(a->k)))){ // integer against any constant
      bool sw=!x||(isC(a)&&!isC(b)); E z=sw?y:x; double k=asD(sw?a->k:b->k); int q=p&7; if(sw){ q=(q&1)|((q&2)<<1)|((q&4)>>1); }
      // z (op q) k
      if(q==7) return tru();
      E ge,gt; // z>=k, z>k
      auto bound=[&](double kk,bool strict)->E{ // z >= ceil / z > floor
        double t=strict? std::floor(kk):std::ceil(kk); if(t>4.6e18) return fls(); if(t<-4.6e18) return tru();
        int64_t ti=(int64_t)t; return strict? bin(SLT,c((uint64_t)ti,64),z):bin(SLE,c((uint64_t)ti,64),z); };
      ge=bound(k,false); gt=bound(k,true);
      E r=fls(); if(q&2) r=lor(r,gt); if(q&4) r=lor(r,lnot(ge)); if(q&1) r=lor(r,land(ge,lnot(gt))); return r; }
    return pred2(a,b,known,[p](double u,double v){return fcmpC(p,u,v);}); }
  template<class F> E fun1(E a,std::unordered_map<E,uint64_t>*known,F f){ E idx; std::vector<double> t; if(!toTab(a,idx,t,known)) throw Unsupported{"floating point on a value of unknown shape"}; for(auto&d:t) d=f(d); return mkTab(idx,std::move(t)); }
  E d2i(E a,unsigned w,bool sgn,std::unordered_map<E,uint64_t>*known){
    if(isC(a)){ double d=asD(a->k); return c(sgn||d<9.2e18? (uint64_t)(int64_t)d:(uint64_t)d,w); }
    if(E x=toInt(a)) return extract(x,0,w);
    E idx; std::vector<double> t; if(!toTab(a,idx,t,known)) throw Unsupported{"fptosi of unknown shape"};
    if(!idx) return c((uint64_t)(int64_t)t[0],w);
    E r=c((uint64_t)(int64_t)t.back(),w);
    for(int64_t i=(int64_t)t.size()-2;i>=0;){ int64_t v=(int64_t)t[i]; int64_t j=i; while(j>0&&(int64_t)t[j-1]==v) j--; 
      // indices j..i have value v; everything above is r
      r=ite(bin(ULE,idx,c(i,64)),c((uint64_t)v,w),r); i=j-1; }
    return r; }
  // ---- concrete evaluation under an assignment
  uint64_t eval(E e,const std::vector<uint64_t>&m,uint64_t ep){
    if(e->op==CONST) return e->k;
    if(e->epoch==ep) return e->val;
    uint64_t r;
    switch(e->op){
    case SYM: r=e->k<m.size()? m[e->k]:0; break;
    case ITE: r=eval(e->a,m,ep)? eval(e->b,m,ep):eval(e->c,m,ep); break;
    case ZEXT: r=eval(e->a,m,ep); break;
    case SEXT: r=(uint64_t)sx(eval(e->a,m,ep),e->a->w); break;
    case EXTRACT: r=eval(e->a,m,ep)>>e->k; break;
    case CONCAT: r=(eval(e->a,m,ep)<<e->b->w)|eval(e->b,m,ep); break;
    case S2D: r=fromD((double)(int64_t)eval(e->a,m,ep)); break;
    case TAB: { uint64_t i=eval(e->a,m,ep); r=i<e->tab->v.size()? fromD(e->tab->v[i]):0; break; }
    default: r=fold(e->op,e->a->w,eval(e->a,m,ep),eval(e->b,m,ep)); }
    r&=maskw(e->w); e->epoch=ep; e->val=r; return r; }
  uint64_t evalModel(E e,const std::vector<uint64_t>&m){ return eval(e,m,++epochCounter); }
  // ---- substitution of known values
  E rebuild(E e,E a,E b,E cc){
    switch(e->op){ case ITE: return ite(a,b,cc); case ZEXT: return zext(a,e->w); case SEXT: return sext(a,e->w); case EXTRACT: return extract(a,e->k,e->w); case CONCAT: return concat(a,b);
      case S2D: return s2d(a); case TAB: if(isC(a)) return c(fromD(e->tab->v[a->k]),64); return intern(TAB,64,a,0,0,0,e->tab);
      default: return bin(e->op,a,b); } }
  E subst(E e,const std::unordered_map<E,uint64_t>&known,std::unordered_map<E,E>&memo,int&budget){
    if(e->op==CONST) return e;
    auto k=known.find(e); if(k!=known.end()) return c(k->second,e->w);
    if(e->op==SYM) return e;
    auto it=memo.find(e); if(it!=memo.end()) return it->second;
    if(--budget<0) return e;
    E a=e->a?subst(e->a,known,memo,budget):nullptr;
    E r;
    if(e->op==ITE&&isC(a)) r=a->k? subst(e->b,known,memo,budget):subst(e->c,known,memo,budget);
    else { E b=e->b?subst(e->b,known,memo,budget):nullptr; E cc=e->c?subst(e->c,known,memo,budget):nullptr;
      r=(a==e->a&&b==e->b&&cc==e->c)? e:rebuild(e,a,b,cc); }
    return memo[e]=r; }
};
