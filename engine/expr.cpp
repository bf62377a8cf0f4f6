#include <map>
#include <tuple>
#include "expr.h"
#include <cmath>
#include <algorithm>
#include <cstdio>
const char* op_names[]={"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","umulo","smulo","ite","extract","concat","zext","sext","fadd","fsub","fmul","fdiv","frem","feq","flt","fle","fnan","uitofp","sitofp","fptoui","fptosi","fpext","fptrunc","fround"};
std::vector<SymInfo> g_syms; static std::unordered_map<std::string,Expr*> symByName;
u64 g_nexpr=0; static u64 g_epoch=1;
double u2d(u64 b){ double d; memcpy(&d,&b,8); return d; } u64 d2u(double d){ u64 b; memcpy(&b,&d,8); return b; }
static float u2f(u32 b){ float d; memcpy(&d,&b,4); return d; } static u32 f2u(float d){ u32 b; memcpy(&b,&d,4); return b; }

// ---- hash consing
static Expr** tab=nullptr; static u64 tabN=0, tabCnt=0;
static u64 mix(u64 x){ x^=x>>33; x*=0xff51afd7ed558ccdULL; x^=x>>33; x*=0xc4ceb9fe1a85ec53ULL; x^=x>>33; return x; }
static char* arena=nullptr; static size_t arenaLeft=0;
static Expr* allocE(){ if(arenaLeft<sizeof(Expr)){ arenaLeft=1<<22; arena=(char*)malloc(arenaLeft);} size_t s=(sizeof(Expr)+15)&~15; Expr* e=(Expr*)arena; arena+=s; arenaLeft-=s; return e; }
static std::unordered_map<u64,std::vector<SymSet*>> symsets;
static SymSet emptySet;
static SymSet* internSet(std::vector<u32>&& v){ if(v.empty()) return &emptySet; u64 h=v.size(); for(u32 x:v) h=mix(h*31+x); auto& b=symsets[h]; for(auto*s:b) if(s->v==v) return s; auto*s=new SymSet{std::move(v)}; b.push_back(s); return s; }
static std::unordered_map<u64,SymSet*> unionCache;
static SymSet* unionSet(SymSet* a, SymSet* b){ if(a==b||b->v.empty()) return a; if(a->v.empty()) return b;
  u64 key=mix((u64)a)*3+mix((u64)b+77); auto it=unionCache.find(key); if(it!=unionCache.end()) return it->second;
  std::vector<u32> r; std::set_union(a->v.begin(),a->v.end(),b->v.begin(),b->v.end(),std::back_inserter(r)); SymSet* s=internSet(std::move(r)); unionCache[key]=s; return s; }

static void interval(Expr* e);
static Expr* cons(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 k){
  if(!tab){ tabN=1<<20; tab=(Expr**)calloc(tabN,sizeof(Expr*)); }
  u64 h=mix((u64)op*131+w)^mix((u64)a*3+1)^mix((u64)b*5+2)^mix((u64)c*7+3)^mix((u64)k*11+5)^mix((u64)(k>>64)*13+9);
  h=mix(h);
  u64 i=h&(tabN-1);
  while(tab[i]){ Expr* e=tab[i]; if(e->h==h&&e->op==op&&e->w==w&&e->a==a&&e->b==b&&e->c==c&&e->k==k) return e; i=(i+1)&(tabN-1); }
  Expr* e=allocE(); e->op=op; e->w=w; e->a=a; e->b=b; e->c=c; e->k=k; e->h=h; e->id=++g_nexpr; e->ep=0;
  e->hasfp=(op>=O_FADD)||(a&&a->hasfp)||(b&&b->hasfp)||(c&&c->hasfp);
  if(op==O_SYM) e->syms=internSet({(u32)k}); else { SymSet* s=&emptySet; if(a) s=unionSet(s,a->syms); if(b) s=unionSet(s,b->syms); if(c) s=unionSet(s,c->syms); e->syms=s; }
  interval(e);
  tab[i]=e; tabCnt++;
  if(tabCnt*2>tabN){ u64 n=tabN*2; Expr** t=(Expr**)calloc(n,sizeof(Expr*)); for(u64 j=0;j<tabN;j++) if(tab[j]){ u64 q=tab[j]->h&(n-1); while(t[q]) q=(q+1)&(n-1); t[q]=tab[j]; } free(tab); tab=t; tabN=n; }
  return e;
}
Expr* mkC(unsigned w, u128 v){ return cons(O_CONST,w,nullptr,nullptr,nullptr,v&maskw(w)); }
Expr* mkSym(const std::string& name, unsigned w, u128 lo, u128 hi){
  std::string key=name+":"+std::to_string(w)+":"+std::to_string((u64)lo)+":"+std::to_string((u64)(lo>>64))+":"+std::to_string((u64)hi)+":"+std::to_string((u64)(hi>>64));
  auto it=symByName.find(key); if(it!=symByName.end()) return it->second;
  g_syms.push_back({name,(u16)w,lo,hi}); Expr* e=cons(O_SYM,w,nullptr,nullptr,nullptr,g_syms.size()-1); symByName[key]=e; return e; }

// ---- fp helpers
static double fpval(u128 v, unsigned w){ return w==64? u2d((u64)v) : (double)u2f((u32)v); }
static u128 fpbits(double d, unsigned w){ return w==64? (u128)d2u(d) : (u128)f2u((float)d); }
static double u128tod(u128 v){ return (double)v; } // correctly rounded (libgcc __floatuntidf)
static u128 canonNaN(u128 b,unsigned w){ return b; (void)w; }
u128 foldop(Op op, unsigned w, unsigned wa, u128 a, u128 b, u128 c, u128 k){
  u128 m=maskw(w);
  switch(op){
    case O_ADD: return (a+b)&m; case O_SUB: return (a-b)&m; case O_MUL: return (a*b)&m;
    case O_UDIV: return b? (a/b)&m : m; case O_UREM: return b? a%b : a;
    case O_SDIV: { i128 x=sext128(a,w),y=sext128(b,w); if(!y) return x<0?1:m; if(y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m; }
    case O_SREM: { i128 x=sext128(a,w),y=sext128(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
    case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
    case O_SHL: return b>=w?0:(a<<(unsigned)b)&m; case O_LSHR: return b>=w?0:a>>(unsigned)b;
    case O_ASHR: { i128 x=sext128(a,w); unsigned s=b>=w?w-1:(unsigned)b; return (u128)(x>>s)&m; }
    case O_EQ: return a==b; case O_ULT: return a<b; case O_ULE: return a<=b;
    case O_SLT: return sext128(a,wa)<sext128(b,wa); case O_SLE: return sext128(a,wa)<=sext128(b,wa);
    case O_UMULO: { if(!a||!b) return 0; u128 mm=maskw(wa); return a>mm/b; }
    case O_SMULO: { i128 x=sext128(a,wa),y=sext128(b,wa),r; if(wa==128) return __builtin_mul_overflow(x,y,&r); bool o=__builtin_mul_overflow(x,y,&r); return o|| sext128((u128)r,wa)!=r; }
    case O_ITE: return a?b:c;
    case O_EXTRACT: return (a>>(unsigned)k)&m; case O_CONCAT: return 0; // handled by caller
    case O_ZEXT: return a; case O_SEXT: return (u128)sext128(a,wa)&m;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: {
      if(w==32){ float x=u2f((u32)a),y=u2f((u32)b),r=0; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;case O_FDIV:r=x/y;break;default:r=fmodf(x,y);} if(r!=r) return 0x7fc00000; return f2u(r); }
      double x=u2d((u64)a),y=u2d((u64)b),r=0; switch(op){case O_FADD:r=x+y;break;case O_FSUB:r=x-y;break;case O_FMUL:r=x*y;break;case O_FDIV:r=x/y;break;default:r=fmod(x,y);} if(r!=r) return 0x7ff8000000000000ULL; return d2u(r); }
    case O_FEQ: return fpval(a,wa)==fpval(b,wa); case O_FLT: return fpval(a,wa)<fpval(b,wa); case O_FLE: return fpval(a,wa)<=fpval(b,wa);
    case O_FNAN: { double x=fpval(a,wa); return x!=x; }
    case O_UITOFP: return w==64? (u128)d2u(u128tod(a)) : (u128)f2u((float)a);
    case O_SITOFP: return w==64? (u128)d2u((double)sext128(a,wa)) : (u128)f2u((float)sext128(a,wa));
    case O_FPTOUI_SAT: { double x=fpval(a,wa); if(!(x>0)) return 0; double lim=ldexp(1.0,w); if(x>=lim) return m; return (u128)x&m; }
    case O_FPTOSI_SAT: { double x=fpval(a,wa); if(x!=x) return 0; double lim=ldexp(1.0,w-1); if(x>=lim) return m>>1; if(x<-lim) return (m>>1)+1; return (u128)(i128)x&m; }
    case O_FPEXT: return d2u((double)u2f((u32)a)); case O_FPTRUNC: return f2u((float)u2d((u64)a));
    case O_FROUND: { double x=fpval(a,wa); double r= k==0?floor(x):k==1?ceil(x):k==2?trunc(x):k==3?rint(x):round(x); return fpbits(r,w); }
    default: fprintf(stderr,"foldop %d\n",op); abort();
  }
}
// floating interval support: for fp-valued expressions we keep it outside lo/hi (bit patterns are not ordered for negatives)
static std::unordered_map<Expr*,FI> ficache;
FI fint(Expr* e){
  if(e->op==O_CONST){ double v=fpval(e->k,e->w); if(v!=v) return {-INFINITY,INFINITY,true}; return {v,v,false}; }
  auto it=ficache.find(e); if(it!=ficache.end()) return it->second;
  FI r{-INFINITY,INFINITY,true};
  auto b=[&](std::initializer_list<double> l,bool nan){ double lo=INFINITY,hi=-INFINITY; for(double x:l){ if(x!=x){ lo=-INFINITY;hi=INFINITY;nan=true;break;} lo=std::min(lo,x);hi=std::max(hi,x);} r={lo,hi,nan}; };
  if(e->w==64) switch(e->op){
    case O_UITOFP: r={(double)e->a->lo,(double)e->a->hi,false}; break;
    case O_SITOFP: { u128 half=(u128)1<<(e->a->w-1); if(e->a->hi<half) r={(double)e->a->lo,(double)e->a->hi,false}; else if(e->a->lo>=half) r={(double)sext128(e->a->lo,e->a->w),(double)sext128(e->a->hi,e->a->w),false}; else r={-(double)half,(double)half,false}; break; }
    case O_FADD: { FI x=fint(e->a),y=fint(e->b); bool inf=std::isinf(x.lo)||std::isinf(x.hi)||std::isinf(y.lo)||std::isinf(y.hi); b({x.lo+y.lo,x.hi+y.hi},x.nan||y.nan||inf); break; }
    case O_FSUB: { FI x=fint(e->a),y=fint(e->b); bool inf=std::isinf(x.lo)||std::isinf(x.hi)||std::isinf(y.lo)||std::isinf(y.hi);
        bool nan=x.nan||y.nan||inf; if(inf && !x.nan && !y.nan && !std::isinf(y.lo) && !std::isinf(y.hi)) nan=false; b({x.lo-y.hi,x.hi-y.lo},nan); break; }
    case O_FMUL: { FI x=fint(e->a),y=fint(e->b); bool inf=std::isinf(x.lo)||std::isinf(x.hi)||std::isinf(y.lo)||std::isinf(y.hi); 
        bool z=(x.lo<=0&&x.hi>=0)||(y.lo<=0&&y.hi>=0); 
        if(inf && !x.nan && !y.nan && x.lo==x.hi && x.lo>0 && !std::isinf(x.lo)) { b({x.lo*y.lo,x.lo*y.hi},false); break; }
        if(inf && !x.nan && !y.nan && y.lo==y.hi && y.lo>0 && !std::isinf(y.lo)) { b({y.lo*x.lo,y.lo*x.hi},false); break; }
        b({x.lo*y.lo,x.lo*y.hi,x.hi*y.lo,x.hi*y.hi},x.nan||y.nan||(inf&&z)); break; }
    case O_FDIV: { FI x=fint(e->a),y=fint(e->b); if(y.lo>0&&!std::isinf(y.hi)&&!std::isinf(x.lo)&&!std::isinf(x.hi)) b({x.lo/y.lo,x.lo/y.hi,x.hi/y.lo,x.hi/y.hi},x.nan||y.nan);
        else if(x.lo>0&&y.lo>=0&&!x.nan&&!y.nan&&!std::isinf(x.hi)){ // x/0 = +-inf; y from integer conversion is +0
          bool pz = e->b->op==O_UITOFP; if(pz) r={ std::isinf(y.hi)?0.0: x.lo/y.hi, INFINITY,false}; else r={-INFINITY,INFINITY,false}; }
        else if(x.lo>=0&&y.lo>=0&&!x.nan&&!y.nan&&!std::isinf(x.hi)&&!std::isinf(y.hi)&&e->b->op==O_UITOFP){ r={0.0,INFINITY,true}; }
        break; }
    case O_ITE: { FI x=fint(e->b),y=fint(e->c); r={std::min(x.lo,y.lo),std::max(x.hi,y.hi),x.nan||y.nan}; break; }
    case O_AND: if(isC(e->b)&&e->b->k==0x7fffffffffffffffULL){ FI x=fint(e->a); double h=std::max(fabs(x.lo),fabs(x.hi)); double l=(x.lo<=0&&x.hi>=0)?0:std::min(fabs(x.lo),fabs(x.hi)); r={l,h,x.nan}; } break;
    default: break;
  }
  ficache[e]=r; return r;
}
static bool swrap(Expr* e,i128&lo,i128&hi){ // signed interval from the unsigned one
  u128 half=(u128)1<<(e->w-1); if(e->hi<half||e->lo>=half){ lo=sext128(e->lo,e->w); hi=sext128(e->hi,e->w); return true; }
  if(e->op==O_SEXT){ u128 h2=(u128)1<<(e->a->w-1); lo=-(i128)h2; hi=(i128)h2-1; return true; }
  lo=-(i128)(half-1)-1; hi=(i128)(half-1); return false; }
static void interval(Expr* e){
  u128 m=maskw(e->w); e->lo=0; e->hi=m; Expr*a=e->a,*b=e->b;
  switch(e->op){
    case O_CONST: e->lo=e->hi=e->k; break;
    case O_SYM: e->lo=g_syms[(u64)e->k].lo; e->hi=g_syms[(u64)e->k].hi; break;
    case O_ADD: { u128 l=a->lo+b->lo,h=a->hi+b->hi; bool co=l<a->lo,ch=h<a->hi; if(e->w<128){ co=l>m; ch=h>m; l&=m; h&=m; } if(co==ch){ e->lo=l;e->hi=h; } break; }
    case O_SUB: { bool bl=a->lo<b->hi, bh=a->hi<b->lo; if(bl==bh){ e->lo=(a->lo-b->hi)&m; e->hi=(a->hi-b->lo)&m; } break; }
    case O_MUL: { if(a->hi==0||b->hi==0){e->lo=e->hi=0;break;} if(a->hi<=m/b->hi){ e->lo=a->lo*b->lo; e->hi=a->hi*b->hi; } break; }
    case O_UDIV: if(b->lo>0){ e->lo=a->lo/b->hi; e->hi=a->hi/b->lo; } break;
    case O_UREM: if(b->lo>0){ e->hi=std::min(a->hi,b->hi-1); } break;
    case O_AND: e->hi=std::min(a->hi,b->hi); break;
    case O_OR: { unsigned n=std::max(bitlen(a->hi),bitlen(b->hi)); e->hi=maskw(n)&m; if(n==0) e->hi=0; e->lo=std::max(a->lo,b->lo); break; }
    case O_XOR: { unsigned n=std::max(bitlen(a->hi),bitlen(b->hi)); e->hi=n?maskw(n)&m:0; break; }
    case O_SHL: if(isC(b)&&b->k<e->w){ unsigned s=(unsigned)b->k; if(a->hi<=(m>>s)){ e->lo=a->lo<<s; e->hi=a->hi<<s; } } break;
    case O_LSHR: if(isC(b)&&b->k<e->w){ unsigned s=(unsigned)b->k; e->lo=a->lo>>s; e->hi=a->hi>>s; } else e->hi=a->hi; break;
    case O_ITE: e->lo=std::min(b->lo,e->c->lo); e->hi=std::max(b->hi,e->c->hi); break;
    case O_EXTRACT: { unsigned k=(unsigned)e->k; u128 l=a->lo>>k,h=a->hi>>k; if(h<=m){ e->lo=l; e->hi=h; } else if((l>>e->w)==(h>>e->w)&&e->w<128){ e->lo=l&m; e->hi=h&m; } break; }
    case O_CONCAT: if(e->w<=128){ e->lo=(a->lo<<b->w)|b->lo; e->hi=(a->hi<<b->w)|b->hi; } break;
    case O_ZEXT: e->lo=a->lo; e->hi=a->hi; break;
    case O_SEXT: { u128 half=(u128)1<<(a->w-1); if(a->hi<half||a->lo>=half){ e->lo=(u128)sext128(a->lo,a->w)&m; e->hi=(u128)sext128(a->hi,a->w)&m; } break; }
    case O_FPTOSI_SAT: case O_FPTOUI_SAT: if(a->w==64){ FI f=fint(a); if(!f.nan&&f.lo>=0){ u128 L=foldop(e->op,e->w,64,d2u(f.lo),0,0,0),H=foldop(e->op,e->w,64,d2u(f.hi),0,0,0); e->lo=L; e->hi=H; } } break;
    default: break;
  }
}
Expr* mkNot(Expr* a){ if(isC(a)) return mkC(1,!a->k); if(a->op==O_XOR&&isC(a->b)) return a->a;
  if(a->op==O_ULT) return mk(O_ULE,1,a->b,a->a); if(a->op==O_ULE) return mk(O_ULT,1,a->b,a->a);
  if(a->op==O_SLT) return mk(O_SLE,1,a->b,a->a); if(a->op==O_SLE) return mk(O_SLT,1,a->b,a->a);
  return cons(O_XOR,1,a,mkC(1,1),nullptr,0); }
Expr* mkAnd(Expr* a, Expr* b){ return mk(O_AND,1,a,b); }
Expr* mkOr(Expr* a, Expr* b){ return mk(O_OR,1,a,b); }
// equality of two sums modulo 2^w with common summands removed; null when there are none
static bool sumTerms(Expr* e,u128 c,std::vector<std::pair<Expr*,u128>>& v,u128& k){
  if(v.size()>64) return false;
  if(e->op==O_CONST){ k+=c*e->k; return true; }
  if(e->op==O_ADD) return sumTerms(e->a,c,v,k)&&sumTerms(e->b,c,v,k);
  if(e->op==O_SUB) return sumTerms(e->a,c,v,k)&&sumTerms(e->b,-c,v,k);
  if(e->op==O_MUL&&isC(e->b)) return sumTerms(e->a,c*e->b->k,v,k);
  if(e->op==O_CONCAT&&isC(e->b)&&e->b->k==0&&e->a->op==O_EXTRACT&&e->a->k==0&&e->a->a->w==e->w) return sumTerms(e->a->a,c<<e->b->w,v,k);
  if(e->op==O_ZEXT&&e->a->op==O_ADD&&isC(e->a->b)){ Expr*x=e->a->a; u128 q=e->a->b->k,mm=maskw(x->w),L=(-q)&mm; // the inner sum does not wrap
    if(x->hi<=mm-q){ k+=c*q; return sumTerms(mkZext(x,e->w),c,v,k); } if(L&&x->lo>=L){ k-=c*L; return sumTerms(mkZext(x,e->w),c,v,k); } }
  v.push_back({e,c}); return true;
}
// quotient or remainder of a sum by a constant, where multiples of the divisor and a small rest can be told apart
static Expr* divSum(bool quot,Expr* a,u128 d){
  unsigned w=a->w; if(w>64||d>((u128)1<<32)) return nullptr; std::vector<std::pair<Expr*,u128>> v; u128 k0=0; if(!sumTerms(a,1,v,k0)||v.size()>40) return nullptr;
  i128 M=(i128)1<<w,k=sext128(k0&maskw(w),w),L=0,H=0,yl=0,yh=0; struct T{ Expr*e; i128 c; bool q; }; std::vector<T> ts;
  for(size_t i=0;i<v.size();i++){ u128 c=v[i].second&maskw(w); for(size_t j=i+1;j<v.size();j++) if(v[j].first==v[i].first){ c=(c+v[j].second)&maskw(w); v[j].second=0; } i128 s=sext128(c,w); if(!s) continue;
    Expr* e=v[i].first; if(bitlen(e->hi)+bitlen((u128)(s<0?-s:s))>100) return nullptr; i128 p=s*(i128)e->lo,q=s*(i128)e->hi; if(p>q) std::swap(p,q); L+=p; H+=q; bool mq=s%(i128)d==0; if(!mq){ yl+=p; yh+=q; } ts.push_back({e,s,mq}); }
  if(H-L>=M) return nullptr; i128 f=L+k>=0?(L+k)/M:-((-(L+k)+M-1)/M); k-=f*M; if(L+k<0||H+k>=M) return nullptr;
  i128 D=(i128)d,lo=yl+k,q0=lo>=0?lo/D:-((-lo+D-1)/D); if(yh+k>=q0*D+D) return nullptr; bool anyq=false; for(auto&t:ts) anyq|=t.q; if(!anyq&&q0==0) return nullptr;
  u128 m=maskw(w); Expr* r=mkC(w,(u128)(quot?q0:k-q0*D)&m);
  for(auto&t:ts) if(t.q==quot){ u128 c=(u128)(quot?t.c/D:t.c)&m; r=mk(O_ADD,w,r,c==1?t.e:mk(O_MUL,w,t.e,mkC(w,c))); }
  return r; }
static Expr* cancelSums(Expr* a,Expr* b){
  std::vector<std::pair<Expr*,u128>> l,r; u128 kl=0,kr=0; if(!sumTerms(a,1,l,kl)||!sumTerms(b,1,r,kr)) return nullptr;
  u128 m=maskw(a->w); std::vector<std::pair<Expr*,u128>> all; size_t n=l.size()+r.size();
  for(auto& x:l){ bool f=false; for(auto& y:all) if(y.first==x.first){ y.second+=x.second; f=true; } if(!f) all.push_back(x); }
  for(auto& x:r){ bool f=false; for(auto& y:all) if(y.first==x.first){ y.second-=x.second; f=true; } if(!f) all.push_back({x.first,-x.second}); }
  size_t left=0; for(auto& y:all){ y.second&=m; if(y.second) left++; }
  if(left>=n) return nullptr;
  Expr*L=mkC(a->w,0),*R=mkC(a->w,0); u128 k=(kr-kl)&m; // L = R + k
  for(auto& y:all) if(y.second){ if(y.second<=m/2) L=mk(O_ADD,a->w,L,y.second==1?y.first:mk(O_MUL,a->w,y.first,mkC(a->w,y.second))); else { u128 c=(-y.second)&m; R=mk(O_ADD,a->w,R,c==1?y.first:mk(O_MUL,a->w,y.first,mkC(a->w,c))); } }
  if(k<=m/2) R=mk(O_ADD,a->w,R,mkC(a->w,k)); else L=mk(O_ADD,a->w,L,mkC(a->w,(-k)&m));
  return mk(O_EQ,1,L,R);
}
Expr* mkEq(Expr* a, Expr* b){ return mk(O_EQ,1,a,b); }
Expr* mkIte(Expr* c, Expr* a, Expr* b){ return mk(O_ITE,a->w,c,a,b); }
Expr* mkExtract(Expr* a, unsigned lo, unsigned w){ return mk(O_EXTRACT,w,a,nullptr,nullptr,lo); }
Expr* mkConcat(Expr* hi, Expr* lo){ return mk(O_CONCAT,hi->w+lo->w,hi,lo); }
Expr* mkZext(Expr* a, unsigned w){ return a->w==w?a:mk(O_ZEXT,w,a); }
Expr* mkSext(Expr* a, unsigned w){ return a->w==w?a:mk(O_SEXT,w,a); }
// value of a small expression over a single symbol
static bool evalAt(Expr* e,u128 v,int& n,u128& r){
  if(e->op==O_CONST){ r=e->k; return true; } if(e->op==O_SYM){ r=v; return true; } if(--n<0||e->hasfp) return false;
  u128 x=0,y=0,z=0; if(e->a&&!evalAt(e->a,v,n,x)) return false; if(e->b&&!evalAt(e->b,v,n,y)) return false; if(e->c&&!evalAt(e->c,v,n,z)) return false;
  r=e->op==O_CONCAT?(x<<e->b->w)|y:foldop(e->op,e->w,e->a->w,x,y,z,e->k); return true; }
static bool cleaf(Expr* e,int n){ if(isC(e)) return true; if(e->op!=O_ITE||n<=0) return false; return cleaf(e->b,n-1)&&cleaf(e->c,n-1); }
static Expr* mapleaf(Expr* e, const std::function<Expr*(Expr*)>& f){ if(e->op!=O_ITE) return f(e); return mkIte(e->a,mapleaf(e->b,f),mapleaf(e->c,f)); }
static bool comm(Op o){ switch(o){case O_ADD:case O_MUL:case O_AND:case O_OR:case O_XOR:case O_EQ:case O_UMULO:case O_SMULO:case O_FADD:case O_FMUL:case O_FEQ:return true;default:return false;} }
static inline bool isNot(Expr* e){ return e->op==O_XOR&&e->w==1&&isC(e->b); }

static bool ordimp(Expr* p, Expr* q, bool& val){ // p, q comparisons: does p decide q?
  auto dec=[&](Expr* e,Expr*&x,Expr*&y,int&r){ if(e->op==O_ULT){x=e->a;y=e->b;r=1;return true;} if(e->op==O_ULE){x=e->a;y=e->b;r=3;return true;} if(e->op==O_EQ){x=e->a;y=e->b;r=2;return true;} if(isNot(e)&&e->a->op==O_EQ){x=e->a->a;y=e->a->b;r=5;return true;} return false; };
  Expr *x,*y,*u,*v; int r,s; // relation masks: 1 '<', 2 '=', 4 '>'
  if(!dec(p,x,y,r)||!dec(q,u,v,s)) return false;
  if(x==v&&y==u){ s=((s&1)?4:0)|(s&2)|((s&4)?1:0); std::swap(u,v); }
  if(x!=u||y!=v) return false;
  if((r&s)==0){ val=false; return true; } if((r&~s)==0){ val=true; return true; } return false; }
static Expr* mk0(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 k);
// simplification results, remembered: shared subexpressions would otherwise be simplified again and again
Expr* mk(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 k){
  struct E{ Expr *a,*b,*c,*r; u128 k; unsigned op,w; }; static std::vector<E> memo(1<<17);
  if(isC(a)&&(!b||isC(b))) return mk0(op,w,a,b,c,k);
  u64 h=mix((u64)(size_t)a*3+mix((u64)(size_t)b*5+mix((u64)(size_t)c*7+(u64)k+((u64)op<<20)+((u64)w<<40))));
  E& e=memo[h&((1<<17)-1)]; if(e.r&&e.a==a&&e.b==b&&e.c==c&&e.k==k&&e.op==(unsigned)op&&e.w==w) return e.r;
  Expr* r=mk0(op,w,a,b,c,k); memo[h&((1<<17)-1)]=E{a,b,c,r,k,(unsigned)op,w}; return r; }
static Expr* mk0(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 k){
  u128 m=maskw(w);
  // constants
  if(isC(a)&&(!b||isC(b))&&(!c||isC(c))){
    if(op==O_CONCAT) return mkC(w,w<=128?((a->k<<b->w)|b->k):0);
    return mkC(w,foldop(op,w,a->w,a->k,b?b->k:0,c?c->k:0,k)); }
  if(b&&comm(op)&&(isC(a)||(!isC(b)&&a->id>b->id))) std::swap(a,b);
  // push binary ops with a constant through ite-of-constants
  if(b&&!c&&isC(b)&&a->op==O_ITE&&cleaf(a,4)&&op!=O_CONCAT&&op!=O_AND&&op!=O_OR) return mapleaf(a,[&](Expr* l){return mk(op,w,l,b,nullptr,k);});
  if(b&&!c&&isC(a)&&b->op==O_ITE&&cleaf(b,4)&&op!=O_CONCAT&&(op>=O_ADD&&op<=O_SLE)&&op!=O_AND&&op!=O_OR) return mapleaf(b,[&](Expr* l){return mk(op,w,a,l,nullptr,k);});
  if(!b&&(op==O_EXTRACT||op==O_ZEXT||op==O_SEXT)&&a->op==O_ITE&&cleaf(a,6)) return mapleaf(a,[&](Expr* l){return mk(op,w,l,nullptr,nullptr,k);});
  switch(op){
    case O_ADD:
      if(isC(b)){ if(!b->k) return a; if(a->op==O_ADD&&isC(a->b)) return mk(O_ADD,w,a->a,mkC(w,a->b->k+b->k)); }
      else { if(a->op==O_ADD&&isC(a->b)) return mk(O_ADD,w,mk(O_ADD,w,a->a,b),a->b); if(b->op==O_ADD&&isC(b->b)) return mk(O_ADD,w,mk(O_ADD,w,a,b->a),b->b);
        if(a->op==O_SUB&&a->b==b) return a->a; if(b->op==O_SUB&&b->b==a) return b->a; }
      break;
    case O_SUB:
      if(a==b) return mkC(w,0); if(isC(b)) return mk(O_ADD,w,a,mkC(w,-b->k));
      if(a->op==O_ADD){ if(a->a==b) return a->b; if(a->b==b) return a->a; }
      break;
    case O_MUL:
      if(isC(b)){ if(!b->k) return b; if(b->k==1) return a; if(a->op==O_MUL&&isC(a->b)) return mk(O_MUL,w,a->a,mkC(w,a->b->k*b->k)); 
        if((b->k&(b->k-1))==0) return mk(O_SHL,w,a,mkC(w,bitlen(b->k)-1)); }
      break;
    case O_UDIV: case O_UREM:
      if(isC(b)&&b->k){ u128 d=b->k; bool q=op==O_UDIV;
        if(d==1) return q?a:mkC(w,0);
        if(a->hi<d) return q?mkC(w,0):a;
        if((d&(d-1))==0){ unsigned s=bitlen(d)-1; return q?mk(O_LSHR,w,a,mkC(w,s)):mk(O_AND,w,a,mkC(w,d-1)); }
        if(a->op==O_ZEXT&&d<=maskw(a->a->w)) return mkZext(mk(op,a->a->w,a->a,mkC(a->a->w,d)),w);
        if(a->op==O_CONCAT&&isC(a->a)&&a->a->k==0&&d<=maskw(a->b->w)) return mkZext(mk(op,a->b->w,a->b,mkC(a->b->w,d)),w);
        // (x*d*k + y)
        auto mulby=[&](Expr* e,Expr*&x)->bool{ if(e->op==O_MUL&&isC(e->b)&&e->b->k%d==0&&e->a->hi<=m/e->b->k){ x=mk(O_MUL,w,e->a,mkC(w,e->b->k/d)); return true; } 
           if(e->op==O_CONST&&e->k%d==0){ x=mkC(w,e->k/d); return true; } return false; };
        Expr* x; if(mulby(a,x)) return q?x:mkC(w,0);
        if(a->op==O_ADD&&a->a->hi<=m-a->b->hi){ // no wrap
          for(int s=0;s<2;s++){ Expr*p=s?a->b:a->a,*y=s?a->a:a->b; if(mulby(p,x)){ if(q){ Expr* r=mk(O_UDIV,w,y,b); return mk(O_ADD,w,x,r);} return mk(O_UREM,w,y,b); } } }
      }
      if(isC(b)&&b->k>1&&a->op==O_ADD){ Expr* r=divSum(op==O_UDIV,a,b->k); if(r) return r; }
      if(isC(a)&&a->k==0&&b->lo>0) return a;
      break;
    case O_AND:
      if(a==b) return a;
      if(w==1){ if(isC(b)) return b->k?a:b; if(isNot(b)&&b->a==a) return mkC(1,0); if(isNot(a)&&a->a==b) return mkC(1,0);
        bool v; if(ordimp(a,b,v)) return v?a:mkC(1,0); if(ordimp(b,a,v)) return v?b:mkC(1,0);
        if(a->op==O_AND&&(a->a==b||a->b==b)) return a; if(b->op==O_AND&&(b->a==a||b->b==a)) return b; if(a->op==O_OR&&(a->a==b||a->b==b)) return b; if(b->op==O_OR&&(b->a==a||b->b==a)) return a; break; }
      if(isC(b)){ if(!b->k) return b; if(b->k==m) return a; 
        if(((b->k+1)&b->k)==0){ if(a->hi<=b->k) return a; if(!a->hasfp) return mkZext(mkExtract(a,0,bitlen(b->k)),w); }
        if(a->op==O_AND&&isC(a->b)) return mk(O_AND,w,a->a,mkC(w,a->b->k&b->k));
        if(a->op==O_ZEXT){ unsigned aw=a->a->w; return mkZext(mk(O_AND,aw,a->a,mkC(aw,b->k)),w); }
        if(a->op==O_CONCAT&&w<=128){ unsigned lw=a->b->w; return mkConcat(mk(O_AND,a->a->w,a->a,mkC(a->a->w,b->k>>lw)),mk(O_AND,lw,a->b,mkC(lw,b->k))); }
      }
      break;
    case O_OR:
      if(a==b) return a;
      if(w==1){ if(isC(b)) return b->k?b:a; if(isNot(b)&&b->a==a) return mkC(1,1); if(isNot(a)&&a->a==b) return mkC(1,1);
        if(a->op==O_OR&&(a->a==b||a->b==b)) return a; if(b->op==O_OR&&(b->a==a||b->b==a)) return b; if(a->op==O_AND&&(a->a==b||a->b==b)) return b; if(b->op==O_AND&&(b->a==a||b->b==a)) return a;
        { bool v; Expr* na=mkNot(a); if((na->op!=O_XOR)&&ordimp(na,b,v)) return v?mkC(1,1):a; }
        break; }
      if(isC(b)){ if(!b->k) return a; if(b->k==m) return b; 
        if(a->op==O_CONCAT&&w<=128){ unsigned lw=a->b->w; return mkConcat(mk(O_OR,a->a->w,a->a,mkC(a->a->w,b->k>>lw)),mk(O_OR,lw,a->b,mkC(lw,b->k))); } }
      // disjoint: concat(x,0) | y<2^k
      for(int s=0;s<2;s++){ Expr*p=s?b:a,*q=s?a:b; if(p->op==O_CONCAT&&isC(p->b)&&p->b->k==0&&bitlen(q->hi)<=p->b->w) return mkConcat(p->a,mkExtract(q,0,p->b->w));
        // concat(x, zext-ish y) with high zero part
        if(p->op==O_CONCAT&&q->op==O_CONCAT&&p->b->w==q->b->w) return mkConcat(mk(O_OR,p->a->w,p->a,q->a),mk(O_OR,p->b->w,p->b,q->b));
        if(p->op==O_CONCAT&&q->op==O_ZEXT&&q->a->w==p->b->w) return mkConcat(p->a,mk(O_OR,p->b->w,p->b,q->a)); }
      break;
    case O_XOR:
      if(a==b) return mkC(w,0);
      if(isC(b)){ if(!b->k) return a; if(w==1) return mkNot(a); if(a->op==O_XOR&&isC(a->b)) return mk(O_XOR,w,a->a,mkC(w,a->b->k^b->k));
        if(a->op==O_ZEXT&&b->k<=maskw(a->a->w)) return mkZext(mk(O_XOR,a->a->w,a->a,mkC(a->a->w,b->k)),w); }
      break;
    case O_SHL:
      if(isC(b)){ if(!b->k) return a; if(b->k>=w) return mkC(w,0); unsigned s=(unsigned)b->k; return mkConcat(mkExtract(a,0,w-s),mkC(s,0)); }
      if(isC(a)&&!a->k) return a;
      break;
    case O_LSHR:
      if(isC(b)){ if(!b->k) return a; if(b->k>=w) return mkC(w,0); unsigned s=(unsigned)b->k; return mkZext(mkExtract(a,s,w-s),w); }
      if(isC(a)&&!a->k) return a;
      break;
    case O_ASHR:
      if(isC(b)){ if(!b->k) return a; unsigned s=b->k>=w?w-1:(unsigned)b->k; return mkSext(mkExtract(a,s,w-s),w); }
      break;
    case O_EQ:
      if(a==b) return mkC(1,1);
      if(a->hi<b->lo||b->hi<a->lo) return mkC(1,0);
      if(a->w==1){ if(isC(b)) return b->k?a:mkNot(a); }
      if(isC(b)){
        if(a->op==O_ZEXT) return mkEq(a->a,mkC(a->a->w,b->k));
        if(a->op==O_SEXT){ if((u128)sext128(b->k&maskw(a->a->w),a->a->w)==(u128)sext128(b->k,a->w)) return mkEq(a->a,mkC(a->a->w,b->k)); return mkC(1,0); }
        if(a->op==O_ADD&&isC(a->b)) return mkEq(a->a,mkC(a->w,b->k-a->b->k));
        if(a->op==O_XOR&&isC(a->b)) return mkEq(a->a,mkC(a->w,b->k^a->b->k));
        if(a->op==O_CONCAT&&a->w<=128) return mkAnd(mkEq(a->a,mkC(a->a->w,b->k>>a->b->w)),mkEq(a->b,mkC(a->b->w,b->k)));
        if(a->op==O_ITE){ if(isC(a->b)&&isC(a->c)){ if(a->b->k==b->k) return a->a; if(a->c->k==b->k) return mkNot(a->a); return mkC(1,0);} 
           if(isC(a->b)){ return a->b->k==b->k? mkOr(a->a,mkEq(a->c,b)) : mkAnd(mkNot(a->a),mkEq(a->c,b)); }
           if(isC(a->c)){ return a->c->k==b->k? mkOr(mkNot(a->a),mkEq(a->b,b)) : mkAnd(a->a,mkEq(a->b,b)); } }
        if(a->op==O_MUL&&isC(a->b)&&a->a->hi<=maskw(a->w)/a->b->k){ if(b->k%a->b->k) return mkC(1,0); return mkEq(a->a,mkC(a->w,b->k/a->b->k)); }
      } else {
        if(a->op==O_ZEXT&&b->op==O_ZEXT){ if(a->a->w==b->a->w) return mkEq(a->a,b->a); if(a->a->w<b->a->w) return mkEq(mkZext(a->a,b->a->w),b->a); return mkEq(a->a,mkZext(b->a,a->a->w)); }
        if(a->op==O_CONCAT&&b->op==O_CONCAT&&a->b->w==b->b->w) return mkAnd(mkEq(a->a,b->a),mkEq(a->b,b->b));
        if((a->op==O_ADD||a->op==O_MUL)&&(b->op==O_ADD||b->op==O_MUL)&&(a->a->op==O_MUL||b->a->op==O_MUL)){ Expr*r=cancelSums(a,b); if(r) return r; }
        if(a->op==O_ADD&&b->op==O_ADD){ if(a->b==b->b) return mkEq(a->a,b->a); if(a->a==b->a) return mkEq(a->b,b->b); if(a->a==b->b) return mkEq(a->b,b->a); if(a->b==b->a) return mkEq(a->a,b->b); }
        if(w==1&&a->w>1&&(a->op==O_ADD||b->op==O_ADD)){ Expr*r=cancelSums(a,b); if(r) return r; }
      }
      break;
    case O_ULT: case O_ULE: { bool lt=op==O_ULT;
      if(a==b) return mkC(1,!lt);
      if(lt?a->hi<b->lo:a->hi<=b->lo) return mkC(1,1); if(lt?a->lo>=b->hi:a->lo>b->hi) return mkC(1,0);
      if(!lt&&isC(b)&&b->k<maskw(b->w)) return mk(O_ULT,1,a,mkC(b->w,b->k+1));
      if(!lt&&isC(a)&&a->k>0) return mk(O_ULT,1,mkC(a->w,a->k-1),b);
      if(lt&&isC(b)&&b->k==1) return mkEq(a,mkC(a->w,0));
      if(lt&&isC(a)&&a->k==0) return mkNot(mkEq(b,a));
      if(lt&&isC(b)&&b->k==a->hi&&a->hi==maskw(a->w)) return mkNot(mkEq(a,b));
      if(a->op==O_ZEXT&&b->op==O_ZEXT){ unsigned n=std::max(a->a->w,b->a->w); return mk(op,1,mkZext(a->a,n),mkZext(b->a,n)); }
      if(a->op==O_ZEXT&&isC(b)) return mk(op,1,a->a,mkC(a->a->w,b->k)); // b within range of a by interval test
      if(b->op==O_ZEXT&&isC(a)) return mk(op,1,mkC(b->a->w,a->k),b->a);
      // (x + c) < d without wrap
      if(isC(b)&&a->op==O_ADD&&isC(a->b)){ u128 mm=maskw(a->w); if(a->a->hi<=mm-a->b->k && b->k>=a->b->k) return mk(op,1,a->a,mkC(a->w,b->k-a->b->k));
         // range test: x - L < N with x >= L known
         u128 L=(-a->b->k)&mm; if(L&&a->a->lo>=L&&b->k<=mm-L) return mk(op,1,a->a,mkC(a->w,b->k+L)); }
      if(isC(a)&&b->op==O_ADD&&isC(b->b)){ u128 mm=maskw(b->w); if(b->a->hi<=mm-b->b->k && a->k>=b->b->k) return mk(op,1,mkC(a->w,a->k-b->b->k),b->a);
         u128 L=(-b->b->k)&mm; if(L&&b->a->lo>=L&&a->k<=mm-L) return mk(op,1,mkC(a->w,a->k+L),b->a); }
      break; }
    case O_SLT: case O_SLE: { if(a==b) return mkC(1,op==O_SLE); i128 al,ah,bl,bh; swrap(a,al,ah); swrap(b,bl,bh);
      if(op==O_SLT?ah<bl:ah<=bl) return mkC(1,1); if(op==O_SLT?al>=bh:al>bh) return mkC(1,0);
      if(al>=0&&bl>=0) return mk(op==O_SLT?O_ULT:O_ULE,1,a,b);
      if(a->op==O_SEXT&&b->op==O_SEXT&&a->a->w==b->a->w) return mk(op,1,a->a,b->a);
      break; }
    case O_UMULO: if(a->hi==0||b->hi==0||a->hi<=maskw(a->w)/b->hi) return mkC(1,0); if(a->lo&&b->lo&&a->lo>maskw(a->w)/b->lo) return mkC(1,1);
      if(isC(b)&&b->k) return mk(O_ULT,1,mkC(a->w,maskw(a->w)/b->k),a);
      break;
    case O_SMULO: { u128 half=(u128)1<<(a->w-1); if(a->hi<half&&b->hi<half&&(b->hi==0||a->hi<=(half-1)/b->hi)) return mkC(1,0); break; }
    case O_ITE:
      if(isC(a)) return a->k?b:c; if(b==c) return b; if(isNot(a)) return mkIte(a->a,c,b);
      if(w==1){ if(isC(b)&&isC(c)) return b->k?a:mkNot(a); if(isC(b)) return b->k?mkOr(a,c):mkAnd(mkNot(a),c); if(isC(c)) return c->k?mkOr(mkNot(a),b):mkAnd(a,b); }
      if(b->op==O_ITE&&b->a==a) return mkIte(a,b->b,c); if(c->op==O_ITE&&c->a==a) return mkIte(a,b,c->c);
      if(b->op==O_ITE&&b->c==c) return mkIte(mkAnd(a,b->a),b->b,c);
      if(c->op==O_ITE&&c->b==b) return mkIte(mkOr(a,c->a),b,c->c);
      // x==k ? k : x  => x
      if(a->op==O_EQ&&((a->a==c&&a->b==b)||(a->b==c&&a->a==b))) return c;
      // x==k ? f(k) : f(x)  => f(x)
      if(isC(b)&&a->op==O_EQ&&a->a->op==O_SYM&&isC(a->b)&&c->syms->v.size()==1&&c->syms==a->a->syms){ int n=40; u128 r; if(evalAt(c,a->b->k,n,r)&&r==b->k) return c; }
      if(b->op==O_CONCAT&&c->op==O_CONCAT&&b->b->w==c->b->w&&(b->a==c->a||b->b==c->b)) return mkConcat(mkIte(a,b->a,c->a),mkIte(a,b->b,c->b));
      if(b->op==O_ZEXT&&c->op==O_ZEXT&&b->a->w==c->a->w) return mkZext(mkIte(a,b->a,c->a),w);
      break;
    case O_EXTRACT: { unsigned lo=(unsigned)k;
      if(w==a->w) return a;
      if(a->op==O_EXTRACT) return mkExtract(a->a,lo+(unsigned)a->k,w);
      if(a->op==O_CONCAT){ unsigned bw=a->b->w; if(lo>=bw) return mkExtract(a->a,lo-bw,w); if(lo+w<=bw) return mkExtract(a->b,lo,w); return mkConcat(mkExtract(a->a,0,lo+w-bw),mkExtract(a->b,lo,bw-lo)); }
      if(a->op==O_ZEXT){ unsigned aw=a->a->w; if(lo>=aw) return mkC(w,0); if(lo+w<=aw) return mkExtract(a->a,lo,w); return mkZext(mkExtract(a->a,lo,aw-lo),w); }
      if(a->op==O_SEXT){ unsigned aw=a->a->w; if(lo+w<=aw) return mkExtract(a->a,lo,w); if(lo==0) return mkSext(a->a,w); }
      if(a->hi<((u128)1<<lo)&&lo<128) return mkC(w,0);
      if(lo==0&&(a->op==O_ADD||a->op==O_SUB||a->op==O_MUL)) return mk(a->op,w,mkExtract(a->a,0,w),mkExtract(a->b,0,w));
      if(a->op==O_AND||a->op==O_OR||a->op==O_XOR) { if(isC(a->b)||w*2<=a->w) return mk(a->op,w,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w)); }
      if(a->op==O_ITE&&(isC(a->b)||isC(a->c)||a->b->op==O_CONCAT||a->c->op==O_CONCAT||a->b->op==O_ZEXT||a->c->op==O_ZEXT)) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w));
      break; }
    case O_CONCAT:
      if(isC(a)&&a->k==0) return mkZext(b,w);
      if(a->op==O_EXTRACT&&b->op==O_EXTRACT&&a->a==b->a&&a->k==b->k+b->w) return mkExtract(a->a,(unsigned)b->k,w);
      if(a->op==O_EXTRACT&&a->k==b->w&&(b->op==O_ADD||b->op==O_MUL)&&(a->a->op==O_ADD||a->a->op==O_MUL)){ // the low part was pushed into the sum
        Expr* l=mkExtract(a->a,0,b->w); if(l==b||(l->syms==b->syms&&mkEq(l,b)==mkC(1,1))) return mkExtract(a->a,0,a->w+b->w); }
      if(a->op==O_EXTRACT&&b->op==O_CONCAT&&b->a->op==O_EXTRACT&&b->a->a==a->a&&a->k==b->a->k+b->a->w) return mkConcat(mkExtract(a->a,(unsigned)b->a->k,a->w+b->a->w),b->b);
      if(a->op==O_ZEXT&&a->a->op==O_EXTRACT&&b->op==O_EXTRACT&&a->a->a==b->a&&a->a->k==b->k+b->w) return mkZext(mkExtract(b->a,(unsigned)b->k,a->a->w+b->w),w);
      if(a->op==O_ZEXT) return mkZext(mkConcat(a->a,b),w);
      if(a->op==O_CONCAT) return mkConcat(a->a,mkConcat(a->b,b)); // right-nested
      if(b->op==O_CONCAT&&isC(a)&&isC(b->a)&&a->w+b->a->w<=128) return mkConcat(mkC(a->w+b->a->w,(a->k<<b->a->w)|b->a->k),b->b);
      if(a->op==O_ITE&&b->op==O_ITE&&a->a==b->a) return mkIte(a->a,mkConcat(a->b,b->b),mkConcat(a->c,b->c));
      break;
    case O_ZEXT: if(a->w==w) return a; if(a->op==O_ZEXT) return mkZext(a->a,w); break;
    case O_SEXT: { if(a->w==w) return a; u128 half=(u128)1<<(a->w-1); if(a->hi<half) return mkZext(a,w); if(a->op==O_SEXT) return mkSext(a->a,w); break; }
    case O_FLT: case O_FLE: case O_FEQ: if(a->w==64){ 
        if(a==b&&op==O_FLT) return mkC(1,0);
        if(a==b) return mkNot(mk(O_FNAN,1,a));
        FI x=fint(a),y=fint(b);
        if(op==O_FLT){ if(x.lo>=y.hi) return mkC(1,0); if(!x.nan&&!y.nan&&x.hi<y.lo) return mkC(1,1); }
        if(op==O_FLE){ if(x.lo>y.hi) return mkC(1,0); if(!x.nan&&!y.nan&&x.hi<=y.lo) return mkC(1,1); }
        if(op==O_FEQ){ if(x.hi<y.lo||y.hi<x.lo) return mkC(1,0); } } break;
    case O_FNAN: if(a->w==64){ if(a->op==O_ITE) return mkIte(a->a,mk(O_FNAN,1,a->b),mk(O_FNAN,1,a->c)); FI x=fint(a); if(!x.nan) return mkC(1,0); } break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FPTOSI_SAT: case O_FPTOUI_SAT: case O_FROUND: { // case splits move outwards
      if(op==O_FSUB&&isC(b)){ double d=fpval(b->k,w); if(d==d) return mk(O_FADD,w,a,mkC(w,b->k^((u128)1<<(w-1)))); }
      bool l=a->op==O_ITE&&(!b||isC(b)), rr=b&&b->op==O_ITE&&isC(a); if(!l&&!rr) break;
      static std::map<std::tuple<int,unsigned,Expr*,Expr*,u128>,Expr*> memo; auto key=std::make_tuple((int)op,w,a,b,k); auto it=memo.find(key); if(it!=memo.end()) return it->second;
      Expr* r=l?mkIte(a->a,mk(op,w,a->b,b,nullptr,k),mk(op,w,a->c,b,nullptr,k)):mkIte(b->a,mk(op,w,a,b->b,nullptr,k),mk(op,w,a,b->c,nullptr,k)); memo[key]=r; return r; }
    case O_UITOFP: if(a->op==O_ZEXT) return mk(O_UITOFP,w,a->a); break;
    case O_SITOFP: { u128 half=(u128)1<<(a->w-1); if(a->hi<half) return mk(O_UITOFP,w,a); break; }
    default: break;
  }
  return cons(op,w,a,b,c,k);
}
void newEvalEpoch(){ g_epoch++; }
u128 evalM(Expr* e, const std::vector<u128>& M){
  if(e->op==O_CONST) return e->k;
  if(e->ep==g_epoch) return e->ev;
  u128 r;
  if(e->op==O_SYM){ u64 i=(u64)e->k; r= i<M.size()?M[i]:g_syms[i].lo; }
  else if(e->op==O_ITE) r= evalM(e->a,M)?evalM(e->b,M):evalM(e->c,M);
  else if(e->op==O_AND&&e->w==1) r= evalM(e->a,M)?evalM(e->b,M):0;
  else if(e->op==O_OR&&e->w==1) r= evalM(e->a,M)?1:evalM(e->b,M);
  else if(e->op==O_CONCAT) r=(evalM(e->a,M)<<e->b->w)|evalM(e->b,M);
  else r=foldop(e->op,e->w,e->a->w,evalM(e->a,M),e->b?evalM(e->b,M):0,e->c?evalM(e->c,M):0,e->k);
  e->ep=g_epoch; e->ev=r; return r;
}
static std::string u128s(u128 v){ if(!v) return "0"; std::string s; while(v){ s+=char('0'+(int)(v%10)); v/=10; } std::reverse(s.begin(),s.end()); return s; }
std::string toStr(Expr* e,int d){
  if(e->op==O_CONST) return u128s(e->k)+":"+std::to_string(e->w); if(e->op==O_SYM) return g_syms[(u64)e->k].name;
  if(d<=0) return "..."; std::string s="("; s+=op_names[e->op]; if(e->op==O_EXTRACT) s+="["+std::to_string((u64)e->k)+"+"+std::to_string(e->w)+"]"; if(e->op==O_ZEXT||e->op==O_SEXT) s+=std::to_string(e->w);
  if(e->a) s+=" "+toStr(e->a,d-1); if(e->b) s+=" "+toStr(e->b,d-1); if(e->c) s+=" "+toStr(e->c,d-1); return s+")"; }
