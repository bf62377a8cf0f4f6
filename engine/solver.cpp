#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <set>
#include <map>
#include <array>
#include <sstream>
#include <cmath>
SolverStats sst; double g_qtimeout=20;
double nowsec(){ struct timeval t; gettimeofday(&t,0); return t.tv_sec+t.tv_usec*1e-6; }
static Z3_context ctx=nullptr; static std::unordered_map<Expr*,Z3_ast> trc; static u64 trn=0;
static std::unordered_map<u32,Z3_ast> symc;
static void zerr(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); }
static void init(){ if(ctx) return; Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); ctx=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,zerr); }
static Z3_ast bvc(unsigned w,u128 v){ Z3_sort s=Z3_mk_bv_sort(ctx,w); if(w<=64) return Z3_mk_unsigned_int64(ctx,(u64)v,s); Z3_ast lo=Z3_mk_unsigned_int64(ctx,(u64)v,Z3_mk_bv_sort(ctx,64)),hi=Z3_mk_unsigned_int64(ctx,(u64)(v>>64),Z3_mk_bv_sort(ctx,w-64)); return Z3_mk_concat(ctx,hi,lo); }
// translation: every expression is represented with nb(e)=bitlen(hi) bits (>=1), implicitly zero extended
static unsigned nb(Expr* e){ if(e->w==1) return 1; unsigned n=bitlen(e->hi); return n?n:1; }
static Z3_ast tr(Expr* e);
static bool absMul=false; // wide products are opaque (see mulLemmas)
static bool wideMul(Expr* e){ return (e->op==O_MUL&&e->w>=48&&!isC(e->a)&&!isC(e->b)&&nb(e->a)+nb(e->b)>40)||(e->op==O_UMULO&&e->a->w>=48&&!isC(e->a)&&!isC(e->b)); }
static Z3_ast fit(Z3_ast x, unsigned from, unsigned to){ if(from==to) return x; if(from<to) return Z3_mk_zero_ext(ctx,to-from,x); return Z3_mk_extract(ctx,to-1,0,x); }
static Z3_ast trw(Expr* e, unsigned w){ return fit(tr(e),nb(e),w); } // at width w (truncating or zero-extending)
static Z3_ast b2bv(Z3_ast b){ return Z3_mk_ite(ctx,b,bvc(1,1),bvc(1,0)); }
static std::unordered_map<Expr*,Z3_ast> trbc;
static Z3_ast trb(Expr* e); // width-1 as Bool
static std::unordered_map<Expr*,Z3_ast> trcA, trbcA;
// IEEE comparisons on bit patterns (exact)
static Z3_ast zand(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_and(ctx,2,x); }
static Z3_ast zor(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_or(ctx,2,x); }
static Z3_ast znot(Z3_ast a){ return Z3_mk_not(ctx,a); }
static u128 fpInf(unsigned w){ return w==64?(u128)0x7ff0000000000000ULL:(u128)0x7f800000; }
static Z3_ast fpAbs(Z3_ast x,unsigned w){ return Z3_mk_bvand(ctx,x,bvc(w,maskw(w)>>1)); }
static Z3_ast fpNan(Z3_ast x,unsigned w){ return Z3_mk_bvult(ctx,bvc(w,fpInf(w)),fpAbs(x,w)); }
static Z3_ast fpIsInf(Z3_ast x,unsigned w){ return Z3_mk_eq(ctx,fpAbs(x,w),bvc(w,fpInf(w))); }
static Z3_ast fpZero(Z3_ast x,unsigned w){ return Z3_mk_eq(ctx,fpAbs(x,w),bvc(w,0)); }
static Z3_ast fpKey(Z3_ast x,unsigned w){ return Z3_mk_ite(ctx,Z3_mk_bvslt(ctx,x,bvc(w,0)),Z3_mk_bvxor(ctx,x,bvc(w,maskw(w)>>1)),x); }
static Z3_ast fpCmp(Z3_ast a,Z3_ast b,unsigned w,int k){ // 0 lt, 1 le, 2 eq
  Z3_ast ok=zand(znot(fpNan(a,w)),znot(fpNan(b,w))), zz=zand(fpZero(a,w),fpZero(b,w));
  if(k==0) return zand(ok,zand(znot(zz),Z3_mk_bvslt(ctx,fpKey(a,w),fpKey(b,w))));
  if(k==1) return zand(ok,zor(zz,Z3_mk_bvsle(ctx,fpKey(a,w),fpKey(b,w))));
  return zand(ok,zor(zz,Z3_mk_eq(ctx,a,b))); }
static Z3_ast tr(Expr* e){
  if(e->w==1) { auto it=trc.find(e); if(it!=trc.end()) return it->second; Z3_ast r=b2bv(trb(e)); trc[e]=r; return r; }
  if(e->op==O_CONST) return bvc(nb(e),e->k);
  auto it=trc.find(e); if(it!=trc.end()) return it->second;
  unsigned n=nb(e), w=e->w; Z3_ast r; Expr*a=e->a,*b=e->b,*c=e->c;
  switch(e->op){
    case O_SYM: { std::string nm="s"+std::to_string((u64)e->k); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm.c_str()),Z3_mk_bv_sort(ctx,n)); break; }
    case O_ADD: r=Z3_mk_bvadd(ctx,trw(a,n),trw(b,n)); break;
    case O_SUB: { // exact modulo 2^n is right because the true value fits n bits
      r=Z3_mk_bvsub(ctx,trw(a,n),trw(b,n)); break; }
    case O_MUL: if(absMul&&wideMul(e)){ std::string nm="m"+std::to_string(e->id); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm.c_str()),Z3_mk_bv_sort(ctx,n)); break; }
      r=Z3_mk_bvmul(ctx,trw(a,n),trw(b,n)); break;
    case O_UDIV: { unsigned m=b->lo>0?std::max(nb(a),nb(b)):w; r=fit(Z3_mk_bvudiv(ctx,trw(a,m),trw(b,m)),m,n); break; }
    case O_UREM: { unsigned m=b->lo>0?std::max(nb(a),nb(b)):w; r=fit(Z3_mk_bvurem(ctx,trw(a,m),trw(b,m)),m,n); break; }
    case O_SDIV: r=fit(Z3_mk_bvsdiv(ctx,trw(a,w),trw(b,w)),w,n); break;
    case O_SREM: r=fit(Z3_mk_bvsrem(ctx,trw(a,w),trw(b,w)),w,n); break;
    case O_AND: r=Z3_mk_bvand(ctx,trw(a,n),trw(b,n)); break;
    case O_OR: r=Z3_mk_bvor(ctx,trw(a,n),trw(b,n)); break;
    case O_XOR: r=Z3_mk_bvxor(ctx,trw(a,n),trw(b,n)); break;
    case O_SHL: r=fit(Z3_mk_bvshl(ctx,trw(a,w),trw(b,w)),w,n); break;
    case O_LSHR: r=fit(Z3_mk_bvlshr(ctx,trw(a,w),trw(b,w)),w,n); break;
    case O_ASHR: r=fit(Z3_mk_bvashr(ctx,trw(a,w),trw(b,w)),w,n); break;
    case O_ITE: r=Z3_mk_ite(ctx,trb(a),trw(b,n),trw(c,n)); break;
    case O_EXTRACT: { unsigned lo=(unsigned)e->k, an=nb(a); unsigned need=lo+n; Z3_ast x=an<need?fit(tr(a),an,need):tr(a); r=Z3_mk_extract(ctx,lo+n-1,lo,x); break; }
    case O_CONCAT: { Z3_ast lo=trw(b,b->w); if(n<=b->w) r=fit(lo,b->w,n); else r=Z3_mk_concat(ctx,trw(a,n-b->w),lo); break; }
    case O_ZEXT: r=trw(a,n); break;
    case O_SEXT: { Z3_ast x=trw(a,a->w); if(n<=a->w) r=fit(x,a->w,n); else r=Z3_mk_sign_ext(ctx,n-a->w,x); break; }
    default: { // IEEE: opaque value (refined elsewhere)
      std::string nm="f"+std::to_string(e->id); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm.c_str()),Z3_mk_bv_sort(ctx,n)); break; }
  }
  trc[e]=r; return r;
}
static Z3_ast trb(Expr* e){
  if(e->op==O_CONST) return e->k?Z3_mk_true(ctx):Z3_mk_false(ctx);
  auto it=trbc.find(e); if(it!=trbc.end()) return it->second;
  Z3_ast r; Expr*a=e->a,*b=e->b,*c=e->c;
  auto cmpw=[&](){ return std::max(nb(a),nb(b)); };
  switch(e->op){
    case O_AND: { Z3_ast x[2]={trb(a),trb(b)}; r=Z3_mk_and(ctx,2,x); break; }
    case O_OR: { Z3_ast x[2]={trb(a),trb(b)}; r=Z3_mk_or(ctx,2,x); break; }
    case O_XOR: if(isC(b)) r=b->k?Z3_mk_not(ctx,trb(a)):trb(a); else r=Z3_mk_xor(ctx,trb(a),trb(b)); break;
    case O_EQ: if(a->w==1) r=Z3_mk_iff(ctx,trb(a),trb(b)); else { unsigned m=cmpw(); r=Z3_mk_eq(ctx,trw(a,m),trw(b,m)); } break;
    case O_ULT: { unsigned m=cmpw(); r=Z3_mk_bvult(ctx,trw(a,m),trw(b,m)); break; }
    case O_ULE: { unsigned m=cmpw(); r=Z3_mk_bvule(ctx,trw(a,m),trw(b,m)); break; }
    case O_SLT: r=Z3_mk_bvslt(ctx,trw(a,a->w),trw(b,b->w)); break;
    case O_SLE: r=Z3_mk_bvsle(ctx,trw(a,a->w),trw(b,b->w)); break;
    case O_UMULO: if(absMul&&wideMul(e)){ std::string nm="m"+std::to_string(e->id); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm.c_str()),Z3_mk_bool_sort(ctx)); break; }
      r=Z3_mk_not(ctx,Z3_mk_bvmul_no_overflow(ctx,trw(a,a->w),trw(b,b->w),false)); break;
    case O_SMULO: { Z3_ast x[2]={Z3_mk_bvmul_no_overflow(ctx,trw(a,a->w),trw(b,b->w),true),Z3_mk_bvmul_no_underflow(ctx,trw(a,a->w),trw(b,b->w))}; r=Z3_mk_not(ctx,Z3_mk_and(ctx,2,x)); break; }
    case O_ITE: r=Z3_mk_ite(ctx,trb(a),trb(b),trb(c)); break;
    case O_SYM: { std::string nm="s"+std::to_string((u64)e->k); r=Z3_mk_eq(ctx,Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm.c_str()),Z3_mk_bv_sort(ctx,1)),bvc(1,1)); break; }
    case O_EXTRACT: r=Z3_mk_eq(ctx,Z3_mk_extract(ctx,(unsigned)e->k,(unsigned)e->k, nb(a)>e->k?tr(a):fit(tr(a),nb(a),(unsigned)e->k+1)),bvc(1,1)); break;
    case O_ADD: case O_SUB: case O_MUL: { Z3_ast x=tr(a),y=tr(b); Z3_ast v= e->op==O_MUL?Z3_mk_bvmul(ctx,x,y):Z3_mk_bvadd(ctx,x,y); r=Z3_mk_eq(ctx,v,bvc(1,1)); break; }
    case O_FNAN: r=fpNan(trw(a,a->w),a->w); break;
    case O_FLT: r=fpCmp(trw(a,a->w),trw(b,b->w),a->w,0); break; case O_FLE: r=fpCmp(trw(a,a->w),trw(b,b->w),a->w,1); break; case O_FEQ: r=fpCmp(trw(a,a->w),trw(b,b->w),a->w,2); break;
    default: { std::string nm="f"+std::to_string(e->id); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,nm.c_str()),Z3_mk_bool_sort(ctx)); break; }
  }
  trbc[e]=r; return r;
}
static void collectFp(Expr* e, std::set<Expr*>& seen, std::vector<Expr*>& out){ if(!e||!e->hasfp||seen.count(e)) return; seen.insert(e); collectFp(e->a,seen,out); collectFp(e->b,seen,out); collectFp(e->c,seen,out); if(e->op>=O_FADD) out.push_back(e); }

// ---------- exact IEEE queries: SMT-LIB text for cvc5
struct Smt { std::ostringstream o; std::unordered_map<Expr*,std::string> bv, fp; std::set<u32> syms; int n=0;
  std::string C(unsigned w,u128 v){ std::string s="#b"; for(int i=w-1;i>=0;i--) s+=((v>>i)&1)?'1':'0'; return s; }
  const char* fs(unsigned w){ return w==64?"11 53":"8 24"; }
  std::string F(Expr* e){ // as FloatingPoint
    auto it=fp.find(e); if(it!=fp.end()) return it->second; std::string r; const char* s=fs(e->w);
    if(e->op==O_CONST){ unsigned m=e->w==64?52:23,x=e->w==64?11:8; r="(fp "+C(1,e->k>>(e->w-1))+" "+C(x,(e->k>>m)&maskw(x))+" "+C(m,e->k&maskw(m))+")"; fp[e]=r; return r; }
    std::string d;
    switch(e->op){
      case O_FADD: d="(fp.add RNE "+F(e->a)+" "+F(e->b)+")"; break; case O_FSUB: d="(fp.sub RNE "+F(e->a)+" "+F(e->b)+")"; break;
      case O_FMUL: d="(fp.mul RNE "+F(e->a)+" "+F(e->b)+")"; break; case O_FDIV: d="(fp.div RNE "+F(e->a)+" "+F(e->b)+")"; break;
      case O_UITOFP: d=std::string("((_ to_fp_unsigned ")+s+") RNE "+N(e->a)+")"; break;
      case O_SITOFP: d=std::string("((_ to_fp ")+s+") RNE "+B(e->a)+")"; break;
      case O_FPEXT: case O_FPTRUNC: d=std::string("((_ to_fp ")+s+") RNE "+F(e->a)+")"; break;
      case O_FROUND: d=std::string("(fp.roundToIntegral ")+(e->k==0?"RTN":e->k==1?"RTP":e->k==2?"RTZ":e->k==3?"RNE":"RNA")+" "+F(e->a)+")"; break;
      case O_ITE: d="(ite "+b(e->a)+" "+F(e->b)+" "+F(e->c)+")"; break;
      case O_AND: if(isC(e->b)&&e->b->k==(maskw(e->w)>>1)){ d="(fp.abs "+F(e->a)+")"; break; } /*fallthrough*/
      case O_XOR: if(e->op==O_XOR&&isC(e->b)&&e->b->k==(maskw(e->w)>>1)+1){ d="(fp.neg "+F(e->a)+")"; break; }
      default: d=std::string("((_ to_fp ")+s+") "+B(e)+")"; }
    r="F"+std::to_string(n++); o<<"(define-fun "<<r<<" () (_ FloatingPoint "<<s<<") "<<d<<")\n"; fp[e]=r; return r; }
  // narrow unsigned version
  std::string N(Expr* e){ unsigned m=bitlen(e->hi); if(!m) m=1; if(m+1<e->w){ std::string x=B(e); return "((_ extract "+std::to_string(m-1)+" 0) "+x+")"; } return B(e); }
  std::string b(Expr* e){ return "(= "+B(e)+" #b1)"; }
  std::string B(Expr* e){
    if(e->op==O_CONST) return C(e->w,e->k);
    auto it=bv.find(e); if(it!=bv.end()) return it->second; std::string r,d; unsigned w=e->w;
    auto bin=[&](const char* f){ d=std::string("(")+f+" "+B(e->a)+" "+B(e->b)+")"; };
    auto pred=[&](std::string p){ d="(ite "+p+" #b1 #b0)"; };
    switch(e->op){
      case O_SYM: r="s"+std::to_string((u64)e->k); syms.insert((u32)e->k); o<<"(declare-const "<<r<<" (_ BitVec "<<w<<"))\n(assert (bvule "<<C(w,e->lo)<<" "<<r<<"))\n(assert (bvule "<<r<<" "<<C(w,e->hi)<<"))\n"; bv[e]=r; return r;
      case O_ADD: bin("bvadd"); break; case O_SUB: bin("bvsub"); break; case O_MUL: bin("bvmul"); break; case O_UDIV: bin("bvudiv"); break; case O_SDIV: bin("bvsdiv"); break; case O_UREM: bin("bvurem"); break; case O_SREM: bin("bvsrem"); break;
      case O_AND: bin("bvand"); break; case O_OR: bin("bvor"); break; case O_XOR: bin("bvxor"); break; case O_SHL: bin("bvshl"); break; case O_LSHR: bin("bvlshr"); break; case O_ASHR: bin("bvashr"); break;
      case O_EQ: pred("(= "+B(e->a)+" "+B(e->b)+")"); break; case O_ULT: pred("(bvult "+B(e->a)+" "+B(e->b)+")"); break; case O_ULE: pred("(bvule "+B(e->a)+" "+B(e->b)+")"); break;
      case O_SLT: pred("(bvslt "+B(e->a)+" "+B(e->b)+")"); break; case O_SLE: pred("(bvsle "+B(e->a)+" "+B(e->b)+")"); break;
      case O_UMULO: { unsigned a=e->a->w; std::string z="(_ zero_extend "+std::to_string(a)+")"; pred("(not (= ((_ extract "+std::to_string(2*a-1)+" "+std::to_string(a)+") (bvmul ("+z+" "+B(e->a)+") ("+z+" "+B(e->b)+"))) "+C(a,0)+"))"); break; }
      case O_SMULO: { unsigned a=e->a->w; std::string z="(_ sign_extend "+std::to_string(a)+")"; std::string p="(bvmul ("+z+" "+B(e->a)+") ("+z+" "+B(e->b)+"))"; pred("(not (= "+p+" ("+z+" ((_ extract "+std::to_string(a-1)+" 0) "+p+"))))"); break; }
      case O_ITE: d="(ite "+b(e->a)+" "+B(e->b)+" "+B(e->c)+")"; break;
      case O_EXTRACT: d="((_ extract "+std::to_string((u64)e->k+w-1)+" "+std::to_string((u64)e->k)+") "+B(e->a)+")"; break;
      case O_CONCAT: bin("concat"); break;
      case O_ZEXT: d="((_ zero_extend "+std::to_string(w-e->a->w)+") "+B(e->a)+")"; break;
      case O_SEXT: d="((_ sign_extend "+std::to_string(w-e->a->w)+") "+B(e->a)+")"; break;
      case O_FEQ: pred("(fp.eq "+F(e->a)+" "+F(e->b)+")"); break; case O_FLT: pred("(fp.lt "+F(e->a)+" "+F(e->b)+")"); break; case O_FLE: pred("(fp.leq "+F(e->a)+" "+F(e->b)+")"); break; case O_FNAN: pred("(fp.isNaN "+F(e->a)+")"); break;
      case O_FPTOUI_SAT: case O_FPTOSI_SAT: { bool sg=e->op==O_FPTOSI_SAT; std::string x=F(e->a); const char* s=fs(e->a->w); std::string W=std::to_string(w);
          // saturating: NaN -> 0, below -> min, above -> max
          u128 mx=sg?maskw(w)>>1:maskw(w), mn=sg?(maskw(w)>>1)+1:0; double lim=sg? ldexp2(w-1):ldexp2(w);
          std::string L="((_ to_fp "+std::string(s)+") "+C(64,d2u(lim))+")"; std::string M=sg?"((_ to_fp "+std::string(s)+") "+C(64,d2u(-lim))+")":"((_ to_fp "+std::string(s)+") "+C(64,0)+")";
          d="(ite (fp.isNaN "+x+") "+C(w,0)+" (ite (fp.geq "+x+" "+L+") "+C(w,mx)+" (ite "+(sg?"(fp.lt ":"(fp.leq ")+x+" "+M+") "+C(w,mn)+" ((_ fp.to_"+(sg?"s":"u")+"bv "+W+") RTZ "+x+"))))"; break; }
      default: { // float valued: introduce the bit pattern by its defining equation
        std::string f=F(e); r="v"+std::to_string(n++); o<<"(declare-const "<<r<<" (_ BitVec "<<w<<"))\n(assert (= ((_ to_fp "<<fs(w)<<") "<<r<<") "<<f<<"))\n"; 
        o<<"(assert (=> (fp.isNaN "<<f<<") (= "<<r<<" "<<C(w,w==64?(u128)0x7ff8000000000000ULL:(u128)0x7fc00000)<<")))\n"; bv[e]=r; return r; }
    }
    r="b"+std::to_string(n++); o<<"(define-fun "<<r<<" () (_ BitVec "<<w<<") "<<d<<")\n"; bv[e]=r; return r; }
  static double ldexp2(int k){ double d=1; while(k-->0) d*=2; return d; }
};
static std::string runcmd(std::vector<std::string> args, const std::string& in, double tmo){
  int pi[2],po[2]; if(pipe(pi)||pipe(po)) return ""; pid_t p=fork();
  if(!p){ dup2(pi[0],0); dup2(po[1],1); int dn=open("/dev/null",O_WRONLY); dup2(dn,2); close(pi[0]);close(pi[1]);close(po[0]);close(po[1]); std::vector<char*> a; for(auto&s:args) a.push_back((char*)s.c_str()); a.push_back(0); execvp(a[0],a.data()); _exit(127); }
  close(pi[0]); close(po[1]); signal(SIGPIPE,SIG_IGN);
  size_t off=0; std::string out; double end=nowsec()+tmo; fcntl(pi[1],F_SETFL,O_NONBLOCK); bool wopen=true;
  while(true){ struct pollfd f[2]={{po[0],POLLIN,0},{wopen?pi[1]:-1,POLLOUT,0}}; double left=end-nowsec(); if(left<=0){ kill(p,SIGKILL); break; }
    int r=poll(f,2,(int)(left*1000)+1); if(r<0&&errno==EINTR) continue; 
    if(wopen&&(f[1].revents&(POLLOUT|POLLERR))){ ssize_t n=write(pi[1],in.data()+off,in.size()-off); if(n>0) off+=n; if(off>=in.size()||n<0&&errno!=EAGAIN){ close(pi[1]); wopen=false; } }
    if(f[0].revents&(POLLIN|POLLHUP)){ char b[8192]; ssize_t n=read(po[0],b,sizeof b); if(n<=0) break; out.append(b,n); } }
  if(wopen) close(pi[1]); close(po[0]); int st; waitpid(p,&st,0); return out; }
// never -0
static bool posz(Expr* e){ return e->op==O_UITOFP||(isC(e)&&e->k!=((u128)1<<(e->w-1))); }
static Res fpsolve(const std::vector<Expr*>& cs, std::vector<u128>& model){
  double t0=nowsec(); sst.fpq++;
  Smt s; std::string as; for(Expr* e:cs) as+="(assert "+s.b(e)+")\n";
  std::string q="(set-logic QF_BVFP)\n(set-option :produce-models true)\n"+s.o.str()+as+"(check-sat)\n";
  if(getenv("VS_DUMPFP")){ static int k=0; FILE*f=fopen(("/tmp/fpq_"+std::to_string(getpid())+"_"+std::to_string(k++)+".smt2").c_str(),"w"); fputs(q.c_str(),f); fclose(f); }
  std::string gv="(get-value ("; std::vector<u32> sy(s.syms.begin(),s.syms.end()); for(u32 i:sy) gv+="s"+std::to_string(i)+" "; gv+="))\n"; if(!sy.empty()) q+=gv;
  std::string out=runcmd({"cvc5","--fp-exp","--lang=smt2","--produce-models","--tlimit="+std::to_string((int)(g_qtimeout*3000))},q,g_qtimeout*3+2);
  Res r=R_UNKNOWN; if(out.compare(0,5,"unsat")==0) r=R_UNSAT; else if(out.compare(0,3,"sat")==0){ r=R_SAT;
    for(u32 i:sy){ std::string key="(s"+std::to_string(i)+" #b"; size_t p=out.find(key); if(p==std::string::npos){ r=R_UNKNOWN; break; } p+=key.size(); u128 v=0; while(out[p]=='0'||out[p]=='1') v=v*2+(out[p++]-'0'); if(model.size()<=i) model.resize(i+1,0); model[i]=v; } }
  double dt=nowsec()-t0; sst.fptime+=dt; sst.time+=dt; if(dt>sst.maxq) sst.maxq=dt; return r;
}
// ---------- wide products: opaque values constrained by lemmas; candidate models by local search
static void collectMul(Expr* e, std::set<Expr*>& seen, std::vector<Expr*>& out){ if(!e||!seen.insert(e).second) return; collectMul(e->a,seen,out); collectMul(e->b,seen,out); collectMul(e->c,seen,out); if(wideMul(e)) out.push_back(e); }
static void mulLemmas(const std::vector<Expr*>& ms, std::vector<Expr*>& L){
  std::set<std::pair<Expr*,Expr*>> ps; for(Expr* e:ms) ps.insert({e->a,e->b});
  struct P { Expr*a,*b,*m,*o; }; std::vector<P> v;
  auto imp=[&](Expr* x,Expr* y){ Expr* r=mkOr(mkNot(x),y); if(!isC(r)) L.push_back(r); };
  for(auto& q:ps){ Expr*a=q.first,*b=q.second; unsigned w=a->w; Expr* m=mk(O_MUL,w,a,b),*o=mk(O_UMULO,1,a,b); v.push_back({a,b,m,o});
    Expr* z=mkC(w,0),*one=mkC(w,1); Expr* za=mkEq(a,z),*zb=mkEq(b,z);
    imp(za,mkAnd(mkNot(o),mkEq(m,z))); imp(zb,mkAnd(mkNot(o),mkEq(m,z)));
    imp(mkEq(a,one),mkAnd(mkNot(o),mkEq(m,b))); imp(mkEq(b,one),mkAnd(mkNot(o),mkEq(m,a)));
    if(a==b){ u128 h=(u128)1<<(w/2); Expr* H=mkC(w,h); Expr* as=mk(O_ULT,1,a,H),*bs=mk(O_ULT,1,b,H); imp(mkAnd(as,bs),mkAnd(mkNot(o),mk(O_ULE,1,m,mkC(w,(h-1)*(h-1))))); imp(mkAnd(mkNot(as),mkNot(bs)),o); }
    imp(mkAnd(mkNot(o),mkNot(zb)),mk(O_ULE,1,a,m)); imp(mkAnd(mkNot(o),mkNot(za)),mk(O_ULE,1,b,m)); }
  auto mono=[&](const P& p,const P& q,Expr* x,Expr* y){ Expr* le=mk(O_ULE,1,x,y); imp(mkAnd(le,p.o),q.o); imp(mkAnd(le,mkNot(q.o)),mk(O_ULE,1,p.m,q.m)); };
  for(size_t i=0;i<v.size()&&v.size()<14;i++) for(size_t j=0;j<v.size();j++) if(i!=j){ if(v[i].a->w!=v[j].a->w) continue; if(v[i].a==v[j].a) mono(v[i],v[j],v[i].b,v[j].b); if(v[i].b==v[j].b) mono(v[i],v[j],v[i].a,v[j].a); if(v[i].a==v[j].b) mono(v[i],v[j],v[i].b,v[j].a); if(v[i].b==v[j].a) mono(v[i],v[j],v[i].a,v[j].b); }
  for(size_t i=0;i<v.size()&&v.size()<30;i++) for(size_t j=0;j<i;j++) if(v[i].a->w==v[j].a->w){ auto eqp=[&](Expr*c,Expr*d){ Expr* h=mkAnd(mkEq(v[i].a,c),mkEq(v[i].b,d)); imp(h,mkAnd(mkEq(v[i].m,v[j].m),mkEq(v[i].o,v[j].o))); }; eqp(v[j].a,v[j].b); if(v[j].a!=v[j].b) eqp(v[j].b,v[j].a); }
}
static u64 lrng=88172645463325252ull; static u64 rnd(){ lrng^=lrng<<13; lrng^=lrng>>7; lrng^=lrng<<17; return lrng; }
static bool guessModel(const std::vector<Expr*>& cs, const std::vector<Expr*>& syms, std::vector<u128>& m, int tries){
  for(Expr* e:syms) if(m.size()<=e->k) m.resize(e->k+1,0);
  auto score=[&](){ newEvalEpoch(); int n=0; for(Expr* e:cs) if(evalM(e,m)) n++; return n; };
  auto cand=[&](Expr* e)->u128 { u128 v; switch(rnd()%9){ case 0: v=e->lo; break; case 1: v=e->hi; break; case 2: v=1; break; case 3: v=rnd()%8; break; case 4: v=(u128)1<<(rnd()%e->w); break; case 5: v=((u128)1<<(rnd()%e->w))-1; break; case 6: v=e->hi-(rnd()%4); break; case 7: v=((u128)rnd()<<64|rnd())&maskw(1+rnd()%e->w); break; default: v=(maskw(e->w)>>1)+rnd()%2; } if(v<e->lo||v>e->hi){ u128 r=e->hi-e->lo+1; v=r?e->lo+v%r:v; } return v; };
  int best=score(); if(best==(int)cs.size()) return true; std::vector<u128> keep=m; int since=0;
  for(int t=0;t<tries;t++){ m=keep; int k=1+rnd()%3; if(since>150){ k=syms.size(); since=0; best=-1; } for(int i=0;i<k;i++){ Expr* e=syms[rnd()%syms.size()]; m[e->k]=cand(e); } int sc=score(); if(sc==(int)cs.size()) return true; if(sc>=best){ if(sc>best) since=0; best=sc; keep=m; } since++; }
  return false;
}
struct CE { Res r; std::vector<std::pair<u32,u128>> m; };
static std::map<std::vector<u32>,CE> qcache;
static void ctxReset(){ if(ctx){ Z3_del_context(ctx); ctx=nullptr; } trc.clear(); trbc.clear(); trcA.clear(); trbcA.clear(); }
void solverAfterFork(){}
static u128 bvval(Z3_ast v,unsigned w){ u128 r=0; Z3_string s=Z3_get_numeral_binary_string(ctx,v); for(const char*p=s;*p;p++) r=r*2+(*p-'0'); (void)w; return r; }
// linear form over the integers of an expression that does not wrap
struct Lin { std::map<Expr*,i128> t; i128 c=0; };
static bool lin(Expr* e,i128 f,Lin& out,int depth=0){
  const i128 B=(i128)1<<100; if(f>B||f<-B) return false;
  if(isC(e)){ if(e->k>(u128)B) return false; i128 x=(i128)e->k; if(x&&(f>B/x||f<-B/x)) return false; out.c+=f*x; return true; }
  if(depth<30){ if(e->op==O_ZEXT) return lin(e->a,f,out,depth+1);
    u128 m=maskw(e->w); if(e->op==O_ADD){ Expr*a=e->a,*b=e->b; if(isC(a)) std::swap(a,b); if(isC(b)&&b->k>m/2){ u128 neg=(m-b->k)+1; if(a->lo>=neg&&neg<=(u128)B){ Expr* k=mkC(128,neg); return lin(a,f,out,depth+1)&&lin(k,-f,out,depth+1); } } else if(a->hi<=m-b->hi) return lin(a,f,out,depth+1)&&lin(b,f,out,depth+1); }
    if(e->op==O_SUB&&e->a->lo>=e->b->hi) return lin(e->a,f,out,depth+1)&&lin(e->b,-f,out,depth+1);
    if(e->op==O_MUL){ Expr*a=e->a,*b=e->b; if(isC(a)) std::swap(a,b); if(isC(b)&&b->k&&a->hi<=m/b->k&&b->k<((u128)1<<60)) return lin(a,f*(i128)b->k,out,depth+1); }
    if(e->op==O_SHL&&isC(e->b)&&e->b->k<60&&e->a->hi<=(m>>(unsigned)e->b->k)) return lin(e->a,f*((i128)1<<(unsigned)e->b->k),out,depth+1); 
    if(e->op==O_CONCAT&&isC(e->b)&&e->b->k==0&&e->b->w<60) return lin(e->a,f*((i128)1<<e->b->w),out,depth+1); }
  out.t[e]+=f; return true; }
// x - y as two sums without common parts: l - r
static void linDiff(Expr* x,Expr* y,Expr*& l,Expr*& r){ l=x; r=y; Lin d; if(!lin(x,1,d)||!lin(y,-1,d)) return; Expr*a=mkC(128,d.c>0?(u128)d.c:0),*b=mkC(128,d.c<0?(u128)-d.c:0); u128 sa=a->hi,sb=b->hi;
  for(auto&p:d.t){ if(!p.second) continue; bool pos=p.second>0; u128 c=pos?(u128)p.second:(u128)-p.second; Expr* e=mkZext(p.first,128); if(e->hi&&c>((u128)1<<126)/e->hi) return; u128& sum=pos?sa:sb; sum+=c*e->hi; if(sum>>127) return; Expr* t=mk(O_MUL,128,e,mkC(128,c)); if(pos) a=mk(O_ADD,128,a,t); else b=mk(O_ADD,128,b,t); }
  l=a; r=b; }
// the integer a floating-point expression equals exactly, if it is one by construction
static Expr* fpInt(Expr* e){ const u128 L=(u128)1<<53; if(e->w!=64) return nullptr; if(e->op==O_UITOFP) return e->a->hi<=L?mkZext(e->a,128):nullptr;
  if(isC(e)){ double d=u2d((u64)e->k); return d>=0&&d<=9007199254740992.0&&d==floor(d)?mkC(128,(u128)d):nullptr; }
  if(e->op==O_FMUL){ Expr*x=fpInt(e->a),*y=fpInt(e->b); if(!x||!y||(y->hi&&x->hi>L/y->hi)) return nullptr; return mk(O_MUL,128,x,y); }
  if(e->op==O_FADD){ Expr*x=fpInt(e->a),*y=fpInt(e->b); if(!x||!y||x->hi+y->hi>L) return nullptr; return mk(O_ADD,128,x,y); }
  return nullptr; }
// facts about IEEE operations whose results are opaque: ranges, signs, congruence, monotonicity of rounding
template<class F> static void fpLemmas(const std::vector<Expr*>& fps, F add){
  auto imp=[&](Z3_ast x,Z3_ast y){ add(zor(znot(x),y)); };
  auto isF=[](Expr* e){ return e->op==O_FADD||e->op==O_FSUB||e->op==O_FMUL||e->op==O_FDIV||e->op==O_UITOFP||e->op==O_SITOFP||e->op==O_FROUND; };
  std::vector<Expr*> v; for(Expr* e:fps) if(isF(e)||e->op==O_FPTOSI_SAT||e->op==O_FPTOUI_SAT) v.push_back(e);
  auto D=[&](double d){ return bvc(64,d2u(d)); };
  auto nonneg=[&](Expr* e){ FI f=fint(e); return f.lo>=0; };
  for(Expr* e:v){ unsigned w=e->w; Z3_ast r=trw(e,w);
    if(isF(e)&&w==64){ FI f=fint(e); Z3_ast in=zand(fpCmp(D(f.lo),r,64,1),fpCmp(r,D(f.hi),64,1)); add(f.nan?zor(fpNan(r,64),in):in); add(zor(znot(fpNan(r,64)),Z3_mk_eq(ctx,r,bvc(64,0x7ff8000000000000ULL)))); }
    if(e->op==O_UITOFP) add(Z3_mk_bvsle(ctx,bvc(w,0),r));
    if(e->op==O_UITOFP&&w==64){ unsigned m=e->a->w; auto pw=[&](unsigned k){ if(k<m&&k<53&&bitlen(e->a->hi)>k) for(u128 q:{((u128)1<<k),((u128)1<<k)-1}) { Z3_ast x=trw(e->a,m); imp(Z3_mk_bvule(ctx,x,bvc(m,q)),fpCmp(r,D((double)q),64,1)); imp(Z3_mk_bvule(ctx,bvc(m,q),x),fpCmp(D((double)q),r,64,1)); } }; pw(0); pw(46); }
    if(e->op==O_FADD||e->op==O_FSUB||e->op==O_FMUL||e->op==O_FDIV){ if(w!=64) continue; Z3_ast a=trw(e->a,w),b=trw(e->b,w); Z3_ast na=zor(fpNan(a,w),fpNan(b,w)); Z3_ast ia=fpIsInf(a,w),ib=fpIsInf(b,w),za=fpZero(a,w),zb=fpZero(b,w); Z3_ast bad;
      Z3_ast sameSign=Z3_mk_eq(ctx,Z3_mk_extract(ctx,w-1,w-1,a),Z3_mk_extract(ctx,w-1,w-1,b));
      if(e->op==O_FADD) bad=zand(zand(ia,ib),znot(sameSign)); else if(e->op==O_FSUB) bad=zand(zand(ia,ib),sameSign); else if(e->op==O_FMUL) bad=zor(zand(ia,zb),zand(za,ib)); else bad=zor(zand(ia,ib),zand(za,zb));
      add(Z3_mk_iff(ctx,fpNan(r,w),zor(na,bad)));
      Z3_ast ok=znot(fpNan(r,w));
      if(e->op==O_FSUB||e->op==O_FADD){ Z3_ast b0=b; Z3_ast b=e->op==O_FSUB?b0:Z3_mk_bvxor(ctx,b0,bvc(w,(u128)1<<(w-1))); imp(zand(ok,fpCmp(a,b,w,0)),fpCmp(r,bvc(w,0),w,0)); imp(zand(ok,fpCmp(b,a,w,0)),fpCmp(bvc(w,0),r,w,0)); imp(zand(ok,fpCmp(a,b,w,2)),fpZero(r,w)); }
      if((e->op==O_FMUL||(e->op==O_FDIV&&posz(e->b)))&&nonneg(e->a)&&nonneg(e->b)) { imp(ok,fpCmp(bvc(w,0),r,w,1)); imp(za,zor(fpNan(r,w),fpZero(r,w))); }
      if(e->op==O_FDIV&&posz(e->b)&&nonneg(e->a)&&nonneg(e->b)){ imp(zand(ok,fpCmp(a,b,w,1)),fpCmp(r,D(1),w,1)); imp(zand(ok,fpCmp(b,a,w,1)),fpCmp(D(1),r,w,1)); } 
      if(e->op==O_FMUL){ for(int k=0;k<2;k++){ Expr* c=k?e->a:e->b; Z3_ast x=k?b:a; if(!isC(c)) continue; double cv=u2d((u64)c->k); if(!(cv>=1)||std::isinf(cv)) continue; imp(zand(ok,fpCmp(bvc(w,0),x,w,1)),fpCmp(x,r,w,1)); imp(zand(ok,fpCmp(x,bvc(w,0),w,1)),fpCmp(r,x,w,1)); imp(fpIsInf(x,w),Z3_mk_eq(ctx,r,x)); imp(fpZero(x,w),fpZero(r,w)); } }
      if(e->op==O_FADD||e->op==O_FSUB){ if(isC(e->b)&&!std::isinf(u2d((u64)e->b->k))) imp(ia,Z3_mk_eq(ctx,r,a)); }
    }
    if(e->op==O_FPTOSI_SAT&&e->a->w==64){ Z3_ast a=trw(e->a,64); imp(zor(fpNan(a,64),fpZero(a,64)),Z3_mk_eq(ctx,r,bvc(w,0))); Z3_ast z=bvc(w,0); imp(fpCmp(D(0),a,64,1),Z3_mk_bvsle(ctx,z,r)); imp(fpCmp(a,D(0),64,1),Z3_mk_bvsle(ctx,r,z)); imp(fpCmp(D(1),a,64,1),Z3_mk_bvslt(ctx,z,r)); imp(fpCmp(a,D(-1),64,1),Z3_mk_bvslt(ctx,r,z)); imp(Z3_mk_eq(ctx,a,D(INFINITY)),Z3_mk_eq(ctx,r,bvc(w,maskw(w)>>1))); imp(Z3_mk_eq(ctx,a,D(-INFINITY)),Z3_mk_eq(ctx,r,bvc(w,(maskw(w)>>1)+1))); }
  }
  // quotients of exact integers against an integer k: rounding does not cross k while the divisor is small enough
  { std::set<u128> ks; std::set<u128> cs; auto addc=[&](Expr* c){ if(c&&isC(c)&&c->w==64){ double d=fabs(u2d((u64)c->k)); if(d>=1&&d<=1e6&&d==floor(d)) cs.insert((u128)d); } };
    for(Expr* e:fps){ if(e->op==O_FADD||e->op==O_FSUB||e->op==O_FLT||e->op==O_FLE||e->op==O_FEQ){ addc(e->a); addc(e->b); } } for(u128 x:cs){ ks.insert(x); for(u128 y:cs){ ks.insert(x+y); if(y>x) ks.insert(y-x); } }
    if(cs.size()<=6) for(Expr* e:v) if(e->op==O_FADD&&e->w==64&&isC(e->b)){ double c=u2d((u64)e->b->k); Z3_ast r=trw(e,64),x=trw(e->a,64); std::set<double> done;
      for(u128 t0:cs) for(int sg=-1;sg<=1;sg+=2){ double y=sg*(double)t0-c; for(double q:{y,nextafter(y,-INFINITY),nextafter(y,INFINITY)}) if(done.insert(q).second){ double f=q+c; imp(fpCmp(x,D(q),64,1),fpCmp(r,D(f),64,1)); imp(fpCmp(D(q),x,64,1),fpCmp(D(f),r,64,1)); } } }
    if(ks.size()<=40) for(Expr* e:v) if(e->op==O_FDIV&&e->w==64){ Expr*A=fpInt(e->a),*B=fpInt(e->b); if(!A||!B) continue; Z3_ast r=trw(e,64),pos=znot(Z3_mk_eq(ctx,trw(B,128),bvc(128,0)));
      for(u128 k:ks){ int m=bitlen(k)-1; if(B->hi>=((u128)1<<(53-m))) continue; Expr*le,*re; linDiff(A,mk(O_MUL,128,B,mkC(128,k)),le,re); Z3_ast l=trw(le,128),q=trw(re,128),f=D((double)k);
        imp(zand(pos,Z3_mk_bvult(ctx,l,q)),fpCmp(r,f,64,0)); imp(zand(pos,Z3_mk_bvult(ctx,q,l)),fpCmp(f,r,64,0)); imp(zand(pos,Z3_mk_eq(ctx,l,q)),Z3_mk_eq(ctx,r,f)); } } }
  if(v.size()>60) return;
  for(size_t i=0;i<v.size();i++) for(size_t j=i+1;j<v.size();j++){ Expr*p=v[i],*q=v[j]; if(p->op!=q->op||p->w!=q->w||p->k!=q->k) continue; if(p->a->w!=q->a->w&&p->op!=O_UITOFP) continue;
    Z3_ast rp=trw(p,p->w),rq=trw(q,q->w); unsigned w=p->w;
    switch(p->op){
      case O_UITOFP: { unsigned m=std::max(p->a->w,q->a->w); Z3_ast x=trw(p->a,m),y=trw(q->a,m); imp(Z3_mk_bvule(ctx,x,y),Z3_mk_bvsle(ctx,rp,rq)); imp(Z3_mk_bvule(ctx,y,x),Z3_mk_bvsle(ctx,rq,rp)); break; }
      case O_SITOFP: { Z3_ast x=trw(p->a,p->a->w),y=trw(q->a,q->a->w); imp(Z3_mk_bvsle(ctx,x,y),fpCmp(rp,rq,w,1)); imp(Z3_mk_bvsle(ctx,y,x),fpCmp(rq,rp,w,1)); break; }
      case O_FPTOSI_SAT: { unsigned f=p->a->w; Z3_ast x=trw(p->a,f),y=trw(q->a,f); imp(Z3_mk_eq(ctx,x,y),Z3_mk_eq(ctx,rp,rq)); imp(fpCmp(x,y,f,1),Z3_mk_bvsle(ctx,rp,rq)); imp(fpCmp(y,x,f,1),Z3_mk_bvsle(ctx,rq,rp)); break; }
      case O_FPTOUI_SAT: { unsigned f=p->a->w; Z3_ast x=trw(p->a,f),y=trw(q->a,f); imp(Z3_mk_eq(ctx,x,y),Z3_mk_eq(ctx,rp,rq)); imp(fpCmp(x,y,f,1),Z3_mk_bvule(ctx,rp,rq)); imp(fpCmp(y,x,f,1),Z3_mk_bvule(ctx,rq,rp)); break; }
      case O_FROUND: { unsigned f=p->a->w; Z3_ast x=trw(p->a,f),y=trw(q->a,f); imp(Z3_mk_eq(ctx,x,y),Z3_mk_eq(ctx,rp,rq)); imp(fpCmp(x,y,f,1),fpCmp(rp,rq,w,1)); imp(fpCmp(y,x,f,1),fpCmp(rq,rp,w,1)); break; }
      default: { Expr *pa=p->a,*pb=p->b,*qa=q->a,*qb=q->b; if((p->op==O_FMUL||p->op==O_FADD)&&(isC(pa)!=isC(qa))) std::swap(qa,qb);
        Z3_ast a=trw(pa,w),b=trw(pb,w),c=trw(qa,w),d=trw(qb,w); imp(zand(Z3_mk_eq(ctx,a,c),Z3_mk_eq(ctx,b,d)),Z3_mk_eq(ctx,rp,rq)); if(p->op==O_FMUL||p->op==O_FADD) imp(zand(Z3_mk_eq(ctx,a,d),Z3_mk_eq(ctx,b,c)),Z3_mk_eq(ctx,rp,rq));
        Z3_ast ok=zand(znot(fpNan(rp,w)),znot(fpNan(rq,w)));
        auto mono=[&](Z3_ast h1,Z3_ast h2,Z3_ast x,Z3_ast y){ imp(zand(ok,zand(h1,h2)),fpCmp(x,y,w,1)); };
        auto le=[&](Z3_ast x,Z3_ast y){ return fpCmp(x,y,w,1); };
        if(p->op==O_FADD){ mono(le(a,c),le(b,d),rp,rq); mono(le(c,a),le(d,b),rq,rp); }
        if(p->op==O_FSUB){ mono(le(a,c),le(d,b),rp,rq); mono(le(c,a),le(b,d),rq,rp); }
        bool nn=nonneg(pb)&&nonneg(qb)&&(isC(pb)&&pb==qb&&u2d((u64)pb->k)>0 || (nonneg(pa)&&nonneg(qa))); bool nn2=p->op==O_FMUL&&isC(pa)&&pa==qa&&w==64&&u2d((u64)pa->k)>0;
        if(w==64&&p->op==O_FMUL&&(nn||nn2)){ mono(le(a,c),le(b,d),rp,rq); mono(le(c,a),le(d,b),rq,rp); }
        if(w==64&&p->op==O_FDIV&&nn&&!std::signbit(fint(pb).lo)&&!std::signbit(fint(qb).lo)&&posz(pb)&&posz(qb)){ mono(le(a,c),le(d,b),rp,rq); mono(le(c,a),le(b,d),rq,rp); } }
    } }
}
static int fpRounds=24;
static u128 zval(Z3_model m,Expr* e){ Z3_ast v; if(!Z3_model_eval(ctx,m,trw(e,e->w),true,&v)) return 0; return bvval(v,e->w); }
// if the model gives an operation another value than IEEE does: the value at this point, and what monotonicity implies around it
static bool fpPoint(Expr* e,Z3_model m,std::vector<Z3_ast>& out){
  if(e->w==1||!e->a) return false; unsigned w=e->w,aw=e->a->w; u128 va=zval(m,e->a),vb=e->b?zval(m,e->b):0,vr=zval(m,e); u128 t=foldop(e->op,w,aw,va,vb,0,e->k); if(t==vr) return false;
  Z3_ast a=trw(e->a,aw),ca=bvc(aw,va),r=trw(e,w),ct=bvc(w,t); Z3_ast b=e->b?trw(e->b,e->b->w):nullptr,cb=b?bvc(e->b->w,vb):nullptr;
  auto imp=[&](Z3_ast x,Z3_ast y){ out.push_back(zor(znot(x),y)); };
  Z3_ast at=Z3_mk_eq(ctx,a,ca); if(b) at=zand(at,Z3_mk_eq(ctx,b,cb)); imp(at,Z3_mk_eq(ctx,r,ct));
  auto le=[&](Z3_ast x,Z3_ast y){ return fpCmp(x,y,w,1); }; bool tn=(t&(maskw(w)>>1))>fpInf(w);
  switch(e->op){
    case O_UITOFP: imp(Z3_mk_bvule(ctx,a,ca),Z3_mk_bvsle(ctx,r,ct)); imp(Z3_mk_bvule(ctx,ca,a),Z3_mk_bvsle(ctx,ct,r)); break;
    case O_SITOFP: imp(Z3_mk_bvsle(ctx,a,ca),le(r,ct)); imp(Z3_mk_bvsle(ctx,ca,a),le(ct,r)); break;
    case O_FPTOSI_SAT: imp(fpCmp(a,ca,aw,1),Z3_mk_bvsle(ctx,r,ct)); imp(fpCmp(ca,a,aw,1),Z3_mk_bvsle(ctx,ct,r)); break;
    case O_FPTOUI_SAT: imp(fpCmp(a,ca,aw,1),Z3_mk_bvule(ctx,r,ct)); imp(fpCmp(ca,a,aw,1),Z3_mk_bvule(ctx,ct,r)); break;
    case O_FROUND: if(!tn){ imp(fpCmp(a,ca,aw,1),le(r,ct)); imp(fpCmp(ca,a,aw,1),le(ct,r)); } break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: { if(tn||w!=64) break; Z3_ast ok=znot(fpNan(r,w)); double fa=fint(e->a).lo,fb=fint(e->b).lo;
      auto mono=[&](bool up,bool vup){ Z3_ast h1=up?le(a,ca):le(ca,a),h2=vup?le(b,cb):le(cb,b); imp(zand(ok,zand(h1,h2)),up?le(r,ct):le(ct,r)); };
      if(e->op==O_FADD){ mono(true,true); mono(false,false); } else if(e->op==O_FSUB){ mono(true,false); mono(false,true); }
      else if(e->op==O_FMUL){ if((fa>=0&&fb>=0)||(isC(e->b)&&fb>0)||(isC(e->a)&&fa>0)){ mono(true,true); mono(false,false); } }
      else if(posz(e->b)&&fb>=0&&(fa>=0||(isC(e->b)&&fb>0))){ mono(true,false); mono(false,true); } break; }
    default: break; }
  return true; }
static Res z3solve(const std::vector<Expr*>& cs, std::vector<Expr*>& syms, std::vector<u128>& model, bool fp){
  init(); if(trc.size()+trbc.size()+trcA.size()+trbcA.size()>400000) { ctxReset(); init(); }
  double t0=nowsec(); sst.z3++;
  Z3_solver s=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,s);
  Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),(unsigned)(g_qtimeout*1000)); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p);
  for(Expr* e:cs) Z3_solver_assert(ctx,s,trb(e));
  if(absMul){ std::set<Expr*> seen; std::vector<Expr*> ms,L; for(Expr* e:cs) collectMul(e,seen,ms); mulLemmas(ms,L); for(Expr* e:L) Z3_solver_assert(ctx,s,trb(e)); }
  for(Expr* e:syms){ if(e->lo>0&&e->w>1) Z3_solver_assert(ctx,s,Z3_mk_bvule(ctx,bvc(nb(e),e->lo),tr(e))); if(e->w>1&&e->hi!=maskw(nb(e))) Z3_solver_assert(ctx,s,Z3_mk_bvule(ctx,tr(e),bvc(nb(e),e->hi))); }
  // IEEE operations are opaque; facts about them are added where a candidate model violates them
  std::vector<Expr*> fps; std::vector<Z3_ast> pool; bool havePool=false; if(fp){ std::set<Expr*> seen; for(Expr* e:cs) collectFp(e,seen,fps); }
  Res r=R_UNKNOWN; double tend=t0+g_qtimeout*1.5;
  for(int round=0;;round++){
    Z3_lbool lb=Z3_solver_check(ctx,s); r=lb==Z3_L_TRUE?R_SAT:lb==Z3_L_FALSE?R_UNSAT:R_UNKNOWN; if(r!=R_SAT) break;
    Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
    for(Expr* e:syms){ Z3_ast v; u32 i=(u32)e->k; if(model.size()<=i) model.resize(i+1,0); Z3_ast q=e->w==1?Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,("s"+std::to_string(i)).c_str()),Z3_mk_bv_sort(ctx,1)):tr(e); if(Z3_model_eval(ctx,m,q,true,&v)) model[i]=bvval(v,e->w); }
    bool more=false;
    if(!fps.empty()){ newEvalEpoch(); bool ok=true; for(Expr* e:cs) if(!evalM(e,model)){ ok=false; break; }
      if(!ok&&round<fpRounds&&nowsec()<tend){ std::vector<Z3_ast> addl;
        if(!havePool){ havePool=true; fpLemmas(fps,[&](Z3_ast l){ Z3_inc_ref(ctx,l); pool.push_back(l); }); }
        int na=0; for(Z3_ast l:pool){ Z3_ast v; if(na>60) break; if(Z3_model_eval(ctx,m,l,true,&v)&&Z3_get_bool_value(ctx,v)==Z3_L_FALSE){ addl.push_back(l); na++; } }
        int np=0; for(Expr* e:fps) if(np<8&&fpPoint(e,m,addl)) np++;
        for(Z3_ast l:addl) Z3_solver_assert(ctx,s,l); more=!addl.empty(); } }
    Z3_model_dec_ref(ctx,m); if(!more) break; }
  for(Z3_ast l:pool) Z3_dec_ref(ctx,l);
  Z3_solver_dec_ref(ctx,s); double dt=nowsec()-t0; sst.time+=dt; if(dt>sst.maxq) sst.maxq=dt;
  if(getenv("VS_SLOW")&&dt>atof(getenv("VS_SLOW"))){ fprintf(stderr,"[slow query %.2fs res=%d fp=%d]\n",dt,(int)r,(int)fp); for(Expr*e:cs) fprintf(stderr,"   %s\n",toStr(e,7).c_str()); }
  return r;
}
static std::unordered_map<u32,Expr*> symExpr;
Expr* symById(u32 i){ auto it=symExpr.find(i); if(it!=symExpr.end()) return it->second; auto& s=g_syms[i]; Expr* e=mkSym(s.name,s.w,s.lo,s.hi); symExpr[i]=e; return e; }
static void splitAnd_(Expr* e, std::vector<Expr*>& out,std::set<Expr*>& seen){ bool conj=e->op==O_AND&&e->w==1,nor=e->op==O_XOR&&e->w==1&&isC(e->b)&&e->b->k&&e->a->op==O_OR;
  if((conj||nor)&&!seen.insert(e).second) return; if(conj){ splitAnd_(e->a,out,seen); splitAnd_(e->b,out,seen);} else if(nor){ splitAnd_(mkNot(e->a->a),out,seen); splitAnd_(mkNot(e->a->b),out,seen); } else out.push_back(e); }
static void splitAnd(Expr* e, std::vector<Expr*>& out){ std::set<Expr*> seen; splitAnd_(e,out,seen); }
static bool hasWide(const std::vector<Expr*>& cs){ std::set<Expr*> seen; std::vector<Expr*> ms; for(Expr* e:cs) collectMul(e,seen,ms); return !ms.empty(); }
// rewriting of a conjunction by its own literals
typedef std::unordered_map<Expr*,bool> Known2; typedef std::unordered_map<Expr*,Expr*> RMemo;
static Expr* rw(Expr* e,const Known2& kn,RMemo& memo,bool root);
static Expr* rwKids(Expr* e,const Known2& kn,RMemo& memo){ if(!e->a) return e; Expr*a=rw(e->a,kn,memo,false),*b=e->b?rw(e->b,kn,memo,false):nullptr,*c=e->c?rw(e->c,kn,memo,false):nullptr; if(a==e->a&&b==e->b&&c==e->c) return e;
  switch(e->op){ case O_ITE: return mkIte(a,b,c); case O_EXTRACT: return mkExtract(a,(unsigned)e->k,e->w); case O_CONCAT: return mkConcat(a,b); case O_ZEXT: return mkZext(a,e->w); case O_SEXT: return mkSext(a,e->w); case O_EQ: return mkEq(a,b); default: if(e->w==1&&e->op==O_AND) return mkAnd(a,b); if(e->w==1&&e->op==O_OR) return mkOr(a,b); if(e->w==1&&e->op==O_XOR&&isC(b)&&b->k) return mkNot(a); return mk(e->op,e->w,a,b,c,e->k); } }
static Expr* rw(Expr* e,const Known2& kn,RMemo& memo,bool root){ if(e->op==O_CONST||e->op==O_SYM) { if(e->w==1&&!root){ auto k=kn.find(e); if(k!=kn.end()) return mkC(1,k->second); } return e; } if(!root){ if(e->w==1){ auto k=kn.find(e); if(k!=kn.end()) return mkC(1,k->second); } auto it=memo.find(e); if(it!=memo.end()) return it->second; }
  Expr* r; if(root&&e->op==O_XOR&&e->w==1&&isC(e->b)&&e->b->k) r=mkNot(rw(e->a,kn,memo,true)); else r=rwKids(e,kn,memo); if(!root) memo[e]=r; return r; }
static bool simplifyConj(std::vector<Expr*>& cs){ // false: contradiction
  for(int round=0;round<6;round++){
    std::vector<Expr*> fl; for(Expr* e:cs) splitAnd(e,fl); std::sort(fl.begin(),fl.end(),[](Expr*a,Expr*b){return a->id<b->id;}); fl.erase(std::unique(fl.begin(),fl.end()),fl.end());
    Known2 kn; for(Expr* e:fl){ if(isC(e)){ if(!e->k) return false; continue; } auto it=kn.find(e); if(it!=kn.end()&&!it->second) return false; kn[e]=true; Expr* n=mkNot(e); it=kn.find(n); if(it!=kn.end()&&it->second) return false; kn[n]=false; }
    RMemo memo; std::vector<Expr*> out; for(Expr* e:fl) if(!isC(e)){ Expr* r=rw(e,kn,memo,true); if(isC(r)){ if(!r->k) return false; } else out.push_back(r); }
    bool same=out==cs; cs=out; if(same) break; }
  return true; }
// what a product at one point implies at the points around it
static void mulPoints(const std::vector<Expr*>& cs,const std::vector<u128>& m,std::vector<Expr*>& L){
  std::set<Expr*> seen; std::vector<Expr*> ms; for(Expr* e:cs) collectMul(e,seen,ms); std::set<std::pair<Expr*,Expr*>> ps; for(Expr* e:ms) ps.insert({e->a,e->b});
  newEvalEpoch(); auto imp=[&](Expr* x,Expr* y){ Expr* r=mkOr(mkNot(x),y); if(!isC(r)) L.push_back(r); };
  for(auto& q:ps){ Expr*a=q.first,*b=q.second; unsigned w=a->w; u128 M=maskw(w),va=evalM(a,m),vb=evalM(b,m); Expr* P=mk(O_MUL,w,a,b),*o=mk(O_UMULO,1,a,b); Expr*A=mkC(w,va),*B=mkC(w,vb);
    Expr *up=mkAnd(mk(O_ULE,1,A,a),mk(O_ULE,1,B,b)),*dn=mkAnd(mk(O_ULE,1,a,A),mk(O_ULE,1,b,B)); bool ov=va&&vb>M/va;
    imp(mkAnd(mkEq(a,A),mkEq(b,B)),mkEq(P,mkC(w,va*vb)));
    if(ov) { imp(up,o); if(va){ u128 y=M/va; imp(mkAnd(mk(O_ULE,1,A,a),mk(O_ULT,1,mkC(w,y),b)),o); } if(vb){ u128 x=M/vb; imp(mkAnd(mk(O_ULE,1,B,b),mk(O_ULT,1,mkC(w,x),a)),o); } }
    else { u128 v=va*vb; imp(dn,mkAnd(mkNot(o),mk(O_ULE,1,P,mkC(w,v)))); imp(mkAnd(up,mkNot(o)),mk(O_ULE,1,mkC(w,v),P));
      if(va){ u128 y=M/va; imp(mkAnd(mk(O_ULE,1,a,A),mk(O_ULE,1,b,mkC(w,y))),mkNot(o)); imp(mkAnd(mk(O_ULE,1,A,a),mk(O_ULT,1,mkC(w,y),b)),o); } if(vb){ u128 x=M/vb; imp(mkAnd(mk(O_ULE,1,b,B),mk(O_ULE,1,a,mkC(w,x))),mkNot(o)); } } }
}
static Res leafSolve(const std::vector<Expr*>& cs, std::vector<u128>& m, const std::vector<u128>& model){
  std::set<u32> S; for(Expr* e:cs) S.insert(e->syms->v.begin(),e->syms->v.end()); std::vector<Expr*> syms; for(u32 i:S) syms.push_back(symById(i)); if(syms.empty()) { for(Expr* e:cs) if(isC(e)&&!e->k) return R_UNSAT; return R_SAT; }
  Res r=R_UNKNOWN;
  if(hasWide(cs)){ if(guessModel(cs,syms,m,60)) return R_SAT;
    std::vector<u128> m2=model; absMul=true; trc.swap(trcA); trbc.swap(trbcA); double qt=g_qtimeout; g_qtimeout=std::min(qt,5.0); r=z3solve(cs,syms,m2,false); g_qtimeout=qt; trc.swap(trcA); trbc.swap(trbcA); absMul=false;
    if(r==R_UNSAT) return r; 
    std::vector<Expr*> L; double tend=nowsec()+5; for(int round=0;round<40&&r==R_SAT&&nowsec()<tend;round++){ m=m2; if(guessModel(cs,syms,m,round?60:1500)) return R_SAT;
      mulPoints(cs,m2,L); std::vector<Expr*> c2=cs; c2.insert(c2.end(),L.begin(),L.end()); std::vector<u128> m3=model; absMul=true; trc.swap(trcA); trbc.swap(trbcA); g_qtimeout=std::min(qt,2.0); r=z3solve(c2,syms,m3,false); g_qtimeout=qt; trc.swap(trcA); trbc.swap(trbcA); absMul=false;
      if(r==R_UNSAT) return r; if(r==R_SAT) m2=m3; }
    m=m2; r=guessModel(cs,syms,m,4000)?R_SAT:R_UNKNOWN; }
  if(r==R_UNKNOWN){ m=model; r=z3solve(cs,syms,m,false); }
  if(r==R_UNKNOWN&&getenv("VS_SLOW")){ fprintf(stderr,"[leaf undecided]\n"); for(Expr*e:cs) fprintf(stderr,"   %s\n",toStr(e,12).c_str()); }
  return r; }
// a width-1 condition of an if-then-else used by arithmetic, innermost first
static Expr* findIteCond(Expr* e, std::set<Expr*>& seen){ if(!e||!e->a||!seen.insert(e).second) return nullptr; for(Expr* k:{e->a,e->b,e->c}) if(k){ Expr* r=findIteCond(k,seen); if(r) return r; } if(e->op==O_ITE&&e->w>=32) return e->a; return nullptr; }
static Res hardSolve(std::vector<Expr*> cs, std::vector<u128>& m, const std::vector<u128>& model, int& budget, int depth){
  if(!simplifyConj(cs)) return R_UNSAT; if(cs.empty()) return R_SAT;
  if(--budget<0) return R_UNKNOWN;
  Expr* split=nullptr; size_t at=0; bool isOr=false;
  for(size_t i=0;i<cs.size()&&!split;i++){ Expr* e=cs[i]; if(e->w==1&&e->op==O_OR){ split=e->a; at=i; isOr=true; } else if(e->op==O_XOR&&isC(e->b)&&e->b->k&&e->a->op==O_AND){ split=mkNot(e->a->a); at=i; isOr=true; } }
  (void)at;(void)isOr;
  if(!split){ std::set<Expr*> seen; for(Expr* e:cs) if((split=findIteCond(e,seen))) break; }
  if(!split||depth>40) return leafSolve(cs,m,model);
  bool unk=false; for(int side=0;side<2;side++){ std::vector<Expr*> c2=cs; c2.push_back(side?mkNot(split):split); std::vector<u128> m2=model; Res r=hardSolve(c2,m2,model,budget,depth+1); if(r==R_SAT){ m=m2; return r; } if(r==R_UNKNOWN) unk=true; if(budget<0) return R_UNKNOWN; }
  return unk?R_UNKNOWN:R_UNSAT; }
bool g_lazyfp=false;
// exact decision over one or two symbols of at most eight bits
typedef std::vector<u64> Bits;
static std::unordered_map<Expr*,Bits> domcache;
static const Bits& domainOf(Expr* e){ auto it=domcache.find(e); if(it!=domcache.end()) return it->second;
  auto& sv=e->syms->v; size_t n=sv.size(); Bits r(n==1?4:1024,0); std::vector<u128> M(g_syms.size()); for(size_t i=0;i<M.size();i++) M[i]=g_syms[i].lo;
  auto& p=g_syms[sv[0]]; u64 lo2=n==2?(u64)g_syms[sv[1]].lo:0,hi2=n==2?(u64)g_syms[sv[1]].hi:0;
  for(u64 x=(u64)p.lo;x<=(u64)p.hi;x++){ M[sv[0]]=x; for(u64 y=lo2;y<=hi2;y++){ if(n==2) M[sv[1]]=y; newEvalEpoch(); if(evalM(e,M)){ u64 k=n==2?x*256+y:x; r[k>>6]|=1ull<<(k&63); } } }
  return domcache[e]=std::move(r); }
static bool smallSolve(const std::vector<Expr*>& cs,const std::set<u32>& S,std::vector<u128>& m,Res& res){
  if(S.empty()||S.size()>2) return false; for(u32 i:S) if(g_syms[i].w>8) return false;
  std::vector<u32> v(S.begin(),S.end()); bool two=v.size()==2;
  if(two){ size_t nb=0; for(Expr*e:cs) if(e->syms->v.size()==2&&!domcache.count(e)) nb++; if(nb>3) return false; }
  u64 A[4]={~0ull,~0ull,~0ull,~0ull},B[4]={~0ull,~0ull,~0ull,~0ull}; std::vector<const Bits*> ms;
  auto init=[&](u64* q,u32 i){ for(u64 x=0;x<256;x++) if(x<(u64)g_syms[i].lo||x>(u64)g_syms[i].hi) q[x>>6]&=~(1ull<<(x&63)); }; init(A,v[0]); if(two) init(B,v[1]);
  for(Expr*e:cs){ if(isC(e)){ if(!e->k){ res=R_UNSAT; return true; } continue; } const Bits& d=domainOf(e); if(e->syms->v.size()==2) ms.push_back(&d); else { u64* q=e->syms->v[0]==v[0]?A:B; for(int j=0;j<4;j++) q[j]&=d[j]; } }
  auto has=[](const u64* q,u64 x){ return q[x>>6]>>(x&63)&1; };
  auto put=[&](u32 i,u64 x){ while(m.size()<=i) m.push_back(g_syms[m.size()].lo); m[i]=x; };
  u64 cur=v[0]<m.size()?(u64)m[v[0]]:(u64)g_syms[v[0]].lo;
  if(!two){ if(cur<256&&has(A,cur)){ put(v[0],cur); res=R_SAT; return true; } for(u64 x=0;x<256;x++) if(has(A,x)){ put(v[0],x); res=R_SAT; return true; } res=R_UNSAT; return true; }
  u64 cur2=v[1]<m.size()?(u64)m[v[1]]:(u64)g_syms[v[1]].lo;
  for(u64 dx=0;dx<256;dx++){ u64 x=(cur+dx)&255; if(!has(A,x)) continue; u64 row[4]; bool any=false; for(int j=0;j<4;j++){ row[j]=B[j]; for(auto*d:ms) row[j]&=(*d)[x*4+j]; any|=row[j]!=0; } if(!any) continue;
    put(v[0],x); if(cur2<256&&has(row,cur2)) put(v[1],cur2); else for(u64 y=0;y<256;y++) if(has(row,y)){ put(v[1],y); break; } res=R_SAT; return true; }
  res=R_UNSAT; return true; }
Res solve(const std::vector<Expr*>& pc, Expr* c, std::vector<u128>& model){
  sst.queries++;
  if(isC(c)) return c->k?R_SAT:R_UNSAT;
  // slice
  std::set<u32> S(c->syms->v.begin(),c->syms->v.end()); std::vector<Expr*> cs; splitAnd(c,cs); std::vector<char> in(pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]){ bool hit=false; for(u32 x:pc[i]->syms->v) if(S.count(x)){hit=true;break;} if(hit){ in[i]=1; ch=true; for(u32 x:pc[i]->syms->v) S.insert(x); } } }
  for(size_t i=0;i<pc.size();i++) if(in[i]) cs.push_back(pc[i]);
  std::sort(cs.begin(),cs.end(),[](Expr*a,Expr*b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
  std::vector<u32> key; bool fp=false; for(Expr*e:cs){ key.push_back(e->id); fp|=e->hasfp; } if(fp&&g_lazyfp) key.push_back(~0u);
  auto it=qcache.find(key);
  if(it==qcache.end()){
    std::vector<Expr*> syms; for(u32 i:S) syms.push_back(symById(i));
    std::vector<u128> m=model; Res r=R_UNKNOWN;
    auto zs=[&](int rounds){ fpRounds=rounds; bool wide=hasWide(cs); if(wide){ absMul=true; trc.swap(trcA); trbc.swap(trbcA); } Res q=z3solve(cs,syms,m,fp); if(wide){ trc.swap(trcA); trbc.swap(trbcA); absMul=false; } return q; };
    bool small=smallSolve(cs,S,m,r); if(small) fp=false;
    else if(fp) r=zs(0);
    else { bool wide=hasWide(cs); if(!wide){ double qt=g_qtimeout; g_qtimeout=std::min(qt,1.0); r=z3solve(cs,syms,m,false); g_qtimeout=qt; }
      else if(guessModel(cs,syms,m,40)) r=R_SAT;
      if(r==R_UNKNOWN){ int budget=120; m=model; r=hardSolve(cs,m,model,budget,0); if(r==R_UNKNOWN&&budget<0){ m=model; r=leafSolve(cs,m,model); } } }
    if(fp){ sst.fpabs++; bool need=(r!=R_UNSAT); auto good=[&](){ newEvalEpoch(); for(Expr*e:cs) if(!evalM(e,m)) return false; return true; };
      if(r==R_SAT&&good()) need=false; else if(need){ if(r!=R_SAT) m=model; if(guessModel(cs,syms,m,400)){ need=false; r=R_SAT; } }
      if(need){ double qt=g_qtimeout; if(g_lazyfp) g_qtimeout=0.12; m=model; r=zs(g_lazyfp?4:24); g_qtimeout=qt; if(r==R_UNSAT||(r==R_SAT&&good())) need=false; else r=R_UNKNOWN; }
      if(need&&!g_lazyfp){ m=model; r=fpsolve(cs,m); if(r==R_SAT){ newEvalEpoch(); for(Expr*e:cs) if(!evalM(e,m)){ fprintf(stderr,"warning: cvc5 model rejected by evaluation: %s\n",toStr(e,9).c_str()); r=R_UNKNOWN; break; } } } }
    else if(r==R_SAT){ newEvalEpoch(); for(Expr*e:cs) if(!evalM(e,m)){ fprintf(stderr,"INTERNAL: z3 model rejected by evaluation: %s\n",toStr(e,9).c_str()); r=R_UNKNOWN; break; } }
    if(r==R_UNKNOWN) sst.unknown++;
    CE ce{r,{}}; if(r==R_SAT) for(u32 i:S) ce.m.push_back({i,i<m.size()?m[i]:g_syms[i].lo});
    it=qcache.emplace(std::move(key),std::move(ce)).first;
  } else sst.cachehits++;
  if(it->second.r==R_SAT) for(auto&p:it->second.m){ if(model.size()<=p.first){ size_t o=model.size(); model.resize(p.first+1,0); for(size_t j=o;j<model.size();j++) model[j]=g_syms[j].lo; } model[p.first]=p.second; }
  newEvalEpoch();
  return it->second.r;
}
