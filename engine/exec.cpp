#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <atomic>
#include <array>
#include <cmath>
static const bool g_vf=getenv("VS_FORKS")!=nullptr;
struct Cfg { double deadline=600; u64 maxInstr=3000000000ull, regionBudget=60000000; int jobs=8; std::string out; int maxViol=20; int mergeWords=512; bool verbose=false; int maxNest=300; } cfg;
struct Stats { u64 ok=0,panic=0,tolerated=0,fail=0,assumed=0,error=0,budget=0,instr=0,forks=0,merges=0,mergeFail=0,asserts=0,assertsSym=0,infeasible=0,regions=0,undecided=0; } st;
static std::map<std::string,u64> covers; static std::map<std::string,std::string> samples;
static double tStart; static u64 g_states=0; static int g_viol=0;
struct Shared { std::atomic<int> tokens; std::atomic<int> viol; std::atomic<u64> seq; std::atomic<int> stop; std::atomic<int> err; }; static Shared* sh;
static int outFd=-1;
static void outLine(const std::string& s){ std::string t=s+"\n"; if(outFd>=0){ ssize_t r=write(outFd,t.data(),t.size()); (void)r; } }
static std::string jstr(const std::string& s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static std::string dec128(u128 v){ if(!v) return "0"; std::string s; while(v){ s+=char('0'+(int)(v%10)); v/=10; } std::reverse(s.begin(),s.end()); return s; }

struct Exec {
  std::deque<State*> top; std::deque<State*>* wl=&top;
  struct TLB { u64 vr; Page* pr; u64 vw; Page* pw; } tlb[256];
  State* cur=nullptr; int nest=0; u64 budgetEnd=~0ull; 
  void flush(){ for(auto&t:tlb){ t.vr=t.vw=~0ull; } }
  // ------------------------------------------------------------ memory
  static Page* newPage(){ Page* p=(Page*)calloc(1,sizeof(Page)); p->rc=1; return p; }
  static void relPage(Page* p){ if(--p->rc==0){ if(p->nov) for(auto*o:p->ov) free(o); free(p);} }
  static Page* dupPage(Page* p){ Page* q=(Page*)malloc(sizeof(Page)); memcpy(q,p,sizeof(Page)); q->rc=1; if(p->nov) for(int i=0;i<64;i++) if(p->ov[i]){ q->ov[i]=(SB*)malloc(sizeof(SB)); memcpy(q->ov[i],p->ov[i],sizeof(SB)); } return q; }
  static void relChunk(Chunk* c){ if(--c->rc==0){ for(auto*p:c->p) if(p) relPage(p); free(c);} }
  Page* rdp(State& s,u64 a){ u64 v=a>>12; TLB& t=tlb[v&255]; if(t.vr==v) return t.pr; u64 r=a>>RSHIFT; if(r==0||r>4) return nullptr; u64 o=a&((1ull<<RSHIFT)-1); u64 ci=o>>21; auto& m=s.mem[r]; static Page zero; Page* p=&zero; if(ci<m.size()&&m[ci]&&m[ci]->p[(o>>12)&511]) p=m[ci]->p[(o>>12)&511]; t.vr=v; t.pr=p; return p; }
  Page* wrp(State& s,u64 a){ u64 v=a>>12; TLB& t=tlb[v&255]; if(t.vw==v) return t.pw; u64 r=a>>RSHIFT; if(r==0||r>3) return nullptr; u64 o=a&((1ull<<RSHIFT)-1); u64 ci=o>>21; auto& m=s.mem[r]; if(ci>=(1u<<17)) return nullptr; if(ci>=m.size()) m.resize(ci+1,nullptr);
    Chunk*& c=m[ci]; if(!c){ c=(Chunk*)calloc(1,sizeof(Chunk)); c->rc=1; } else if(c->rc>1){ Chunk* d=(Chunk*)malloc(sizeof(Chunk)); memcpy(d,c,sizeof(Chunk)); d->rc=1; for(auto*p:d->p) if(p) p->rc++; c->rc--; c=d; }
    Page*& p=c->p[(o>>12)&511]; if(!p) p=newPage(); else if(p->rc>1){ Page* q=dupPage(p); p->rc--; p=q; }
    t.vw=v; t.pw=p; t.vr=v; t.pr=p; return p; }
  static inline bool hasOv(Page* p,unsigned o,unsigned n){ if(!p->nov) return false; unsigned b=o>>6,e=(o+n-1)>>6; for(;b<=e;b++) if(p->ov[b]){ SB* s=p->ov[b]; unsigned lo=b<<6; unsigned i0=o>lo?o-lo:0,i1=std::min(64u,o+n-lo); for(unsigned i=i0;i<i1;i++) if(s->e[i]) return true; } return false; }
  struct BV { u8 c; u8 off; Expr* e; };
  bool rdByte(State& s,u64 a,BV& b){ Page* p=rdp(s,a); if(!p) return false; unsigned o=a&4095; b.c=p->d[o]; b.e=nullptr; b.off=0; if(p->nov){ SB* q=p->ov[o>>6]; if(q&&q->e[o&63]){ b.e=q->e[o&63]; b.off=q->off[o&63]; } } return true; }
  static void setOv(Page* p,unsigned o,Expr* e,u8 off){ SB*& q=p->ov[o>>6]; if(!q){ if(!e) return; q=(SB*)calloc(1,sizeof(SB)); p->nov++; } q->e[o&63]=e; q->off[o&63]=off; if(e) p->d[o]=0; }
  static Expr* byteExpr(const BV& b){ return b.e? mkExtract(b.e,b.off*8,8) : mkC(8,b.c); }
  static Expr* gather(const BV* b,int n){ // little endian bytes
    if(b[0].e&&b[0].off==0&&b[0].e->w==n*8){ bool same=true; for(int i=1;i<n;i++) if(b[i].e!=b[0].e||b[i].off!=i){same=false;break;} if(same) return b[0].e; }
    Expr* r=nullptr; int i=0; while(i<n){ Expr* x; if(b[i].e){ int j=i+1; while(j<n&&b[j].e==b[i].e&&b[j].off==b[i].off+(j-i)) j++; x=mkExtract(b[i].e,b[i].off*8,(j-i)*8); i=j; } else { int j=i; u128 v=0; while(j<n&&!b[j].e&&j-i<16){ v|=(u128)b[j].c<<(8*(j-i)); j++; } x=mkC((j-i)*8,v); i=j; } r=r?mkConcat(x,r):x; }
    return r; }
  static inline Val fromE(Expr* e){ if(isC(e)) return cval(e->k); return Val{0,0,e}; }
  bool load(State& s,u64 a,unsigned n,unsigned w,Val& out){
    unsigned o=a&4095; if(o+n<=4096){ Page* p=rdp(s,a); if(!p) return false; if(!hasOv(p,o,n)){ u64 lo=0,hi=0; if(n<=8) memcpy(&lo,p->d+o,n); else { memcpy(&lo,p->d+o,8); memcpy(&hi,p->d+o+8,n-8); } if(w<64) lo&=(1ull<<w)-1; else if(w>64&&w<128) hi&=(1ull<<(w-64))-1; out=Val{lo,hi,nullptr}; return true; } }
    BV b[16]; if(n>16) return false; for(unsigned i=0;i<n;i++) if(!rdByte(s,a+i,b[i])) return false; Expr* e=gather(b,n); if(e->w!=w) e=mkExtract(e,0,w); out=fromE(e); return true; }
  bool store(State& s,u64 a,unsigned n,unsigned w,const Val& v){
    unsigned o=a&4095;
    if(!v.e){ if(o+n<=4096){ Page* p=wrp(s,a); if(!p) return false; if(n<=8) memcpy(p->d+o,&v.lo,n); else { memcpy(p->d+o,&v.lo,8); memcpy(p->d+o+8,&v.hi,n-8); } if(p->nov) for(unsigned i=0;i<n;i++) setOv(p,o+i,nullptr,0); return true; }
      u8 t[16]; memcpy(t,&v.lo,8); memcpy(t+8,&v.hi,8); for(unsigned i=0;i<n;i++){ Page* p=wrp(s,a+i); if(!p) return false; unsigned q=(a+i)&4095; p->d[q]=t[i]; if(p->nov) setOv(p,q,nullptr,0); } return true; }
    Expr* e=v.e; if(e->w!=n*8) e= e->w<n*8? mkZext(e,n*8):mkExtract(e,0,n*8); (void)w;
    for(unsigned i=0;i<n;i++){ Page* p=wrp(s,a+i); if(!p) return false; setOv(p,(a+i)&4095,e,i); } return true; }
  bool writeBytes(State& s,u64 a,const u8* d,size_t n){ while(n){ unsigned o=a&4095; size_t k=std::min<size_t>(n,4096-o); Page* p=wrp(s,a); if(!p) return false; memcpy(p->d+o,d,k); if(p->nov) for(size_t i=0;i<k;i++) setOv(p,o+i,nullptr,0); a+=k; d+=k; n-=k; } return true; }
  bool memset_(State& s,u64 a,const Val& c,u64 n){ if(c.e){ Expr* e=mkExtract(c.e,0,8); for(u64 i=0;i<n;i++) if(!store(s,a+i,1,8,fromE(e))) return false; return true; }
    while(n){ unsigned o=a&4095; size_t k=std::min<u64>(n,4096-o); Page* p=wrp(s,a); if(!p) return false; memset(p->d+o,(int)c.lo,k); if(p->nov) for(size_t i=0;i<k;i++) setOv(p,o+i,nullptr,0); a+=k; n-=k; } return true; }
  bool memmove_(State& s,u64 d,u64 a,u64 n){ if(!n||d==a) return true; 
    if(d<a+n&&a<d+n){ std::vector<BV> t(n); for(u64 i=0;i<n;i++) if(!rdByte(s,a+i,t[i])) return false; for(u64 i=0;i<n;i++){ Page* p=wrp(s,d+i); if(!p) return false; unsigned o=(d+i)&4095; p->d[o]=t[i].c; if(p->nov||t[i].e) setOv(p,o,t[i].e,t[i].off); } return true; }
    while(n){ unsigned so=a&4095,dof=d&4095; size_t k=std::min<u64>(n,std::min(4096-so,4096-dof)); Page* q=wrp(s,d); Page* p=rdp(s,a); if(!p||!q) return false; memcpy(q->d+dof,p->d+so,k);
      if(p->nov||q->nov) for(size_t i=0;i<k;i++){ SB* b=p->ov[(so+i)>>6]; if(b) setOv(q,dof+i,b->e[(so+i)&63],b->off[(so+i)&63]); else if(q->nov) setOv(q,dof+i,nullptr,0); }
      a+=k; d+=k; n-=k; } return true; }
  std::string cstr(State& s,u64 a,size_t max=4096){ std::string r; for(size_t i=0;i<max;i++){ BV b; if(!rdByte(s,a+i,b)) break; if(b.e){ newEvalEpoch(); b.c=(u8)evalM(byteExpr(b),s.model); } if(!b.c) break; r+=(char)b.c; } return r; }
  std::string str(State& s,u64 a,size_t n){ std::string r; if(n>100000) n=100000; for(size_t i=0;i<n;i++){ BV b; if(!rdByte(s,a+i,b)) break; if(b.e) b.c=(u8)evalM(byteExpr(b),s.model); r+=(char)b.c; } return r; }
  // ------------------------------------------------------------ states
  State* clone(State* s){ State* t=new State(*s); for(int r=0;r<5;r++) for(auto*c:t->mem[r]) if(c) c->rc++; flush(); t->id=++g_states; return t; }
  void destroy(State* s){ for(int r=0;r<5;r++) for(auto*c:s->mem[r]) if(c) relChunk(c); if(cur==s) cur=nullptr; delete s; flush(); }
  void enter(State* s){ if(cur!=s){ cur=s; flush(); newEvalEpoch(); } }
  std::string modelJson(State& s){ std::string r="{"; bool f=true; auto add=[&](const std::string&n,u128 v){ if(!f) r+=","; f=false; r+=jstr(n)+":"+jstr(dec128(v)); };
    for(auto&c:s.choices) add(c.first,c.second); newEvalEpoch(); for(auto&i:s.inputs) add(i.first,evalM(i.second,s.model)); return r+"}"; }
  std::string where(State& s){ std::string r; int k=0; for(int i=(int)s.fr.size()-1;i>=0&&k<14;i--,k++){ if(k) r+=" < "; r+=s.fr[i].f->dem.substr(0,90); } return r; }
  void endEvent(State& s,const char* kind,const std::string& msg){
    bool bad=!strcmp(kind,"PANIC")||!strcmp(kind,"ASSERT")||!strcmp(kind,"ERROR")||!strcmp(kind,"BUDGET");
    if(bad&&getenv("VS_DEBUGM")){ newEvalEpoch(); int k=0; for(Expr* e:s.pc){ if(!evalM(e,s.model)) fprintf(stderr,"MODEL FALSE stale=%d: %s\n",(int)s.stale,toStr(e,12).substr(0,1500).c_str()); k++; } fprintf(stderr,"pc %d stale %d\n",k,(int)s.stale); for(Expr* e:s.pc) fprintf(stderr," PC %s\n",toStr(e,12).substr(0,700).c_str()); }
    if(bad&&s.stale&&strcmp(kind,"BUDGET")){ int v=validate(s); if(v==0){ st.infeasible++; return; } if(v<0) kind="ERROR"; }
    if(bad){ if(!strcmp(kind,"ERROR")||!strcmp(kind,"BUDGET")) sh->err++; if(g_viol++<cfg.maxViol){ outLine(std::string("{\"ev\":\"")+kind+"\",\"msg\":"+jstr(msg)+",\"where\":"+jstr(where(s))+",\"model\":"+modelJson(s)+"}"); } if(strcmp(kind,"ERROR")&&strcmp(kind,"BUDGET")) sh->viol++; }
  }
  void addpc(State& s,Expr* c,bool v){ Expr* x=v?c:mkNot(c); std::vector<Expr*> parts; std::set<Expr*> seen; std::function<void(Expr*)> sp=[&](Expr* e){ if(e->op==O_AND&&e->w==1){ if(!seen.insert(e).second) return; sp(e->a); sp(e->b);} else if(!isC(e)) parts.push_back(e); }; sp(x); for(Expr* p:parts){ bool dup=s.known.count(p); if(!dup) s.pc.push_back(p); s.known[p]=1; Expr* n=mkNot(p); if(!isC(n)) s.known[n]=0; } s.known[c]=v; }
  int qbudget=0;
  int quick(State& s,Expr* c){ qbudget=300; return quick_(s,c); }
  int quick_(State& s,Expr* c){ if(isC(c)) return c->k?1:0; if(--qbudget<0) return -1; auto it=s.known.find(c); if(it!=s.known.end()) return it->second;
    if(c->op==O_AND&&c->w==1){ int x=quick_(s,c->a); if(x==0) return 0; int y=quick_(s,c->b); if(y==0) return 0; if(x==1&&y==1) return 1; }
    if(c->op==O_OR&&c->w==1){ int x=quick_(s,c->a); if(x==1) return 1; int y=quick_(s,c->b); if(y==1) return 1; if(x==0&&y==0) return 0; }
    if(c->op==O_XOR&&c->w==1&&isC(c->b)){ int x=quick_(s,c->a); if(x>=0) return !x; }
    return -1; }
  // feasibility of both sides: returns 0,1 (only that side) or 2 (both; otherModel is a model of the side not taken by s.model), -1 unknown
  bool modelSide; std::vector<u128> otherModel;
  // tolerant: an undecided side counts as feasible; the state that takes it is marked stale (its model need not satisfy pc)
  bool otherStale=false;
  int sides(State& s,Expr* c,bool tolerant=false){ otherStale=s.stale; int q=quick(s,c); if(q>=0) return q; 
    bool mv=evalM(c,s.model)!=0; modelSide=mv; otherModel=s.model; double qt=g_qtimeout; if(tolerant){ g_qtimeout=std::min(qt,3.0); g_lazyfp=true; } Res r=solve(s.pc,mv?mkNot(c):c,otherModel); g_qtimeout=qt; g_lazyfp=false; newEvalEpoch();
    if(r==R_UNSAT){ s.known[c]=mv; st.infeasible++; return mv; } if(r==R_UNKNOWN){ if(!tolerant) return -1; otherStale=true; otherModel=s.model; st.undecided++; } return 2; }
  // 1: the model of s satisfies its path condition; 0: the path is infeasible; -1 unknown
  int validate(State& s){ if(!s.stale) return 1; newEvalEpoch(); bool ok=true; for(Expr* e:s.pc) if(!evalM(e,s.model)){ ok=false; break; } if(ok) return 1;
    Expr* all=mkC(1,1); for(Expr* e:s.pc) all=mkAnd(all,e); std::vector<u128> m=s.model; Res r=solve({},all,m); newEvalEpoch(); if(r==R_UNSAT) return 0; if(r==R_UNKNOWN) return -1; s.model=m; newEvalEpoch(); return 1; }
  enum D { D_F=0, D_T=1, D_DEAD=2 };
  void error(State& s,const std::string& m){ st.error++; endEvent(s,"ERROR",m); }
  // decide with plain forking: the clone re-executes the current instruction
  int decide(State& s,Expr* c){ int r=sides(s,c,true); if(r==0||r==1) return r; if(r<0){ error(s,"solver gave no answer on "+toStr(c,6)); return D_DEAD; }
    if(g_vf) fprintf(stderr,"FORK %s | %s\n",where(s).substr(0,300).c_str(),toStr(c,9).substr(0,300).c_str());
    st.forks++; bool mv=modelSide; State* t=clone(&s); t->model=otherModel; t->stale=otherStale; addpc(*t,c,!mv); addpc(s,c,mv); wl->push_back(t); s.depthForks++; t->depthForks++; return mv; }
  // value of an expression, enumerated by forking
  bool concretize(State& s,Expr* e,u128& out){ if(isC(e)){ out=e->k; return true; }
    while(e->op==O_ITE){ int d=decide(s,e->a); if(d==D_DEAD) return false; e=d?e->b:e->c; } if(isC(e)){ out=e->k; return true; }
    u128 v=evalM(e,s.model); int d=decide(s,mkEq(e,mkC(e->w,v))); if(d==D_DEAD) return false; out=v; return true; }
  bool conc(State& s,const Val& v,u64& out){ if(!v.e){ out=v.lo; return true; } u128 x; if(!concretize(s,v.e,x)) return false; out=(u64)x; return true; }
  // ------------------------------------------------------------ frames
  bool pushFrame(State& s,Func* f,const Val* args,int n,int dst){
    if(s.fr.size()>4000){ error(s,"call depth"); return false; }
    decode(f); Frame fr; fr.f=f; fr.base=s.regs.size(); fr.pc=f->blocks.empty()?0:f->blocks[0].start; fr.sp=s.sp; fr.dst=dst;
    std::vector<Val> tmp(args,args+n); s.regs.resize(fr.base+f->nslots,Val{0,0,nullptr}); int k=std::min(n,f->nargs); for(int i=0;i<k;i++) s.regs[fr.base+i]=tmp[i];
    for(auto&bv:f->byval){ u64 a=(s.sp+15)&~15ull; s.sp=a+((bv.second+15)&~15ull); u64 src=s.regs[fr.base+bv.first].lo; if(!memmove_(s,a,src,bv.second)){ error(s,"byval"); return false; } s.regs[fr.base+bv.first]=cval(a); }
    f->calls++; s.fr.push_back(fr); return true; }
  // ------------------------------------------------------------ merging
  bool mergeInto(State* A,State* B,u64 bump0); // B into A
  void dropStates(std::deque<State*>& l){ for(auto*s:l) destroy(s); l.clear(); }
  RunRes run(State*& s,Stop stop);
  State* region(State* s,std::vector<std::pair<Expr*,std::vector<u128>>>& alts,const std::vector<char>& altStale,Stop rs,int site,Func* sf);
  bool canMerge(State& s,const Frame& f,int pcIdx,Stop& rs);
  RunRes stepCall(State*& s,const Inst& in);
  void top_(State* init);
  void explore();
};
static Exec X;
// ---------------------------------------------------------------- post dominators
static void computeIpdom(Func* f){ f->haveIpdom=true; int n=f->blocks.size(); 
  // exit node n: predecessors are blocks ending in RET. Blocks that cannot reach a return are ignored.
  std::vector<std::vector<int>> pred(n+1); std::vector<std::vector<int>> succ(n); for(int b=0;b<n;b++){ const Inst& l=f->code[f->blocks[b].end-1]; if(l.op==I_RET) succ[b].push_back(n); for(int t:f->blocks[b].succ) succ[b].push_back(t); for(int t:succ[b]) pred[t].push_back(b); }
  std::vector<int> order, num(n+1,-1); std::vector<char> vis(n+1,0); // reverse postorder on the reversed graph
  std::vector<std::pair<int,size_t>> stk; stk.push_back({n,0}); vis[n]=1; while(!stk.empty()){ auto& [b,i]=stk.back(); if(i<pred[b].size()){ int p=pred[b][i++]; if(!vis[p]){ vis[p]=1; stk.push_back({p,0}); } } else { order.push_back(b); stk.pop_back(); } }
  std::reverse(order.begin(),order.end()); for(size_t i=0;i<order.size();i++) num[order[i]]=i;
  std::vector<int> id(n+1,-1); id[n]=n; bool ch=true; auto inter=[&](int a,int b){ while(a!=b){ while(num[a]>num[b]) a=id[a]; while(num[b]>num[a]) b=id[b]; } return a; };
  while(ch){ ch=false; for(int b:order){ if(b==n) continue; int ni=-1; for(int t:succ[b]) if(num[t]>=0&&id[t]>=0) ni= ni<0?t:inter(ni,t); if(ni>=0&&id[b]!=ni){ id[b]=ni; ch=true; } } }
  f->ipdom.assign(n,-1); for(int b=0;b<n;b++) f->ipdom[b]=id[b]==n?-1:id[b]; // -1: return (or unreachable exit)
}
struct SiteStat { int ok=0, bad=0; }; static std::unordered_map<u64,SiteStat> sites;
bool Exec::canMerge(State& s,const Frame& f,int pcIdx,Stop& rs){
  if(!s.mergeOn||nest>=cfg.maxNest) return false; if(s.mergeOn==2){ bool in=false; for(auto&x:s.fr) if(x.f->dem.find("syn::")!=std::string::npos){ in=true; break; } if(!in) return false; } Func* F=f.f; if(!F->haveIpdom) computeIpdom(F);
  u64 key=(u64)F->idx<<32|(u32)pcIdx; auto& ss=sites[key]; if(ss.bad>=6&&ss.bad>4*ss.ok) return false;
  int b=F->blockOf[pcIdx]; int ip=F->ipdom[b]; rs.depth=s.fr.size()-1; rs.pc= ip<0?-1:F->blocks[ip].start; if(rs.pc==-1&&rs.depth==0) return false; return true; }
State* Exec::region(State* s,std::vector<std::pair<Expr*,std::vector<u128>>>& alts,const std::vector<char>& altStale,Stop rs,int site,Func* sf){
  // s is consumed. Returns a state to continue with (others are queued on wl), or null if everything ended.
  st.regions++; u64 bump0=s->bump; std::deque<State*> L; for(size_t i=0;i<alts.size();i++){ State* t= i+1<alts.size()? clone(s):s; t->model=alts[i].second; if(!altStale.empty()) t->stale=altStale[i]; addpc(*t,alts[i].first,true); L.push_front(t); }
  flush(); std::deque<State*>* saved=wl; wl=&L; nest++; u64 be=budgetEnd; u64 myEnd=st.instr+cfg.regionBudget; if(myEnd<budgetEnd) budgetEnd=myEnd;
  std::vector<State*> arr, esc; u64 mx=bump0; int nst=0; bool over=false;
  while(!L.empty()){ State* t=L.back(); L.pop_back(); if(over){ esc.push_back(t); continue; }
    if(mx>bump0){ u64 nb=(mx+4095)&~4095ull; if(t->bump<nb) t->bump=nb; }
    RunRes r=run(t,rs); if(r==RR_ARRIVED){ if(t->bump>mx) mx=t->bump; arr.push_back(t);} else if(r==RR_ESCAPED||r==RR_BUDGET){ if(t->bump>mx) mx=t->bump; esc.push_back(t);} 
    if(++nst>4000||st.instr>budgetEnd) over=true; }
  wl=saved; nest--; budgetEnd=be;
  u64 key=(u64)sf->idx<<32|(u32)site; auto& ss=sites[key]; if(over) ss.bad+=6;
  // merge pairwise
  std::vector<State*> out; for(State* t:arr){ bool done=false; if(!over) for(State*& o:out){ if(mergeInto(o,t,bump0)){ st.merges++; ss.ok++; done=true; break; } else { st.mergeFail++; ss.bad++; } if(out.size()>8) break; } if(!done) out.push_back(t); }
  for(State* t:esc) saved->push_back(t);
  flush();
  if(out.empty()) return nullptr; for(size_t i=1;i<out.size();i++) saved->push_back(out[i]); return out[0]; }
static inline bool eqVal(const Val& a,const Val& b){ return a.e==b.e&&(a.e||(a.lo==b.lo&&a.hi==b.hi)); }
bool Exec::mergeInto(State* A,State* B,u64 bump0){
  if(A->fr.size()!=B->fr.size()||A->symc!=B->symc||A->sp!=B->sp||A->choices!=B->choices||A->inputs.size()!=B->inputs.size()||A->panicMode!=B->panicMode||A->mergeOn!=B->mergeOn||A->regs.size()!=B->regs.size()) return false;
  for(size_t i=0;i<A->fr.size();i++) if(A->fr[i].pc!=B->fr[i].pc||A->fr[i].f!=B->fr[i].f) return false;
  size_t cp=0; while(cp<A->pc.size()&&cp<B->pc.size()&&A->pc[cp]==B->pc[cp]) cp++;
  std::vector<Expr*> sa(A->pc.begin()+cp,A->pc.end()),sb(B->pc.begin()+cp,B->pc.end()),common;
  for(size_t i=0;i<sa.size();){ auto it=std::find(sb.begin(),sb.end(),sa[i]); if(it!=sb.end()){ common.push_back(sa[i]); sb.erase(it); sa.erase(sa.begin()+i);} else i++; }
  Expr *ca=mkC(1,1),*cb=mkC(1,1); for(Expr*e:sa) ca=mkAnd(ca,e); for(Expr*e:sb) cb=mkAnd(cb,e);
  Expr* sel; // condition choosing A: the simplest of ca / not cb
  if(sb.size()==1&&sa.size()!=1) sel=mkNot(cb); else sel=ca;
  if(isC(sel)) return false;
  // registers
  struct RD { size_t i; Val v; }; std::vector<RD> rd; 
  int lo=0; for(size_t i=lo;i<A->regs.size();i++) if(!eqVal(A->regs[i],B->regs[i])){ const Val&a=A->regs[i],&b=B->regs[i]; unsigned w= a.e?a.e->w:b.e?b.e->w:(a.hi||b.hi)?128:64; if(a.e&&b.e&&a.e->w!=b.e->w){ rd.push_back({i,a}); continue; } 
      if((!a.e&&w<128&&v128(a)>maskw(w))||(!b.e&&w<128&&v128(b)>maskw(w))){ rd.push_back({i,a}); continue; }
      // concrete pairs carry no width: remember as 64 bit when they fit; uses narrow by extraction
      rd.push_back({i,fromE(mkIte(sel,a.e?a.e:mkC(w,v128(a)),b.e?b.e:mkC(w,v128(b))))}); if(rd.size()>400) return false; }
  // memory
  struct MD { u64 a; int n; Expr* e; }; std::vector<MD> md; 
  struct PG { int r; size_t ci; int pi; }; std::vector<PG> adopt;
  for(int r=1;r<=3;r++){ size_t nc=std::max(A->mem[r].size(),B->mem[r].size()); for(size_t ci=0;ci<nc;ci++){ Chunk* x=ci<A->mem[r].size()?A->mem[r][ci]:nullptr,*y=ci<B->mem[r].size()?B->mem[r][ci]:nullptr; if(x==y) continue;
      for(int pi=0;pi<512;pi++){ Page* p=x?x->p[pi]:nullptr,*q=y?y->p[pi]:nullptr; if(p==q) continue; u64 base=((u64)r<<RSHIFT)+((u64)ci<<21)+((u64)pi<<12);
        if(r==3&&base>=A->sp) continue;
        if(r==2&&base>=((bump0+4095)&~4095ull)){ if(!p){ adopt.push_back({r,ci,pi}); continue; } if(!q) continue; }
        static Page zero; if(!p) p=&zero; if(!q) q=&zero; unsigned lim=4096; if(r==3&&base+4096>A->sp) lim=A->sp-base;
        bool ov=p->nov||q->nov; if(!ov&&!memcmp(p->d,q->d,lim)) continue;
        for(unsigned o=0;o<lim;o+=16){ unsigned n=std::min(16u,lim-o); bool po=p->nov&&hasOv(p,o,n),qo=q->nov&&hasOv(q,o,n);
          if(!po&&!qo){ if(!memcmp(p->d+o,q->d+o,n)) continue; }
          BV b1[16],b2[16]; bool diff=false; for(unsigned i=0;i<n;i++){ auto g=[&](Page* P,BV&b){ b.c=P->d[o+i]; b.e=nullptr; b.off=0; if(P->nov){ SB* z=P->ov[(o+i)>>6]; if(z&&z->e[(o+i)&63]){ b.e=z->e[(o+i)&63]; b.off=z->off[(o+i)&63]; } } }; g(p,b1[i]); g(q,b2[i]); if(b1[i].e!=b2[i].e||(b1[i].e?b1[i].off!=b2[i].off:b1[i].c!=b2[i].c)) diff=true; }
          if(!diff) continue;
          auto same=[&](int i){ return b1[i].e==b2[i].e&&(b1[i].e?b1[i].off==b2[i].off:b1[i].c==b2[i].c); };
          auto whole=[&](BV* b,int i,int k){ if(!b[i].e){ for(int j=0;j<k;j++) if(b[i+j].e) return false; return true; } if(b[i].off!=0||b[i].e->w!=k*8) return false; for(int j=1;j<k;j++) if(b[i+j].e!=b[i].e||b[i+j].off!=j) return false; return true; };
          auto anysym=[&](int i,int k){ for(int j=0;j<k;j++) if(b1[i+j].e||b2[i+j].e) return true; return false; };
          std::function<void(int,int)> go=[&](int i,int k){ if(i>=(int)n) return; bool d=false; for(int j=0;j<k&&i+j<(int)n;j++) if(!same(i+j)) d=true; if(!d) return;
            if(i+k<=(int)n&&(k==1||((k<=8||anysym(i,k))&&whole(b1,i,k)&&whole(b2,i,k)))){ Expr* e=mkIte(sel,gather(b1+i,k),gather(b2+i,k)); md.push_back({base+o+i,k,e}); return; }
            go(i,k/2); go(i+k/2,k/2); };
          go(0,16); if((int)md.size()>cfg.mergeWords) return false; } } } }
  // commit
  enter(A);
  for(auto&x:rd) A->regs[x.i]=x.v;
  for(auto&x:md) store(*A,x.a,x.n,x.n*8,fromE(x.e));
  for(auto&g:adopt){ Page* q=B->mem[g.r][g.ci]->p[g.pi]; u64 base=((u64)g.r<<RSHIFT)+((u64)g.ci<<21)+((u64)g.pi<<12); Page* p=wrp(*A,base); (void)p; auto*& slot=A->mem[g.r][g.ci]->p[g.pi]; relPage(slot); slot=q; q->rc++; }
  flush();
  A->pc.resize(cp); for(Expr*e:common) A->pc.push_back(e); Expr* o=mkOr(ca,cb); 
  for(auto it=A->known.begin();it!=A->known.end();){ auto j=B->known.find(it->first); if(j==B->known.end()||j->second!=it->second) it=A->known.erase(it); else ++it; }
  if(!isC(o)) addpc(*A,o,true);
  if(A->stale&&!B->stale){ A->model=B->model; A->stale=false; newEvalEpoch(); }
  A->bump=std::max(A->bump,B->bump); A->icount=std::max(A->icount,B->icount); destroy(B); return true; }

// ---------------------------------------------------------------- instruction semantics
static inline Expr* EX(const Val& v,unsigned w){ if(v.e){ if(v.e->w==w) return v.e; if(v.e->w>w) return mkExtract(v.e,0,w); return mkZext(v.e,w); } return mkC(w,v128(v)); }
static inline Val mkV(Expr* e){ if(isC(e)) return cval(e->k); return Val{0,0,e}; }
static u64 icmp64(int p,u64 a,u64 b,unsigned w){ i64 x=(i64)(a<<(64-w))>>(64-w),y=(i64)(b<<(64-w))>>(64-w); switch(p){case 32:return a==b;case 33:return a!=b;case 34:return a>b;case 35:return a>=b;case 36:return a<b;case 37:return a<=b;case 38:return x>y;case 39:return x>=y;case 40:return x<y;default:return x<=y;} }
static Expr* icmpE(int p,Expr* a,Expr* b){ switch(p){case 32:return mkEq(a,b);case 33:return mkNot(mkEq(a,b));case 34:return mk(O_ULT,1,b,a);case 35:return mk(O_ULE,1,b,a);case 36:return mk(O_ULT,1,a,b);case 37:return mk(O_ULE,1,a,b);case 38:return mk(O_SLT,1,b,a);case 39:return mk(O_SLE,1,b,a);case 40:return mk(O_SLT,1,a,b);default:return mk(O_SLE,1,a,b);} }
static Expr* fcmpE(int p,Expr* a,Expr* b){ auto nan=[&]{ return mkOr(mk(O_FNAN,1,a),mk(O_FNAN,1,b)); };
  switch(p){ case 0: return mkC(1,0); case 1: return mk(O_FEQ,1,a,b); case 2: return mk(O_FLT,1,b,a); case 3: return mk(O_FLE,1,b,a); case 4: return mk(O_FLT,1,a,b); case 5: return mk(O_FLE,1,a,b); case 6: return mkOr(mk(O_FLT,1,a,b),mk(O_FLT,1,b,a)); case 7: return mkNot(nan());
    case 8: return nan(); case 9: return mkNot(mkOr(mk(O_FLT,1,a,b),mk(O_FLT,1,b,a))); case 10: return mkNot(mk(O_FLE,1,a,b)); case 11: return mkNot(mk(O_FLT,1,a,b)); case 12: return mkNot(mk(O_FLE,1,b,a)); case 13: return mkNot(mk(O_FLT,1,b,a)); case 14: return mkNot(mk(O_FEQ,1,a,b)); default: return mkC(1,1); } }
static Expr* ctz(Expr* x){ unsigned w=x->w; Expr* r=mkC(w,w); for(int i=w-1;i>=0;i--) r=mkIte(mkExtract(x,i,1),mkC(w,i),r); return r; }
static Expr* clz(Expr* x){ unsigned w=x->w; Expr* r=mkC(w,w); for(unsigned i=0;i<w;i++) r=mkIte(mkExtract(x,i,1),mkC(w,w-1-i),r); return r; }
static Expr* popc(Expr* x){ unsigned w=x->w; Expr* r=mkC(w,0); for(unsigned i=0;i<w;i++) r=mk(O_ADD,w,r,mkZext(mkExtract(x,i,1),w)); return r; }
static u128 intrC(const Inst& in,u128 a,u128 b,u128 c,u128& ov){ unsigned w=in.w; u128 m=maskw(w); ov=0; i128 x=sext128(a,w),y=sext128(b,w);
  switch(in.sub){
    case N_UADDO: { u128 r=(a+b)&m; ov=r<a; return r; } case N_USUBO: ov=a<b; return (a-b)&m; case N_UMULO: ov=foldop(O_UMULO,1,w,a,b,0,0); return (a*b)&m;
    case N_SADDO: { i128 r; bool o=__builtin_add_overflow(x,y,&r); ov=o||sext128((u128)r&m,w)!=r; return (u128)r&m; } case N_SSUBO: { i128 r; bool o=__builtin_sub_overflow(x,y,&r); ov=o||sext128((u128)r&m,w)!=r; return (u128)r&m; }
    case N_SMULO: ov=foldop(O_SMULO,1,w,a,b,0,0); return (a*b)&m;
    case N_UADDS: { u128 r=(a+b)&m; return r<a?m:r; } case N_USUBS: return a<b?0:a-b;
    case N_SADDS: { i128 r; bool o=__builtin_add_overflow(x,y,&r); if(o||sext128((u128)r&m,w)!=r) return x<0?(m>>1)+1:m>>1; return (u128)r&m; } case N_SSUBS: { i128 r; bool o=__builtin_sub_overflow(x,y,&r); if(o||sext128((u128)r&m,w)!=r) return x<0?(m>>1)+1:m>>1; return (u128)r&m; }
    case N_CTLZ: return w-bitlen(a); case N_CTTZ: { if(!a) return w; unsigned n=0; while(!((a>>n)&1)) n++; return n; } case N_CTPOP: return __builtin_popcountll((u64)a)+__builtin_popcountll((u64)(a>>64));
    case N_BSWAP: { u128 r=0; for(unsigned i=0;i<w;i+=8) r|=((a>>i)&0xff)<<(w-8-i); return r; } case N_BITREV: { u128 r=0; for(unsigned i=0;i<w;i++) r|=((a>>i)&1)<<(w-1-i); return r; }
    case N_FSHL: { unsigned k=(unsigned)(c%w); return k?((a<<k)|(b>>(w-k)))&m:a; } case N_FSHR: { unsigned k=(unsigned)(c%w); return k?((a<<(w-k))|(b>>k))&m:b; }
    case N_UMIN: return std::min(a,b); case N_UMAX: return std::max(a,b); case N_SMIN: return x<y?a:b; case N_SMAX: return x>y?a:b; case N_ABS: return x<0?(u128)(-x)&m:a;
    case N_FPTOUI_SAT: return foldop(O_FPTOUI_SAT,in.w2,w,a,0,0,0); case N_FPTOSI_SAT: return foldop(O_FPTOSI_SAT,in.w2,w,a,0,0,0);
    case N_FABS: return a&(m>>1); case N_FLOOR: case N_CEIL: case N_TRUNC: case N_RINT: case N_ROUND: return foldop(O_FROUND,w,w,a,0,0,in.sub-N_FLOOR);
    case N_COPYSIGN: return (a&(m>>1))|(b&~(m>>1)&m);
    default: fprintf(stderr,"intrC %d\n",in.sub); abort(); } }
static Expr* intrE(const Inst& in,Expr* a,Expr* b,Expr* c,Expr*& ov){ unsigned w=in.w; ov=nullptr; u128 m=maskw(w); Expr* Z=mkC(w,0);
  auto sgn=[&](Expr* e){ return mkExtract(e,w-1,1); };
  switch(in.sub){
    case N_UADDO: { Expr* r=mk(O_ADD,w,a,b); if(a->hi<=m-b->hi) ov=mkC(1,0); else if(isC(b)) ov=mk(O_ULT,1,mkC(w,m-b->k),a); else if(isC(a)) ov=mk(O_ULT,1,mkC(w,m-a->k),b); else ov=mk(O_ULT,1,r,a); return r; }
    case N_USUBO: ov=mk(O_ULT,1,a,b); return mk(O_SUB,w,a,b); case N_UMULO: ov=mk(O_UMULO,1,a,b); return mk(O_MUL,w,a,b);
    case N_SADDO: { Expr* r=mk(O_ADD,w,a,b); ov=mkAnd(mkEq(sgn(a),sgn(b)),mkNot(mkEq(sgn(r),sgn(a)))); return r; } case N_SSUBO: { Expr* r=mk(O_SUB,w,a,b); ov=mkAnd(mkNot(mkEq(sgn(a),sgn(b))),mkNot(mkEq(sgn(r),sgn(a)))); return r; }
    case N_SMULO: ov=mk(O_SMULO,1,a,b); return mk(O_MUL,w,a,b);
    case N_UADDS: { Expr* r=mk(O_ADD,w,a,b); if(a->hi<=m-b->hi) return r; return mkIte(mk(O_ULT,1,r,a),mkC(w,m),r); } case N_USUBS: return mkIte(mk(O_ULT,1,a,b),Z,mk(O_SUB,w,a,b));
    case N_SADDS: case N_SSUBS: { Expr* r=mk(in.sub==N_SADDS?O_ADD:O_SUB,w,a,b); Expr* o=in.sub==N_SADDS?mkAnd(mkEq(sgn(a),sgn(b)),mkNot(mkEq(sgn(r),sgn(a)))):mkAnd(mkNot(mkEq(sgn(a),sgn(b))),mkNot(mkEq(sgn(r),sgn(a)))); return mkIte(o,mkIte(sgn(a),mkC(w,(m>>1)+1),mkC(w,m>>1)),r); }
    case N_CTLZ: return clz(a); case N_CTTZ: return ctz(a); case N_CTPOP: return popc(a);
    case N_BSWAP: { Expr* r=nullptr; for(unsigned i=0;i<w;i+=8){ Expr* x=mkExtract(a,i,8); r=r?mkConcat(r,x):x; } return r; } case N_BITREV: { Expr* r=nullptr; for(unsigned i=0;i<w;i++){ Expr* x=mkExtract(a,i,1); r=r?mkConcat(r,x):x; } return r; }
    case N_FSHL: case N_FSHR: { if(!isC(c)) return nullptr; unsigned k=(unsigned)(c->k%w); if(in.sub==N_FSHL) return k?mkConcat(mkExtract(a,0,w-k),mkExtract(b,w-k,k)):a; return k?mkConcat(mkExtract(a,0,k),mkExtract(b,k,w-k)):b; }
    case N_UMIN: return mkIte(mk(O_ULT,1,a,b),a,b); case N_UMAX: return mkIte(mk(O_ULT,1,a,b),b,a); case N_SMIN: return mkIte(mk(O_SLT,1,a,b),a,b); case N_SMAX: return mkIte(mk(O_SLT,1,a,b),b,a); case N_ABS: return mkIte(sgn(a),mk(O_SUB,w,Z,a),a);
    case N_FPTOUI_SAT: return mk(O_FPTOUI_SAT,in.w2,a); case N_FPTOSI_SAT: return mk(O_FPTOSI_SAT,in.w2,a);
    case N_FABS: return mk(O_AND,w,a,mkC(w,m>>1)); case N_FLOOR: case N_CEIL: case N_TRUNC: case N_RINT: case N_ROUND: return mk(O_FROUND,w,a,nullptr,nullptr,in.sub-N_FLOOR);
    case N_COPYSIGN: return mk(O_OR,w,mk(O_AND,w,a,mkC(w,m>>1)),mk(O_AND,w,b,mkC(w,(m>>1)+1)));
    default: return nullptr; } }
static u64 strideOf(Expr* e){ if(e->op==O_ADD&&isC(e->b)) return strideOf(e->a); if(e->op==O_CONCAT&&isC(e->b)&&e->b->k==0&&e->b->w<20) return 1ull<<e->b->w; if(e->op==O_MUL&&isC(e->b)&&e->b->k<100000) return (u64)e->b->k; if(e->op==O_ZEXT) return strideOf(e->a); return 1; }
static bool leavesIn(Expr* e,int region,int& n){ if(isC(e)){ n++; return (u64)(e->k>>RSHIFT)==(u64)region; } if(e->op!=O_ITE||n>64) return false; return leavesIn(e->b,region,n)&&leavesIn(e->c,region,n); }

typedef void (*BI)(State&,const Val* a,int n,Val* ret,int& status); // status: 0 ok, 1 dead
struct BuiltinDef { const char* name; };
enum { BS_OK=0, BS_DEAD=1 };
static std::unordered_map<std::string,BI> bis;
static std::unordered_map<Func*,BI> biOf;
#define BIN_(n) static void n(State& s,const Val* a,int n_,Val* ret,int& status)

RunRes Exec::run(State*& s,Stop stop){
  enter(s);
  const Val* C; Val* R; Frame* F; Func* f; int pc;
#define LOADF() do{ F=&s->fr.back(); f=F->f; R=s->regs.data()+F->base; pc=F->pc; }while(0)
#define SAVE() (F->pc=pc)
#define V(i) ((i)>=0?R[i]:C[~(i)])
#define DIE() do{ destroy(s); return RR_ENDED; }while(0)
  LOADF(); u64 ic=0; 
  if((int)s->fr.size()-1<stop.depth) return stop.pc==-1&&(int)s->fr.size()==stop.depth?RR_ARRIVED:RR_ESCAPED;
  if(stop.pc>=0&&(int)s->fr.size()-1==stop.depth&&pc==stop.pc) return RR_ARRIVED;
  while(true){
    const Inst& in=f->code[pc]; C=M.cpool.data();
    if((++ic&0xffff)==0){ st.instr+=ic; s->icount+=ic; ic=0; if(s->icount>cfg.maxInstr||sh->stop.load()||nowsec()-tStart>cfg.deadline){ SAVE(); st.budget++; endEvent(*s,"BUDGET","instruction or time budget exhausted"); if(nowsec()-tStart>cfg.deadline) sh->stop=1; DIE(); } if(st.instr>budgetEnd){ SAVE(); return RR_BUDGET; } }
    switch(in.op){
      case I_NOP: break;
      case I_BIN: { const Val&a=V(in.a),&b=V(in.b); unsigned w=in.w; if(!a.e&&!b.e){ if(w<=64){ u64 x=a.lo,y=b.lo,r; u64 m=w==64?~0ull:(1ull<<w)-1; switch(in.sub){ case O_ADD:r=x+y;break; case O_SUB:r=x-y;break; case O_MUL:r=x*y;break; case O_AND:r=x&y;break; case O_OR:r=x|y;break; case O_XOR:r=x^y;break; case O_SHL:r=y>=w?0:x<<y;break; case O_LSHR:r=y>=w?0:x>>y;break; case O_UDIV: r=y?x/y:0; break; case O_UREM: r=y?x%y:0; break; default: r=(u64)foldop((Op)in.sub,w,w,x,y,0,0); } R[in.dst]=Val{r&m,0,nullptr}; } else R[in.dst]=cval(foldop((Op)in.sub,w,w,v128(a),v128(b),0,0)); }
        else R[in.dst]=mkV(mk((Op)in.sub,w,EX(a,w),EX(b,w))); break; }
      case I_ICMP: { const Val&a=V(in.a),&b=V(in.b); unsigned w=in.w; if(!a.e&&!b.e){ if(w<=64) R[in.dst]=Val{icmp64(in.sub,a.lo,b.lo,w),0,nullptr}; else { Expr* e=icmpE(in.sub,mkC(w,v128(a)),mkC(w,v128(b))); R[in.dst]=cval(e->k); } } else R[in.dst]=mkV(icmpE(in.sub,EX(a,w),EX(b,w))); break; }
      case I_FBIN: { const Val&a=V(in.a),&b=V(in.b); unsigned w=in.w; if(!a.e&&!b.e) R[in.dst]=cval(foldop((Op)in.sub,w,w,v128(a),v128(b),0,0)); else R[in.dst]=mkV(mk((Op)in.sub,w,EX(a,w),EX(b,w))); break; }
      case I_FCMP: { const Val&a=V(in.a),&b=V(in.b); R[in.dst]=mkV(fcmpE(in.sub,EX(a,in.w),EX(b,in.w))); break; }
      case I_ZEXT: { const Val&a=V(in.a); R[in.dst]= a.e? mkV(mkZext(EX(a,in.w2),in.w)) : a; break; }
      case I_SEXT: { const Val&a=V(in.a); R[in.dst]= a.e? mkV(mkSext(EX(a,in.w2),in.w)) : cval((u128)sext128(v128(a),in.w2)&maskw(in.w)); break; }
      case I_TRUNC: { const Val&a=V(in.a); R[in.dst]= a.e? mkV(mkExtract(EX(a,in.w2),0,in.w)) : cval(v128(a)&maskw(in.w)); break; }
      case I_FPCAST: { const Val&a=V(in.a); R[in.dst]=a.e? mkV(mk((Op)in.sub,in.w,EX(a,in.w2))) : cval(foldop((Op)in.sub,in.w,in.w2,v128(a),0,0,0)); break; }
      case I_REPACK: { bool sy=false; for(int i=0;i<in.n;i++) if(V(f->pool[in.pool+i]).e) sy=true; 
        if(!sy){ // bit stream
          std::vector<u8> bits(in.n*in.w2); for(int i=0;i<in.n;i++){ u128 x=v128(V(f->pool[in.pool+i])); for(int j=0;j<in.w2;j++) bits[i*in.w2+j]=(x>>j)&1; } std::vector<Val> o(in.imm); for(int i=0;i<in.imm;i++){ u128 x=0; for(int j=0;j<in.w;j++) x|=(u128)bits[i*in.w+j]<<j; o[i]=cval(x); } for(int i=0;i<in.imm;i++) R[in.dst+i]=o[i]; }
        else { std::vector<Val> o(in.imm); for(int i=0;i<in.imm;i++){ Expr* r=nullptr; unsigned b0=i*in.w,b1=b0+in.w; for(unsigned b=b0;b<b1;){ unsigned el=b/in.w2,off=b%in.w2,len=std::min<unsigned>(in.w2-off,b1-b); Expr* x=mkExtract(EX(V(f->pool[in.pool+el]),in.w2),off,len); r=r?mkConcat(x,r):x; b+=len; } o[i]=mkV(r); } for(int i=0;i<in.imm;i++) R[in.dst+i]=o[i]; }
        break; }
      case I_LOAD: { const Val&a=V(in.a); 
        if(!a.e){ if(!load(*s,a.lo+in.imm,in.w2,in.w,R[in.dst])){ SAVE(); error(*s,"bad load address "+std::to_string(a.lo+in.imm)); DIE(); } break; }
        SAVE(); Expr* e=mk(O_ADD,64,a.e,mkC(64,in.imm)); int nl=0;
        if(e->op==O_ITE&&leavesIn(e,1,nl)&&nl<=64){ std::function<Expr*(Expr*)> g=[&](Expr* x)->Expr*{ if(isC(x)){ Val v; if(!load(*s,(u64)x->k,in.w2,in.w,v)) return mkC(in.w,0); return EX(v,in.w); } return mkIte(x->a,g(x->b),g(x->c)); }; R[in.dst]=mkV(g(e)); break; }
        if(e->op!=O_ITE){ u64 sd=strideOf(e); u64 cnt=(u64)(e->hi-e->lo)/sd+1; if(e->hi-e->lo<(u128)sd*1100&&cnt<=1100&&(u64)(e->lo>>RSHIFT)>=1&&(u64)(e->hi>>RSHIFT)<=3){ std::vector<std::pair<u64,Expr*>> vals; bool ok=true; for(u64 i=0;i<cnt;i++){ Val v; if(!load(*s,(u64)e->lo+i*sd,in.w2,in.w,v)){ ok=false; break; } Expr* x=EX(v,in.w); if(vals.empty()||vals.back().second!=x) vals.push_back({(u64)e->lo+i*sd,x}); }
            if(ok&&vals.size()<=300){ Expr* r=vals.back().second; // from the last run to the first: e < start(next) ? v : rest
              for(int i=(int)vals.size()-2;i>=0;i--) r=mkIte(mk(O_ULT,1,e,mkC(64,vals[i+1].first)),vals[i].second,r); R[in.dst]=mkV(r); break; } } }
        u128 v; if(!concretize(*s,e,v)) DIE(); R=s->regs.data()+F->base; if(!load(*s,(u64)v,in.w2,in.w,R[in.dst])){ error(*s,"bad load address (symbolic)"); DIE(); } break; }
      case I_STORE: { const Val&a=V(in.a); u64 ad=a.lo; if(a.e){ SAVE(); u128 v; if(!concretize(*s,a.e,v)) DIE(); ad=(u64)v; } if(!store(*s,ad+in.imm,in.w2,in.w,V(in.b))){ SAVE(); error(*s,"bad store address "+std::to_string(ad+in.imm)); DIE(); } break; }
      case I_GEPK: { const Val&a=V(in.a); R[in.dst]= a.e? mkV(mk(O_ADD,64,a.e,mkC(64,in.imm))) : Val{a.lo+(u64)in.imm,0,nullptr}; break; }
      case I_GEP: { const Val&a=V(in.a),&b=V(in.b); if(!a.e&&!b.e) R[in.dst]=Val{a.lo+b.lo*(u64)(i64)in.c+(u64)in.imm,0,nullptr}; else R[in.dst]=mkV(mk(O_ADD,64,mk(O_ADD,64,mk(O_MUL,64,EX(b,64),mkC(64,(u64)(i64)in.c)),EX(a,64)),mkC(64,in.imm))); break; }
      case I_SELECT: { const Val&c=V(in.a); if(!c.e) R[in.dst]= (c.lo&1)?V(in.b):V(in.c); else { Expr* ce=EX(c,1); int q=quick(*s,ce); if(q>=0) R[in.dst]=q?V(in.b):V(in.c); else R[in.dst]=mkV(mkIte(ce,EX(V(in.b),in.w),EX(V(in.c),in.w))); } break; }
      case I_MOVE: R[in.dst]=V(in.a); break;
      case I_ALLOCA: { u64 n=in.imm; const Val&c=V(in.a); if(!c.e) n*=c.lo; u64 al=in.w?in.w:16; u64 a=(s->sp+al-1)/al*al; s->sp=a+((n+15)&~15ull); R[in.dst]=cval(a); break; }
      case I_EXTRACTDYN: { const Val&ix=V(in.a); if(!ix.e) R[in.dst]=V(f->pool[in.pool+ix.lo%in.n]); else { Expr* r=EX(V(f->pool[in.pool+in.n-1]),in.w); Expr* ie=ix.e; for(int i=in.n-2;i>=0;i--) r=mkIte(mkEq(ie,mkC(ie->w,i)),EX(V(f->pool[in.pool+i]),in.w),r); R[in.dst]=mkV(r); } break; }
      case I_INSERTDYN: { const Val&ix=V(in.a); if(ix.e){ SAVE(); error(*s,"symbolic insertelement"); DIE(); } std::vector<Val> t; for(int i=0;i<in.n;i++) t.push_back(V(f->pool[in.pool+i])); t[ix.lo%in.n]=V(in.b); for(int i=0;i<in.n;i++) R[in.dst+i]=t[i]; break; }
      case I_ARMW: { const Val&a=V(in.a); u64 ad; SAVE(); if(!conc(*s,a,ad)) DIE(); R=s->regs.data()+F->base; Val o; if(!load(*s,ad,in.w2,in.w,o)){ error(*s,"atomicrmw address"); DIE(); } Val b=V(in.b); Expr*x=EX(o,in.w),*y=EX(b,in.w),*r; switch(in.sub){ case 0:r=y;break; case 1:r=mk(O_ADD,in.w,x,y);break; case 2:r=mk(O_SUB,in.w,x,y);break; case 3:r=mk(O_AND,in.w,x,y);break; case 5:r=mk(O_OR,in.w,x,y);break; case 6:r=mk(O_XOR,in.w,x,y);break; case 7: r=mkIte(mk(O_SLT,1,x,y),y,x); break; case 8: r=mkIte(mk(O_SLT,1,x,y),x,y); break; case 9: r=mkIte(mk(O_ULT,1,x,y),y,x); break; case 10: r=mkIte(mk(O_ULT,1,x,y),x,y); break; default: error(*s,"atomicrmw op"); DIE(); } store(*s,ad,in.w2,in.w,mkV(r)); R[in.dst]=o; break; }
      case I_CMPXCHG: { SAVE(); u64 ad; if(!conc(*s,V(in.a),ad)) DIE(); R=s->regs.data()+F->base; Val o; if(!load(*s,ad,in.w2,in.w,o)){ error(*s,"cmpxchg address"); DIE(); } Expr* eq=mkEq(EX(o,in.w),EX(V(in.b),in.w)); int d=decide(*s,eq); if(d==D_DEAD) DIE(); R=s->regs.data()+F->base; if(d) store(*s,ad,in.w2,in.w,V(in.c)); R[in.dst]=o; R[in.dst+1]=cval(d); break; }
      case I_INTR: {
        if(in.sub==N_MEMCPY||in.sub==N_MEMMOVE||in.sub==N_MEMSET||in.sub==N_LIFEEND){ SAVE(); u64 d,n; if(!conc(*s,V(in.a),d)) DIE(); if(!conc(*s,V(in.c),n)) DIE(); R=s->regs.data()+F->base; if(in.sub==N_LIFEEND){ if(n<=65536) memset_(*s,d,cval(0),n); break; }
          if(in.sub==N_MEMSET){ Val c=V(in.b); if(n&&!memset_(*s,d,c,n)){ error(*s,"memset"); DIE(); } } else { u64 a; if(!conc(*s,V(in.b),a)) DIE(); R=s->regs.data()+F->base; if(n&&!memmove_(*s,d,a,n)){ error(*s,"memcpy"); DIE(); } } break; }
        if(in.sub==N_TRAP){ SAVE(); if(s->panicMode){ st.tolerated++; } else { st.panic++; endEvent(*s,"PANIC","trap"); } DIE(); }
        if(in.sub==N_MOVMSK){ bool sy=false; u64 r=0; for(int i=0;i<in.n;i++){ const Val&v=V(f->pool[in.pool+i]); if(v.e) sy=true; else r|=((v.lo>>(in.w-1))&1)<<i; } if(!sy) R[in.dst]=cval(r); else { Expr* e=nullptr; for(int i=0;i<in.n;i++){ Expr* b=mkExtract(EX(V(f->pool[in.pool+i]),in.w),in.w-1,1); e=e?mkConcat(b,e):b; } R[in.dst]=mkV(mkZext(e,32)); } break; }
        Val a=V(in.a),b=V(in.b),c=V(in.c); bool ovk=in.sub>=N_UADDO&&in.sub<=N_SMULO;
        if(!a.e&&!b.e&&!c.e){ u128 ov; u128 r=intrC(in,v128(a),v128(b),v128(c),ov); R[in.dst]=cval(r); if(ovk) R[in.dst+1]=cval(ov); }
        else { Expr* ov; bool sh3=in.sub==N_FSHL||in.sub==N_FSHR; Expr* r=intrE(in,EX(a,in.w),EX(b,(in.sub==N_CTLZ||in.sub==N_CTTZ||in.sub==N_ABS)?1:in.w),EX(c,sh3?in.w:1),ov); if(!r){ SAVE(); error(*s,"symbolic intrinsic"); DIE(); } R[in.dst]=mkV(r); if(ovk) R[in.dst+1]=mkV(ov); }
        break; }
      case I_BR: case I_CBR: case I_SWITCH: {
        int ei;
        if(in.op==I_BR) ei=in.b;
        else { const Val&c=V(in.a); 
          if(!c.e){ if(in.op==I_CBR) ei=(c.lo&1)?in.b:in.c; else { ei=in.b; u128 x=v128(c); for(int i=0;i<in.n;i++){ if(v128(C[~f->pool[in.pool+2*i]])==x){ ei=f->pool[in.pool+2*i+1]; break; } } } }
          else { SAVE(); st.instr+=ic; s->icount+=ic; ic=0;
            std::vector<std::pair<Expr*,std::vector<u128>>> alts; std::vector<int> tgt; std::vector<char> altStale; ei=-1;
            if(in.op==I_CBR){ Expr* ce=EX(c,1); int q=sides(*s,ce,true); if(q==2&&nowsec()-tStart>cfg.deadline) ic|=0xffff; bool ost=otherStale; if(q<2) ei=q?in.b:in.c;
              else { bool mv=modelSide; alts.push_back({mv?ce:mkNot(ce),s->model}); alts.push_back({mv?mkNot(ce):ce,otherModel}); tgt={mv?in.b:in.c,mv?in.c:in.b}; altStale={s->stale,ost}; } }
            else { Expr* ce=EX(c,in.w); std::map<int,Expr*> by; Expr* any=mkC(1,0); std::vector<int> eo; for(int i=0;i<in.n;i++){ int e2=f->pool[in.pool+2*i+1]; Expr* q=mkEq(ce,mkC(in.w,v128(C[~f->pool[in.pool+2*i]]))); if(isC(q)&&!q->k) continue; any=mkOr(any,q); auto it=by.find(e2); if(it==by.end()){ by[e2]=q; eo.push_back(e2);} else it->second=mkOr(it->second,q); }
              Expr* dfl=mkNot(any); if(by.count(in.b)) by[in.b]=mkOr(by[in.b],dfl); else { by[in.b]=dfl; eo.push_back(in.b); }
              for(int e2:eo) if(quick(*s,by[e2])==1){ ei=e2; break; }
              if(ei<0) for(int e2:eo){ Expr* q=by[e2]; int k=quick(*s,q); if(k==0) continue; if(evalM(q,s->model)){ alts.push_back({q,s->model}); tgt.push_back(e2); continue; } std::vector<u128> m=s->model; Res r=solve(s->pc,q,m); newEvalEpoch(); if(r==R_UNKNOWN){ error(*s,"solver gave no answer (switch)"); DIE(); } if(r==R_SAT){ alts.push_back({q,m}); tgt.push_back(e2); } else s->known[q]=0; }
              if(ei<0&&alts.empty()){ error(*s,"switch without feasible target"); DIE(); }
              if(ei<0&&alts.size()==1){ ei=tgt[0]; s->known[alts[0].first]=1; } }
            if(ei<0){ if(g_vf) fprintf(stderr,"FORK %s | %s\n",where(*s).substr(0,300).c_str(),alts.size()?toStr(alts[0].first,9).substr(0,300).c_str():""); st.forks++; Stop rs; 
              if(canMerge(*s,*F,pc,rs)){ State* o=region(s,alts,altStale,rs,pc,f); s=o; if(!o) return RR_ENDED; enter(s); flush(); newEvalEpoch(); LOADF();
                if((int)s->fr.size()-1<stop.depth) return stop.pc==-1&&(int)s->fr.size()==stop.depth?RR_ARRIVED:RR_ESCAPED; if(stop.pc>=0&&(int)s->fr.size()-1==stop.depth&&pc==stop.pc) return RR_ARRIVED; if(st.instr>budgetEnd) return RR_BUDGET; continue; }
              for(size_t k=1;k<alts.size();k++){ State* t=clone(s); t->model=alts[k].second; if(!altStale.empty()) t->stale=altStale[k]; addpc(*t,alts[k].first,true); t->depthForks++; wl->push_back(t); }
              s->model=alts[0].second; if(!altStale.empty()) s->stale=altStale[0]; newEvalEpoch(); addpc(*s,alts[0].first,true); s->depthForks++; ei=tgt[0]; F=&s->fr.back(); R=s->regs.data()+F->base; C=M.cpool.data(); }
          } }
        taken:
        { const Edge& e=f->edges[ei]; if(e.ncp){ const int* p=&f->pool[e.cp]; if(e.ncp==1) R[p[0]]=V(p[1]); else { Val tmp[64]; std::vector<Val> big; Val* t=tmp; if(e.ncp>64){ big.resize(e.ncp); t=big.data(); } for(int i=0;i<e.ncp;i++) t[i]=V(p[2*i+1]); for(int i=0;i<e.ncp;i++) R[p[2*i]]=t[i]; } }
          pc=e.target; if(pc==stop.pc&&(int)s->fr.size()-1==stop.depth){ SAVE(); st.instr+=ic; s->icount+=ic; return RR_ARRIVED; } continue; }
      }
      case I_RET: { Val tmp[8]; std::vector<Val> big; Val* t=tmp; if(in.n>8){ big.resize(in.n); t=big.data(); } for(int i=0;i<in.n;i++) t[i]=V(f->pool[in.pool+i]);
        Frame old=*F; s->fr.pop_back(); s->sp=old.sp; s->regs.resize(old.base);
        if(s->fr.empty()){ st.instr+=ic; st.ok++; if(samples.size()<3&&!s->inputs.empty()) samples[modelJson(*s)]=""; DIE(); }
        LOADF(); if(old.dst>=0) for(int i=0;i<in.n;i++) s->regs[old.dst+i]=t[i]; pc++; SAVE();
        if((int)s->fr.size()==stop.depth&&stop.pc==-1){ st.instr+=ic; s->icount+=ic; return RR_ARRIVED; } if((int)s->fr.size()<=stop.depth){ st.instr+=ic; s->icount+=ic; return RR_ESCAPED; }
        continue; }
      case I_UNREACH: SAVE(); error(*s,"unreachable executed"); DIE();
      case I_CALL: {
        SAVE(); Func* g=in.f; 
        if(!g){ u64 ad; if(!conc(*s,V(in.a),ad)) DIE(); if(ad<FBASE||((ad-FBASE)>>4)>=M.funcs.size()){ error(*s,"call of a non-function "+std::to_string(ad)); DIE(); } g=M.funcs[(ad-FBASE)>>4]; }
        R=s->regs.data()+F->base;
        Val args[48]; int n=std::min<int>(in.n,48); for(int i=0;i<n;i++) args[i]=V(f->pool[in.pool+i]);
        if(g->redirect&&g->redirect!=f){ bool go=g->symArg<0;
          if(!go&&g->symArg<n){ if(!g->symMem) go=args[g->symArg].e; else if(!args[g->symArg].e){ Val z; if(!load(*s,args[g->symArg].lo,g->symMem,g->symMem*8,z)) DIE(); go=z.e; F=&s->fr.back(); R=s->regs.data()+F->base; } }
          if(go) g=g->redirect; }
        auto it=biOf.find(g);
        if(it!=biOf.end()){ g->calls++; int status=BS_OK; Val ret[4]={{0,0,nullptr},{0,0,nullptr},{0,0,nullptr},{0,0,nullptr}}; it->second(*s,args,n,ret,status); if(status==BS_DEAD) DIE(); F=&s->fr.back(); R=s->regs.data()+F->base; if(in.dst>=0) for(int i=0;i<in.w&&i<4;i++) R[in.dst+i]=ret[i]; break; }
        if(g->ext){ error(*s,"call of unmodelled function "+g->dem); DIE(); }
        if(!pushFrame(*s,g,args,n,in.dst>=0?F->base+in.dst:-1)) DIE(); LOADF(); continue; }
      default: SAVE(); error(*s,"bad opcode"); DIE();
    }
    pc++;
  }
}

// ---------------------------------------------------------------- builtins
#define BI_DEF(nm) static void bi_##nm(State& s,const Val* a,int n,Val* ret,int& status)
#define UNUSED (void)s;(void)a;(void)n;(void)ret;(void)status
static bool argc_(State& s,const Val& v,u64& o,int& status){ if(X.conc(s,v,o)) return true; status=BS_DEAD; return false; }
#define ARG(i,name) u64 name; if(!argc_(s,a[i],name,status)) return
static u64 g_scratch; // scratch globals: errno, tls keys
static u64 balloc(State& s,u64 size,u64 al,int& status){ if(size>(1ull<<30)){ X.error(s,"allocation of "+std::to_string(size)+" bytes"); status=BS_DEAD; return 0; } if(al<16) al=16; u64 p=(s.bump+al-1)/al*al; s.bump=p+((size+15)&~15ull); return p; }
BI_DEF(rust_alloc){ UNUSED; ARG(0,sz); ARG(1,al); ret[0]=cval(balloc(s,sz,al,status)); }
BI_DEF(rust_dealloc){ UNUSED; ARG(0,p); ARG(1,sz); if(sz&&sz<=(1<<22)) X.memset_(s,p,cval(0),sz); }
BI_DEF(rust_realloc){ UNUSED; ARG(0,p); ARG(1,old); ARG(2,al); ARG(3,nw); if(p+((old+15)&~15ull)==s.bump&&p%16==0){ if(nw>(1ull<<30)){ X.error(s,"realloc"); status=BS_DEAD; return; } if(nw<old) X.memset_(s,p+nw,cval(0),old-nw); s.bump=p+((nw+15)&~15ull); ret[0]=cval(p); return; } u64 q=balloc(s,nw,al,status); if(status) return; X.memmove_(s,q,p,std::min(old,nw)); if(old<=(1<<22)) X.memset_(s,p,cval(0),old); ret[0]=cval(q); }
BI_DEF(malloc){ UNUSED; ARG(0,sz); u64 p=balloc(s,sz+16,16,status); if(status) return; X.store(s,p,8,64,cval(sz)); ret[0]=cval(p+16); }
BI_DEF(calloc){ UNUSED; ARG(0,x); ARG(1,y); u64 sz=x*y; u64 p=balloc(s,sz+16,16,status); if(status) return; X.store(s,p,8,64,cval(sz)); ret[0]=cval(p+16); }
BI_DEF(free){ UNUSED; ARG(0,p); if(!p) return; Val z; X.load(s,p-16,8,64,z); if(z.lo<=(1<<22)) X.memset_(s,p,cval(0),z.lo); }
BI_DEF(realloc){ UNUSED; ARG(0,p); ARG(1,sz); u64 q=balloc(s,sz+16,16,status); if(status) return; X.store(s,q,8,64,cval(sz)); if(p){ Val z; X.load(s,p-16,8,64,z); X.memmove_(s,q+16,p,std::min(z.lo,sz)); } ret[0]=cval(q+16); }
BI_DEF(posix_memalign){ UNUSED; ARG(0,pp); ARG(1,al); ARG(2,sz); u64 q=balloc(s,sz+al+16,al,status); if(status) return; u64 r=(q+16+al-1)/al*al; X.store(s,r-16,8,64,cval(sz)); X.store(s,pp,8,64,cval(r)); ret[0]=cval(0); }
static void cmpBytes(State& s,u64 x,u64 y,u64 n,bool ord,Val* ret,int& status){
  std::vector<Expr*> cs,ls; u64 i=0; Expr* tail=mkC(32,0); 
  for(;i<n;i++){ Exec::BV p,q; if(!X.rdByte(s,x+i,p)||!X.rdByte(s,y+i,q)){ X.error(s,"memcmp address"); status=BS_DEAD; return; } if(!p.e&&!q.e){ if(p.c==q.c) continue; tail=mkC(32,p.c<q.c?(u32)-1:1); break; } if(p.e==q.e&&p.off==q.off) continue; Expr*u=Exec::byteExpr(p),*v=Exec::byteExpr(q); Expr* e=mkEq(u,v); if(isC(e)){ if(e->k) continue; tail=ord? mkIte(mk(O_ULT,1,u,v),mkC(32,(u32)-1),mkC(32,1)):mkC(32,1); break; } cs.push_back(e); ls.push_back(ord?mk(O_ULT,1,u,v):nullptr); }
  Expr* r=tail; if(!ord){ Expr* all=mkC(1,1); for(Expr*e:cs) all=mkAnd(all,e); r=mkIte(all,tail,mkC(32,1)); } else for(int k=(int)cs.size()-1;k>=0;k--) r=mkIte(cs[k],r,mkIte(ls[k],mkC(32,(u32)-1),mkC(32,1)));
  ret[0]=mkV(r); }
BI_DEF(memcmp){ UNUSED; ARG(0,x); ARG(1,y); ARG(2,k); cmpBytes(s,x,y,k,true,ret,status); }
BI_DEF(bcmp){ UNUSED; ARG(0,x); ARG(1,y); ARG(2,k); cmpBytes(s,x,y,k,false,ret,status); }
BI_DEF(strlen){ UNUSED; ARG(0,p); u64 i=0; while(true){ Exec::BV b; if(!X.rdByte(s,p+i,b)){ X.error(s,"strlen"); status=BS_DEAD; return; } if(b.e){ int d=X.decide(s,mkEq(Exec::byteExpr(b),mkC(8,0))); if(d==Exec::D_DEAD){ status=BS_DEAD; return; } if(d) break; } else if(!b.c) break; i++; } ret[0]=cval(i); }
BI_DEF(memchr){ UNUSED; ARG(0,p); ARG(1,c); ARG(2,k); for(u64 i=0;i<k;i++){ Exec::BV b; if(!X.rdByte(s,p+i,b)){ X.error(s,"memchr"); status=BS_DEAD; return; } bool hit; if(b.e){ int d=X.decide(s,mkEq(Exec::byteExpr(b),mkC(8,c&255))); if(d==Exec::D_DEAD){ status=BS_DEAD; return; } hit=d; } else hit=b.c==(u8)c; if(hit){ ret[0]=cval(p+i); return; } } ret[0]=cval(0); }
BI_DEF(memrchr){ UNUSED; ARG(0,p); ARG(1,c); ARG(2,k); for(u64 i=k;i-->0;){ Exec::BV b; if(!X.rdByte(s,p+i,b)){ X.error(s,"memrchr"); status=BS_DEAD; return; } bool hit; if(b.e){ int d=X.decide(s,mkEq(Exec::byteExpr(b),mkC(8,c&255))); if(d==Exec::D_DEAD){ status=BS_DEAD; return; } hit=d; } else hit=b.c==(u8)c; if(hit){ ret[0]=cval(p+i); return; } } ret[0]=cval(0); }
BI_DEF(memcpy){ UNUSED; ARG(0,d); ARG(1,p); ARG(2,k); if(k) X.memmove_(s,d,p,k); ret[0]=cval(d); }
BI_DEF(memset){ UNUSED; ARG(0,d); ARG(2,k); if(k) X.memset_(s,d,a[1],k); ret[0]=cval(d); }
BI_DEF(zero){ UNUSED; ret[0]=cval(0); }
BI_DEF(one){ UNUSED; ret[0]=cval(1); }
BI_DEF(minus1){ UNUSED; ret[0]=cval(~(u64)0); }
BI_DEF(write){ UNUSED; ARG(0,fd); ARG(1,p); ARG(2,k); if(getenv("VS_ECHO")) fprintf(stderr,"[out%llu] %s",(unsigned long long)fd,X.str(s,p,k).c_str()); ret[0]=cval(k); }
BI_DEF(errno){ UNUSED; ret[0]=cval(g_scratch); }
BI_DEF(sysconf){ UNUSED; ret[0]=cval(4096); }
BI_DEF(getrandom){ UNUSED; ARG(0,p); ARG(1,k); for(u64 i=0;i<k;i++) X.store(s,p+i,1,8,cval((i*37+11)&255)); ret[0]=cval(k); }
BI_DEF(syscall){ UNUSED; ARG(0,nr); if(nr==332){ X.store(s,g_scratch,4,32,cval(38)); ret[0]=cval(~(u64)0); return; } if(nr==318){ ARG(1,p); ARG(2,k); for(u64 i=0;i<k;i++) X.store(s,p+i,1,8,cval((i*37+11)&255)); ret[0]=cval(k); return; } ret[0]=cval(0); }
BI_DEF(clock_gettime){ UNUSED; ARG(1,p); X.store(s,p,8,64,cval(1700000000)); X.store(s,p+8,8,64,cval(0)); ret[0]=cval(0); }
BI_DEF(pkey_create){ UNUSED; ARG(0,p); Val c; X.load(s,g_scratch+64,8,64,c); X.store(s,p,4,32,cval(c.lo+1)); X.store(s,g_scratch+64,8,64,cval(c.lo+1)); ret[0]=cval(0); }
BI_DEF(pkey_get){ UNUSED; ARG(0,k); X.load(s,g_scratch+128+8*(k&255),8,64,ret[0]); }
BI_DEF(pkey_set){ UNUSED; ARG(0,k); X.store(s,g_scratch+128+8*(k&255),8,64,a[1]); ret[0]=cval(0); }
static std::string argsMessage(State& s,u64 p){ Val pieces,np; std::string m; if(X.load(s,p,8,64,pieces)&&X.load(s,p+8,8,64,np)&&!pieces.e&&!np.e&&np.lo<64) for(u64 i=0;i<np.lo;i++){ Val q,l; if(X.load(s,pieces.lo+16*i,8,64,q)&&X.load(s,pieces.lo+16*i+8,8,64,l)&&!q.e&&!l.e&&l.lo<2000) m+=X.str(s,q.lo,l.lo)+(i+1<np.lo?"{}":""); } return m; }
static void panicEnd(State& s,const std::string& m,int& status){ status=BS_DEAD; if(s.panicMode){ st.tolerated++; return; } st.panic++; X.endEvent(s,"PANIC",m); }
BI_DEF(panic_fmt){ UNUSED; std::string m= a[0].e?"?":argsMessage(s,a[0].lo); std::string loc; if(n>1&&!a[1].e){ Val q,l,ln; if(X.load(s,a[1].lo,8,64,q)&&X.load(s,a[1].lo+8,8,64,l)&&X.load(s,a[1].lo+16,4,32,ln)&&!q.e&&!l.e&&l.lo<500) loc=" at "+X.str(s,q.lo,l.lo)+":"+std::to_string(ln.lo); } panicEnd(s,m+loc,status); }
BI_DEF(panic_any){ UNUSED; panicEnd(s,"panic",status); }
BI_DEF(abort){ UNUSED; panicEnd(s,"abort",status); }
BI_DEF(exit){ UNUSED; status=BS_DEAD; st.ok++; }
static double dv(const Val& v){ return u2d(v.lo); }
BI_DEF(pow){ UNUSED; if(a[0].e||a[1].e){ X.error(s,"symbolic pow"); status=BS_DEAD; return; } ret[0]=cval(d2u(pow(dv(a[0]),dv(a[1])))); }
BI_DEF(fmod){ UNUSED; if(a[0].e||a[1].e) ret[0]=mkV(mk(O_FREM,64,EX(a[0],64),EX(a[1],64))); else ret[0]=cval(d2u(fmod(dv(a[0]),dv(a[1])))); }
static void fround(const Val* a,Val* ret,int k){ ret[0]=a[0].e? mkV(mk(O_FROUND,64,a[0].e,nullptr,nullptr,k)):cval(foldop(O_FROUND,64,64,a[0].lo,0,0,k)); }
BI_DEF(floor){ UNUSED; fround(a,ret,0);} BI_DEF(ceil){ UNUSED; fround(a,ret,1);} BI_DEF(trunc){ UNUSED; fround(a,ret,2);} BI_DEF(rint){ UNUSED; fround(a,ret,3);} BI_DEF(round){ UNUSED; fround(a,ret,4);}
#define MATH1(nm) BI_DEF(nm){ UNUSED; if(a[0].e){ X.error(s,"symbolic " #nm); status=BS_DEAD; return; } ret[0]=cval(d2u(nm(dv(a[0])))); }
MATH1(log) MATH1(log2) MATH1(log10) MATH1(exp) MATH1(sqrt)
// ---- harness interface
static std::string nameArg(State& s,const Val* a,int i){ return X.str(s,a[i].lo,a[i+1].lo); }
BI_DEF(vs_sym){ UNUSED; std::string nm=nameArg(s,a,0); unsigned bits=a[2].lo; u128 lo=((u128)a[4].lo<<64)|a[3].lo,hi=((u128)a[6].lo<<64)|a[5].lo; ARG(7,out); int k=s.symc[nm]++; std::string full=nm+"#"+std::to_string(k); 
  Expr* e= lo==hi? mkC(bits,lo):mkSym(full,bits,lo,hi); if(!isC(e)){ u64 i=(u64)e->k; if(s.model.size()<=i){ size_t o=s.model.size(); s.model.resize(i+1,0); for(size_t j=o;j<s.model.size();j++) s.model[j]=g_syms[j].lo; } else if(s.model[i]<lo||s.model[i]>hi) s.model[i]=lo; newEvalEpoch(); } s.inputs.push_back({full,e}); X.store(s,out,(bits+7)/8,bits,mkV(e)); }
BI_DEF(vs_choose){ UNUSED; // eager split into concrete alternatives
  std::string nm=nameArg(s,a,0); u64 cnt=a[2].lo; int k=s.symc[nm]++; std::string full=nm+"#"+std::to_string(k); 
  // pending choice marker: the clones carry their value in `choices` already
  auto it=std::find_if(s.choices.begin(),s.choices.end(),[&](auto&c){return c.first==full;});
  if(it!=s.choices.end()){ ret[0]=cval(it->second); return; }
  if(cnt==0){ status=BS_DEAD; st.assumed++; return; }
  for(u64 v=cnt;v-->1;){ State* t=X.clone(&s); t->symc[nm]=k; t->choices.push_back({full,v}); X.wl->push_back(t); }
  s.choices.push_back({full,0}); ret[0]=cval(0); }
BI_DEF(vs_assume){ UNUSED; Expr* c=mkNot(mkEq(EX(a[0],32),mkC(32,0))); int q=X.sides(s,c); if(q<0){ X.error(s,"solver gave no answer (assume)"); status=BS_DEAD; return; } if(q==0){ st.assumed++; status=BS_DEAD; return; } if(q==2){ if(!X.modelSide){ s.model=X.otherModel; newEvalEpoch(); } X.addpc(s,c,true); } }
BI_DEF(vs_assert){ UNUSED; st.asserts++; Expr* c=mkNot(mkEq(EX(a[0],32),mkC(32,0))); if(!isC(c)) st.assertsSym++;
  if(s.stale&&X.quick(s,c)!=1){ Expr* nc=mkNot(c); std::vector<u128> om=s.model; Res r=isC(nc)?R_SAT:solve(s.pc,nc,om); newEvalEpoch(); if(r==R_UNSAT){ s.known[c]=1; return; } std::string m=nameArg(s,a,1); if(r==R_UNKNOWN){ X.error(s,"solver gave no answer on assertion "+m+": "+toStr(c,getenv("VS_DEEP")?40:7)); status=BS_DEAD; return; }
    std::vector<u128> keep=s.model; s.model=om; s.pc.push_back(nc); newEvalEpoch(); st.fail++; X.endEvent(s,"ASSERT",m); s.pc.pop_back(); s.model=keep; newEvalEpoch(); if(isC(c)){ status=BS_DEAD; return; } X.addpc(s,c,true); return; }
  int q=X.sides(s,c); if(q==1) return; std::string m=nameArg(s,a,1); if(q<0){ X.error(s,"solver gave no answer on assertion "+m+": "+toStr(c,getenv("VS_DEEP")?40:7)); status=BS_DEAD; return; }
  if(getenv("VS_DEBUGM")) fprintf(stderr,"ASSERT q=%d val=%d %s\n",q,(int)evalM(c,s.model),toStr(c,30).substr(0,6000).c_str());
  st.fail++; if(q==0){ X.endEvent(s,"ASSERT",m); status=BS_DEAD; return; }
  bool mv=X.modelSide; std::vector<u128> keep=s.model; if(mv){ s.model=X.otherModel; newEvalEpoch(); X.endEvent(s,"ASSERT",m); s.model=keep; newEvalEpoch(); } else { X.endEvent(s,"ASSERT",m); s.model=X.otherModel; newEvalEpoch(); } X.addpc(s,c,true); }
BI_DEF(vs_cover){ UNUSED; covers[nameArg(s,a,0)]++; }
BI_DEF(vs_is_sym){ UNUSED; ret[0]=cval(1); } // running under the symbolic engine
BI_DEF(vs_merge){ UNUSED; s.mergeOn=a[0].lo&3; } // 2: only inside the syntax parser
BI_DEF(vs_panics){ UNUSED; s.panicMode=a[0].lo&1; }
BI_DEF(vs_end){ UNUSED; st.ok++; status=BS_DEAD; }
BI_DEF(vs_concrete){ UNUSED; if(!a[0].e&&!a[1].e){ ret[0]=a[0]; ret[1]=a[1]; return; } u64 x,y; if(!argc_(s,a[0],x,status)) return; if(!argc_(s,a[1],y,status)) return; ret[0]=cval(x); ret[1]=cval(y); }
BI_DEF(vs_dbg){ UNUSED; std::string m=nameArg(s,a,0); fprintf(stderr,"[dbg] %s = %s\n",m.c_str(), a[2].e?toStr(a[2].e,12).c_str():dec128(v128(a[2])).c_str()); }
static std::vector<Expr*> g_tokens; static std::unordered_map<Expr*,int> g_tokid;
BI_DEF(vs_token){ UNUSED; // (lo, hi, bits) -> id + 1, or 0 when the value is constant
  unsigned bits=a[2].lo; if(!a[0].e&&!a[1].e){ ret[0]=cval(0); return; } Expr* e= bits<=64?EX(a[0],bits):mkConcat(EX(a[1],64),EX(a[0],64)); if(isC(e)){ ret[0]=cval(0); return; } if(e->lo==e->hi){ ret[0]=cval(0); return; } auto it=g_tokid.find(e); int id; if(it==g_tokid.end()){ id=g_tokens.size(); g_tokens.push_back(e); g_tokid[e]=id; } else id=it->second; ret[0]=cval(id+1); }
BI_DEF(vs_token_value){ UNUSED; ARG(0,id); ARG(1,out); if(id==0||id>g_tokens.size()){ X.error(s,"unknown token"); status=BS_DEAD; return; } Expr* e=g_tokens[id-1]; X.store(s,out,16,128,mkV(mkZext(e,128))); ret[0]=cval(e->w); }
static void initBuiltins(){
  auto& b=bis; b["__rust_alloc"]=bi_rust_alloc; b["__rust_alloc_zeroed"]=bi_rust_alloc; b["__rust_dealloc"]=bi_rust_dealloc; b["__rust_realloc"]=bi_rust_realloc;
  b["__rdl_alloc"]=bi_rust_alloc; b["__rdl_alloc_zeroed"]=bi_rust_alloc; b["__rdl_dealloc"]=bi_rust_dealloc; b["__rdl_realloc"]=bi_rust_realloc;
  b["malloc"]=bi_malloc; b["calloc"]=bi_calloc; b["free"]=bi_free; b["realloc"]=bi_realloc; b["posix_memalign"]=bi_posix_memalign;
  b["memcmp"]=bi_memcmp; b["bcmp"]=bi_bcmp; b["strlen"]=bi_strlen; b["memchr"]=bi_memchr; b["memrchr"]=bi_memrchr; b["memcpy"]=bi_memcpy; b["memmove"]=bi_memcpy; b["memset"]=bi_memset;
  b["write"]=bi_write; b["__errno_location"]=bi_errno; b["sysconf"]=bi_sysconf; b["getrandom"]=bi_getrandom; b["syscall"]=bi_syscall; b["clock_gettime"]=bi_clock_gettime;
  b["pthread_key_create"]=bi_pkey_create; b["pthread_getspecific"]=bi_pkey_get; b["pthread_setspecific"]=bi_pkey_set;
  for(const char* z:{"pthread_key_delete","pthread_mutex_init","pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_trylock","pthread_mutex_destroy","pthread_mutexattr_init","pthread_mutexattr_settype","pthread_mutexattr_destroy","pthread_cond_signal","pthread_cond_broadcast","pthread_cond_wait","pthread_rwlock_rdlock","pthread_rwlock_unlock","pthread_rwlock_wrlock","sigaction","sigaltstack","signal","sched_yield","__cxa_thread_atexit_impl","getenv","isatty","munmap","mprotect","_Unwind_Backtrace","dl_iterate_phdr","nanosleep","usleep","poll","close","fcntl","getauxval","secure_getenv","pthread_attr_destroy","pthread_attr_init","setlocale","atexit","__cxa_atexit","gettimeofday","fsync"}) b[z]=bi_zero;
  for(const char* z:{"pthread_self","pthread_getattr_np","getpid","gettid","getppid"}) b[z]=bi_one; for(const char* z:{"ioctl","open","open64","mmap","mmap64"}) b[z]=bi_minus1;
  b["proc_macro::is_available"]=bi_zero; b["abort"]=bi_abort; b["exit"]=bi_exit; b["_exit"]=bi_exit; b["pow"]=bi_pow; b["fmod"]=bi_fmod; b["floor"]=bi_floor; b["ceil"]=bi_ceil; b["trunc"]=bi_trunc; b["rint"]=bi_rint; b["round"]=bi_round; b["log"]=bi_log; b["log2"]=bi_log2; b["log10"]=bi_log10; b["exp"]=bi_exp; b["sqrt"]=bi_sqrt;
  b["core::panicking::panic_fmt"]=bi_panic_fmt; b["core::panicking::panic_nounwind_fmt"]=bi_panic_fmt; b["core::panicking::panic_nounwind"]=bi_panic_any; b["core::panicking::panic_in_cleanup"]=bi_panic_any; b["core::panicking::panic_cannot_unwind"]=bi_panic_any; b["std::panicking::begin_panic"]=bi_panic_any; b["std::panicking::rust_panic_with_hook"]=bi_panic_any; b["rust_begin_unwind"]=bi_panic_any; b["rust_panic"]=bi_panic_any; b["__rust_start_panic"]=bi_panic_any; b["alloc::alloc::handle_alloc_error"]=bi_panic_any; b["std::sys::pal::unix::abort_internal"]=bi_abort;
  b["vs_sym"]=bi_vs_sym; b["vs_choose"]=bi_vs_choose; b["vs_assume"]=bi_vs_assume; b["vs_assert"]=bi_vs_assert; b["vs_cover"]=bi_vs_cover; b["vs_is_sym"]=bi_vs_is_sym; b["vs_merge"]=bi_vs_merge; b["vs_panics"]=bi_vs_panics; b["vs_end"]=bi_vs_end; b["vs_concrete"]=bi_vs_concrete; b["vs_dbg"]=bi_vs_dbg; b["vs_token"]=bi_vs_token; b["vs_token_value"]=bi_vs_token_value;
  std::unordered_map<std::string,std::vector<Func*>> byDem; for(Func* f:M.funcs) byDem[f->dem].push_back(f);
  for(Func* f:M.funcs){ auto it=b.find(f->name); if(it==b.end()){ auto jt=b.find(f->dem); if(jt!=b.end()) it=jt; } if(it!=b.end()) biOf[f]=it->second; }
  for(Func* f:M.funcs) if(f->ext){ auto it=M.byName.find("model_"+f->name); if(it!=M.byName.end()){ biOf.erase(f); f->redirect=it->second; } }
  for(Func* f:M.funcs){ const std::string& nm=f->name; int sym=-1; std::string tgt; if(nm.compare(0,4,"ovr:")==0) tgt=nm.substr(4); else if(nm.compare(0,6,"ovrsym")==0&&nm.size()>8&&nm[7]==':'){ sym=nm[6]-'0'; tgt=nm.substr(8); } int smem=0; if(nm.compare(0,6,"ovrptr")==0&&nm.size()>8){ size_t c=nm.find(':'); if(c!=std::string::npos){ sym=nm[6]-'0'; smem=atoi(nm.substr(8,c-8).c_str()); tgt=nm.substr(c+1); } } if(tgt.empty()) continue; for(Func* t:byDem[tgt]) if(t!=f){ t->redirect=f; t->symArg=sym; t->symMem=smem; biOf.erase(t); } }
}
// ---------------------------------------------------------------- exploration driver
static std::vector<pid_t> kids; static bool isChild=false;
static void emitStats(const char* who){ std::string s="{\"ev\":\"STATS\",\"who\":"; s+=jstr(who); auto add=[&](const char*n,double v){ char b[64]; if(v==floor(v)&&fabs(v)<1e15) snprintf(b,64,",\"%s\":%.0f",n,v); else snprintf(b,64,",\"%s\":%.4f",n,v); s+=b; };
  add("ok",st.ok);add("panic",st.panic);add("tolerated",st.tolerated);add("fail",st.fail);add("assumed",st.assumed);add("error",st.error);add("budget",st.budget);add("instr",st.instr);add("forks",st.forks);add("merges",st.merges);add("mergefail",st.mergeFail);add("asserts",st.asserts);add("assertsSym",st.assertsSym);add("infeasible",st.infeasible);add("undecided",st.undecided);
  add("queries",sst.queries);add("cachehits",sst.cachehits);add("z3",sst.z3);add("fpq",sst.fpq);add("unknown",sst.unknown);add("solver_s",sst.time);add("fp_s",sst.fptime);add("maxq_s",sst.maxq);add("exprs",g_nexpr);
  s+=",\"covers\":{"; bool f=true; for(auto&c:covers){ if(!f) s+=","; f=false; s+=jstr(c.first)+":"+std::to_string(c.second);} s+="},\"samples\":["; f=true; for(auto&c:samples){ if(!f) s+=","; f=false; s+=c.first; } s+="],\"funcs\":["; f=true; for(Func* q:M.funcs) if(q->calls&&!q->ext&&(q->dem.find("subweight")!=std::string::npos||q->dem.find("swc")!=std::string::npos||q->isTarget)){ if(!f) s+=","; f=false; s+="["+jstr(q->dem)+","+std::to_string(q->calls)+"]"; } s+="]}"; outLine(s); }
void Exec::explore(){
  int spin=0;
  while(!top.empty()){
    if(sh->stop.load()){ while(!top.empty()){ destroy(top.front()); top.pop_front(); } break; }
    if(sh->viol.load()>=cfg.maxViol){ sh->stop=2; continue; }
    if(top.size()>1&&sh->tokens.load()>0){ int t=sh->tokens.fetch_sub(1); if(t<=0) sh->tokens.fetch_add(1); else {
        size_t h=top.size()/2; fflush(stdout); fflush(stderr); pid_t p=fork();
        if(p==0){ isChild=true; kids.clear(); st=Stats(); sst=SolverStats(); covers.clear(); samples.clear(); g_viol=0; for(Func* f:M.funcs) f->calls=0; size_t k=top.size()-h; while(k--){ destroy(top.back()); top.pop_back(); } cur=nullptr; flush(); solverAfterFork(); continue; }
        if(p>0){ kids.push_back(p); while(h--){ destroy(top.front()); top.pop_front(); } flush(); } else sh->tokens.fetch_add(1); } }
    State* s=top.back(); top.pop_back(); wl=&top; nest=0; budgetEnd=~0ull; run(s,Stop()); 
    if(cfg.verbose&&(++spin%200)==0) fprintf(stderr,"[%d] wl=%zu ok=%llu panic=%llu fail=%llu err=%llu forks=%llu merges=%llu/%llu instr=%.1fM q=%llu z3=%llu %.1fs t=%.1f\n",(int)getpid(),top.size(),(unsigned long long)st.ok,(unsigned long long)st.panic,(unsigned long long)st.fail,(unsigned long long)st.error,(unsigned long long)st.forks,(unsigned long long)st.merges,(unsigned long long)st.mergeFail,st.instr/1e6,(unsigned long long)sst.queries,(unsigned long long)sst.z3,sst.time,nowsec()-tStart);
  }
  emitStats(isChild?"child":"main"); sh->tokens.fetch_add(1);
  for(pid_t k:kids){ int w; waitpid(k,&w,0); if(!(WIFEXITED(w)&&WEXITSTATUS(w)==0)){ sh->err++; outLine("{\"ev\":\"ERROR\",\"msg\":\"worker died\",\"where\":\"\",\"model\":{}}"); } }
  if(isChild) _exit(0);
}
static int runMain(int argc,char** argv){
  const char* mod=argv[0]; std::string root; for(int i=1;i<argc;i++){ std::string o=argv[i]; auto nx=[&]{ return argv[++i]; }; if(o=="--root") root=nx(); else if(o=="--out") cfg.out=nx(); else if(o=="--jobs") cfg.jobs=atoi(nx()); else if(o=="--deadline") cfg.deadline=atof(nx()); else if(o=="--maxinstr") cfg.maxInstr=atof(nx()); else if(o=="--qtimeout") g_qtimeout=atof(nx()); else if(o=="--maxviol") cfg.maxViol=atoi(nx()); else if(o=="--mergewords") cfg.mergeWords=atoi(nx()); else if(o=="--nest") cfg.maxNest=atoi(nx()); else if(o=="-v") cfg.verbose=true; else { fprintf(stderr,"unknown option %s\n",o.c_str()); return 2; } }
  tStart=nowsec(); sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sh->tokens=cfg.jobs-1; 
  if(!cfg.out.empty()) outFd=open(cfg.out.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); else outFd=1;
  State* s=new State; s->bump=HBASE+4096; s->sp=SBASE+4096; X.enter(s);
  loadModule(mod,[&](u64 a,const u8* d,size_t n){ X.writeBytes(*s,a,d,n); });
  g_scratch=(M.gend+4095)/4096*4096+4096; X.store(*s,g_scratch+64,8,64,cval(0));
  initBuiltins();
  auto it=M.byName.find(root); if(it==M.byName.end()){ fprintf(stderr,"no function %s\n",root.c_str()); return 2; }
  if(!X.pushFrame(*s,it->second,nullptr,0,-1)) return 2;
  X.top.push_back(s); X.explore();
  outLine("{\"ev\":\"DONE\",\"err\":"+std::to_string(sh->err.load())+",\"viol\":"+std::to_string(sh->viol.load())+",\"stop\":"+std::to_string(sh->stop.load())+",\"wall\":"+std::to_string(nowsec()-tStart)+"}");
  return sh->err.load()?2: sh->viol.load()?1:0;
}
int main(int argc,char** argv){
  if(argc>=2&&!strcmp(argv[1],"link")) return linkArchive(argc-2,argv+2);
  if(argc>=3&&!strcmp(argv[1],"run")){ struct rlimit rl={1ul<<30,RLIM_INFINITY}; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(1ul<<30)&&!getenv("VS_STK")){ rl.rlim_cur=rl.rlim_max==RLIM_INFINITY?(1ul<<30):rl.rlim_max; setrlimit(RLIMIT_STACK,&rl); setenv("VS_STK","1",1); execv("/proc/self/exe",argv); } return runMain(argc-2,argv+2); }
  if(argc>=3&&!strcmp(argv[1],"names")){ loadModule(argv[2],[](u64,const u8*,size_t){}); for(Func* f:M.funcs) printf("%s %s | %s\n",f->ext?"ext":"def",f->dem.c_str(),f->name.c_str()); return 0; }
  fprintf(stderr,"usage: vsym link OUT LIB ROOT.. | run MOD --root F | names MOD\n"); return 2;
}
