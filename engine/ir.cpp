#include "ir.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Operator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Demangle/Demangle.h"
#include <cstdio>
using namespace llvm;
::Module M;
static LLVMContext* LC; static std::unique_ptr<llvm::Module> LM; static const DataLayout* DL;
static std::unordered_map<const Function*,Func*> fmap; static std::unordered_map<const GlobalVariable*,u64> gmap;
static std::unordered_map<u64,std::vector<int>> cidx;
static int constOp(u128 v){ u64 h=(u64)v*0x9E3779B97F4A7C15ull^(u64)(v>>64); for(int i:cidx[h]) if(v128(M.cpool[i])==v) return ~i; M.cpool.push_back(cval(v)); int i=M.cpool.size()-1; cidx[h].push_back(i); return ~i; }
struct Leaf { Type* t; u64 off; unsigned w; };
static unsigned scalarBits(Type* t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
static void flatten(Type* t, u64 off, std::vector<Leaf>& out){
  if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flatten(s->getElementType(i),off+sl->getElementOffset(i),out); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ u64 sz=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) flatten(a->getElementType(),off+i*sz,out); return; }
  if(auto*v=dyn_cast<FixedVectorType>(t)){ unsigned b=scalarBits(v->getElementType()); u64 sz=b/8; for(unsigned i=0;i<v->getNumElements();i++) out.push_back({v->getElementType(),off+i*sz,b}); return; }
  if(t->isVoidTy()) return;
  unsigned b=scalarBits(t); out.push_back({t,off,b}); }
static std::unordered_map<Type*,std::vector<Leaf>> leafc;
static const std::vector<Leaf>& leaves(Type* t){ auto it=leafc.find(t); if(it!=leafc.end()) return it->second; std::vector<Leaf> v; flatten(t,0,v); return leafc.emplace(t,std::move(v)).first->second; }
static u64 faddr(const Function* f){ return FBASE+16ull*fmap[f]->idx; }
static u128 constScalar(const Constant* c);
static u64 gepOff(const GEPOperator* g){ APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) { errs()<<"non-const gep const\n"; abort(); } return off.getZExtValue(); }
static u128 apint(const APInt& a){ u128 r=0; unsigned n=a.getNumWords(); r=a.getRawData()[0]; if(n>1) r|=(u128)a.getRawData()[1]<<64; return r; }
static u128 constScalar(const Constant* c){
  if(auto*i=dyn_cast<ConstantInt>(c)) return apint(i->getValue());
  if(auto*f=dyn_cast<ConstantFP>(c)) return apint(f->getValueAPF().bitcastToAPInt());
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)) return 0;
  if(auto*f=dyn_cast<Function>(c)){ return faddr(f); }
  if(auto*g=dyn_cast<GlobalVariable>(c)){ auto it=gmap.find(g); if(it==gmap.end()) return 0; return it->second; }
  if(auto*a=dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
  if(auto*e=dyn_cast<ConstantExpr>(c)){
    switch(e->getOpcode()){
      case Instruction::GetElementPtr: return (u64)(constScalar(e->getOperand(0))+gepOff(cast<GEPOperator>(e)));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { u128 v=constScalar(e->getOperand(0)); unsigned w=scalarBits(e->getType()); return v&maskw(w); }
      case Instruction::Trunc: return constScalar(e->getOperand(0))&maskw(scalarBits(e->getType()));
      case Instruction::Add: return (constScalar(e->getOperand(0))+constScalar(e->getOperand(1)))&maskw(scalarBits(e->getType()));
      case Instruction::Sub: return (constScalar(e->getOperand(0))-constScalar(e->getOperand(1)))&maskw(scalarBits(e->getType()));
      case Instruction::Xor: return constScalar(e->getOperand(0))^constScalar(e->getOperand(1));
      case Instruction::ICmp: { auto p=(CmpInst::Predicate)e->getPredicate(); u128 a=constScalar(e->getOperand(0)),b=constScalar(e->getOperand(1)); return p==CmpInst::ICMP_EQ?a==b:a!=b; }
      default: break; } }
  errs()<<"constScalar: "<<*c<<"\n"; abort(); }
static void constLeaves(const Constant* c, std::vector<u128>& out){
  Type* t=c->getType();
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||(isa<ConstantPointerNull>(c))){ size_t n=leaves(t).size(); for(size_t i=0;i<n;i++) out.push_back(0); return; }
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<d->getNumElements();i++) out.push_back(constScalar(d->getElementAsConstant(i))); return; }
  if(isa<ConstantAggregate>(c)){ for(unsigned i=0;i<c->getNumOperands();i++) constLeaves(cast<Constant>(c->getOperand(i)),out); return; }
  out.push_back(constScalar(c)); }
static void writeConst(const Constant* c, u64 addr, std::function<void(u64,const u8*,size_t)>& wr){
  Type* t=c->getType();
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)||isa<ConstantPointerNull>(c)) return;
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ auto s=d->getRawDataValues(); wr(addr,(const u8*)s.data(),s.size()); return; }
  if(auto*s=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<s->getNumOperands();i++) writeConst(s->getOperand(i),addr+sl->getElementOffset(i),wr); return; }
  if(auto*a=dyn_cast<ConstantArray>(c)){ u64 sz=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) writeConst(a->getOperand(i),addr+i*sz,wr); return; }
  if(auto*v=dyn_cast<ConstantVector>(c)){ u64 sz=scalarBits(cast<VectorType>(t)->getElementType())/8; for(unsigned i=0;i<v->getNumOperands();i++) writeConst(v->getOperand(i),addr+i*sz,wr); return; }
  u128 x=constScalar(c); unsigned n=(scalarBits(t)+7)/8; wr(addr,(const u8*)&x,n); }
static std::string cleanName(const std::string& m){ std::string d=demangle(m); size_t p=d.rfind("::h"); if(p!=std::string::npos&&d.size()-p==19) d.resize(p);
  // legacy Rust escapes that the demangler leaves in place
  static const std::pair<const char*,const char*> R[]={{"$LT$","<"},{"$GT$",">"},{"$u20$"," "},{"$RF$","&"},{"$BP$","*"},{"$LP$","("},{"$RP$",")"},{"$C$",","},{"$u7b$","{"},{"$u7d$","}"},{"$u5b$","["},{"$u5d$","]"},{"$u27$","'"},{"..","::"}};
  for(auto&r:R){ size_t q; while((q=d.find(r.first))!=std::string::npos) d.replace(q,strlen(r.first),r.second); }
  return d; }
void loadModule(const char* path, std::function<void(u64,const u8*,size_t)> wr){
  LC=new LLVMContext; auto mb=MemoryBuffer::getFile(path); if(!mb){ fprintf(stderr,"cannot open %s\n",path); exit(2); }
  static std::unique_ptr<MemoryBuffer> keep=std::move(*mb);
  auto m=getOwningLazyBitcodeModule(MemoryBuffer::getMemBuffer(keep->getMemBufferRef(),false),*LC); if(!m){ fprintf(stderr,"bad bitcode\n"); exit(2); } LM=std::move(*m); DL=new DataLayout(LM.get());
  for(auto& f:*LM){ Func* g=new Func; g->name=f.getName().str(); g->dem=cleanName(g->name); g->idx=M.funcs.size(); g->llf=&f; g->ext=f.isDeclaration(); M.funcs.push_back(g); M.byName[g->name]=g; fmap[&f]=g; }
  u64 a=GBASE+0x1000;
  for(auto& g:LM->globals()){ if(g.isDeclaration()&&g.hasExternalWeakLinkage()) continue; u64 al=std::max<u64>(16,g.getAlign().valueOrOne().value()); a=(a+al-1)/al*al; gmap[&g]=a; M.gaddr[g.getName().str()]=a; a+=std::max<u64>(1,DL->getTypeAllocSize(g.getValueType())); }
  M.gend=a;
  for(auto& g:LM->globals()) if(g.hasInitializer()) writeConst(g.getInitializer(),gmap[&g],wr);
}
// ---------------------------------------------------------------- decoding
struct Dec {
  Func* F; const Function* f; std::unordered_map<const Value*,std::vector<int>> vm; int ns=0; 
  std::unordered_map<const BasicBlock*,int> bid; 
  std::vector<int> ops(const Value* v){ if(auto*c=dyn_cast<Constant>(v)){ std::vector<u128> l; constLeaves(c,l); std::vector<int> r; for(u128 x:l) r.push_back(constOp(x)); return r; }
    auto it=vm.find(v); if(it==vm.end()){ errs()<<"undef value in "<<F->dem<<": "<<*v<<"\n"; std::vector<int> z(leaves(v->getType()).size(),constOp(0)); return z; } return it->second; }
  int op1(const Value* v){ return ops(v)[0]; }
  int fresh(int n=1){ int r=ns; ns+=n; return r; }
  Inst& emit(IOp op){ Inst i; memset(&i,0,sizeof i); i.op=op; i.dst=-1; i.a=i.b=i.c=constOp(0); i.pool=-1; F->code.push_back(i); return F->code.back(); }
  std::vector<int> freshv(const Value* v){ int n=leaves(v->getType()).size(); int b=fresh(n); std::vector<int> r; for(int i=0;i<n;i++) r.push_back(b+i); return r; }
  int pool(const std::vector<int>& v){ int p=F->pool.size(); F->pool.insert(F->pool.end(),v.begin(),v.end()); return p; }
  int edge(const BasicBlock* from, const BasicBlock* to){ Edge e; e.block=bid[to]; e.target=-1; e.cp=-1; e.ncp=0; F->edges.push_back(e); edgeSrc.push_back({from,to}); return F->edges.size()-1; }
  std::vector<std::pair<const BasicBlock*,const BasicBlock*>> edgeSrc;
  void intr(const CallInst* ci, unsigned id);
  void run();
  void ins(const Instruction& I, const BasicBlock* bb);
};
static int fcmpK(CmpInst::Predicate p){ return (int)p; }
static std::unordered_map<std::string,int>& intrTab(){ static std::unordered_map<std::string,int> t={
 {"llvm.uadd.with.overflow",N_UADDO},{"llvm.usub.with.overflow",N_USUBO},{"llvm.umul.with.overflow",N_UMULO},{"llvm.sadd.with.overflow",N_SADDO},{"llvm.ssub.with.overflow",N_SSUBO},{"llvm.smul.with.overflow",N_SMULO},
 {"llvm.uadd.sat",N_UADDS},{"llvm.usub.sat",N_USUBS},{"llvm.sadd.sat",N_SADDS},{"llvm.ssub.sat",N_SSUBS},{"llvm.ctlz",N_CTLZ},{"llvm.cttz",N_CTTZ},{"llvm.ctpop",N_CTPOP},{"llvm.bswap",N_BSWAP},{"llvm.bitreverse",N_BITREV},{"llvm.fshl",N_FSHL},{"llvm.fshr",N_FSHR},
 {"llvm.umin",N_UMIN},{"llvm.umax",N_UMAX},{"llvm.smin",N_SMIN},{"llvm.smax",N_SMAX},{"llvm.abs",N_ABS},{"llvm.fptoui.sat",N_FPTOUI_SAT},{"llvm.fptosi.sat",N_FPTOSI_SAT},{"llvm.fabs",N_FABS},{"llvm.floor",N_FLOOR},{"llvm.ceil",N_CEIL},{"llvm.trunc",N_TRUNC},{"llvm.rint",N_RINT},{"llvm.roundeven",N_RINT},{"llvm.nearbyint",N_RINT},{"llvm.round",N_ROUND},{"llvm.copysign",N_COPYSIGN}}; return t; }
void Dec::intr(const CallInst* ci, unsigned id){
  std::string nm=ci->getCalledFunction()->getName().str();
  auto starts=[&](const char* p){ return nm.compare(0,strlen(p),p)==0; };
  if(starts("llvm.lifetime.start")||starts("llvm.dbg")||starts("llvm.experimental.noalias")||starts("llvm.invariant")||starts("llvm.prefetch")||starts("llvm.donothing")) return;
  if(starts("llvm.assume")) return;
  if(starts("llvm.lifetime.end")){ auto*sz=dyn_cast<ConstantInt>(ci->getArgOperand(0)); if(!sz||sz->getSExtValue()<=0||sz->getSExtValue()>65536) return; int a=op1(ci->getArgOperand(1)),c=op1(ci->getArgOperand(0)); Inst& i=emit(I_INTR); i.sub=N_LIFEEND; i.a=a; i.c=c; return; }
  if(starts("llvm.memcpy")||starts("llvm.memmove")||starts("llvm.memset")){ Inst& i=emit(I_INTR); i.sub=starts("llvm.memcpy")?N_MEMCPY:starts("llvm.memmove")?N_MEMMOVE:N_MEMSET; int a=op1(ci->getArgOperand(0)),b=op1(ci->getArgOperand(1)),c=op1(ci->getArgOperand(2)); Inst& j=F->code.back(); j.a=a;j.b=b;j.c=c; return; }
  if(starts("llvm.trap")||starts("llvm.debugtrap")||starts("llvm.ubsantrap")){ emit(I_INTR).sub=N_TRAP; return; }
  if(starts("llvm.expect")){ vm[ci]=ops(ci->getArgOperand(0)); return; }
  if(starts("llvm.threadlocal.address")||starts("llvm.ptrmask.")||starts("llvm.launder")||starts("llvm.strip.inv")){ vm[ci]=ops(ci->getArgOperand(0)); return; }
  if(starts("llvm.load.relative.")){ int p=op1(ci->getArgOperand(0)),o=op1(ci->getArgOperand(1)); int q=fresh(),v=fresh(),x=fresh(),d=fresh();
    { Inst& i=emit(I_BIN); i.sub=O_ADD; i.dst=q; i.a=p; i.b=o; i.w=64; } { Inst& i=emit(I_LOAD); i.dst=v; i.a=q; i.imm=0; i.w=32; i.w2=4; }
    { Inst& i=emit(I_SEXT); i.dst=x; i.a=v; i.w=64; i.w2=32; } { Inst& i=emit(I_BIN); i.sub=O_ADD; i.dst=d; i.a=p; i.b=x; i.w=64; } vm[ci]={d}; return; }
  if(starts("llvm.is.constant")){ vm[ci]={constOp(0)}; return; }
  if(starts("llvm.objectsize")){ vm[ci]={constOp(~(u64)0)}; return; }
  if(starts("llvm.frameaddress")||starts("llvm.returnaddress")){ vm[ci]={constOp(0)}; return; }
  if(starts("llvm.x86.sse2.pause")||starts("llvm.x86.sse2.mfence")||starts("llvm.x86.sse2.lfence")) return;
  if(starts("llvm.x86.sse2.pmovmskb")||starts("llvm.x86.avx2.pmovmskb")){ auto v=ops(ci->getArgOperand(0)); int d=fresh(); int p=pool(v); Inst& i=emit(I_INTR); i.sub=N_MOVMSK; i.dst=d; i.pool=p; i.n=v.size(); i.w=8; vm[ci]={d}; return; }
  if(starts("llvm.vector.reduce.")){ auto v=ops(ci->getArgOperand(0)); std::string k=nm.substr(19); unsigned w=scalarBits(ci->getType()); int acc=v[0];
    for(size_t q=1;q<v.size();q++){ int d=fresh(); if(k.compare(0,2,"um")==0||k.compare(0,2,"sm")==0){ Inst& i=emit(I_INTR); i.sub=k.compare(0,4,"umax")==0?N_UMAX:k.compare(0,4,"umin")==0?N_UMIN:k.compare(0,4,"smax")==0?N_SMAX:N_SMIN; i.dst=d;i.a=acc;i.b=v[q];i.w=w; }
      else { Inst& i=emit(I_BIN); i.sub= k.compare(0,3,"add")==0?O_ADD:k.compare(0,2,"or")==0?O_OR:k.compare(0,3,"and")==0?O_AND:k.compare(0,3,"xor")==0?O_XOR:O_MUL; i.dst=d;i.a=acc;i.b=v[q];i.w=w; } acc=d; }
    vm[ci]={acc}; return; }
  // generic elementwise: longest prefix before type suffix
  for(auto&kv:intrTab()) if(nm.compare(0,kv.first.size(),kv.first)==0&&nm.size()>kv.first.size()&&nm[kv.first.size()]=='.'){
    int k=kv.second; 
    if(k==N_TRUNC&&nm.compare(0,11,"llvm.trunc.")!=0) continue;
    auto a=ops(ci->getArgOperand(0)); std::vector<int> b,c; if(ci->arg_size()>1) b=ops(ci->getArgOperand(1)); if(ci->arg_size()>2) c=ops(ci->getArgOperand(2));
    unsigned w=leaves(ci->getArgOperand(0)->getType())[0].w; auto& rl=leaves(ci->getType());
    bool ov=k>=N_UADDO&&k<=N_SMULO; int n=a.size(); std::vector<int> r(rl.size());
    for(int q=0;q<n;q++){ int d=fresh(ov?2:1); Inst& i=emit(I_INTR); i.sub=k; i.dst=d; i.a=a[q]; i.b=b.empty()?constOp(0):b[b.size()==1?0:q]; i.c=c.empty()?constOp(0):c[c.size()==1?0:q]; i.w=w; i.w2=rl[0].w;
      if(ov){ r[q]=d; r[n+q]=d+1; } else r[q]=d; }
    vm[ci]=r; return; }
  // unsupported: report if reached
  int d=fresh(leaves(ci->getType()).size()); std::vector<int> r; for(size_t q=0;q<leaves(ci->getType()).size();q++) r.push_back(d+q); vm[ci]=r; Inst& i=emit(I_CALL); i.f=fmap[ci->getCalledFunction()]; i.dst=d; i.n=0; i.pool=0; (void)id;
}
void Dec::ins(const Instruction& I, const BasicBlock* bb){
  auto elementwise=[&](IOp op,int sub){ auto a=ops(I.getOperand(0)),b=ops(I.getOperand(1)); auto d=freshv(&I); unsigned w=leaves(I.getOperand(0)->getType())[0].w; for(size_t q=0;q<a.size();q++){ Inst& i=emit(op); i.sub=sub; i.dst=d[q]; i.a=a[q]; i.b=b[q]; i.w=w; } vm[&I]=d; };
  switch(I.getOpcode()){
    case Instruction::Add: elementwise(I_BIN,O_ADD); break; case Instruction::Sub: elementwise(I_BIN,O_SUB); break; case Instruction::Mul: elementwise(I_BIN,O_MUL); break;
    case Instruction::UDiv: elementwise(I_BIN,O_UDIV); break; case Instruction::SDiv: elementwise(I_BIN,O_SDIV); break; case Instruction::URem: elementwise(I_BIN,O_UREM); break; case Instruction::SRem: elementwise(I_BIN,O_SREM); break;
    case Instruction::And: elementwise(I_BIN,O_AND); break; case Instruction::Or: elementwise(I_BIN,O_OR); break; case Instruction::Xor: elementwise(I_BIN,O_XOR); break;
    case Instruction::Shl: elementwise(I_BIN,O_SHL); break; case Instruction::LShr: elementwise(I_BIN,O_LSHR); break; case Instruction::AShr: elementwise(I_BIN,O_ASHR); break;
    case Instruction::FAdd: elementwise(I_FBIN,O_FADD); break; case Instruction::FSub: elementwise(I_FBIN,O_FSUB); break; case Instruction::FMul: elementwise(I_FBIN,O_FMUL); break; case Instruction::FDiv: elementwise(I_FBIN,O_FDIV); break; case Instruction::FRem: elementwise(I_FBIN,O_FREM); break;
    case Instruction::FNeg: { auto a=ops(I.getOperand(0)); auto d=freshv(&I); unsigned w=leaves(I.getType())[0].w; for(size_t q=0;q<a.size();q++){ Inst& i=emit(I_BIN); i.sub=O_XOR; i.dst=d[q]; i.a=a[q]; i.b=constOp((u128)1<<(w-1)); i.w=w; } vm[&I]=d; break; }
    case Instruction::ICmp: elementwise(I_ICMP,cast<ICmpInst>(I).getPredicate()); break;
    case Instruction::FCmp: elementwise(I_FCMP,fcmpK(cast<FCmpInst>(I).getPredicate())); break;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: {
      auto a=ops(I.getOperand(0)); unsigned w=leaves(I.getType())[0].w,w2=leaves(I.getOperand(0)->getType())[0].w; auto d=freshv(&I); 
      for(size_t q=0;q<a.size();q++){ IOp o=I_FPCAST; int sub=0; switch(I.getOpcode()){ case Instruction::ZExt:o=I_ZEXT;break; case Instruction::SExt:o=I_SEXT;break; case Instruction::Trunc:o=I_TRUNC;break; case Instruction::FPTrunc: sub=O_FPTRUNC; break; case Instruction::FPExt: sub=O_FPEXT; break; case Instruction::UIToFP: sub=O_UITOFP; break; case Instruction::SIToFP: sub=O_SITOFP; break; case Instruction::FPToUI: sub=O_FPTOUI_SAT; break; default: sub=O_FPTOSI_SAT; }
        Inst& i=emit(o); i.sub=sub; i.dst=d[q]; i.a=a[q]; i.w=w; i.w2=w2; } vm[&I]=d; break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { auto a=ops(I.getOperand(0)); unsigned w=leaves(I.getType())[0].w,w2=leaves(I.getOperand(0)->getType())[0].w; if(w==w2){ vm[&I]=a; break; } auto d=freshv(&I); for(size_t q=0;q<a.size();q++){ Inst& i=emit(w>w2?I_ZEXT:I_TRUNC); i.dst=d[q]; i.a=a[q]; i.w=w; i.w2=w2; } vm[&I]=d; break; }
    case Instruction::BitCast: { auto a=ops(I.getOperand(0)); auto&l1=leaves(I.getOperand(0)->getType()); auto&l2=leaves(I.getType()); if(l1.size()==l2.size()){ vm[&I]=a; break; } auto d=freshv(&I); int p=pool(a); Inst& i=emit(I_REPACK); i.dst=d[0]; i.pool=p; i.n=a.size(); i.w2=l1[0].w; i.w=l2[0].w; i.imm=l2.size(); vm[&I]=d; break; }
    case Instruction::Freeze: vm[&I]=ops(I.getOperand(0)); break;
    case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); u64 sz=DL->getTypeAllocSize(A.getAllocatedType()); int d=fresh(); int n=op1(A.getArraySize()); Inst& i=emit(I_ALLOCA); i.dst=d; i.a=n; i.imm=sz; i.w=std::max<u64>(16,A.getAlign().value()); vm[&I]={d}; break; }
    case Instruction::Load: { auto&L=cast<LoadInst>(I); int p=op1(L.getPointerOperand()); auto&l=leaves(I.getType()); auto d=freshv(&I); for(size_t q=0;q<l.size();q++){ Inst& i=emit(I_LOAD); i.dst=d[q]; i.a=p; i.imm=l[q].off; i.w=l[q].w; i.w2=(l[q].w+7)/8; } vm[&I]=d; break; }
    case Instruction::Store: { auto&S=cast<StoreInst>(I); int p=op1(S.getPointerOperand()); auto v=ops(S.getValueOperand()); auto&l=leaves(S.getValueOperand()->getType()); for(size_t q=0;q<l.size();q++){ Inst& i=emit(I_STORE); i.a=p; i.b=v[q]; i.imm=l[q].off; i.w=l[q].w; i.w2=(l[q].w+7)/8; } break; }
    case Instruction::GetElementPtr: { auto&G=cast<GetElementPtrInst>(I); int p=op1(G.getPointerOperand()); u64 off=0; std::vector<std::pair<int,u64>> var; std::vector<unsigned> vw;
      for(auto gti=gep_type_begin(G),ge=gep_type_end(G);gti!=ge;++gti){ Value* ix=gti.getOperand(); if(StructType* st=gti.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
        else { u64 sz=DL->getTypeAllocSize(gti.getIndexedType()); if(auto*c=dyn_cast<ConstantInt>(ix)) off+=sz*(u64)c->getSExtValue(); else { unsigned w=scalarBits(ix->getType()); int o=op1(ix); if(w<64){ int d=fresh(); Inst& i=emit(I_SEXT); i.dst=d;i.a=o;i.w=64;i.w2=w; o=d; } var.push_back({o,sz}); } } }
      if(var.empty()){ if(off==0){ vm[&I]={p}; break; } int d=fresh(); Inst& i=emit(I_GEPK); i.dst=d;i.a=p;i.imm=off; vm[&I]={d}; break; }
      int cur=p; for(size_t q=0;q<var.size();q++){ int d=fresh(); Inst& i=emit(I_GEP); i.dst=d; i.a=cur; i.b=var[q].first; i.c=(int)var[q].second; i.imm= q==0?off:0; cur=d; } vm[&I]={cur}; break; }
    case Instruction::Select: { auto c=ops(I.getOperand(0)),a=ops(I.getOperand(1)),b=ops(I.getOperand(2)); auto d=freshv(&I); auto&l=leaves(I.getType()); for(size_t q=0;q<a.size();q++){ Inst& i=emit(I_SELECT); i.dst=d[q]; i.a=c.size()==1?c[0]:c[q]; i.b=a[q]; i.c=b[q]; i.w=l[q].w; i.sub=l[q].t->isPointerTy(); } vm[&I]=d; break; }
    case Instruction::ExtractValue: { auto&E=cast<ExtractValueInst>(I); auto a=ops(E.getAggregateOperand()); Type* t=E.getAggregateOperand()->getType(); size_t st=0; for(unsigned ix:E.indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned q=0;q<ix;q++) st+=leaves(s->getElementType(q)).size(); t=s->getElementType(ix);} else { auto*ar=cast<ArrayType>(t); st+=ix*leaves(ar->getElementType()).size(); t=ar->getElementType(); } }
      vm[&I]=std::vector<int>(a.begin()+st,a.begin()+st+leaves(t).size()); break; }
    case Instruction::InsertValue: { auto&E=cast<InsertValueInst>(I); auto a=ops(E.getAggregateOperand()),v=ops(E.getInsertedValueOperand()); Type* t=E.getAggregateOperand()->getType(); size_t st=0; for(unsigned ix:E.indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned q=0;q<ix;q++) st+=leaves(s->getElementType(q)).size(); t=s->getElementType(ix);} else { auto*ar=cast<ArrayType>(t); st+=ix*leaves(ar->getElementType()).size(); t=ar->getElementType(); } }
      for(size_t q=0;q<v.size();q++) a[st+q]=v[q]; vm[&I]=a; break; }
    case Instruction::ExtractElement: { auto a=ops(I.getOperand(0)); if(auto*c=dyn_cast<ConstantInt>(I.getOperand(1))){ vm[&I]={a[c->getZExtValue()%a.size()]}; break; } int ix=op1(I.getOperand(1)); int d=fresh(); int p=pool(a); Inst& i=emit(I_EXTRACTDYN); i.dst=d; i.pool=p; i.n=a.size(); i.a=ix; i.w=leaves(I.getType())[0].w; vm[&I]={d}; break; }
    case Instruction::InsertElement: { auto a=ops(I.getOperand(0)); int v=op1(I.getOperand(1)); if(auto*c=dyn_cast<ConstantInt>(I.getOperand(2))){ a[c->getZExtValue()%a.size()]=v; vm[&I]=a; break; } int ix=op1(I.getOperand(2)); auto d=freshv(&I); int p=pool(a); Inst& i=emit(I_INSERTDYN); i.dst=d[0]; i.pool=p; i.n=a.size(); i.a=ix; i.b=v; vm[&I]=d; break; }
    case Instruction::ShuffleVector: { auto&S=cast<ShuffleVectorInst>(I); auto a=ops(S.getOperand(0)),b=ops(S.getOperand(1)); std::vector<int> r; for(int k:S.getShuffleMask()){ if(k<0) r.push_back(constOp(0)); else if(k<(int)a.size()) r.push_back(a[k]); else r.push_back(b[k-a.size()]); } vm[&I]=r; break; }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: { auto&A=cast<AtomicRMWInst>(I); int p=op1(A.getPointerOperand()),v=op1(A.getValOperand()); int d=fresh(); Inst& i=emit(I_ARMW); i.dst=d;i.a=p;i.b=v; i.sub=A.getOperation(); i.w=leaves(I.getType())[0].w; i.w2=(i.w+7)/8; vm[&I]={d}; break; }
    case Instruction::AtomicCmpXchg: { auto&A=cast<AtomicCmpXchgInst>(I); int p=op1(A.getPointerOperand()),c=op1(A.getCompareOperand()),n=op1(A.getNewValOperand()); int d=fresh(2); Inst& i=emit(I_CMPXCHG); i.dst=d;i.a=p;i.b=c;i.c=n; i.w=leaves(A.getCompareOperand()->getType())[0].w; i.w2=(i.w+7)/8; vm[&I]={d,d+1}; break; }
    case Instruction::Br: { auto&B=cast<BranchInst>(I); if(B.isUnconditional()){ int e=edge(bb,B.getSuccessor(0)); Inst& i=emit(I_BR); i.b=e; } else { int c=op1(B.getCondition()); int e1=edge(bb,B.getSuccessor(0)),e2=edge(bb,B.getSuccessor(1)); Inst& i=emit(I_CBR); i.a=c;i.b=e1;i.c=e2; } break; }
    case Instruction::Switch: { auto&S=cast<SwitchInst>(I); int c=op1(S.getCondition()); std::vector<int> p; int de=edge(bb,S.getDefaultDest()); std::unordered_map<const BasicBlock*,int> em; em[S.getDefaultDest()]=de; for(auto&k:S.cases()){ auto it=em.find(k.getCaseSuccessor()); int e; if(it==em.end()){ e=edge(bb,k.getCaseSuccessor()); em[k.getCaseSuccessor()]=e; } else e=it->second; p.push_back(constOp(apint(k.getCaseValue()->getValue()))); p.push_back(e); }
      int pp=pool(p); Inst& i=emit(I_SWITCH); i.a=c; i.b=de; i.pool=pp; i.n=p.size()/2; i.w=scalarBits(S.getCondition()->getType()); break; }
    case Instruction::Ret: { auto&R=cast<ReturnInst>(I); std::vector<int> p; if(R.getReturnValue()) p=ops(R.getReturnValue()); int pp=pool(p); Inst& i=emit(I_RET); i.pool=pp; i.n=p.size(); break; }
    case Instruction::Unreachable: emit(I_UNREACH); break;
    case Instruction::Call: { auto&C=cast<CallInst>(I);
      if(C.isInlineAsm()){ auto*ia=cast<InlineAsm>(C.getCalledOperand()); auto s=ia->getAsmString(); auto d=freshv(&I); for(int x:d){ Inst& i=emit(I_MOVE); i.dst=x; i.a=constOp(0); } vm[&I]=d; if(!s.empty()&&s.find("cpuid")==std::string::npos&&s.find("xgetbv")==std::string::npos&&s.find("pause")==std::string::npos){ errs()<<"inline asm: "<<s<<"\n"; } break; }
      Function* cf=C.getCalledFunction(); if(cf&&cf->isIntrinsic()){ intr(&C,cf->getIntrinsicID()); break; }
      std::vector<int> args; for(auto&a:C.args()){ if(a->getType()->isMetadataTy()) continue; auto o=ops(a); args.insert(args.end(),o.begin(),o.end()); }
      auto d=freshv(&I); int pp=pool(args); int callee=cf?0:op1(C.getCalledOperand()); 
      Value* cv=C.getCalledOperand()->stripPointerCastsAndAliases(); if(!cf) cf=dyn_cast<Function>(cv);
      Inst& i=emit(I_CALL); i.pool=pp; i.n=args.size(); i.dst=d.empty()?-1:d[0]; i.w=d.size(); if(cf) i.f=fmap[cf]; else { i.f=nullptr; i.a=callee; } vm[&I]=d; break; }
    case Instruction::PHI: break;
    case Instruction::LandingPad: case Instruction::Resume: { auto d=freshv(&I); for(int x:d){ Inst& i=emit(I_MOVE); i.dst=x; i.a=constOp(0);} vm[&I]=d; emit(I_UNREACH); break; }
    default: errs()<<"unsupported: "<<I<<" in "<<F->dem<<"\n"; emit(I_UNREACH); { auto d=freshv(&I); vm[&I]=d; } }
}
void Dec::run(){
  for(auto&a:f->args()){ auto d=freshv(&a); vm[&a]=d; if(a.hasByValAttr()) F->byval.push_back({d[0],DL->getTypeAllocSize(a.getParamByValType())}); }
  F->nargs=ns; F->nret=leaves(f->getReturnType()).size(); F->vararg=f->isVarArg();
  ReversePostOrderTraversal<const Function*> rpo(f); std::vector<const BasicBlock*> order(rpo.begin(),rpo.end());
  int n=0; for(auto*b:order) bid[b]=n++;
  for(auto*b:order) for(auto&p:b->phis()) vm[&p]=freshv(&p);
  F->blocks.resize(n); 
  for(auto*b:order){ Block& B=F->blocks[bid[b]]; B.start=F->code.size(); for(auto&I:*b) ins(I,b); B.end=F->code.size(); }
  for(size_t i=0;i<F->edges.size();i++){ auto [from,to]=edgeSrc[i]; Edge& e=F->edges[i]; e.target=F->blocks[e.block].start; std::vector<int> cp; 
    for(auto&p:to->phis()){ auto d=vm[&p]; auto s=ops(p.getIncomingValueForBlock(from)); for(size_t q=0;q<d.size();q++) if(d[q]!=s[q]){ cp.push_back(d[q]); cp.push_back(s[q]); } }
    e.cp=pool(cp); e.ncp=cp.size()/2; F->blocks[bid[from]].succ.push_back(e.block); }
  F->nslots=ns; F->blockOf.resize(F->code.size()); for(size_t b=0;b<F->blocks.size();b++) for(int i=F->blocks[b].start;i<F->blocks[b].end;i++) F->blockOf[i]=b;
}
void decode(Func* F){ if(F->decoded) return; F->decoded=true; auto*f=(Function*)F->llf; if(Error e=f->materialize()) { consumeError(std::move(e)); abort(); } if(f->isDeclaration()) return; Dec d; d.F=F; d.f=f; d.run(); f->deleteBody(); }
