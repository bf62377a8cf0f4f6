// `vsym link out.bc lib.a root...` : static link of bitcode members, internalize, optimise lightly.
#include "llvm/Object/Archive.h"
#include "llvm/Object/IRObjectFile.h"
#include "llvm/Object/ObjectFile.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Linker/Linker.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Scalar.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <cstdio>
#include <sys/time.h>
using namespace llvm;
static double now(){ struct timeval t; gettimeofday(&t,0); return t.tv_sec+t.tv_usec*1e-6; }
int linkArchive(int argc, char** argv){
  // argv: out lib.a roots...
  const char* out=argv[0]; const char* lib=argv[1]; std::set<std::string> roots; std::vector<std::string> prefixes; for(int i=2;i<argc;i++){ std::string s=argv[i]; if(!s.empty()&&s.back()=='*'){ s.pop_back(); prefixes.push_back(s);} else roots.insert(s); }
  double t0=now();
  LLVMContext C; C.setDiscardValueNames(true);
  auto mb=MemoryBuffer::getFile(lib,false,false); if(!mb){ fprintf(stderr,"cannot open %s\n",lib); return 2; }
  auto ar=object::Archive::create((*mb)->getMemBufferRef()); if(!ar){ fprintf(stderr,"bad archive\n"); return 2; }
  struct Mem { std::unique_ptr<Module> m; bool used=false; };
  std::vector<Mem> mems; std::map<std::string,int> def; Error err=Error::success();
  for(auto& ch:(*ar)->children(err)){
    auto b=ch.getMemoryBufferRef(); if(!b){ consumeError(b.takeError()); continue; }
    // bitcode member, or an ELF member carrying it in .llvmbc (the precompiled standard library)
    Expected<MemoryBufferRef> bc=object::IRObjectFile::findBitcodeInMemBuffer(*b);
    if(!bc){ consumeError(bc.takeError()); auto of=object::ObjectFile::createObjectFile(*b); if(!of){ consumeError(of.takeError()); continue; } StringRef data; for(auto&sec:(*of)->sections()){ auto nm=sec.getName(); if(!nm){ consumeError(nm.takeError()); continue; } if(*nm==".llvmbc"){ auto ct=sec.getContents(); if(ct) data=*ct; else consumeError(ct.takeError()); } } if(data.size()<8) continue; bc=MemoryBufferRef(data,b->getBufferIdentifier()); }
    auto mod=getLazyBitcodeModule(*bc,C,true); if(!mod){ fprintf(stderr,"skip %s: %s\n",b->getBufferIdentifier().str().c_str(),toString(mod.takeError()).c_str()); continue; }
    int id=mems.size(); 
    for(auto&g:(*mod)->global_values()) if(!g.isDeclaration()&&!g.hasLocalLinkage()&&!g.hasAvailableExternallyLinkage()){ auto n=g.getName().str(); auto it=def.find(n); if(it==def.end()) def[n]=id; }
    mems.push_back({std::move(*mod),false});
  }
  double tidx=now()-t0; if(err) consumeError(std::move(err));
  auto M=std::make_unique<Module>("whole",C); bool first=true; auto L=std::make_unique<Linker>(*M);
  double tmat=0,tstrip=0,tlink=0; int nused=0; std::vector<int> work; auto want=[&](const std::string&n){ auto it=def.find(n); if(it!=def.end()&&!mems[it->second].used){ mems[it->second].used=true; work.push_back(it->second);} };
  std::vector<std::string> keep; for(auto&d:def){ bool k=roots.count(d.first); for(auto&p:prefixes) if(d.first.compare(0,p.size(),p)==0) k=true; if(k){ keep.push_back(d.first); want(d.first);} }
  while(!work.empty()){ int i=work.back(); work.pop_back(); auto& m=mems[i].m; std::vector<std::string> und; for(auto&g:m->global_values()) if(g.isDeclaration()) und.push_back(g.getName().str());
    if(first){ M->setDataLayout(m->getDataLayout()); M->setTargetTriple(m->getTargetTriple()); first=false; }
    for(auto&u:und) want(u);
    double ta=now(); if(Error e=m->materializeAll()) { consumeError(std::move(e)); return 2; }
    double tb=now(); tmat+=tb-ta; StripDebugInfo(*m); double tc=now(); tstrip+=tc-tb; nused++;
    if(L->linkInModule(std::move(m))){ fprintf(stderr,"link error\n"); return 2; } tlink+=now()-tc; }
  double t1=now();
  // drop ctors we do not run, keep roots
  std::set<std::string> ks(keep.begin(),keep.end());
  internalizeModule(*M,[&](const GlobalValue&g){ return ks.count(g.getName().str())>0 || g.getName()=="llvm.used"; });
  if(auto*g=M->getGlobalVariable("llvm.used",true)) g->eraseFromParent();
  if(auto*g=M->getGlobalVariable("llvm.compiler.used",true)) g->eraseFromParent();
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  { ModulePassManager mpm; mpm.addPass(GlobalDCEPass()); mpm.run(*M,MAM); }
  { ModulePassManager mpm; FunctionPassManager f; f.addPass(LowerInvokePass()); f.addPass(SimplifyCFGPass()); mpm.addPass(createModuleToFunctionPassAdaptor(std::move(f))); mpm.addPass(GlobalDCEPass()); mpm.run(*M,MAM); }
  // only functions compiled without optimisation (the harness crate) profit from this
  { ModulePassManager mpm; FunctionPassManager f; f.addPass(SROAPass(SROAOptions::ModifyCFG)); f.addPass(EarlyCSEPass()); f.addPass(SimplifyCFGPass(SimplifyCFGOptions().bonusInstThreshold(4))); mpm.addPass(createModuleToFunctionPassAdaptor(std::move(f))); mpm.addPass(GlobalDCEPass()); mpm.run(*M,MAM); }
  std::error_code ec; raw_fd_ostream os(out,ec); WriteBitcodeToFile(*M,os); os.close();
  fprintf(stderr,"index %.1f materialize %.1f strip %.1f link %.1f used %d\n",tidx,tmat,tstrip,tlink,nused);
  fprintf(stderr,"link: %zu members, %zu functions, link %.1fs total %.1fs\n",mems.size(),M->size(),t1-t0,now()-t0);
  return 0;
}
