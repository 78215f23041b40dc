// vprep in.bc out.bc : keep the repository's and the harness' functions as call boundaries (noinline); let library code be inlined.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Verifier.h>
using namespace llvm;
int main(int c,char**v){ LLVMContext X; SMDiagnostic e; auto M=parseIRFile(v[1],e,X); if(!M){e.print("vprep",errs());return 1;}
  for(auto&F:*M){ if(F.isDeclaration())continue; std::string n=F.getName().str(); 
    // own function: mangled name starts in namespace ftk, or has C linkage (harness)
    bool own= n.rfind("_ZN3ftk",0)==0||n.rfind("_ZNK3ftk",0)==0||n.rfind("_Z",0)!=0||n.rfind("_ZL",0)==0; 
    if(n.rfind("_ZSt18_Rb_tree",0)==0||n.rfind("_ZSt28_Rb_tree",0)==0||n.rfind("_ZSt29_Rb_tree",0)==0) own=true;
    if(own) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); } else if(!F.hasFnAttribute(Attribute::NoInline)&&F.getInstructionCount()<120) F.addFnAttr(Attribute::AlwaysInline); 
    if(n.rfind("H_",0)!=0&&n.rfind("V_",0)!=0&&!F.isDeclaration()&&F.getLinkage()==GlobalValue::ExternalLinkage&&own==false) {} }
  std::error_code ec; raw_fd_ostream o(v[2],ec); WriteBitcodeToFile(*M,o); return 0; }
