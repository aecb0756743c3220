// irdump: mechanical extraction of the functions reachable from the contract
// entry points of an LLVM module (compiled from /repo's current sources by
// clang) into JSON read by the deductive verifier (vcgen.py).
// Nothing is rewritten here except that getelementptr is flattened to
// base + constant + sum(scale*index) and constant expressions are folded.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallString.h"
#include <cinttypes>
#include <map>
#include <set>
#include <deque>
#include <string>
using namespace llvm;
static const DataLayout *DL;
static std::string jstr(StringRef s){
  std::string o="\"";
  for (unsigned char c: s){
    if (c=='"'||c=='\\'){o+='\\';o+=char(c);} else if (c<0x20||c>=0x7f){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;} else o+=char(c);
  }
  return o+"\"";
}
static std::map<Type*,std::string> tcache;
static std::string ty(Type*t){
  auto it=tcache.find(t); if(it!=tcache.end()) return it->second;
  std::string r;
  if (t->isIntegerTy()) r="\"i"+std::to_string(t->getIntegerBitWidth())+"\"";
  else if (t->isPointerTy()) r="\"p\"";
  else if (t->isDoubleTy()) r="\"d\"";
  else if (t->isFloatTy()) r="\"f\"";
  else if (t->isX86_FP80Ty()) r="\"x\"";
  else if (t->isVoidTy()) r="\"v\"";
  else if (auto*s=dyn_cast<StructType>(t)){
    r="{\"s\":[";
    if(!s->isOpaque()){
      auto*sl=DL->getStructLayout(s);
      for(unsigned i=0;i<s->getNumElements();++i){ if(i) r+=","; r+="["+std::to_string((uint64_t)sl->getElementOffset(i))+","+ty(s->getElementType(i))+"]"; }
      r+="],\"z\":"+std::to_string((uint64_t)sl->getSizeInBytes())+"}";
    } else r+="],\"z\":0}";
  } else if (auto*a=dyn_cast<ArrayType>(t)){
    r="{\"a\":["+std::to_string(a->getNumElements())+","+ty(a->getElementType())+","+std::to_string((uint64_t)DL->getTypeAllocSize(a->getElementType()))+"]}";
  } else if (auto*a=dyn_cast<FixedVectorType>(t)){
    r="{\"a\":["+std::to_string(a->getNumElements())+","+ty(a->getElementType())+","+std::to_string((uint64_t)DL->getTypeAllocSize(a->getElementType()))+"],\"vec\":1}";
  } else r="\"?\"";
  return tcache[t]=r;
}
static std::set<const GlobalValue*> seen; static std::deque<const GlobalValue*> work;
static void want(const GlobalValue*g){ if(seen.insert(g).second) work.push_back(g); }
static std::map<const Value*,int> num;
static std::string constant(const Constant*c);
static std::string fpstr(const APFloat&f){
  SmallString<40> s; 
  if (&f.getSemantics()==&APFloat::IEEEdouble()||&f.getSemantics()==&APFloat::IEEEsingle()){
    double d = (&f.getSemantics()==&APFloat::IEEEdouble())? f.convertToDouble() : (double)f.convertToFloat();
    char b[64]; snprintf(b,64,"%a",d); return jstr(b);
  }
  f.toString(s, 30); return jstr(s);
}
static std::string cgep(const Constant*c){ // pointer constants folded to base+offset
  APInt off(64,0); const Value*b=c->stripAndAccumulateConstantOffsets(*DL,off,true);
  if (auto*f=dyn_cast<Function>(b)) {want(f); return "[\"fn\","+jstr(f->getName())+"]";}
  if (auto*ga=dyn_cast<GlobalAlias>(b)) { auto*o=ga->getAliaseeObject(); if(auto*f=dyn_cast<Function>(o)){want(f);return "[\"fn\","+jstr(f->getName())+"]";} want(o); return "[\"g\","+jstr(o->getName())+","+std::to_string(off.getSExtValue())+"]"; }
  if (auto*g=dyn_cast<GlobalVariable>(b)) {want(g); return "[\"g\","+jstr(g->getName())+","+std::to_string(off.getSExtValue())+"]";}
  if (isa<ConstantPointerNull>(b)) return "[\"pn\","+std::to_string(off.getSExtValue())+"]";
  return "[\"ce\","+jstr("ptr-constexpr")+"]";
}
static std::string constant(const Constant*c){
  if (auto*i=dyn_cast<ConstantInt>(c)){ SmallString<40> s; i->getValue().toString(s,10,false); return "[\"i\","+std::to_string(i->getBitWidth())+","+std::string(s)+"]"; }
  if (auto*f=dyn_cast<ConstantFP>(c)) return "[\"f\","+fpstr(f->getValueAPF())+","+ty(c->getType())+"]";
  if (isa<ConstantPointerNull>(c)) return "[\"pn\",0]";
  if (isa<UndefValue>(c)) return "[\"u\","+ty(c->getType())+"]";
  if (isa<ConstantAggregateZero>(c)) return "[\"z\","+ty(c->getType())+"]";
  if (auto*a=dyn_cast<ConstantDataSequential>(c)){
    std::string r="[\"agg\","+ty(c->getType())+",[";
    for(unsigned i=0;i<a->getNumElements();++i){ if(i) r+=","; r+=constant(a->getElementAsConstant(i)); }
    return r+"]]";
  }
  if (auto*a=dyn_cast<ConstantAggregate>(c)){
    std::string r="[\"agg\","+ty(c->getType())+",[";
    for(unsigned i=0;i<a->getNumOperands();++i){ if(i) r+=","; r+=constant(a->getOperand(i)); }
    return r+"]]";
  }
  if (c->getType()->isPointerTy()) return cgep(c);
  if (auto*ce=dyn_cast<ConstantExpr>(c)){
    if (ce->getOpcode()==Instruction::PtrToInt) return "[\"pi\","+constant(ce->getOperand(0))+"]";
    std::string r="[\"ce\","+jstr(ce->getOpcodeName());
    return r+"]";
  }
  return "[\"ce\",\"?\"]";
}
static std::string val(const Value*v){
  auto it=num.find(v); if(it!=num.end()) return std::to_string(it->second);
  if (auto*c=dyn_cast<Constant>(v)) return constant(c);
  if (isa<MetadataAsValue>(v)) return "null";
  if (isa<InlineAsm>(v)) return "[\"asm\"]";
  return "[\"ce\",\"??\"]";
}
static std::string gep(const GEPOperator*g){
  APInt off(64,0); MapVector<Value*,APInt> vo;
  if(!g->collectOffset(*DL,64,vo,off)) return "null";
  std::string r=val(g->getPointerOperand())+","+std::to_string(off.getSExtValue())+",[";
  bool first=true; for(auto&p:vo){ if(!first) r+=","; first=false; r+="["+val(p.first)+","+std::to_string(p.second.getSExtValue())+","+ty(p.first->getType())+"]"; }
  return r+"]";
}
static std::string line(const Instruction&I){
  if (auto &d=I.getDebugLoc()) { auto*s=d.get(); std::string f=s->getFilename().str(); auto k=f.rfind('/'); if(k!=std::string::npos) f=f.substr(k+1); return jstr(f+":"+std::to_string(d.getLine())); }
  return "0";
}
static void fn(const Function&F, raw_ostream&o){
  num.clear(); int n=0; std::map<const BasicBlock*,int> bb; int nb=0;
  for(auto&a:F.args()) num[&a]=n++;
  for(auto&B:F){ bb[&B]=nb++; for(auto&I:B) if(!I.getType()->isVoidTy()) num[&I]=n++; }
  o<<"{\"name\":"<<jstr(F.getName())<<",\"dem\":"<<jstr(demangle(F.getName().str()))<<",\"ret\":"<<ty(F.getReturnType())<<",\"args\":[";
  bool f1=true;
  for(auto&a:F.args()){ if(!f1) o<<","; f1=false; o<<"["<<ty(a.getType())<<","<<(a.hasByValAttr()?(int64_t)DL->getTypeAllocSize(a.getParamByValType()):0)<<","<<jstr(a.getName())<<"]"; }
  o<<"],\"nv\":"<<n;
  if(auto*sp=F.getSubprogram()){ std::string f=sp->getFilename().str(); o<<",\"file\":"<<jstr(f)<<",\"line\":"<<sp->getLine(); }
  o<<",\"blocks\":[\n";
  bool fb=true;
  for(auto&B:F){ if(!fb) o<<",\n"; fb=false; o<<"["; bool fi=true;
    for(auto&I:B){
      if(isa<DbgInfoIntrinsic>(I)) continue;
      if(!fi) o<<",\n "; fi=false;
      int res=I.getType()->isVoidTy()?-1:num[&I];
      o<<"["<<jstr(I.getOpcodeName())<<","<<res<<","<<ty(I.getType())<<",";
      if(auto*p=dyn_cast<PHINode>(&I)){ o<<"["; for(unsigned i=0;i<p->getNumIncomingValues();++i){ if(i)o<<","; o<<"["<<bb[p->getIncomingBlock(i)]<<","<<val(p->getIncomingValue(i))<<"]";} o<<"]"; }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)) o<<gep(cast<GEPOperator>(g));
      else if(auto*a=dyn_cast<AllocaInst>(&I)) o<<(uint64_t)DL->getTypeAllocSize(a->getAllocatedType())<<","<<val(a->getArraySize())<<","<<ty(a->getAllocatedType())<<","<<jstr(a->getName());
      else if(auto*l=dyn_cast<LoadInst>(&I)) o<<val(l->getPointerOperand());
      else if(auto*s=dyn_cast<StoreInst>(&I)) o<<val(s->getValueOperand())<<","<<val(s->getPointerOperand())<<","<<ty(s->getValueOperand()->getType());
      else if(auto*b=dyn_cast<BranchInst>(&I)){ if(b->isConditional()) o<<val(b->getCondition())<<","<<bb[b->getSuccessor(0)]<<","<<bb[b->getSuccessor(1)]; else o<<"null,"<<bb[b->getSuccessor(0)]; }
      else if(auto*s=dyn_cast<SwitchInst>(&I)){ o<<val(s->getCondition())<<","<<bb[s->getDefaultDest()]<<",["; bool ff=true; for(auto&c:s->cases()){ if(!ff)o<<",";ff=false; SmallString<40> st; c.getCaseValue()->getValue().toString(st,10,false); o<<"["<<st<<","<<bb[c.getCaseSuccessor()]<<"]";} o<<"],"<<ty(s->getCondition()->getType()); }
      else if(auto*c=dyn_cast<CallBase>(&I)){
        const Value*cv=c->getCalledOperand()->stripPointerCasts();
        if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject();
        if(auto*cf=dyn_cast<Function>(cv)){ want(cf); o<<jstr(cf->getName()); } else o<<val(cv);
        o<<",["; for(unsigned i=0;i<c->arg_size();++i){ if(i)o<<","; o<<val(c->getArgOperand(i)); } o<<"],[";
        for(unsigned i=0;i<c->arg_size();++i){ if(i)o<<","; o<<ty(c->getArgOperand(i)->getType()); } o<<"]";
        if(auto*iv=dyn_cast<InvokeInst>(&I)) o<<","<<bb[iv->getNormalDest()]<<","<<bb[iv->getUnwindDest()];
      }
      else if(auto*c=dyn_cast<CmpInst>(&I)) o<<jstr(CmpInst::getPredicateName(c->getPredicate()))<<","<<val(c->getOperand(0))<<","<<val(c->getOperand(1))<<","<<ty(c->getOperand(0)->getType());
      else if(auto*c=dyn_cast<CastInst>(&I)) o<<val(c->getOperand(0))<<","<<ty(c->getOperand(0)->getType());
      else if(auto*e=dyn_cast<ExtractValueInst>(&I)){ o<<val(e->getAggregateOperand())<<",["; for(unsigned i=0;i<e->getNumIndices();++i){if(i)o<<",";o<<e->getIndices()[i];} o<<"],"<<ty(e->getAggregateOperand()->getType()); }
      else if(auto*e=dyn_cast<InsertValueInst>(&I)){ o<<val(e->getAggregateOperand())<<","<<val(e->getInsertedValueOperand())<<",["; for(unsigned i=0;i<e->getNumIndices();++i){if(i)o<<",";o<<e->getIndices()[i];} o<<"]"; }
      else if(auto*s=dyn_cast<ShuffleVectorInst>(&I)){ o<<val(s->getOperand(0))<<","<<val(s->getOperand(1))<<",["; bool ff=true; for(int m:s->getShuffleMask()){if(!ff)o<<",";ff=false;o<<m;} o<<"],"<<ty(s->getOperand(0)->getType()); }
      else { o<<"["; for(unsigned i=0;i<I.getNumOperands();++i){ if(i)o<<","; if(isa<BasicBlock>(I.getOperand(i))) o<<bb[cast<BasicBlock>(I.getOperand(i))]; else o<<val(I.getOperand(i)); } o<<"]";
        int fl=0; if(auto*ob=dyn_cast<OverflowingBinaryOperator>(&I)) fl=(ob->hasNoSignedWrap()?1:0)|(ob->hasNoUnsignedWrap()?2:0); o<<","<<fl; }
      o<<","<<line(I)<<"]";
    }
    o<<"]";
  }
  o<<"]}";
}
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){E.print(argv[0],errs());return 1;}
  DL=&M->getDataLayout();
  for(auto&F:*M) if(!F.isDeclaration() && (F.getName().starts_with("vf_entry_")||F.getName().starts_with("vf_ctor"))) want(&F);
  if(auto*g=M->getNamedGlobal("llvm.global_ctors")) want(g);
  raw_ostream&o=outs();
  o<<"{\"functions\":[\n"; bool first=true;
  std::vector<const GlobalVariable*> gs; std::vector<const Function*> decls;
  std::string gout; raw_string_ostream go(gout);
  while(!work.empty()){ auto*g=work.front(); work.pop_front();
    if(auto*F=dyn_cast<Function>(g)){ if(F->isDeclaration()) decls.push_back(F); else { if(!first)o<<",\n"; first=false; fn(*F,o);} }
    else if(auto*G=dyn_cast<GlobalVariable>(g)){ num.clear(); if(!gout.empty()) go<<",\n"; go<<"{\"name\":"<<jstr(G->getName())<<",\"dem\":"<<jstr(demangle(G->getName().str()))<<",\"ty\":"<<ty(G->getValueType())<<",\"sz\":"<<(uint64_t)DL->getTypeAllocSize(G->getValueType())<<",\"const\":"<<(G->isConstant()?1:0)<<",\"init\":"<<(G->hasInitializer()?constant(G->getInitializer()):"null")<<"}"; go.flush(); }
  }
  o<<"],\n\"globals\":[\n"<<gout<<"],\n\"decls\":[";
  first=true; for(auto*F:decls){ if(!first)o<<",\n"; first=false; o<<"["<<jstr(F->getName())<<","<<jstr(demangle(F->getName().str()))<<"]"; }
  o<<"]}\n";
}
