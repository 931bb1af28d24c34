// irx: extraction step of the verifier.
// Reads LLVM IR produced by clang from /repo's headers, marks every function
// except the harness entry points and the contract-bearing callees given by
// regular expressions as alwaysinline, runs a small fixed list of
// semantics-preserving passes, and dumps the functions as JSON.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Demangle/Demangle.h>
#include <regex>
#include <map>
#include <set>
#include <fstream>
#include <iostream>
using namespace llvm;

static std::string tystr(Type* t){ std::string s; raw_string_ostream o(s); t->print(o,false,true); return o.str(); }

struct Dumper {
  Module& M; const DataLayout& DL;
  std::map<const Value*, int> ids; int next=0;
  Dumper(Module& m):M(m),DL(m.getDataLayout()){}
  int idOf(const Value* v){ auto it=ids.find(v); if(it!=ids.end()) return it->second; return ids[v]=next++; }
  json::Value constant(const Constant* c){
    json::Object o; o["t"]=tystr(c->getType());
    if(auto* ci=dyn_cast<ConstantInt>(c)){ o["k"]="int"; SmallString<40> s; ci->getValue().toStringUnsigned(s); o["v"]=std::string(s.str()); }
    else if(isa<ConstantPointerNull>(c)) o["k"]="null";
    else if(isa<PoisonValue>(c)) o["k"]="poison";
    else if(isa<UndefValue>(c)) o["k"]="undef";
    else if(isa<ConstantAggregateZero>(c)) o["k"]="zero";
    else if(auto* cf=dyn_cast<ConstantFP>(c)){ o["k"]="fp"; SmallString<40> s; cf->getValueAPF().bitcastToAPInt().toStringUnsigned(s); o["v"]=std::string(s.str()); }
    else if(auto* f=dyn_cast<Function>(c)){ o["k"]="fn"; o["v"]=f->getName().str(); }
    else if(auto* g=dyn_cast<GlobalVariable>(c)){ o["k"]="global"; o["v"]=g->getName().str(); }
    else if(auto* ca=dyn_cast<ConstantAggregate>(c)){ o["k"]="agg"; json::Array a; for(auto& e: ca->operands()) a.push_back(constant(cast<Constant>(e))); o["e"]=std::move(a); }
    else if(auto* cd=dyn_cast<ConstantDataSequential>(c)){ o["k"]="agg"; json::Array a; for(unsigned i=0;i<cd->getNumElements();i++) a.push_back(constant(cd->getElementAsConstant(i))); o["e"]=std::move(a); }
    else if(auto* ce=dyn_cast<ConstantExpr>(c)){
      o["k"]="expr"; o["op"]=std::string(ce->getOpcodeName());
      if(auto* g=dyn_cast<GEPOperator>(ce)){ APInt off(64,0); if(g->accumulateConstantOffset(DL,off)) o["off"]=off.getSExtValue(); }
      json::Array a; for(auto& e: ce->operands()) a.push_back(constant(cast<Constant>(e))); o["e"]=std::move(a);
    } else o["k"]="other";
    return o;
  }
  json::Value opnd(const Value* v){
    if(auto* c=dyn_cast<Constant>(v)) return constant(c);
    if(isa<InlineAsm>(v)) { json::Object o; o["k"]="asm"; o["v"]=cast<InlineAsm>(v)->getAsmString(); o["c"]=cast<InlineAsm>(v)->getConstraintString(); return o; }
    if(isa<MetadataAsValue>(v)) { json::Object o; o["k"]="meta"; return o; }
    json::Object o; o["k"]="v"; o["id"]=idOf(v); o["t"]=tystr(v->getType()); return o;
  }
  json::Value func(Function& F){
    json::Object o; o["name"]=F.getName().str(); o["dem"]=demangle(F.getName().str());
    o["ret"]=tystr(F.getReturnType());
    json::Array args; for(auto& a: F.args()){ json::Object x; x["id"]=idOf(&a); x["t"]=tystr(a.getType()); 
       if(a.hasStructRetAttr()) x["sret"]=(int64_t)DL.getTypeAllocSize(a.getParamStructRetType());
       if(a.hasByValAttr()) x["byval"]=(int64_t)DL.getTypeAllocSize(a.getParamByValType());
       args.push_back(std::move(x)); }
    o["args"]=std::move(args);
    if(F.isDeclaration()) return o;
    std::map<const BasicBlock*,int> bid; int n=0; for(auto& B:F) bid[&B]=n++;
    json::Array blocks;
    for(auto& B:F){
      json::Array ins;
      for(auto& I:B){
        if(isa<DbgInfoIntrinsic>(I)) continue;
        json::Object x; x["op"]=std::string(I.getOpcodeName()); x["id"]=idOf(&I); x["t"]=tystr(I.getType());
        if(auto* p=dyn_cast<PHINode>(&I)){
          json::Array a; for(unsigned i=0;i<p->getNumIncomingValues();i++){ json::Array e; e.push_back(bid[p->getIncomingBlock(i)]); e.push_back(opnd(p->getIncomingValue(i))); a.push_back(std::move(e)); }
          x["inc"]=std::move(a);
        } else if(auto* b=dyn_cast<BranchInst>(&I)){
          json::Array s; for(unsigned i=0;i<b->getNumSuccessors();i++) s.push_back(bid[b->getSuccessor(i)]); x["succ"]=std::move(s);
          if(b->isConditional()) x["cond"]=opnd(b->getCondition());
        } else if(auto* s=dyn_cast<SwitchInst>(&I)){
          x["cond"]=opnd(s->getCondition()); x["def"]=bid[s->getDefaultDest()];
          json::Array a; for(auto& c: s->cases()){ json::Array e; e.push_back(constant(c.getCaseValue())); e.push_back(bid[c.getCaseSuccessor()]); a.push_back(std::move(e)); }
          x["cases"]=std::move(a);
        } else if(auto* g=dyn_cast<GetElementPtrInst>(&I)){
          MapVector<Value*,APInt> vo; APInt co(64,0);
          if(!cast<GEPOperator>(g)->collectOffset(DL,64,vo,co)) x["bad"]=true;
          x["ptr"]=opnd(g->getPointerOperand()); x["coff"]=co.getSExtValue();
          json::Array a; for(auto& kv: vo){ json::Array e; e.push_back(opnd(kv.first)); e.push_back(kv.second.getSExtValue()); a.push_back(std::move(e)); }
          x["voff"]=std::move(a); x["inb"]=g->isInBounds();
          x["ety"]=tystr(g->getSourceElementType());
        } else if(auto* c=dyn_cast<CallBase>(&I)){
          x["op"]="call"; x["callee"]=opnd(c->getCalledOperand());
          if(auto* f=c->getCalledFunction()){ x["dem"]=demangle(f->getName().str()); if(f->doesNotReturn()) x["noret"]=true; }
          if(c->doesNotReturn()) x["noret"]=true;
          json::Array a; for(auto& op: c->args()) a.push_back(opnd(op.get())); x["args"]=std::move(a);
          json::Array bv; for(unsigned i=0;i<c->arg_size();i++){ if(c->isByValArgument(i)) bv.push_back((int64_t)DL.getTypeAllocSize(c->getParamByValType(i))); else bv.push_back(0);} x["byval"]=std::move(bv);
          if(auto* iv=dyn_cast<InvokeInst>(&I)){ x["normal"]=bid[iv->getNormalDest()]; x["unwind"]=bid[iv->getUnwindDest()]; }
        } else {
          json::Array a; for(auto& op: I.operands()) a.push_back(opnd(op.get())); x["ops"]=std::move(a);
          if(auto* ic=dyn_cast<CmpInst>(&I)) x["pred"]=CmpInst::getPredicateName(ic->getPredicate()).str();
          if(auto* ev=dyn_cast<ExtractValueInst>(&I)){ json::Array q; for(auto i: ev->indices()) q.push_back((int64_t)i); x["idx"]=std::move(q); }
          if(auto* ev=dyn_cast<InsertValueInst>(&I)){ json::Array q; for(auto i: ev->indices()) q.push_back((int64_t)i); x["idx"]=std::move(q); }
          if(auto* al=dyn_cast<AllocaInst>(&I)){ x["size"]=(int64_t)DL.getTypeAllocSize(al->getAllocatedType()); x["aty"]=tystr(al->getAllocatedType()); }
          if(auto* sv=dyn_cast<ShuffleVectorInst>(&I)){ json::Array q; for(auto i: sv->getShuffleMask()) q.push_back((int64_t)i); x["mask"]=std::move(q); }
          if(auto* ob=dyn_cast<OverflowingBinaryOperator>(&I)){ if(ob->hasNoSignedWrap()) x["nsw"]=true; if(ob->hasNoUnsignedWrap()) x["nuw"]=true; }
          if(auto* pe=dyn_cast<PossiblyExactOperator>(&I)) if(pe->isExact()) x["exact"]=true;
        }
        ins.push_back(std::move(x));
      }
      blocks.push_back(std::move(ins));
    }
    o["blocks"]=std::move(blocks);
    DominatorTree DT(F); LoopInfo LI(DT);
    json::Array loops;
    for(auto* L: LI.getLoopsInPreorder()){
      json::Object l; l["header"]=bid[L->getHeader()]; l["depth"]=(int)L->getLoopDepth();
      json::Array bs; for(auto* b: L->blocks()) bs.push_back(bid[b]); l["blocks"]=std::move(bs);
      json::Array la; SmallVector<BasicBlock*,4> lat; L->getLoopLatches(lat); for(auto* b: lat) la.push_back(bid[b]); l["latches"]=std::move(la);
      loops.push_back(std::move(l));
    }
    o["loops"]=std::move(loops);
    return o;
  }
};

int main(int argc,char**argv){
  // irx in.ll out.json entry-regex contract-regex passes
  if(argc<6){ errs()<<"usage\n"; return 2; }
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C);
  if(!M){ E.print("irx",errs()); return 2; }
  std::regex entry(argv[3]), contract(argv[4]); std::string passes=argv[5];
  std::set<std::string> contracts;
  for(auto& F:*M){
    if(F.isDeclaration()) continue;
    std::string d=demangle(F.getName().str());
    F.removeFnAttr(Attribute::OptimizeNone);
    if(std::regex_search(F.getName().str(),entry)){ F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); continue; }
    if(std::string(argv[4]).size() && std::regex_search(d,contract)){ F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); contracts.insert(F.getName().str()); continue; }
    F.removeFnAttr(Attribute::NoInline);
    F.addFnAttr(Attribute::AlwaysInline);
    if(!F.hasLocalLinkage()) F.setLinkage(GlobalValue::InternalLinkage), F.setComdat(nullptr);
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  ModulePassManager MPM; if(auto e=PB.parsePassPipeline(MPM,passes)){ errs()<<toString(std::move(e))<<"\n"; return 2; }
  MPM.run(*M,MAM);
  Dumper D(*M); json::Object out; json::Array fs; json::Object gl;
  for(auto& F:*M){
    if(F.isDeclaration()) continue;
    D.ids.clear(); D.next=0;
    if(std::regex_search(F.getName().str(),entry)||contracts.count(F.getName().str())) { auto v=D.func(F); if(contracts.count(F.getName().str())) v.getAsObject()->insert({"contract",true}); fs.push_back(std::move(v)); }
  }
  for(auto& G: M->globals()){ json::Object g; g["const"]=G.isConstant(); g["size"]=(int64_t)D.DL.getTypeAllocSize(G.getValueType()); g["t"]=tystr(G.getValueType()); if(G.hasInitializer()) g["init"]=D.constant(G.getInitializer()); gl[G.getName().str()]=std::move(g); }
  out["functions"]=std::move(fs); out["globals"]=std::move(gl);
  std::error_code ec; raw_fd_ostream os(argv[2],ec); os<<json::Value(std::move(out))<<"\n";
  return 0;
}
