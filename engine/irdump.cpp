// irdump: reads LLVM bitcode produced by clang from the real sources, applies a fixed
// (semantics preserving) pass pipeline, and prints the functions as JSON for the
// verification-condition generator.  Nothing is dropped: an instruction this tool does not
// know is emitted with op "unknown" and makes the generator give up on that function.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/CommandLine.h"
#include <map>
#include <set>
#include <regex>
#include <fstream>
using namespace llvm;

static std::string dem(StringRef n){ return demangle(n.str()); }

// Functions whose calls are interpreted by name (library functions with assumed contracts).
static bool isLibrary(const std::string &d){
  static const char *pre[] = {
    "std::vector<", "std::__shared_count<", "std::__cxx11::basic_string", "std::basic_ostream",
    "std::basic_ostringstream","std::__cxx11::basic_ostringstream","std::__cxx11::basic_stringstream",
    "std::ostream","std::basic_ofstream","std::basic_ifstream","std::__cxx11::stoi","std::__cxx11::stod",
    "std::stoi","std::stod","std::ios_base","std::basic_ios",
    "std::runtime_error","std::_Sp_counted_base", "std::__cxx11::to_string", "std::operator==<char", "std::operator!=<char",
    "std::remove_if<", "std::count_if<", "std::any_of<", "std::all_of<", "std::none_of<", "std::find_if<",
    nullptr};
  for (const char **p = pre; *p; ++p) if (d.compare(0, strlen(*p), *p) == 0) return true;
  return false;
}
static std::string stripRet(const std::string &d){
  // demangled template functions carry a return type in front; find the name start heuristically
  // by cutting everything before the last space at template depth 0 before the first '(' at depth 0.
  int depth = 0; size_t last = 0;
  for (size_t i = 0; i < d.size(); ++i){
    char c = d[i];
    if (c == '<' ) { if (!(i>=8 && d.compare(i-8,8,"operator")==0) && !(i>=9 && d.compare(i-9,9,"operator<")==0)) ++depth; }
    else if (c == '>') { if (!(i>=8 && d.compare(i-8,8,"operator")==0) && !(i>=9 && d.compare(i-9,9,"operator-")==0) && !(i>=9 && d.compare(i-9,9,"operator>")==0)) --depth; }
    else if (c == '(' && depth == 0) {
      if (d.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
      break; }
    else if (c == ' ' && depth == 0) { if (!(i>=8 && d.compare(i-8,8,"operator")==0)) last = i + 1; }
  }
  return d.substr(last);
}

static json::Value tyJ(Type *t, const DataLayout &DL){
  if (t->isVoidTy()) return "void";
  if (t->isDoubleTy()) return "double";
  if (t->isFloatTy()) return "float";
  if (t->isPointerTy()) return "ptr";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (auto *s = dyn_cast<StructType>(t)) {
    json::Array a;
    if (!s->isSized()) return "opaque";
    const StructLayout *L = DL.getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i)
      a.push_back(json::Array{(int64_t)L->getElementOffset(i), tyJ(s->getElementType(i), DL)});
    return json::Object{{"s", std::move(a)}, {"size", (int64_t)DL.getTypeAllocSize(t)}};
  }
  if (auto *a = dyn_cast<ArrayType>(t))
    return json::Object{{"n", (int64_t)a->getNumElements()}, {"e", tyJ(a->getElementType(), DL)}, {"size", (int64_t)DL.getTypeAllocSize(t)}};
  if (t->isVectorTy()) return "vector";
  return "other";
}

struct Dumper {
  Module &M; const DataLayout &DL;
  std::map<const Value*, int> ids; std::map<const BasicBlock*, int> bids;
  Dumper(Module &m) : M(m), DL(m.getDataLayout()) {}

  json::Value constant(const Constant *c){
    if (auto *i = dyn_cast<ConstantInt>(c)) {
      SmallString<40> s; i->getValue().toStringSigned(s);
      return json::Array{"i", s.str().str(), (int64_t)i->getBitWidth()};
    }
    if (auto *f = dyn_cast<ConstantFP>(c)) {
      uint64_t b = 0;
      if (f->getType()->isDoubleTy()) b = f->getValueAPF().bitcastToAPInt().getZExtValue();
      else return json::Array{"fx"};
      return json::Array{"f", std::to_string(b)};
    }
    if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
    if (isa<UndefValue>(c)) return json::Array{"undef"};  // undef and poison
    if (auto *g = dyn_cast<GlobalValue>(c)) return json::Array{"g", g->getName().str()};
    if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", tyJ(c->getType(), DL)};
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
      json::Array a; const StructLayout *L = DL.getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); ++i)
        a.push_back(json::Array{(int64_t)L->getElementOffset(i), constant(cs->getOperand(i)), tyJ(cs->getOperand(i)->getType(), DL)});
      return json::Array{"cs", std::move(a)};
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
      json::Array a; uint64_t sz = DL.getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); ++i)
        a.push_back(json::Array{(int64_t)(sz * i), constant(ca->getOperand(i)), tyJ(ca->getOperand(i)->getType(), DL)});
      return json::Array{"cs", std::move(a)};
    }
    if (auto *cd = dyn_cast<ConstantDataArray>(c)) {
      if (cd->isCString()) return json::Array{"str", json::fixUTF8(cd->getAsCString().str())};
      json::Array a; uint64_t sz = DL.getTypeAllocSize(cd->getElementType());
      for (unsigned i = 0; i < cd->getNumElements(); ++i)
        a.push_back(json::Array{(int64_t)(sz * i), constant(cd->getElementAsConstant(i)), tyJ(cd->getElementType(), DL)});
      return json::Array{"cs", std::move(a)};
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *g = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        if (g->accumulateConstantOffset(DL, off))
          return json::Array{"gep", constant(cast<Constant>(g->getPointerOperand())), off.getSExtValue()};
      }
      return json::Array{"ce", ce->getOpcodeName()};
    }
    return json::Array{"cunk"};
  }
  json::Value val(const Value *v){
    if (auto *c = dyn_cast<Constant>(v)) return constant(c);
    if (auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
    if (auto it = ids.find(v); it != ids.end()) return json::Array{"v", (int64_t)it->second};
    return json::Array{"unk"};
  }
  json::Value ins(const Instruction &I){
    json::Object o; o["op"] = I.getOpcodeName();
    if (ids.count(&I)) o["id"] = (int64_t)ids[&I];
    o["ty"] = tyJ(I.getType(), DL);
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      MapVector<Value*, APInt> vo; APInt co(64, 0);
      if (cast<GEPOperator>(g)->collectOffset(DL, 64, vo, co)) {
        json::Array a;
        for (auto &p : vo) a.push_back(json::Array{val(p.first), p.second.getSExtValue()});
        o["base"] = val(g->getPointerOperand()); o["off"] = co.getSExtValue(); o["idx"] = std::move(a);
      } else o["op"] = "unknown";
      return o;
    }
    if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
    if (auto *p = dyn_cast<PHINode>(&I)) {
      json::Array a;
      for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
        a.push_back(json::Array{(int64_t)bids[p->getIncomingBlock(i)], val(p->getIncomingValue(i))});
      o["in"] = std::move(a); return o;
    }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isConditional()) { o["cond"] = val(b->getCondition());
        o["t"] = (int64_t)bids[b->getSuccessor(0)]; o["f"] = (int64_t)bids[b->getSuccessor(1)]; }
      else o["t"] = (int64_t)bids[b->getSuccessor(0)];
      return o;
    }
    if (auto *s = dyn_cast<SwitchInst>(&I)) {
      o["cond"] = val(s->getCondition()); o["def"] = (int64_t)bids[s->getDefaultDest()];
      json::Array a;
      for (auto &c : s->cases()) a.push_back(json::Array{constant(c.getCaseValue()), (int64_t)bids[c.getCaseSuccessor()]});
      o["cases"] = std::move(a); return o;
    }
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
      o["aty"] = tyJ(a->getAllocatedType(), DL);
      o["size"] = (int64_t)DL.getTypeAllocSize(a->getAllocatedType());
      o["count"] = val(a->getArraySize());
    }
    if (auto *c = dyn_cast<CallBase>(&I)) {
      json::Array a;
      for (auto &x : c->args()) {
        if (isa<MetadataAsValue>(x.get())) { a.push_back(json::Array{"md"}); continue; }
        a.push_back(val(x.get()));
      }
      o["args"] = std::move(a);
      if (auto *f = c->getCalledFunction()) o["callee"] = f->getName().str();
      else o["fptr"] = val(c->getCalledOperand());
      if (auto *v = dyn_cast<InvokeInst>(&I)) { o["normal"] = (int64_t)bids[v->getNormalDest()]; o["unwind"] = (int64_t)bids[v->getUnwindDest()]; }
      return o;
    }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) { json::Array a; for (auto i : e->indices()) a.push_back((int64_t)i); o["path"] = std::move(a); }
    if (auto *e = dyn_cast<InsertValueInst>(&I)) { json::Array a; for (auto i : e->indices()) a.push_back((int64_t)i); o["path"] = std::move(a); }
    if (auto *s = dyn_cast<StoreInst>(&I)) o["vty"] = tyJ(s->getValueOperand()->getType(), DL);
    json::Array a;
    for (auto &x : I.operands()) { if (isa<BasicBlock>(x.get())) continue; a.push_back(val(x.get())); }
    o["ops"] = std::move(a);
    if (I.getNumOperands()) o["oty"] = tyJ(I.getOperand(0)->getType(), DL);
    return o;
  }
  json::Value func(Function &F){
    ids.clear(); bids.clear(); int n = 0, b = 0;
    for (auto &B : F) { bids[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
    DominatorTree DT(F); LoopInfo LI(DT); PostDominatorTree PDT(F);
    json::Object o; o["name"] = F.getName().str(); o["dem"] = dem(F.getName());
    json::Array args;
    for (auto &A : F.args()) {
      json::Object a; a["ty"] = tyJ(A.getType(), DL); a["name"] = A.getName().str();
      if (A.hasStructRetAttr()) { a["sret"] = true; a["size"] = (int64_t)DL.getTypeAllocSize(A.getParamStructRetType()); }
      args.push_back(std::move(a));
    }
    o["args"] = std::move(args); o["ret"] = tyJ(F.getReturnType(), DL);
    json::Array bl;
    for (auto &B : F) { json::Array is; for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; is.push_back(ins(I)); } bl.push_back(std::move(is)); }
    o["blocks"] = std::move(bl);
    json::Array ip;
    for (auto &B : F) { auto *nd = PDT.getNode(&B); int64_t r = -1; if (nd && nd->getIDom() && nd->getIDom()->getBlock()) r = bids[nd->getIDom()->getBlock()]; ip.push_back(r); }
    o["ipdom"] = std::move(ip);
    json::Array lo; std::vector<Loop*> work(LI.begin(), LI.end());
    while (!work.empty()) { Loop *L = work.back(); work.pop_back();
      json::Array bs; for (auto *B : L->blocks()) bs.push_back((int64_t)bids[B]);
      lo.push_back(json::Object{{"header", (int64_t)bids[L->getHeader()]}, {"blocks", std::move(bs)}, {"depth", (int64_t)L->getLoopDepth()}});
      for (auto *S : L->getSubLoops()) work.push_back(S); }
    o["loops"] = std::move(lo);
    return o;
  }
};

int main(int argc, char **argv){
  // irdump out.json in1.bc in2.bc ...
  LLVMContext C; SMDiagnostic E; std::unique_ptr<Module> M;
  for (int i = 2; i < argc; ++i) {
    auto m = parseIRFile(argv[i], E, C);
    if (!m) { E.print(argv[0], errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string d = stripRet(dem(F.getName()));
    F.removeFnAttr(Attribute::OptimizeNone);
    bool lib = isLibrary(d);
    bool own = d.compare(0, 6, "enve::") == 0 || d.compare(0, 6, "acme::") == 0 || d.compare(0,5,"enve_") == 0;
    if (lib || own || d == "main") { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    else if (!F.hasFnAttribute(Attribute::NoInline)) {
      bool eig = d.find("Eigen::") != std::string::npos && d.find("JacobiSVD") == std::string::npos;
      if (eig) F.addFnAttr(Attribute::AlwaysInline);
    }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  const char *pipe = getenv("IRDUMP_PASSES");
  if (!pipe) pipe = "always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg))";
  if (auto Err = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(Err)) << "\n"; return 2; }
  MPM.run(*M, MAM);
  // one back edge per loop (otherwise loop-simplify splits a loop with several into nested loops)
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    for (bool again = true; again;) {
      again = false; DominatorTree DT(F); LoopInfo LI(DT);
      for (Loop *L : LI.getLoopsInPreorder()) {
        SmallVector<BasicBlock *, 8> latches; L->getLoopLatches(latches);
        bool ok = latches.size() > 1; for (auto *B : latches) if (!isa<BranchInst>(B->getTerminator()) && !isa<SwitchInst>(B->getTerminator()) && !isa<InvokeInst>(B->getTerminator())) ok = false;
        if (ok && SplitBlockPredecessors(L->getHeader(), latches, ".back")) { again = true; break; }
      }
    }
  }
  FAM.clear(); MAM.clear();
  ModulePassManager MPM2;
  if (auto Err = PB.parsePassPipeline(MPM2, "function(loop-simplify,lowerswitch)")) { errs() << toString(std::move(Err)) << "\n"; return 2; }
  MPM2.run(*M, MAM);
  Dumper D(*M);
  json::Object root; json::Array fs, gs, decl;
  for (auto &F : *M) {
    if (F.isDeclaration()) { decl.push_back(json::Array{F.getName().str(), dem(F.getName())}); continue; }
    fs.push_back(D.func(F));
  }
  for (auto &G : M->globals()) {
    json::Object o; o["name"] = G.getName().str(); o["dem"] = dem(G.getName()); o["const"] = G.isConstant();
    o["ty"] = tyJ(G.getValueType(), M->getDataLayout());
    if (G.hasInitializer()) o["init"] = D.constant(G.getInitializer());
    gs.push_back(std::move(o));
  }
  json::Object al; for (auto &A : M->aliases()) if (auto *g = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) al[A.getName().str()] = g->getName().str();
  json::Object st; for (auto *S : M->getIdentifiedStructTypes()) if (S->isSized()) st[S->getName().str()] = (int64_t)M->getDataLayout().getTypeAllocSize(S);
  root["aliases"] = std::move(al); root["structs"] = std::move(st);
  root["functions"] = std::move(fs); root["globals"] = std::move(gs); root["decls"] = std::move(decl);
  std::error_code EC; raw_fd_ostream os(argv[1], EC);
  os << json::Value(std::move(root)) << "\n";
  if (getenv("IRDUMP_LL")) { raw_fd_ostream l(getenv("IRDUMP_LL"), EC); M->print(l, nullptr); }
  return 0;
}
