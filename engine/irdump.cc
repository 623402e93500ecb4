// irdump: link LLVM bitcode files, bring every function into SSA form (SROA / mem2reg only, no
// optimisation that changes the program's structure) and print the resolved program as JSON.
#include "llvm/ADT/StringRef.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>

using namespace llvm;
static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bids;

static std::string tyStr(Type *t) {
  std::string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
}
static uint64_t tySize(Type *t) { return t->isSized() ? DL->getTypeAllocSize(t).getKnownMinValue() : 0; }

static json::Value constVal(const Constant *c);
static json::Value intVal(const APInt &v) {
  SmallString<40> s; v.toStringUnsigned(s);
  return json::Array{"i", (int64_t)v.getBitWidth(), s.str().str()};
}
static json::Value constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return intVal(ci->getValue());
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<UndefValue>(c)) return json::Array{"undef"};
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
    return json::Array{"g", gv->getName().str(), 0};
  }
  if (auto *cfp = dyn_cast<ConstantFP>(c)) return json::Array{"fp", cfp->getValueAPF().convertToDouble()};
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
        json::Value b = constVal(ce->getOperand(0));
        if (auto *a = b.getAsArray())
          if (a->size() == 3 && (*a)[0] == json::Value("g"))
            return json::Array{"g", (*a)[1], *(*a)[2].getAsInteger() + off.getSExtValue()};
      }
    }
    if (ce->isCast()) return constVal(ce->getOperand(0));
  }
  if (auto *z = dyn_cast<ConstantAggregateZero>(c)) return json::Array{"zero", (int64_t)tySize(z->getType())};
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    json::Array el; for (auto &o : ca->operands()) el.push_back(constVal(cast<Constant>(&o)));
    return json::Array{"agg", std::move(el)};
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  return json::Array{"unk", os.str()};
}
static json::Value opnd(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
  if (isa<BasicBlock>(v)) return json::Array{"b", bids[cast<BasicBlock>(v)]};
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  auto it = ids.find(v);
  if (it == ids.end()) return json::Array{"unk", "noid"};
  return json::Array{"v", it->second};
}
static const char *ordStr(AtomicOrdering o) {
  switch (o) {
    case AtomicOrdering::NotAtomic: return "na"; case AtomicOrdering::Unordered: return "unordered";
    case AtomicOrdering::Monotonic: return "relaxed"; case AtomicOrdering::Acquire: return "acquire";
    case AtomicOrdering::Release: return "release"; case AtomicOrdering::AcquireRelease: return "acq_rel";
    default: return "seq_cst";
  }
}
static void flatten(const Constant *c, uint64_t off, json::Array &out) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { out.push_back(json::Array{(int64_t)off, (int64_t)tySize(t), "z"}); return; }
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = tySize(cds->getElementType());
    if (cds->getElementType()->isIntegerTy())
      for (unsigned i = 0; i < cds->getNumElements(); ++i)
        out.push_back(json::Array{(int64_t)(off + i * es), (int64_t)es, intVal(APInt(es * 8, cds->getElementAsInteger(i)))});
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) flatten(cs->getOperand(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = tySize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatten(ca->getOperand(i), off + i * es, out);
    return;
  }
  out.push_back(json::Array{(int64_t)off, (int64_t)tySize(t), constVal(c)});
}
static std::string scopeName(const DIScope *s) {
  if (!s) return "";
  if (isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
  std::string p = scopeName(s->getScope());
  std::string n = s->getName().str();
  if (n.empty() && isa<DINamespace>(s)) n = "(anonymous namespace)";
  return p.empty() ? n : p + "::" + n;
}
static std::string diTypeName(const DIType *t) {
  if (!t) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType()) + "&";
      case dwarf::DW_TAG_const_type: return "const " + diTypeName(d->getBaseType());
      default: return d->getName().str();
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) return diTypeName(c->getBaseType()) + "[]";
    return scopeName(c);
  }
  return t->getName().str();
}
static bool diSigned(const DIType *t) {
  while (t) {
    if (auto *b = dyn_cast<DIBasicType>(t)) return b->getEncoding() == dwarf::DW_ATE_signed || b->getEncoding() == dwarf::DW_ATE_signed_char;
    if (auto *d = dyn_cast<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_pointer_type) return false; t = d->getBaseType(); continue; }
    return false;
  }
  return false;
}

static std::string gepTy(const GetElementPtrInst *g) {
  // type of the innermost aggregate selected
  return tyStr(g->getSourceElementType());
}

int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (int i = 1; i < argc; ++i) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  DL = &M->getDataLayout();
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(PromotePass());
    for (auto &F : *M) if (!F.isDeclaration()) FPM.run(F, FAM);
  }
  json::OStream J(outs());
  J.objectBegin();
  // ---- classes
  J.attributeBegin("classes"); J.objectBegin();
  {
    DebugInfoFinder dif; dif.processModule(*M);
    std::set<std::string> done;
    for (auto *t : dif.types()) {
      auto *c = dyn_cast<DICompositeType>(t);
      if (!c || c->isForwardDecl()) continue;
      if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
      std::string n = scopeName(c);
      if (n.find("lsmdb") == std::string::npos && n.find("Wit") == std::string::npos) continue;
      if (!done.insert(n).second) continue;
      J.attributeBegin(n); J.objectBegin();
      J.attribute("size", (int64_t)c->getSizeInBits() / 8);
      J.attributeBegin("fields"); J.arrayBegin();
      for (auto *e : c->getElements())
        if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) {
          if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
            J.value(json::Array{d->getName().str(), (int64_t)d->getOffsetInBits() / 8, (int64_t)(d->getBaseType() ? d->getBaseType()->getSizeInBits() / 8 : 0), diTypeName(d->getBaseType()), diSigned(d->getBaseType())});
        }
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("bases"); J.arrayBegin();
      for (auto *e : c->getElements())
        if (auto *d = dyn_cast_or_null<DIDerivedType>(e))
          if (d->getTag() == dwarf::DW_TAG_inheritance) J.value(json::Array{diTypeName(d->getBaseType()), (int64_t)d->getOffsetInBits() / 8});
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("methods"); J.arrayBegin();
      for (auto *e : c->getElements())
        if (auto *sp = dyn_cast_or_null<DISubprogram>(e))
          J.value(json::Array{sp->getName().str(), sp->getLinkageName().str(), (int64_t)sp->getVirtuality(), (int64_t)sp->getVirtualIndex()});
      J.arrayEnd(); J.attributeEnd();
      J.objectEnd(); J.attributeEnd();
    }
  }
  J.objectEnd(); J.attributeEnd();
  // ---- globals
  J.attributeBegin("globals"); J.objectBegin();
  for (auto &G : M->globals()) {
    J.attributeBegin(G.getName()); J.objectBegin();
    J.attribute("const", G.isConstant()); J.attribute("size", (int64_t)tySize(G.getValueType()));
    J.attribute("dem", demangle(G.getName()));
    SmallVector<DIGlobalVariableExpression *, 1> dg; G.getDebugInfo(dg);
    if (!dg.empty()) J.attribute("diname", dg[0]->getVariable()->getName());
    if (G.hasInitializer()) { json::Array a; flatten(G.getInitializer(), 0, a); J.attribute("init", std::move(a)); }
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  // ---- functions
  J.attributeBegin("functions"); J.objectBegin();
  for (auto &F : *M) {
    J.attributeBegin(F.getName()); J.objectBegin();
    J.attribute("dem", demangle(F.getName()));
    J.attribute("ret", tyStr(F.getReturnType()));
    J.attribute("noreturn", F.doesNotReturn());
    ids.clear(); bids.clear(); int n = 0;
    if (auto *sp = F.getSubprogram()) {
      J.attribute("line", (int64_t)sp->getLine()); J.attribute("file", sp->getFilename());
      J.attribute("diname", sp->getName()); J.attribute("scope", scopeName(sp->getScope()));
    }
    J.attributeBegin("args"); J.arrayBegin();
    for (auto &A : F.args()) {
      ids[&A] = n++;
      J.value(json::Array{tyStr(A.getType()), A.getName().str(), A.hasStructRetAttr() ? (int64_t)tySize(A.getParamStructRetType()) : (int64_t)0, A.hasByValAttr()});
    }
    J.arrayEnd(); J.attributeEnd();
    if (!F.isDeclaration()) {
      int b = 0;
      for (auto &B : F) { bids[&B] = b++; for (auto &I : B) ids[&I] = n++; }
      DominatorTree DT(F); LoopInfo LI(DT);
      J.attributeBegin("loops"); J.arrayBegin();
      for (auto *L : LI.getLoopsInPreorder()) {
        json::Array bl; for (auto *B : L->blocks()) bl.push_back(bids[B]);
        J.value(json::Array{bids[L->getHeader()], std::move(bl)});
      }
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("blocks"); J.arrayBegin();
      for (auto &B : F) {
        J.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          J.objectBegin();
          J.attribute("op", I.getOpcodeName()); J.attribute("id", ids[&I]); J.attribute("ty", tyStr(I.getType()));
          J.attribute("sz", (int64_t)tySize(I.getType()));
          if (auto &dl = I.getDebugLoc()) {
            J.attribute("line", (int64_t)dl.getLine());
            if (auto *s = dyn_cast_or_null<DIScope>(dl.getScope())) if (s->getFilename() != "") J.attribute("file", s->getFilename());
          }
          if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            J.attribute("base", opnd(g->getPointerOperand()));
            MapVector<Value *, APInt> var; APInt off(64, 0);
            bool ok = cast<GEPOperator>(g)->collectOffset(*DL, 64, var, off);
            J.attribute("ok", ok); J.attribute("off", off.getSExtValue()); J.attribute("inb", g->isInBounds());
            J.attribute("srcty", gepTy(g));
            json::Array a; for (auto &p : var) a.push_back(json::Array{opnd(p.first), p.second.getSExtValue(), (int64_t)p.first->getType()->getIntegerBitWidth()});
            J.attribute("idx", std::move(a));
          } else if (auto *p = dyn_cast<PHINode>(&I)) {
            json::Array a; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) a.push_back(json::Array{bids[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))});
            J.attribute("inc", std::move(a));
          } else if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) { J.attribute("cond", opnd(br->getCondition())); J.attribute("succ", json::Array{bids[br->getSuccessor(0)], bids[br->getSuccessor(1)]}); }
            else J.attribute("succ", json::Array{bids[br->getSuccessor(0)]});
          } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            J.attribute("cond", opnd(sw->getCondition())); J.attribute("default", bids[sw->getDefaultDest()]);
            J.attribute("w", (int64_t)sw->getCondition()->getType()->getIntegerBitWidth());
            json::Array a; for (auto &c : sw->cases()) a.push_back(json::Array{intVal(c.getCaseValue()->getValue()), bids[c.getCaseSuccessor()]});
            J.attribute("cases", std::move(a));
          } else if (auto *cb = dyn_cast<CallBase>(&I)) {
            J.attribute("callee", opnd(cb->getCalledOperand()));
            json::Array a; json::Array at; int i = 0;
            for (auto &o : cb->args()) { a.push_back(opnd(o)); at.push_back(tyStr(o->getType()));
              if (cb->paramHasAttr(i, Attribute::StructRet)) J.attribute("sret", i); ++i; }
            J.attribute("args", std::move(a)); J.attribute("aty", std::move(at));
            J.attribute("noreturn", cb->doesNotReturn());
          } else {
            json::Array a; for (auto &o : I.operands()) a.push_back(opnd(o));
            J.attribute("ops", std::move(a));
            if (auto *c = dyn_cast<CmpInst>(&I)) { J.attribute("pred", CmpInst::getPredicateName(c->getPredicate())); J.attribute("oty", tyStr(c->getOperand(0)->getType())); }
            if (auto *c = dyn_cast<CastInst>(&I)) { J.attribute("fty", tyStr(c->getSrcTy())); }
            if (auto *l = dyn_cast<LoadInst>(&I)) {
              J.attribute("ord", ordStr(l->getOrdering()));
              if (auto *md = I.getMetadata(LLVMContext::MD_range))
                if (md->getNumOperands() == 2) {
                  auto *a = mdconst::extract<ConstantInt>(md->getOperand(0)); auto *b = mdconst::extract<ConstantInt>(md->getOperand(1));
                  if (a->getBitWidth() <= 64 && a->getZExtValue() < b->getZExtValue()) J.attribute("rng", json::Array{(int64_t)a->getZExtValue(), (int64_t)b->getZExtValue()});
                }
            }
            if (auto *s = dyn_cast<StoreInst>(&I)) { J.attribute("ord", ordStr(s->getOrdering())); J.attribute("vty", tyStr(s->getValueOperand()->getType())); J.attribute("vsz", (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()).getKnownMinValue()); }
            if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { J.attribute("rmw", AtomicRMWInst::getOperationName(r->getOperation())); J.attribute("ord", ordStr(r->getOrdering())); }
            if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) { J.attribute("ord", ordStr(x->getSuccessOrdering())); }
            if (auto *x = dyn_cast<FenceInst>(&I)) { J.attribute("ord", ordStr(x->getOrdering())); }
            if (auto *al = dyn_cast<AllocaInst>(&I)) { J.attribute("asz", (int64_t)tySize(al->getAllocatedType())); J.attribute("aty", tyStr(al->getAllocatedType())); J.attribute("name", al->getName().str()); }
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto k : ev->getIndices()) ix.push_back((int64_t)k); J.attribute("ix", std::move(ix)); }
            if (auto *iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto k : iv->getIndices()) ix.push_back((int64_t)k); J.attribute("ix", std::move(ix)); }
          }
          J.objectEnd();
        }
        J.arrayEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.objectEnd();
  outs() << "\n";
  return 0;
}
