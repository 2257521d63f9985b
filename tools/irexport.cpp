// Exports the linked LLVM IR of slimcc as JSON for the Python analyses.
// usage: irexport IN.bc OUT.json [KEEP.txt]
//   KEEP.txt (with a line "!cut": recursion through kept functions does not count): names of the functions that must stay calls.  Every other
//   static, non-recursive, non-variadic function is inlined into its callers
//   first, so that a rule sees through helpers its vocabulary does not name.
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <fstream>
#include <map>
#include <set>
#include <functional>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout *DL;
static std::map<const Value *, std::string> ids;

static std::string tystr(Type *t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static J::Value constant(const Constant *c, int depth = 0) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64)
      return J::Array{"i", ci->getSExtValue(), (int)ci->getBitWidth()};
    return J::Array{"ibig", (int)ci->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(c)) return J::Array{"null"};
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return J::Array{"undef"};
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    SmallString<32> s;
    f->getValueAPF().toString(s);
    return J::Array{"f", s.str().str()};
  }
  if (auto *f = dyn_cast<Function>(c)) return J::Array{"fn", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(c)) return J::Array{"g", g->getName().str(), 0};
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    APInt off(64, 0);
    const Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (b != ce) {
      J::Value v = constant(cast<Constant>(b), depth);
      if (auto *a = v.getAsArray())
        if ((*a)[0] == J::Value("g"))
          return J::Array{"g", (*a)[1].getAsString()->str(), off.getSExtValue()};
      return v;
    }
    std::string s;
    raw_string_ostream os(s);
    ce->print(os);
    return J::Array{"ce", os.str()};
  }
  if (auto *z = dyn_cast<ConstantAggregateZero>(c)) return J::Array{"zero"};
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    if (d->isString()) {
      StringRef r = d->getAsString();
      std::string hex;
      for (unsigned char ch : r) { char b[3]; snprintf(b, 3, "%02x", ch); hex += b; }
      return J::Array{"str", hex};
    }
    J::Array a;
    for (unsigned i = 0; i < d->getNumElements(); i++)
      a.push_back(constant(d->getElementAsConstant(i), depth + 1));
    return J::Array{"arr", std::move(a)};
  }
  if (auto *ag = dyn_cast<ConstantAggregate>(c)) {
    J::Array a;
    for (const Use &u : ag->operands())
      a.push_back(constant(cast<Constant>(u.get()), depth + 1));
    return J::Array{isa<ConstantStruct>(c) ? "st" : "arr", std::move(a)};
  }
  return J::Array{"other"};
}

static J::Value operand(const Value *v) {
  auto it = ids.find(v);
  if (it != ids.end()) return it->second;
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  if (isa<InlineAsm>(v)) return J::Array{"asm"};
  return J::Array{"other"};
}

static std::string locfile(const DebugLoc &dl) {
  if (!dl) return "";
  return dl->getScope()->getFile()->getFilename().str();
}

static void prep(Function &f) {
  PassBuilder pb;
  FunctionAnalysisManager fam;
  LoopAnalysisManager lam;
  CGSCCAnalysisManager cam;
  ModuleAnalysisManager mam;
  pb.registerModuleAnalyses(mam);
  pb.registerCGSCCAnalyses(cam);
  pb.registerFunctionAnalyses(fam);
  pb.registerLoopAnalyses(lam);
  pb.crossRegisterProxies(lam, fam, cam, mam);
  FunctionPassManager fpm;
  fpm.addPass(PromotePass());
  fpm.run(f, fam);
}

int main(int argc, char **argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irexport", errs()); return 2; }
  DL = &m->getDataLayout();

  std::set<std::string> keep;
  bool doinl = argc > 3;
  if (doinl) {
    std::ifstream in(argv[3]);
    std::string l;
    while (std::getline(in, l)) keep.insert(l);
  }
  J::Array inlined;
  // first-field accesses are hidden from the inliner's folding of zero offsets
  std::vector<std::pair<Type *, unsigned>> hidden;
  std::map<Function *, unsigned> hidx;
  if (doinl) {
    std::vector<GetElementPtrInst *> gs;
    for (Function &f : *m) for (auto &b : f) for (auto &i : b)
      if (auto *g = dyn_cast<GetElementPtrInst>(&i))
        if (g->hasAllZeroIndices() && g->getSourceElementType()->isStructTy()) gs.push_back(g);
    std::map<std::pair<Type *, unsigned>, Function *> fns;
    auto *pt = PointerType::get(ctx, 0);
    for (auto *g : gs) {
      std::pair<Type *, unsigned> k(g->getSourceElementType(), g->getNumIndices());
      auto &fn = fns[k];
      if (!fn) {
        fn = Function::Create(FunctionType::get(pt, {pt}, false), Function::ExternalLinkage, "__first" + std::to_string(hidden.size()), *m);
        fn->setDoesNotThrow();
        hidx[fn] = hidden.size(); hidden.push_back(k);
      }
      auto *c = CallInst::Create(fn, {g->getPointerOperand()}, "", g);
      c->setDebugLoc(g->getDebugLoc());
      g->replaceAllUsesWith(c);
      g->eraseFromParent();
    }
  }
  if (doinl) {
    std::set<Function *> recursive;
    std::vector<Function *> order;
    if (keep.count("!cut")) {
      // recursion through kept functions does not count: their calls stay
      auto kept = [&](Function *f) {
        std::string base = f->getName().str();
        return keep.count(base.substr(0, base.find('.'))) != 0;
      };
      std::map<Function *, int> idx, low;
      std::vector<Function *> stk;
      std::set<Function *> on;
      int n = 0;
      std::function<void(Function *)> go = [&](Function *f) {
        idx[f] = low[f] = n++; stk.push_back(f); on.insert(f);
        bool self = false;
        for (auto &bb : *f) for (auto &in : bb) {
          auto *cb = dyn_cast<CallBase>(&in);
          Function *g = cb ? cb->getCalledFunction() : nullptr;
          if (!g || g->isDeclaration() || kept(g)) continue;
          if (g == f) self = true;
          if (!idx.count(g)) { go(g); low[f] = std::min(low[f], low[g]); }
          else if (on.count(g)) low[f] = std::min(low[f], idx[g]);
        }
        if (low[f] == idx[f]) {
          std::vector<Function *> scc;
          Function *g;
          do { g = stk.back(); stk.pop_back(); on.erase(g); scc.push_back(g); } while (g != f);
          for (auto *x : scc) { if (scc.size() > 1 || self) recursive.insert(x); order.push_back(x); }
        }
      };
      for (auto &f : *m) if (!f.isDeclaration() && !idx.count(&f)) go(&f);
    } else {
      CallGraph cg(*m);
    for (auto it = scc_begin(&cg); !it.isAtEnd(); ++it) {
      const auto &scc = *it;
      for (auto *n : scc) {
        Function *f = n->getFunction();
        if (!f || f->isDeclaration()) continue;
        bool rec = scc.size() > 1;
        for (auto &e : *n) if (e.second == n) rec = true;
        if (rec) recursive.insert(f);
        order.push_back(f);
      }
    }
    }
    for (Function *f : order) {
      if (f->isVarArg() || !f->hasLocalLinkage() || recursive.count(f)) continue;
      std::string base = f->getName().str();
      size_t dot = base.find('.');
      if (keep.count(base.substr(0, dot))) continue;
      std::vector<CallBase *> sites;
      bool escapes = false;
      for (User *u : f->users()) {
        auto *cb = dyn_cast<CallBase>(u);
        if (cb && cb->getCalledFunction() == f) sites.push_back(cb);
        else escapes = true;
      }
      bool any = false;
      for (auto *cb : sites) {
        f->removeFnAttr(Attribute::NoInline);
        InlineFunctionInfo ifi;
        if (InlineFunction(*cb, ifi).isSuccess()) any = true;
      }
      if (any) inlined.push_back(f->getName().str());
      if (!escapes && f->use_empty()) { f->deleteBody(); }
    }
  }
  for (auto &p : hidx) {
    std::vector<CallInst *> cs;
    for (User *u : p.first->users()) cs.push_back(cast<CallInst>(u));
    for (auto *c : cs) {
      auto k = hidden[p.second];
      std::vector<Value *> idx(k.second, ConstantInt::get(Type::getInt32Ty(ctx), 0));
      auto *g = GetElementPtrInst::CreateInBounds(k.first, c->getArgOperand(0), idx, "", c);
      g->setDebugLoc(c->getDebugLoc());
      c->replaceAllUsesWith(g);
      c->eraseFromParent();
    }
    p.first->eraseFromParent();
  }
  for (Function &f : *m) if (!f.isDeclaration()) prep(f);

  J::Object out;
  // structs
  J::Object structs;
  for (StructType *st : m->getIdentifiedStructTypes()) {
    if (st->isOpaque()) continue;
    const StructLayout *sl = DL->getStructLayout(st);
    J::Array offs, tys;
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      offs.push_back((int64_t)sl->getElementOffset(i));
      tys.push_back(tystr(st->getElementType(i)));
    }
    structs[st->getName().str()] = J::Object{{"size", (int64_t)sl->getSizeInBytes()}, {"offs", std::move(offs)}, {"tys", std::move(tys)}};
  }
  out["structs"] = std::move(structs);
  // debug composite types
  J::Object dis;
  J::Object enums;
  DebugInfoFinder dif;
  dif.processModule(*m);
  std::map<const Metadata *, std::string> tdname;
  for (auto *t : dif.types())
    if (auto *d = dyn_cast<DIDerivedType>(t))
      if (d->getTag() == dwarf::DW_TAG_typedef && d->getBaseType())
        tdname[d->getBaseType()] = d->getName().str();
  std::function<std::string(const DIType *)> dtn = [&](const DIType *t) -> std::string {
    if (!t) return "void";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_typedef) return d->getName().str();
      if (d->getTag() == dwarf::DW_TAG_pointer_type) return dtn(d->getBaseType()) + "*";
      return dtn(d->getBaseType());
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_array_type) {
        std::string s = dtn(c->getBaseType());
        for (auto *e : c->getElements())
          if (auto *sr = dyn_cast<DISubrange>(e)) {
            int64_t n = -1;
            if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) n = ci->getSExtValue();
            s += "[" + std::to_string(n) + "]";
          }
        return s;
      }
      std::string n = c->getName().str();
      if (n.empty()) { auto it = tdname.find(c); if (it != tdname.end()) n = it->second; }
      return n.empty() ? "anon" : n;
    }
    return t->getName().str();
  };
  for (auto *t : dif.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c) continue;
    std::string n = c->getName().str();
    if (n.empty()) { auto it = tdname.find(c); if (it != tdname.end()) n = it->second; }
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      J::Object e;
      for (auto *el : c->getElements())
        if (auto *en = dyn_cast<DIEnumerator>(el)) e[en->getName().str()] = en->getValue().getSExtValue();
      static int anon = 0;
      enums[n.empty() ? "anon" + std::to_string(anon++) : n] = std::move(e);
      continue;
    }
    if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
    if (n.empty()) continue;
    J::Array fs;
    for (auto *el : c->getElements())
      if (auto *d = dyn_cast<DIDerivedType>(el))
        fs.push_back(J::Object{{"name", d->getName().str()}, {"off", (int64_t)d->getOffsetInBits()}, {"size", (int64_t)d->getSizeInBits()}, {"bf", d->isBitField()}, {"ty", dtn(d->getBaseType())}});
    dis[n] = std::move(fs);
  }
  out["di"] = std::move(dis);
  out["enums"] = std::move(enums);
  // globals
  J::Object globs;
  for (GlobalVariable &g : m->globals()) {
    J::Object o;
    o["ty"] = tystr(g.getValueType());
    o["const"] = g.isConstant();
    o["local"] = g.hasLocalLinkage();
    if (g.hasInitializer()) o["init"] = constant(g.getInitializer());
    SmallVector<DIGlobalVariableExpression *, 1> gv;
    g.getDebugInfo(gv);
    for (auto *e : gv) {
      o["dity"] = dtn(e->getVariable()->getType());
      o["line"] = (int)e->getVariable()->getLine();
      o["file"] = e->getVariable()->getFilename().str();
    }
    globs[g.getName().str()] = std::move(o);
  }
  out["globals"] = std::move(globs);
  // functions
  J::Array fns;
  for (Function &f : *m) {
    J::Object fo;
    fo["name"] = f.getName().str();
    fo["decl"] = f.isDeclaration();
    fo["local"] = f.hasLocalLinkage();
    fo["vararg"] = f.isVarArg();
    fo["noreturn"] = f.doesNotReturn();
    fo["ret"] = tystr(f.getReturnType());
    if (auto *sp = f.getSubprogram()) {
      fo["line"] = (int)sp->getLine();
      fo["file"] = sp->getFilename().str();
      J::Array dt;
      if (sp->getType())
        for (auto *t : sp->getType()->getTypeArray()) dt.push_back(dtn(t));
      fo["ditys"] = std::move(dt);
    }
    ids.clear();
    J::Array as;
    int n = 0;
    for (Argument &a : f.args()) {
      ids[&a] = "a" + std::to_string(n++);
      as.push_back(J::Array{a.getName().str(), tystr(a.getType())});
    }
    fo["args"] = std::move(as);
    if (!f.isDeclaration()) {
      std::map<BasicBlock *, int> bid;
      int k = 0, iid = 0;
      for (BasicBlock &b : f) bid[&b] = k++;
      for (BasicBlock &b : f)
        for (Instruction &i : b) {
          if (isa<DbgInfoIntrinsic>(i)) continue;
          ids[&i] = "v" + std::to_string(iid++);
        }
      J::Array blocks;
      for (BasicBlock &b : f) {
        J::Array bi;
        for (Instruction &i : b) {
          if (isa<DbgInfoIntrinsic>(i)) continue;
          J::Object o;
          o["id"] = ids[&i];
          o["op"] = std::string(i.getOpcodeName());
          o["ty"] = tystr(i.getType());
          if (i.hasName()) o["nm"] = i.getName().str();
          if (i.getDebugLoc()) {
            o["ln"] = (int)i.getDebugLoc().getLine();
            o["fl"] = locfile(i.getDebugLoc());
          }
          J::Array ops;
          if (auto *cb = dyn_cast<CallBase>(&i)) {
            for (auto &u : cb->args()) ops.push_back(operand(u.get()));
            o["callee"] = operand(cb->getCalledOperand()->stripPointerCasts());
            o["noret"] = cb->doesNotReturn();
            J::Array at;
            for (auto &u : cb->args()) at.push_back(tystr(u.get()->getType()));
            o["atys"] = std::move(at);
          } else if (auto *ph = dyn_cast<PHINode>(&i)) {
            for (unsigned x = 0; x < ph->getNumIncomingValues(); x++)
              ops.push_back(J::Array{operand(ph->getIncomingValue(x)), bid[ph->getIncomingBlock(x)]});
          } else if (auto *br = dyn_cast<BranchInst>(&i)) {
            J::Array s;
            for (unsigned x = 0; x < br->getNumSuccessors(); x++) s.push_back(bid[br->getSuccessor(x)]);
            o["succ"] = std::move(s);
            if (br->isConditional()) ops.push_back(operand(br->getCondition()));
          } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
            ops.push_back(operand(sw->getCondition()));
            o["def"] = bid[sw->getDefaultDest()];
            J::Array cs;
            for (auto &c : sw->cases()) cs.push_back(J::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
          } else {
            for (auto &u : i.operands()) if (!isa<BasicBlock>(u.get())) ops.push_back(operand(u.get()));
            if (isa<CmpInst>(&i)) o["oty"] = tystr(i.getOperand(0)->getType());
            if (auto *c = dyn_cast<CmpInst>(&i)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
            if (auto *g = dyn_cast<GetElementPtrInst>(&i)) o["sty"] = tystr(g->getSourceElementType());
            if (auto *a = dyn_cast<AllocaInst>(&i)) {
              o["aty"] = tystr(a->getAllocatedType());
              o["asz"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType());
            }
            if (auto *s = dyn_cast<StoreInst>(&i)) o["sty"] = tystr(s->getValueOperand()->getType());
            if (isa<CastInst>(&i)) o["sty"] = tystr(i.getOperand(0)->getType());
          }
          o["ops"] = std::move(ops);
          bi.push_back(std::move(o));
        }
        blocks.push_back(std::move(bi));
      }
      fo["blocks"] = std::move(blocks);
    }
    fns.push_back(std::move(fo));
  }
  out["fns"] = std::move(fns);
  out["inlined"] = std::move(inlined);
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  os << J::Value(std::move(out));
  return 0;
}
