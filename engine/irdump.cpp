// irdump: reads an LLVM bitcode/IR file and writes a JSON description of it
// (functions, instructions, natural loops, debug-info types) for the verifier.
#include <llvm/ADT/DenseMap.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>

using namespace llvm;

static const DataLayout *DL;
static DenseMap<const Value *, int> ids;

static std::string tyStr(Type *t)
{
  std::string s;
  raw_string_ostream os(s);
  if (auto *st = dyn_cast<StructType>(t))
  {
    if (st->hasName()) return "%" + st->getName().str();
  }
  t->print(os, false, true);
  return os.str();
}

static json::Value opnd(const Value *v);

static json::Value constant(const Constant *c)
{
  if (auto *ci = dyn_cast<ConstantInt>(c))
  {
    SmallString<32> s;
    ci->getValue().toStringSigned(s);
    return json::Array{"ci", (int)ci->getBitWidth(), s.str().str()};
  }
  if (auto *cf = dyn_cast<ConstantFP>(c))
  {
    APFloat f = cf->getValueAPF();
    bool lose;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    uint64_t bits = f.bitcastToAPInt().getZExtValue();
    return json::Array{"cf", tyStr(c->getType()), std::to_string(bits)};
  }
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<UndefValue>(c)) return json::Array{"undef", tyStr(c->getType())};
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return opnd(ga->getAliasee());
  if (auto *f = dyn_cast<Function>(c)) return json::Array{"f", f->getName()};
  if (auto *g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName()};
  if (auto *ce = dyn_cast<ConstantExpr>(c))
  {
    if (auto *gep = dyn_cast<GEPOperator>(ce))
    {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return json::Array{"gep", opnd(gep->getPointerOperand()), (int64_t)off.getSExtValue()};
    }
    std::string s;
    raw_string_ostream os(s);
    ce->print(os);
    return json::Array{"ce", os.str()};
  }
  if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", tyStr(c->getType())};
  if (auto *cd = dyn_cast<ConstantDataSequential>(c))
  {
    if (cd->isString()) return json::Array{"str", json::fixUTF8(cd->getAsString())};
    json::Array a;
    for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(constant(cd->getElementAsConstant(i)));
    return json::Array{"agg", std::move(a)};
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c))
  {
    json::Array a;
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) a.push_back(opnd(ca->getOperand(i)));
    return json::Array{"agg", std::move(a)};
  }
  std::string s;
  raw_string_ostream os(s);
  c->print(os);
  return json::Array{"ce", os.str()};
}

static json::Value opnd(const Value *v)
{
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  auto it = ids.find(v);
  if (it == ids.end()) return json::Array{"?"};
  return json::Array{"v", it->second};
}

static std::map<const DIType *, int> diIds;
static std::vector<const DIType *> diList;
static int diId(const DIType *t)
{
  if (!t) return -1;
  auto it = diIds.find(t);
  if (it != diIds.end()) return it->second;
  int n = diList.size();
  diIds[t] = n;
  diList.push_back(t);
  return n;
}

static std::string scopeName(const DIScope *s)
{
  std::string r;
  while (s)
  {
    if (auto *ns = dyn_cast<DINamespace>(s)) { if (!ns->getExportSymbols()) r = ns->getName().str() + "::" + r; }
    else if (auto *t = dyn_cast<DICompositeType>(s)) r = t->getName().str() + "::" + r;
    s = s->getScope();
  }
  return r;
}

static void leaves(Type *t, uint64_t off, json::Array &out)
{
  if (auto *st = dyn_cast<StructType>(t))
  {
    if (st->isOpaque()) return;
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), off + sl->getElementOffset(i), out);
  }
  else if (auto *at = dyn_cast<ArrayType>(t))
  {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    uint64_t n = at->getNumElements();
    if (n > 4096) return;
    for (uint64_t i = 0; i < n; ++i) leaves(at->getElementType(), off + i * es, out);
  }
  else
    out.push_back(json::Array{(int64_t)off, tyStr(t)});
}

static json::Object instr(const Instruction &I, DominatorTree *)
{
  json::Object o;
  o["op"] = I.getOpcodeName();
  if (!I.getType()->isVoidTy())
  {
    o["id"] = ids[&I];
    o["ty"] = tyStr(I.getType());
  }
  if (const DebugLoc &dl = I.getDebugLoc())
  {
    const DILocation *loc = dl.get();
    o["line"] = (int)loc->getLine();
    o["col"] = (int)loc->getColumn();
    o["file"] = loc->getFilename();
  }
  if (auto *g = dyn_cast<GetElementPtrInst>(&I))
  {
    MapVector<Value *, APInt> var;
    APInt off(64, 0);
    if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, var, off)) o["bad"] = true;
    o["base"] = opnd(g->getPointerOperand());
    o["off"] = (int64_t)off.getSExtValue();
    json::Array a;
    for (auto &p : var) a.push_back(json::Array{opnd(p.first), (int64_t)p.second.getSExtValue()});
    o["idx"] = std::move(a);
    o["srcty"] = tyStr(g->getSourceElementType());
    return o;
  }
  if (auto *al = dyn_cast<AllocaInst>(&I))
  {
    o["aty"] = tyStr(al->getAllocatedType());
    o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
    o["n"] = opnd(al->getArraySize());
    return o;
  }
  if (auto *phi = dyn_cast<PHINode>(&I))
  {
    json::Array a;
    for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
      a.push_back(json::Array{opnd(phi->getIncomingValue(i)), ids[phi->getIncomingBlock(i)]});
    o["inc"] = std::move(a);
    return o;
  }
  if (auto *br = dyn_cast<BranchInst>(&I))
  {
    if (br->isConditional()) o["cond"] = opnd(br->getCondition());
    json::Array a;
    for (unsigned i = 0; i < br->getNumSuccessors(); ++i) a.push_back(ids[br->getSuccessor(i)]);
    o["succ"] = std::move(a);
    return o;
  }
  if (auto *sw = dyn_cast<SwitchInst>(&I))
  {
    o["cond"] = opnd(sw->getCondition());
    o["default"] = ids[sw->getDefaultDest()];
    json::Array a;
    for (auto &c : sw->cases())
      a.push_back(json::Array{constant(c.getCaseValue()), ids[c.getCaseSuccessor()]});
    o["cases"] = std::move(a);
    return o;
  }
  if (auto *cb = dyn_cast<CallBase>(&I))
  {
    if (auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) o["callee"] = f->getName();
    else if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts()))
      o["callee"] = ga->getAliasee()->getName();
    else o["fptr"] = opnd(cb->getCalledOperand());
    json::Array a, bv;
    for (unsigned i = 0; i < cb->arg_size(); ++i)
    {
      a.push_back(opnd(cb->getArgOperand(i)));
      if (cb->isByValArgument(i))
        bv.push_back(json::Array{(int)i, (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()});
    }
    o["args"] = std::move(a);
    if (!bv.empty()) o["byval"] = std::move(bv);
    if (auto *inv = dyn_cast<InvokeInst>(&I))
    {
      o["normal"] = ids[inv->getNormalDest()];
      o["unwind"] = ids[inv->getUnwindDest()];
    }
    return o;
  }
  if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
  if (auto *ci = dyn_cast<CastInst>(&I)) o["sty"] = tyStr(ci->getSrcTy());
  if (auto *st = dyn_cast<StoreInst>(&I)) o["vty"] = tyStr(st->getValueOperand()->getType());
  if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I))
  {
    if (ob->hasNoSignedWrap()) o["nsw"] = true;
    if (ob->hasNoUnsignedWrap()) o["nuw"] = true;
  }
  if (auto *ev = dyn_cast<ExtractValueInst>(&I))
  {
    json::Array a;
    for (unsigned i : ev->indices()) a.push_back((int)i);
    o["indices"] = std::move(a);
  }
  if (auto *iv = dyn_cast<InsertValueInst>(&I))
  {
    json::Array a;
    for (unsigned i : iv->indices()) a.push_back((int)i);
    o["indices"] = std::move(a);
  }
  json::Array a;
  for (const Use &u : I.operands())
  {
    if (isa<BasicBlock>(u.get())) a.push_back(ids[u.get()]);
    else a.push_back(opnd(u.get()));
  }
  o["ops"] = std::move(a);
  return o;
}

int main(int argc, char **argv)
{
  if (argc < 3) return 2;
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();

  DebugInfoFinder finder;
  finder.processModule(*M);
  for (auto *t : finder.types()) diId(t);

  json::Object root;
  json::Object funcs;
  for (Function &F : *M)
  {
    json::Object fo;
    fo["name"] = F.getName();
    fo["dem"] = demangle(F.getName().str());
    fo["decl"] = F.isDeclaration();
    fo["ret"] = tyStr(F.getReturnType());
    fo["noreturn"] = F.doesNotReturn();
    fo["nounwind"] = F.doesNotThrow();
    ids.clear();
    int n = 0;
    json::Array args;
    for (Argument &A : F.args())
    {
      ids[&A] = n++;
      json::Object ao{{"id", ids[&A]}, {"ty", tyStr(A.getType())}, {"name", A.getName()}};
      if (A.hasStructRetAttr())
      {
        ao["sret"] = true;
        ao["size"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType()).getFixedValue();
        ao["pty"] = tyStr(A.getParamStructRetType());
      }
      if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue();
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    if (DISubprogram *sp = F.getSubprogram())
    {
      fo["file"] = sp->getFilename();
      fo["line"] = (int)sp->getLine();
      json::Array sig;
      if (auto *st = sp->getType())
        for (auto *t : st->getTypeArray()) sig.push_back(diId(t));
      fo["sig"] = std::move(sig);
    }
    if (!F.isDeclaration())
    {
      for (BasicBlock &B : F)
      {
        ids[&B] = n++;
        for (Instruction &I : B) ids[&I] = n++;
      }
      DominatorTree DT(F);
      LoopInfo LI(DT);
      json::Array blocks;
      for (BasicBlock &B : F)
      {
        json::Object bo;
        bo["id"] = ids[&B];
        bo["name"] = B.getName();
        json::Array is;
        for (Instruction &I : B)
        {
          if (isa<DbgInfoIntrinsic>(I))
          {
            continue;
          }
          is.push_back(instr(I, &DT));
        }
        bo["ins"] = std::move(is);
        blocks.push_back(std::move(bo));
      }
      fo["blocks"] = std::move(blocks);
      json::Array loops;
      for (Loop *L : LI.getLoopsInPreorder())
      {
        json::Object lo;
        lo["header"] = ids[L->getHeader()];
        json::Array bs;
        for (BasicBlock *B : L->blocks()) bs.push_back(ids[B]);
        lo["blocks"] = std::move(bs);
        loops.push_back(std::move(lo));
      }
      fo["loops"] = std::move(loops);
      json::Array vars;
      for (Instruction &I : instructions(F))
        if (auto *d = dyn_cast<DbgDeclareInst>(&I))
        {
          if (auto *a = d->getAddress())
            if (ids.count(a)) vars.push_back(json::Array{ids[a], d->getVariable()->getName(), (int)d->getVariable()->getLine(), diId(d->getVariable()->getType())});
        }
      fo["vars"] = std::move(vars);
    }
    funcs[F.getName()] = std::move(fo);
  }
  root["functions"] = std::move(funcs);

  json::Object globals;
  for (GlobalVariable &G : M->globals())
  {
    json::Object go;
    go["ty"] = tyStr(G.getValueType());
    go["const"] = G.isConstant();
    go["dem"] = demangle(G.getName().str());
    json::Array lv;
    leaves(G.getValueType(), 0, lv);
    go["leaves"] = std::move(lv);
    if (G.hasInitializer()) go["init"] = constant(G.getInitializer());
    globals[G.getName()] = std::move(go);
  }
  root["globals"] = std::move(globals);

  json::Object structs;
  for (StructType *st : M->getIdentifiedStructTypes())
  {
    if (st->isOpaque() || !st->hasName()) continue;
    json::Array a;
    leaves(st, 0, a);
    structs["%" + st->getName().str()] = json::Object{{"size", (int64_t)DL->getTypeAllocSize(st).getFixedValue()}, {"leaves", std::move(a)}};
  }
  root["structs"] = std::move(structs);

  json::Array dis;
  for (size_t i = 0; i < diList.size(); ++i)
  {
    const DIType *t = diList[i];
    json::Object o;
    o["id"] = (int)i;
    o["name"] = t->getName();
    o["qname"] = scopeName(t->getScope()) + t->getName().str();
    o["size"] = (int64_t)(t->getSizeInBits() / 8);
    o["tag"] = dwarf::TagString(t->getTag()).str();
    if (auto *d = dyn_cast<DIDerivedType>(t)) o["base"] = diId(d->getBaseType());
    if (auto *b = dyn_cast<DIBasicType>(t)) o["enc"] = (int)b->getEncoding();
    if (auto *c = dyn_cast<DICompositeType>(t))
    {
      o["base"] = diId(c->getBaseType());
      o["decl"] = c->isForwardDecl();
      json::Array ms, vf;
      for (auto *e : c->getElements())
      {
        if (auto *m = dyn_cast<DIDerivedType>(e))
        {
          if (m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember())
            ms.push_back(json::Object{{"name", m->getName()}, {"off", (int64_t)(m->getOffsetInBits() / 8)}, {"type", diId(m->getBaseType())}});
          else if (m->getTag() == dwarf::DW_TAG_inheritance)
            ms.push_back(json::Object{{"name", ""}, {"inherit", true}, {"off", (int64_t)(m->getOffsetInBits() / 8)}, {"type", diId(m->getBaseType())}});
        }
        else if (auto *r = dyn_cast<DISubrange>(e))
        {
          if (auto *ci = r->getCount().dyn_cast<ConstantInt *>()) o["count"] = (int64_t)ci->getSExtValue();
        }
        else if (auto *sp = dyn_cast<DISubprogram>(e))
        {
          if (sp->getVirtuality()) vf.push_back(json::Array{(int)sp->getVirtualIndex(), sp->getName(), sp->getLinkageName()});
        }
      }
      o["members"] = std::move(ms);
      if (!vf.empty()) o["virtuals"] = std::move(vf);
      json::Array tp;
      for (auto *p : c->getTemplateParams())
        if (auto *tt = dyn_cast<DITemplateTypeParameter>(p)) tp.push_back(diId(tt->getType()));
        else if (auto *tv = dyn_cast<DITemplateValueParameter>(p))
        {
          if (auto *cm = dyn_cast_or_null<ConstantAsMetadata>(tv->getValue()))
            if (auto *ci = dyn_cast<ConstantInt>(cm->getValue())) { tp.push_back(json::Object{{"v", (int64_t)ci->getSExtValue()}}); continue; }
          tp.push_back(nullptr);
        }
      o["tparams"] = std::move(tp);
    }
    dis.push_back(std::move(o));
  }
  root["di"] = std::move(dis);

  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  os << json::Value(std::move(root));
  return 0;
}
