// irexport: dumps an LLVM module (bitcode / .ll) as JSON for the analyses in this directory.
// It makes no decision of its own: it flattens GEPs and constants, resolves debug
// locations, class layouts and natural loops, and prints everything else as it is.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>

using namespace llvm;
using JV = json::Value;
using json::Array;
using json::Object;

static const DataLayout* DL;

static std::string fp_bits(const APFloat& f) {
    SmallString<32> s; f.bitcastToAPInt().toStringUnsigned(s, 16); return std::string(s);
}

static JV ty(Type* t) {
    if(t->isVoidTy()) return "void";
    if(t->isPointerTy()) return "ptr";
    if(auto* i = dyn_cast<IntegerType>(t)) return "i" + std::to_string(i->getBitWidth());
    if(t->isDoubleTy()) return "double";
    if(t->isFloatTy()) return "float";
    if(t->isX86_FP80Ty()) return "fp80";
    if(auto* s = dyn_cast<StructType>(t)) {
        Array a;
        if(!s->isOpaque()) {
            auto* l = DL->getStructLayout(s);
            for(unsigned i = 0; i < s->getNumElements(); i++)
                a.push_back(Array{ (int64_t)l->getElementOffset(i), ty(s->getElementType(i)) });
        }
        return Object{ {"s", std::move(a)}, {"size", (int64_t)(s->isSized() ? DL->getTypeAllocSize(s).getFixedValue() : 0)} };
    }
    if(auto* ar = dyn_cast<ArrayType>(t))
        return Object{ {"a", ty(ar->getElementType())}, {"n", (int64_t)ar->getNumElements()},
                       {"size", (int64_t)DL->getTypeAllocSize(ar).getFixedValue()} };
    if(auto* v = dyn_cast<FixedVectorType>(t))
        return Object{ {"v", ty(v->getElementType())}, {"n", (int64_t)v->getNumElements()} };
    if(t->isLabelTy()) return "label";
    if(t->isMetadataTy()) return "metadata";
    return "other";
}

static int64_t tysize(Type* t) { return t->isSized() ? (int64_t)DL->getTypeStoreSize(t).getFixedValue() : 0; }

struct FnCtx {
    std::map<const llvm::Value*, int> ids;
    std::map<const BasicBlock*, int> bbs;
};

static JV constant(const Constant* c);

static JV operand(const llvm::Value* v, FnCtx& fc) {
    if(auto* c = dyn_cast<Constant>(v)) return constant(c);
    auto it = fc.ids.find(v);
    if(it != fc.ids.end()) return Array{ "%", it->second };
    if(auto* bb = dyn_cast<BasicBlock>(v)) return Array{ "b", fc.bbs[bb] };
    return Array{ "?" };
}

static JV constant(const Constant* c) {
    if(auto* ci = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s; ci->getValue().toStringUnsigned(s, 10);
        return Array{ "i", (int64_t)ci->getBitWidth(), std::string(s) };
    }
    if(auto* cf = dyn_cast<ConstantFP>(c)) return Array{ "f", ty(c->getType()), fp_bits(cf->getValueAPF()) };
    if(isa<ConstantPointerNull>(c)) return Array{ "n" };
    if(isa<UndefValue>(c)) return Array{ "u", ty(c->getType()) };
    if(auto* f = dyn_cast<Function>(c)) return Array{ "F", f->getName().str() };
    if(auto* g = dyn_cast<GlobalVariable>(c)) return Array{ "g", g->getName().str() };
    if(auto* ga = dyn_cast<GlobalAlias>(c)) {
        if(auto* f = dyn_cast<Function>(ga->getAliaseeObject())) return Array{ "F", f->getName().str() };
        return Array{ "u", "ptr" };
    }
    if(isa<ConstantAggregateZero>(c)) return Array{ "z", ty(c->getType()) };
    if(auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        Array a;
        for(unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(constant(cd->getElementAsConstant(i)));
        return Array{ "A", ty(c->getType()), std::move(a) };
    }
    if(isa<ConstantAggregate>(c)) {
        Array a;
        for(unsigned i = 0; i < c->getNumOperands(); i++) a.push_back(constant(cast<Constant>(c->getOperand(i))));
        return Array{ "A", ty(c->getType()), std::move(a) };
    }
    if(auto* ce = dyn_cast<ConstantExpr>(c)) {
        if(auto* gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if(gep->accumulateConstantOffset(*DL, off))
                return Array{ "ge", constant(cast<Constant>(gep->getPointerOperand())), off.getSExtValue() };
        }
        Array a;
        for(unsigned i = 0; i < ce->getNumOperands(); i++) a.push_back(constant(cast<Constant>(ce->getOperand(i))));
        return Array{ "ce", ce->getOpcodeName(), ty(ce->getType()), std::move(a) };
    }
    return Array{ "u", ty(c->getType()) };
}

// flattened initializer: (offset, size, scalar constant); zero ranges are left out
static void flatten(const Constant* c, int64_t off, Array& out) {
    if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if(auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        auto es = (int64_t)DL->getTypeAllocSize(cd->getElementType()).getFixedValue();
        for(unsigned i = 0; i < cd->getNumElements(); i++) flatten(cd->getElementAsConstant(i), off + i * es, out);
        return;
    }
    if(auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* l = DL->getStructLayout(cs->getType());
        for(unsigned i = 0; i < cs->getNumOperands(); i++) flatten(cs->getOperand(i), off + (int64_t)l->getElementOffset(i), out);
        return;
    }
    if(auto* ca = dyn_cast<ConstantArray>(c)) {
        auto es = (int64_t)DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
        for(unsigned i = 0; i < ca->getNumOperands(); i++) flatten(ca->getOperand(i), off + i * es, out);
        return;
    }
    out.push_back(Array{ off, tysize(c->getType()), constant(c) });
}

static JV loc(const DebugLoc& d) {
    if(!d) return nullptr;
    auto* sc = cast<DIScope>(d.getScope());
    std::string dir = sc->getDirectory().str(), file = sc->getFilename().str();
    if(!file.empty() && file[0] != '/') file = dir + "/" + file;
    return Array{ file, (int64_t)d.getLine() };
}

static JV inst(Instruction& I, FnCtx& fc) {
    Object o;
    o["op"] = I.getOpcodeName();
    if(fc.ids.count(&I)) o["id"] = fc.ids[&I];
    o["ty"] = ty(I.getType());
    if(auto l = loc(I.getDebugLoc()); l.getAsArray()) o["loc"] = std::move(l);

    if(auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        o["base"] = operand(g->getPointerOperand(), fc);
        o["inb"] = g->isInBounds();
        MapVector<llvm::Value*, APInt> var; APInt off(64, 0);
        if(g->collectOffset(*DL, 64, var, off)) {
            o["off"] = off.getSExtValue();
            Array v;
            for(auto& p : var) v.push_back(Array{ operand(p.first, fc), p.second.getSExtValue(), ty(p.first->getType()) });
            o["var"] = std::move(v);
        } else o["bad"] = true;
        return o;
    }
    if(auto* a = dyn_cast<AllocaInst>(&I)) {
        o["size"] = tysize(a->getAllocatedType());
        o["asize"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
        o["count"] = operand(a->getArraySize(), fc);
        o["aty"] = ty(a->getAllocatedType());
        return o;
    }
    if(auto* l = dyn_cast<LoadInst>(&I)) { o["p"] = operand(l->getPointerOperand(), fc); o["size"] = tysize(l->getType()); return o; }
    if(auto* s = dyn_cast<StoreInst>(&I)) {
        o["p"] = operand(s->getPointerOperand(), fc); o["v"] = operand(s->getValueOperand(), fc);
        o["vty"] = ty(s->getValueOperand()->getType()); o["size"] = tysize(s->getValueOperand()->getType()); return o;
    }
    if(auto* p = dyn_cast<PHINode>(&I)) {
        Array a;
        for(unsigned i = 0; i < p->getNumIncomingValues(); i++)
            a.push_back(Array{ operand(p->getIncomingValue(i), fc), fc.bbs[p->getIncomingBlock(i)] });
        o["in"] = std::move(a);
        return o;
    }
    if(auto* b = dyn_cast<BranchInst>(&I)) {
        Array t;
        for(unsigned i = 0; i < b->getNumSuccessors(); i++) t.push_back(fc.bbs[b->getSuccessor(i)]);
        o["to"] = std::move(t);
        if(b->isConditional()) o["c"] = operand(b->getCondition(), fc);
        return o;
    }
    if(auto* s = dyn_cast<SwitchInst>(&I)) {
        o["c"] = operand(s->getCondition(), fc); o["cty"] = ty(s->getCondition()->getType());
        o["def"] = fc.bbs[s->getDefaultDest()];
        Array a;
        for(auto& c : s->cases()) a.push_back(Array{ constant(c.getCaseValue()), fc.bbs[c.getCaseSuccessor()] });
        o["cases"] = std::move(a);
        return o;
    }
    if(auto* cb = dyn_cast<CallBase>(&I)) {
        o["fn"] = operand(cb->getCalledOperand(), fc);
        Array a, at;
        for(auto& x : cb->args()) { a.push_back(operand(x.get(), fc)); at.push_back(ty(x->getType())); }
        o["args"] = std::move(a); o["aty"] = std::move(at);
        Array bv;
        for(unsigned i = 0; i < cb->arg_size(); i++)
            if(cb->isByValArgument(i)) bv.push_back(Array{ (int64_t)i, (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() });
        if(!bv.empty()) o["byval"] = std::move(bv);
        if(cb->doesNotReturn()) o["noreturn"] = true;
        if(cb->doesNotThrow()) o["nounwind"] = true;
        if(auto* iv = dyn_cast<InvokeInst>(cb)) { o["normal"] = fc.bbs[iv->getNormalDest()]; o["unwind"] = fc.bbs[iv->getUnwindDest()]; }
        return o;
    }
    if(auto* lp = dyn_cast<LandingPadInst>(&I)) {
        o["cleanup"] = lp->isCleanup();
        Array a;
        for(unsigned i = 0; i < lp->getNumClauses(); i++)
            a.push_back(Array{ lp->isCatch(i) ? "catch" : "filter", constant(lp->getClause(i)) });
        o["clauses"] = std::move(a);
        return o;
    }
    if(auto* c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
    if(auto* e = dyn_cast<ExtractValueInst>(&I)) { Array a; for(auto i : e->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); }
    if(auto* e = dyn_cast<InsertValueInst>(&I)) { Array a; for(auto i : e->indices()) a.push_back((int64_t)i); o["idx"] = std::move(a); }
    if(auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if(ob->hasNoSignedWrap()) o["nsw"] = true; if(ob->hasNoUnsignedWrap()) o["nuw"] = true; }
    Array a, at;
    for(auto& x : I.operands()) { a.push_back(operand(x.get(), fc)); at.push_back(ty(x->getType())); }
    o["ops"] = std::move(a); o["oty"] = std::move(at);
    return o;
}

static std::string absfile(const DIFile* f) {
    if(!f) return "";
    std::string n = f->getFilename().str();
    return !n.empty() && n[0] != '/' ? f->getDirectory().str() + "/" + n : n;
}

static int64_t tbits(const DIType* t) {
    while(t && !t->getSizeInBits()) { auto* d = dyn_cast<DIDerivedType>(t); if(!d) break; t = d->getBaseType(); }
    return t ? (int64_t)t->getSizeInBits() : 0;
}

static std::string tname(const DIType* t) {
    if(!t) return "void";
    if(auto* d = dyn_cast<DIDerivedType>(t)) {
        switch(d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return tname(d->getBaseType()) + "*";
            case dwarf::DW_TAG_reference_type: return tname(d->getBaseType()) + "&";
            case dwarf::DW_TAG_rvalue_reference_type: return tname(d->getBaseType()) + "&&";
            case dwarf::DW_TAG_const_type: return "const " + tname(d->getBaseType());
            case dwarf::DW_TAG_volatile_type: return "volatile " + tname(d->getBaseType());
            case dwarf::DW_TAG_typedef: return tname(d->getBaseType());
            default: break;
        }
    }
    std::string n;
    for(auto* s = t->getScope(); s; s = s->getScope()) {
        if(isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
        if(isa<DINamespace>(s) || isa<DIType>(s)) {
            std::string sn = s->getName().str();
            if(!sn.empty() && sn.rfind("__cxx11", 0) != 0) n = sn + "::" + n;
        }
    }
    return n + t->getName().str();
}

int main(int argc, char** argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if(!M) { err.print(argv[0], errs()); return 2; }
    DL = &M->getDataLayout();

    Object root;
    Object fns, globs, types;

    for(auto& g : M->globals()) {
        Object o;
        o["const"] = g.isConstant();
        o["decl"] = g.isDeclaration();
        o["tls"] = g.isThreadLocal();
        o["internal"] = g.hasLocalLinkage();
        o["size"] = g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
        o["dem"] = demangle(g.getName().str());
        if(g.hasInitializer()) { Array a; flatten(g.getInitializer(), 0, a); o["init"] = std::move(a); }
        SmallVector<DIGlobalVariableExpression*, 1> dis; g.getDebugInfo(dis);
        if(!dis.empty()) {
            auto* v = dis[0]->getVariable();
            o["loc"] = Array{ absfile(v->getFile()), (int64_t)v->getLine() };
            o["tname"] = tname(v->getType());
        }
        globs[g.getName().str()] = std::move(o);
    }

    for(auto& F : *M) {
        Object o;
        o["dem"] = demangle(F.getName().str());
        o["decl"] = F.isDeclaration();
        o["ret"] = ty(F.getReturnType());
        if(F.doesNotReturn()) o["noreturn"] = true;
        if(F.doesNotThrow()) o["nounwind"] = true;
        o["linkage"] = F.hasLocalLinkage() ? "internal" : F.isWeakForLinker() ? "odr" : "external";
        FnCtx fc; int n = 0;
        Array args;
        for(auto& A : F.args()) {
            fc.ids[&A] = n;
            Object ao{ {"id", n}, {"ty", ty(A.getType())}, {"name", A.getName().str()} };
            if(A.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType()).getFixedValue();
            if(A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue();
            if(A.getDereferenceableBytes()) ao["deref"] = (int64_t)A.getDereferenceableBytes();
            args.push_back(std::move(ao));
            n++;
        }
        o["args"] = std::move(args);
        if(auto* sp = F.getSubprogram()) {
            o["file"] = absfile(sp->getFile()); o["line"] = (int64_t)sp->getLine();
            Array pt;
            if(auto* st = sp->getType()) for(auto* t : st->getTypeArray()) pt.push_back(t ? tname(t) : "void");
            o["sig"] = std::move(pt);
        }
        if(!F.isDeclaration()) {
            int bn = 0;
            ReversePostOrderTraversal<Function*> rpo(&F);
            std::vector<BasicBlock*> order;
            for(auto* bb : rpo) { fc.bbs[bb] = bn++; order.push_back(bb); }
            for(auto* bb : order) for(auto& I : *bb) if(!I.getType()->isVoidTy()) fc.ids[&I] = n++;
            DominatorTree dt(F); LoopInfo li(dt);
            Array bbs;
            for(auto* bb : order) {
                Array is;
                for(auto& I : *bb) {
                    if(isa<DbgInfoIntrinsic>(&I)) continue;
                    // edges from unreachable blocks stay out of the phis
                    if(auto* p = dyn_cast<PHINode>(&I)) {
                        Object po; po["op"] = "phi"; po["id"] = fc.ids[p]; po["ty"] = ty(p->getType());
                        Array a;
                        for(unsigned i = 0; i < p->getNumIncomingValues(); i++)
                            if(fc.bbs.count(p->getIncomingBlock(i)))
                                a.push_back(Array{ operand(p->getIncomingValue(i), fc), fc.bbs[p->getIncomingBlock(i)] });
                        po["in"] = std::move(a);
                        is.push_back(std::move(po));
                        continue;
                    }
                    is.push_back(inst(I, fc));
                }
                Object b{ {"insts", std::move(is)} };
                if(li.isLoopHeader(bb)) {
                    Array lb;
                    for(auto* x : li.getLoopFor(bb)->blocks()) if(fc.bbs.count(x)) lb.push_back(fc.bbs[x]);
                    b["loop"] = std::move(lb);
                }
                auto* idom = dt.getNode(bb) && dt.getNode(bb)->getIDom() ? dt.getNode(bb)->getIDom()->getBlock() : nullptr;
                b["idom"] = idom ? fc.bbs[idom] : -1;
                bbs.push_back(std::move(b));
            }
            o["bbs"] = std::move(bbs);
            o["nvals"] = n;
        }
        fns[F.getName().str()] = std::move(o);
    }

    DebugInfoFinder fi; fi.processModule(*M);
    for(auto* t : fi.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if(!c || c->isForwardDecl()) continue;
        if(c->getTag() == dwarf::DW_TAG_enumeration_type) {
            Object e;
            for(auto* x : c->getElements()) if(auto* en = dyn_cast_or_null<DIEnumerator>(x)) e[en->getName().str()] = en->getValue().getSExtValue();
            types[tname(c)] = Object{ {"enum", std::move(e)} };
            continue;
        }
        if(c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
        Object o; Array ms, ctors;
        for(auto* e : c->getElements()) {
            if(auto* m = dyn_cast_or_null<DIDerivedType>(e)) {
                bool st = m->isStaticMember();
                std::string kind = m->getTag() == dwarf::DW_TAG_inheritance ? "base" : m->getTag() == dwarf::DW_TAG_member ? (st ? "static" : "field") : "other";
                if(kind == "other") continue;
                ms.push_back(Object{ {"name", m->getName().str()}, {"kind", kind}, {"off", (int64_t)(m->getOffsetInBits() / 8)},
                    {"size", tbits(m->getBaseType()) / 8}, {"type", tname(m->getBaseType())} });
            } else if(auto* sp = dyn_cast_or_null<DISubprogram>(e)) {
                ctors.push_back(Object{ {"name", sp->getName().str()}, {"link", sp->getLinkageName().str()}, {"deleted", sp->isDeleted()}, {"artificial", sp->isArtificial()} });
            }
        }
        o["members"] = std::move(ms);
        o["methods"] = std::move(ctors);
        o["size"] = (int64_t)(c->getSizeInBits() / 8);
        o["tag"] = c->getTag() == dwarf::DW_TAG_union_type ? "union" : "class";
        o["file"] = absfile(c->getFile()); o["line"] = (int64_t)c->getLine();
        std::string nm = tname(c);
        if(!types.get(nm) || (int64_t)ms.size() > 0) types[nm] = std::move(o);
    }

    root["functions"] = std::move(fns);
    root["globals"] = std::move(globs);
    root["types"] = std::move(types);
    json::OStream J(outs());
    J.value(JV(std::move(root)));
    return 0;
}
