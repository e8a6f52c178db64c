// irdump: lowers an LLVM bitcode/IR module to a compact JSON that vf/ (the value-flow analyser) loads.
// usage: irdump in.ll out.json
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <string>

using namespace llvm;
using json::OStream;

static DataLayout const* DL;
static std::map<Value const*, int> ids;
static std::map<BasicBlock const*, int> bids;

static std::string tyname(Type* t)
{
    if (t->isVoidTy()) return "void";
    if (t->isDoubleTy()) return "f64";
    if (t->isFloatTy()) return "f32";
    if (t->isX86_FP80Ty()) return "f80";
    if (t->isPointerTy()) return "ptr";
    if (auto* it = dyn_cast<IntegerType>(t)) return "i" + std::to_string(it->getBitWidth());
    if (!t->isSized()) return "other";
    if (auto* st = dyn_cast<StructType>(t)) {
        std::string s = "{";
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) {
            if (i) s += ",";
            s += std::to_string(sl->getElementOffset(i)) + ":" + tyname(st->getElementType(i));
        }
        return s + "}#" + std::to_string(DL->getTypeAllocSize(st));
    }
    if (auto* at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + "x" + tyname(at->getElementType()) + "]#" + std::to_string(DL->getTypeAllocSize(at));
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return "<" + std::to_string(vt->getNumElements()) + "x" + tyname(vt->getElementType()) + ">#" + std::to_string(DL->getTypeAllocSize(vt));
    return "other";
}

static void constant(OStream& J, Constant const* c);

static void operand(OStream& J, Value const* v)
{
    if (auto it = ids.find(v); it != ids.end()) {
        J.value(it->second);
        return;
    }
    if (auto const* c = dyn_cast<Constant>(v)) {
        constant(J, c);
        return;
    }
    J.array([&] { J.value("other"); });
}

static void constant(OStream& J, Constant const* c)
{
    J.array([&] {
        if (auto const* ci = dyn_cast<ConstantInt>(c)) {
            J.value("i");
            J.value(ci->getBitWidth());
            if (ci->getBitWidth() <= 64) {
                J.value(ci->getSExtValue());
            } else {
                SmallString<64> s;
                ci->getValue().toStringSigned(s);
                J.value(StringRef(s));
            }
        } else if (auto const* cf = dyn_cast<ConstantFP>(c)) {
            J.value("f");
            APFloat f = cf->getValueAPF();
            bool lossy = false;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lossy);
            J.value(std::to_string(f.bitcastToAPInt().getZExtValue()));
        } else if (isa<ConstantPointerNull>(c)) {
            J.value("null");
        } else if (isa<UndefValue>(c)) {
            J.value("undef");
            J.value(tyname(c->getType()));
        } else if (isa<ConstantAggregateZero>(c)) {
            J.value("zero");
            J.value(tyname(c->getType()));
        } else if (auto const* gv = dyn_cast<GlobalValue>(c)) {
            J.value("g");
            J.value(gv->getName());
            J.value(0);
        } else if (auto const* ce = dyn_cast<ConstantExpr>(c)) {
            APInt off(64, 0);
            Value const* base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (auto const* gv2 = dyn_cast<GlobalValue>(base)) {
                J.value("g");
                J.value(gv2->getName());
                J.value(off.getSExtValue());
            } else if (ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::BitCast) {
                J.value("cast");
                J.value(ce->getOpcodeName());
                constant(J, ce->getOperand(0));
            } else {
                J.value("ce");
                J.value(ce->getOpcodeName());
                for (auto const& o : ce->operands()) {
                    constant(J, cast<Constant>(o.get()));
                }
            }
        } else if (auto const* cds = dyn_cast<ConstantDataSequential>(c)) {
            if (cds->isString() || (cds->getElementType()->isIntegerTy(8))) {
                J.value("str");
                std::string hex;
                for (unsigned char ch : cds->getRawDataValues()) {
                    static char const* d = "0123456789abcdef";
                    hex.push_back(d[ch >> 4]);
                    hex.push_back(d[ch & 15]);
                }
                J.value(hex);
            } else {
                J.value("agg");
                J.value(tyname(c->getType()));
                for (unsigned i = 0; i < cds->getNumElements(); ++i) constant(J, cds->getElementAsConstant(i));
            }
        } else if (auto const* ca = dyn_cast<ConstantAggregate>(c)) {
            J.value("agg");
            J.value(tyname(c->getType()));
            for (auto const& o : ca->operands()) constant(J, cast<Constant>(o.get()));
        } else {
            J.value("other");
        }
    });
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) {
        err.print("irdump", errs());
        return 2;
    }
    DL = &M->getDataLayout();
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec) return 2;
    OStream J(os);
    J.objectBegin();
    J.attributeBegin("globals");
    J.objectBegin();
    for (auto& g : M->globals()) {
        J.attributeBegin(g.getName());
        J.objectBegin();
        J.attribute("const", g.isConstant());
        J.attribute("size", (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0));
        J.attribute("ty", tyname(g.getValueType()));
        if (g.hasInitializer()) {
            J.attributeBegin("init");
            constant(J, g.getInitializer());
            J.attributeEnd();
        }
        SmallVector<MDNode*, 4> tys;
        g.getMetadata(LLVMContext::MD_type, tys);
        if (!tys.empty()) {
            J.attributeBegin("types");
            J.arrayBegin();
            for (auto* md : tys) {
                if (auto* s = dyn_cast<MDString>(md->getOperand(1))) {
                    int64_t off = cast<ConstantInt>(cast<ConstantAsMetadata>(md->getOperand(0))->getValue())->getSExtValue();
                    J.arrayBegin();
                    J.value(off);
                    J.value(s->getString());
                    J.arrayEnd();
                }
            }
            J.arrayEnd();
            J.attributeEnd();
        }
        J.objectEnd();
        J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();
    J.attributeBegin("aliases");
    J.objectBegin();
    for (auto& a : M->aliases()) {
        if (auto* t = dyn_cast<GlobalValue>(a.getAliasee()->stripPointerCasts())) J.attribute(a.getName(), t->getName());
    }
    J.objectEnd();
    J.attributeEnd();

    std::map<std::string, int> files;
    J.attributeBegin("functions");
    J.objectBegin();
    for (auto& F : *M) {
        J.attributeBegin(F.getName());
        J.objectBegin();
        J.attribute("dem", demangle(F.getName().str()));
        J.attribute("ret", tyname(F.getReturnType()));
        J.attribute("va", F.isVarArg());
        if (auto* sp = F.getSubprogram()) {
            J.attribute("file", sp->getFile() ? (sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str()) : std::string());
            J.attribute("line", (int64_t)sp->getLine());
        }
        ids.clear();
        bids.clear();
        int n = 0;
        J.attributeBegin("args");
        J.arrayBegin();
        for (auto& a : F.args()) {
            ids[&a] = n++;
            J.arrayBegin();
            J.value(a.getName());
            J.value(tyname(a.getType()));
            J.value(a.hasStructRetAttr() ? "sret" : (a.hasByValAttr() ? "byval" : ""));
            J.value((int64_t)(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()).getFixedValue() : 0));
            J.arrayEnd();
        }
        J.arrayEnd();
        J.attributeEnd();
        if (!F.isDeclaration()) {
            ReversePostOrderTraversal<Function*> rpo(&F);
            int bn = 0;
            for (auto* B : rpo) bids[B] = bn++;
            for (auto* B : rpo)
                for (auto& I : *B) ids[&I] = n++;
            DominatorTree DT(F);
            LoopInfo LI(DT);
            J.attributeBegin("loops");
            J.arrayBegin();
            for (auto* L : LI.getLoopsInPreorder()) {
                J.arrayBegin();
                J.value(bids[L->getHeader()]);
                J.arrayBegin();
                for (auto* b : L->blocks()) J.value(bids[b]);
                J.arrayEnd();
                J.arrayEnd();
            }
            J.arrayEnd();
            J.attributeEnd();
            J.attributeBegin("blocks");
            J.arrayBegin();
            for (auto* B : rpo) {
                J.arrayBegin();
                for (auto& I : *B) {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    J.arrayBegin();
                    J.value(I.getOpcodeName());
                    J.value(ids[&I]);
                    J.value(tyname(I.getType()));
                    int line = I.getDebugLoc() ? (int)I.getDebugLoc().getLine() : 0;
                    J.value(line);
                    if (auto* al = dyn_cast<AllocaInst>(&I)) {
                        J.value(al->getName());
                        J.value((int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue());
                        operand(J, al->getArraySize());
                        J.value(tyname(al->getAllocatedType()));
                    } else if (auto* ld = dyn_cast<LoadInst>(&I)) {
                        operand(J, ld->getPointerOperand());
                        J.value((int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue());
                    } else if (auto* st = dyn_cast<StoreInst>(&I)) {
                        operand(J, st->getValueOperand());
                        operand(J, st->getPointerOperand());
                        J.value(tyname(st->getValueOperand()->getType()));
                        J.value((int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue());
                    } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
                        operand(J, gep->getPointerOperand());
                        MapVector<Value*, APInt> var;
                        APInt off(64, 0);
                        gep->collectOffset(*DL, 64, var, off);
                        J.value(off.getSExtValue());
                        J.arrayBegin();
                        for (auto& [v, s] : var) {
                            J.arrayBegin();
                            operand(J, v);
                            J.value(s.getSExtValue());
                            J.arrayEnd();
                        }
                        J.arrayEnd();
                    } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                        operand(J, cb->getCalledOperand());
                        J.arrayBegin();
                        for (auto& a : cb->args()) {
                            if (auto* mdv = dyn_cast<MetadataAsValue>(a.get())) {
                                J.arrayBegin();
                                J.value("md");
                                if (auto* s = dyn_cast<MDString>(mdv->getMetadata()))
                                    J.value(s->getString());
                                else
                                    J.value("");
                                J.arrayEnd();
                            } else {
                                operand(J, a.get());
                            }
                        }
                        J.arrayEnd();
                        J.arrayBegin();
                        for (unsigned ai = 0; ai < cb->arg_size(); ++ai)
                            J.value((int64_t)(cb->isByValArgument(ai) ? DL->getTypeAllocSize(cb->getParamByValType(ai)).getFixedValue() : 0));
                        J.arrayEnd();
                        if (auto* iv = dyn_cast<InvokeInst>(&I)) {
                            J.value(bids[iv->getNormalDest()]);
                            J.value(bids[iv->getUnwindDest()]);
                        }
                    } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                        if (br->isConditional()) {
                            operand(J, br->getCondition());
                            J.value(bids[br->getSuccessor(0)]);
                            J.value(bids[br->getSuccessor(1)]);
                        } else {
                            J.value(nullptr);
                            J.value(bids[br->getSuccessor(0)]);
                        }
                    } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                        operand(J, sw->getCondition());
                        J.value(bids[sw->getDefaultDest()]);
                        J.arrayBegin();
                        for (auto& cs : sw->cases()) {
                            J.arrayBegin();
                            J.value(cs.getCaseValue()->getSExtValue());
                            J.value(bids[cs.getCaseSuccessor()]);
                            J.arrayEnd();
                        }
                        J.arrayEnd();
                    } else if (auto* phi = dyn_cast<PHINode>(&I)) {
                        J.arrayBegin();
                        for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) {
                            if (!bids.count(phi->getIncomingBlock(k))) continue;
                            J.arrayBegin();
                            J.value(bids[phi->getIncomingBlock(k)]);
                            operand(J, phi->getIncomingValue(k));
                            J.arrayEnd();
                        }
                        J.arrayEnd();
                    } else if (auto* cmp = dyn_cast<CmpInst>(&I)) {
                        J.value(CmpInst::getPredicateName(cmp->getPredicate()));
                        operand(J, cmp->getOperand(0));
                        operand(J, cmp->getOperand(1));
                        J.value(tyname(cmp->getOperand(0)->getType()));
                    } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                        operand(J, ev->getAggregateOperand());
                        J.arrayBegin();
                        for (auto i : ev->indices()) J.value((int64_t)i);
                        J.arrayEnd();
                        J.value(tyname(ev->getAggregateOperand()->getType()));
                    } else if (auto* inv = dyn_cast<InsertValueInst>(&I)) {
                        operand(J, inv->getAggregateOperand());
                        operand(J, inv->getInsertedValueOperand());
                        J.arrayBegin();
                        for (auto i : inv->indices()) J.value((int64_t)i);
                        J.arrayEnd();
                    } else if (isa<CastInst>(&I)) {
                        operand(J, I.getOperand(0));
                        J.value(tyname(I.getOperand(0)->getType()));
                    } else {
                        for (auto& o : I.operands()) operand(J, o.get());
                    }
                    J.arrayEnd();
                }
                J.arrayEnd();
            }
            J.arrayEnd();
            J.attributeEnd();
        }
        J.objectEnd();
        J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();
    J.objectEnd();
    return 0;
}
