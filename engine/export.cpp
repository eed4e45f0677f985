// IR exporter: reads LLVM IR produced by clang from the real sources, inlines
// everything that has no contract, normalises with a fixed pass list and dumps
// the functions reachable from the requested roots as JSON.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <deque>
#include <functional>
using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<std::string> Out("o", cl::Required);
static cl::list<std::string> RootRe("root", cl::desc("regex of demangled names to export"));
static cl::list<std::string> StopRe("stop", cl::desc("regex of demangled names with a contract: not inlined"));
static cl::opt<std::string> Passes("passes", cl::init(""));
static cl::opt<std::string> Pre("pre", cl::init(""));
static cl::opt<bool> ListOnly("list", cl::init(false));
static cl::opt<bool> NoInline("noinline", cl::init(false));

static const DataLayout *DL;

static std::string tyStr(Type *T) {
    std::string s; raw_string_ostream o(s);
    if (auto *ST = dyn_cast<StructType>(T)) {
        o << "{"; bool f = true; auto *SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) { if (!f) o << ","; f = false; o << (uint64_t)SL->getElementOffset(i) << ":" << tyStr(ST->getElementType(i)); }
        o << "}";
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
        o << "[" << AT->getNumElements() << " x " << tyStr(AT->getElementType()) << "]";
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
        o << "<" << VT->getNumElements() << " x " << tyStr(VT->getElementType()) << ">";
    } else if (T->isPointerTy()) o << "ptr";
    else T->print(o, false, true);
    return o.str();
}

struct Dumper {
    json::OStream &J;
    std::map<const Value *, int> ids;
    std::set<const GlobalVariable *> &globals;
    std::map<const BasicBlock *, int> bbs;
    Dumper(json::OStream &J, std::set<const GlobalVariable *> &g) : J(J), globals(g) {}

    json::Value constant(const Constant *C) {
        if (auto *CI = dyn_cast<ConstantInt>(C)) {
            SmallString<64> s; CI->getValue().toStringUnsigned(s, 10);
            return json::Array{"c", CI->getBitWidth(), std::string(s)};
        }
        if (auto *CF = dyn_cast<ConstantFP>(C)) {
            SmallString<64> s; APInt b = CF->getValueAPF().bitcastToAPInt(); b.toStringUnsigned(s, 10);
            return json::Array{"f", tyStr(C->getType()), std::string(s)};
        }
        if (isa<ConstantPointerNull>(C)) return json::Array{"null"};
        if (isa<UndefValue>(C)) return json::Array{isa<PoisonValue>(C) ? "poison" : "undef", tyStr(C->getType())};
        if (auto *F = dyn_cast<Function>(C)) return json::Array{"fn", F->getName().str()};
        if (auto *G = dyn_cast<GlobalVariable>(C)) { globals.insert(G); return json::Array{"g", G->getName().str()}; }
        if (auto *A = dyn_cast<GlobalAlias>(C)) return constant(A->getAliasee());
        if (isa<ConstantAggregateZero>(C)) return json::Array{"zero", tyStr(C->getType())};
        if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
            json::Array el;
            for (unsigned i = 0; i < CA->getNumOperands(); i++) el.push_back(constant(CA->getOperand(i)));
            return json::Array{"agg", tyStr(C->getType()), std::move(el)};
        }
        if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
            json::Array el;
            for (unsigned i = 0; i < CD->getNumElements(); i++) el.push_back(constant(CD->getElementAsConstant(i)));
            return json::Array{"agg", tyStr(C->getType()), std::move(el)};
        }
        if (auto *CE = dyn_cast<ConstantExpr>(C)) {
            if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
                APInt off(64, 0);
                if (GEP->accumulateConstantOffset(*DL, off))
                    return json::Array{"cgep", constant(cast<Constant>(GEP->getPointerOperand())), (int64_t)off.getSExtValue()};
            }
            json::Array ops;
            for (unsigned i = 0; i < CE->getNumOperands(); i++) ops.push_back(constant(CE->getOperand(i)));
            return json::Array{"ce", CE->getOpcodeName(), tyStr(CE->getType()), std::move(ops)};
        }
        return json::Array{"unk", tyStr(C->getType())};
    }
    json::Value val(const Value *V) {
        auto it = ids.find(V);
        if (it != ids.end()) return json::Value(it->second);
        if (auto *C = dyn_cast<Constant>(V)) return constant(C);
        if (auto *M = dyn_cast<MetadataAsValue>(V)) {
            std::string s; raw_string_ostream o(s); M->getMetadata()->print(o);
            return json::Array{"md", o.str()};
        }
        if (auto *A = dyn_cast<InlineAsm>(V)) return json::Array{"asm", A->getAsmString()};
        return json::Array{"unk", "value"};
    }
    void inst(const Instruction &I) {
        J.object([&] {
            J.attribute("op", I.getOpcodeName());
            if (!I.getType()->isVoidTy()) J.attribute("id", ids[&I]);
            J.attribute("ty", tyStr(I.getType()));
            if (auto &L = I.getDebugLoc()) J.attribute("ln", (int64_t)L.getLine());
            if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) {
                if (O->hasNoSignedWrap()) J.attribute("nsw", true);
                if (O->hasNoUnsignedWrap()) J.attribute("nuw", true);
            }
            if (auto *D = dyn_cast<PossiblyDisjointInst>(&I)) if (D->isDisjoint()) J.attribute("disjoint", true);
            if (auto *D = dyn_cast<PossiblyNonNegInst>(&I)) if (D->hasNonNeg()) J.attribute("nneg", true);
            if (auto *D = dyn_cast<PossiblyExactOperator>(&I)) if (D->isExact()) J.attribute("exact", true);
            if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                if (G->getType()->isVectorTy()) { J.attribute("bad", true); return; }
                APInt off(64, 0); MapVector<Value *, APInt> var;
                if (!G->collectOffset(*DL, 64, var, off)) { J.attribute("bad", true); return; }
                J.attribute("base", val(G->getPointerOperand()));
                J.attribute("off", (int64_t)off.getSExtValue());
                json::Array vs;
                for (auto &p : var) vs.push_back(json::Array{val(p.first), (int64_t)p.second.getSExtValue(), tyStr(p.first->getType())});
                J.attribute("var", std::move(vs));
                J.attribute("sty", tyStr(G->getSourceElementType()));
                return;
            }
            if (auto *A = dyn_cast<AllocaInst>(&I)) {
                J.attribute("aty", tyStr(A->getAllocatedType()));
                J.attribute("size", (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue());
                J.attribute("cnt", val(A->getArraySize()));
                return;
            }
            if (auto *P = dyn_cast<PHINode>(&I)) {
                json::Array in;
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++) in.push_back(json::Array{val(P->getIncomingValue(i)), bbs[P->getIncomingBlock(i)]});
                J.attribute("in", std::move(in));
                return;
            }
            if (auto *B = dyn_cast<BranchInst>(&I)) {
                if (B->isConditional()) J.attribute("cond", val(B->getCondition()));
                json::Array s; for (unsigned i = 0; i < B->getNumSuccessors(); i++) s.push_back(bbs[B->getSuccessor(i)]);
                J.attribute("succ", std::move(s));
                return;
            }
            if (auto *S = dyn_cast<SwitchInst>(&I)) {
                J.attribute("cond", val(S->getCondition()));
                J.attribute("def", bbs[S->getDefaultDest()]);
                json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{val(c.getCaseValue()), bbs[c.getCaseSuccessor()]});
                J.attribute("cases", std::move(cs));
                return;
            }
            if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()).str());
            if (auto *C = dyn_cast<CallBase>(&I)) {
                J.attribute("callee", val(C->getCalledOperand()->stripPointerCastsAndAliases()));
                json::Array a; json::Array at;
                for (auto &x : C->args()) { a.push_back(val(x)); at.push_back(tyStr(x->getType())); }
                J.attribute("args", std::move(a)); J.attribute("aty", std::move(at));
                json::Array bv;
                for (unsigned i = 0; i < C->arg_size(); i++) if (C->isByValArgument(i)) bv.push_back(json::Array{i, (int64_t)DL->getTypeAllocSize(C->getParamByValType(i)).getFixedValue()});
                if (!bv.empty()) J.attribute("byval", std::move(bv));
                if (auto *V = dyn_cast<InvokeInst>(&I)) { J.attribute("normal", bbs[V->getNormalDest()]); J.attribute("unwind", bbs[V->getUnwindDest()]); }
                return;
            }
            if (auto *L = dyn_cast<LandingPadInst>(&I)) {
                json::Array cl; for (unsigned i = 0; i < L->getNumClauses(); i++) cl.push_back(json::Array{L->isCatch(i) ? "catch" : "filter", val(L->getClause(i))});
                J.attribute("clauses", std::move(cl)); J.attribute("cleanup", L->isCleanup());
                return;
            }
            if (auto *S = dyn_cast<ShuffleVectorInst>(&I)) {
                json::Array m; for (int x : S->getShuffleMask()) m.push_back(x);
                J.attribute("mask", std::move(m));
            }
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array m; for (unsigned x : E->getIndices()) m.push_back(x); J.attribute("idx", std::move(m)); }
            if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array m; for (unsigned x : E->getIndices()) m.push_back(x); J.attribute("idx", std::move(m)); }
            if (auto *L = dyn_cast<LoadInst>(&I)) { J.attribute("sz", (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue()); J.attribute("align", (int64_t)L->getAlign().value()); if (L->isAtomic()) J.attribute("atomic", true); }
            if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("sz", (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue()); J.attribute("vty", tyStr(S->getValueOperand()->getType())); J.attribute("align", (int64_t)S->getAlign().value()); if (S->isAtomic()) J.attribute("atomic", true); }
            if (auto *R = dyn_cast<AtomicRMWInst>(&I)) J.attribute("rmw", AtomicRMWInst::getOperationName(R->getOperation()).str());
            if (auto *FP = dyn_cast<FPMathOperator>(&I)) { if (FP->isFast()) J.attribute("fast", true); }
            json::Array o; json::Array ot;
            for (auto &x : I.operands()) { o.push_back(val(x)); ot.push_back(tyStr(x->getType())); }
            J.attribute("ops", std::move(o)); J.attribute("oty", std::move(ot));
        });
    }
    void function(Function &F) {
        DominatorTree DT(F); LoopInfo LI(DT);
        int n = 0; for (auto &A : F.args()) ids[&A] = n++;
        int b = 0; for (auto &B : F) { bbs[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
        J.object([&] {
            J.attribute("name", F.getName().str());
            J.attribute("dem", demangle(F.getName().str()));
            if (auto *SP = F.getSubprogram()) { J.attribute("file", SP->getFilename().str()); J.attribute("line", (int64_t)SP->getLine()); }
            J.attribute("ret", tyStr(F.getReturnType()));
            J.attribute("vararg", F.isVarArg());
            J.attributeArray("args", [&] { for (auto &A : F.args()) { J.object([&] {
                J.attribute("ty", tyStr(A.getType())); J.attribute("name", A.getName().str());
                if (A.hasByValAttr()) J.attribute("byval", (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue());
                if (A.hasStructRetAttr()) J.attribute("sret", (int64_t)DL->getTypeAllocSize(A.getParamStructRetType()).getFixedValue()); }); } });
            J.attributeArray("blocks", [&] { for (auto &B : F) J.array([&] { for (auto &I : B) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue; }
                inst(I); } }); });
            J.attributeArray("loops", [&] {
                std::function<void(Loop *)> rec = [&](Loop *L) {
                    J.object([&] {
                        J.attribute("header", bbs[L->getHeader()]);
                        json::Array bl; for (auto *B : L->blocks()) bl.push_back(bbs[B]);
                        J.attribute("blocks", std::move(bl));
                        J.attribute("depth", (int64_t)L->getLoopDepth());
                        SmallVector<BasicBlock *, 4> la; L->getLoopLatches(la); json::Array l2; for (auto *B : la) l2.push_back(bbs[B]);
                        J.attribute("latches", std::move(l2));
                    });
                    for (auto *S : L->getSubLoops()) rec(S);
                };
                for (auto *L : LI) rec(L);
            });
        });
        ids.clear(); bbs.clear();
    }
};

int main(int argc, char **argv) {
    cl::ParseCommandLineOptions(argc, argv);
    LLVMContext C; SMDiagnostic err;
    auto M = parseIRFile(In, err, C);
    if (!M) { err.print("export", errs()); return 2; }
    DL = &M->getDataLayout();
    std::vector<Regex> roots, stops;
    for (auto &s : RootRe) roots.emplace_back(s);
    for (auto &s : StopRe) stops.emplace_back(s);
    auto match = [](std::vector<Regex> &v, StringRef s) { for (auto &r : v) if (r.match(s)) return true; return false; };
    std::set<Function *> rootF;
    std::map<Function *, bool> isStop;
    for (auto &F : *M) {
        std::string d = demangle(F.getName().str());
        if (ListOnly) { outs() << (F.isDeclaration() ? "D " : "F ") << F.getName() << "\t" << d << "\n"; continue; }
        bool r = !F.isDeclaration() && match(roots, d);
        bool s = match(stops, d);
        if (r) rootF.insert(&F);
        isStop[&F] = s;
    }
    if (ListOnly) return 0;
    // recursion detection
    CallGraph CG(*M); std::set<Function *> rec;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
        auto &n = *it;
        if (it.hasCycle()) for (auto *x : n) if (x->getFunction()) rec.insert(x->getFunction());
    }
    for (auto &F : *M) {
        F.removeFnAttr(Attribute::OptimizeNone);
        if (F.isDeclaration()) continue;
        // the verified code is compiled for x86-64 with AVX-512; target features must not block inlining
        F.removeFnAttr("target-cpu"); F.removeFnAttr("tune-cpu"); F.removeFnAttr("target-features");
        F.removeFnAttr(Attribute::StackProtect); F.removeFnAttr(Attribute::StackProtectStrong);
        F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::NoInline);
        if (isStop[&F]) { F.deleteBody(); F.setComdat(nullptr); continue; }
        bool keep = rootF.count(&F) || rec.count(&F) || NoInline;
        if (keep) F.addFnAttr(Attribute::NoInline);
        else { F.addFnAttr(Attribute::AlwaysInline); if (!F.hasLocalLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); } }
    }
    // reachability pruning before optimising
    {
        std::set<Function *> seen; std::deque<Function *> wl(rootF.begin(), rootF.end());
        std::set<Constant *> cs;
        std::function<void(Value *)> visit = [&](Value *v) {
            if (auto *F = dyn_cast<Function>(v)) { if (seen.insert(F).second) wl.push_back(F); return; }
            if (auto *G = dyn_cast<GlobalVariable>(v)) { if (cs.insert(G).second && G->hasInitializer() && G->isConstant()) visit(G->getInitializer()); return; }
            if (auto *K = dyn_cast<Constant>(v)) { if (K->getNumOperands() && cs.insert(K).second) for (auto &o : K->operands()) visit(o.get()); }
        };
        for (auto *F : rootF) seen.insert(F);
        while (!wl.empty()) { Function *F = wl.front(); wl.pop_front(); for (auto &I : instructions(*F)) for (auto &o : I.operands()) visit(o.get()); }
        for (auto &F : *M) if (!F.isDeclaration() && !seen.count(&F)) { F.deleteBody(); F.setComdat(nullptr); }
    }
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        std::string p = Passes;
        if (p.empty()) p = "always-inline,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa)";
        if (auto E = PB.parsePassPipeline(MPM, p)) { errs() << toString(std::move(E)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    std::error_code ec; raw_fd_ostream os(Out, ec);
    json::OStream J(os);
    std::set<const GlobalVariable *> globals, done;
    J.object([&] {
        std::set<Function *> seen(rootF.begin(), rootF.end()); std::deque<Function *> wl(rootF.begin(), rootF.end());
        J.attributeArray("functions", [&] {
            while (!wl.empty()) {
                Function *F = wl.front(); wl.pop_front();
                Dumper D(J, globals); D.function(*F);
                std::set<const Constant *> cs;
                std::function<void(Value *)> ref = [&](Value *V) {
                    if (auto *G = dyn_cast<Function>(V)) { if (!G->isDeclaration() && seen.insert(G).second) wl.push_back(G); return; }
                    auto *C = dyn_cast<Constant>(V);
                    if (!C || !cs.insert(C).second) return;
                    if (auto *GV = dyn_cast<GlobalVariable>(C)) { if (GV->hasInitializer()) ref(GV->getInitializer()); return; }
                    for (auto &o : C->operands()) ref(o.get());
                };
                for (auto &I : instructions(*F)) for (auto &o : I.operands()) ref(o.get());
            }
        });
        J.attributeArray("globals", [&] {
            bool more = true;
            while (more) {
                more = false;
                auto cur = globals;
                for (auto *G : cur) if (done.insert(G).second) {
                    more = true;
                    Dumper D(J, globals);
                    J.object([&] {
                        J.attribute("name", G->getName().str()); J.attribute("dem", demangle(G->getName().str()));
                        J.attribute("size", (int64_t)(G->getValueType()->isSized() ? DL->getTypeAllocSize(G->getValueType()).getFixedValue() : 0));
                        J.attribute("const", G->isConstant()); J.attribute("ty", tyStr(G->getValueType()));
                        if (G->hasInitializer() && (G->isConstant() || true)) J.attribute("init", D.constant(G->getInitializer()));
                    });
                }
            }
        });
        J.attributeArray("structs", [&] { for (auto *S : M->getIdentifiedStructTypes()) if (S->isSized()) J.value(json::Array{S->getName().str(), (int64_t)DL->getTypeAllocSize(S).getFixedValue(), tyStr(S)}); });
        J.attributeArray("decls", [&] { for (auto &F : *M) if (F.isDeclaration() && !F.use_empty()) J.value(json::Array{F.getName().str(), demangle(F.getName().str())}); });
    });
    return 0;
}
