// irdump: links the LLVM bitcode/IR files given on the command line, runs a
// light canonicalisation pipeline over them and prints the module as JSON:
// debug-info class layouts, constant globals (vtables, tables), and every
// function with its basic blocks in three-address form.
#include <llvm/ADT/SetVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/InstructionSimplify.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/TargetTransformInfo.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/LoopRotationUtils.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value *, int> Ids;
static int idOf(const Value *V) {
    auto It = Ids.find(V);
    if (It != Ids.end()) return It->second;
    int N = (int)Ids.size() + 1;
    Ids[V] = N;
    return N;
}
static std::string tyStr(Type *T) {
    std::string S; raw_string_ostream O(S); T->print(O, false, true); return O.str();
}
static json::Value operand(const Value *V);
static json::Value constant(const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
        SmallString<32> S; I->getValue().toString(S, 10, true);
        return json::Object{{"k", "int"}, {"v", S.str().str()}, {"b", (int)I->getBitWidth()}};
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) {
        APFloat A = F->getValueAPF(); bool L; A.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &L);
        char B[64]; snprintf(B, sizeof B, "%a", A.convertToDouble());
        return json::Object{{"k", "fp"}, {"v", std::string(B)}};
    }
    if (isa<ConstantPointerNull>(C)) return json::Object{{"k", "null"}};
    if (isa<ConstantAggregateZero>(C)) return json::Object{{"k", "zero"}, {"t", tyStr(C->getType())}};
    if (isa<UndefValue>(C)) return json::Object{{"k", "undef"}};
    if (auto *G = dyn_cast<GlobalValue>(C)) return json::Object{{"k", "glob"}, {"v", G->getName().str()}};
    if (auto *A = dyn_cast<ConstantDataSequential>(C)) {
        json::Array E; for (unsigned i = 0; i < A->getNumElements(); ++i) E.push_back(constant(A->getElementAsConstant(i)));
        return json::Object{{"k", "arr"}, {"e", std::move(E)}, {"sz", (int64_t)DL->getTypeAllocSize(A->getElementType())}};
    }
    if (auto *A = dyn_cast<ConstantAggregate>(C)) {
        json::Array E, O; 
        const StructLayout *SL = nullptr; if (auto *ST = dyn_cast<StructType>(A->getType())) SL = DL->getStructLayout(ST);
        uint64_t ES = SL ? 0 : (uint64_t)DL->getTypeAllocSize(A->getOperand(0)->getType());
        for (unsigned i = 0; i < A->getNumOperands(); ++i) { E.push_back(constant(A->getOperand(i))); O.push_back((int64_t)(SL ? (uint64_t)SL->getElementOffset(i) : ES * i)); }
        return json::Object{{"k", "agg"}, {"e", std::move(E)}, {"o", std::move(O)}};
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (auto *GO = dyn_cast<GEPOperator>(CE)) {
            APInt Off(64, 0);
            if (GO->accumulateConstantOffset(*DL, Off))
                return json::Object{{"k", "cgep"}, {"base", operand(GO->getPointerOperand())}, {"off", Off.getSExtValue()}};
        }
        if (CE->isCast()) return constant(CE->getOperand(0));
    }
    return json::Object{{"k", "other"}, {"v", tyStr(C->getType())}};
}
static json::Value operand(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (auto *M = dyn_cast<MetadataAsValue>(V)) {
        std::string S; raw_string_ostream O(S);
        if (auto *MS = dyn_cast<MDString>(M->getMetadata())) return json::Object{{"k", "md"}, {"v", MS->getString().str()}};
        return json::Object{{"k", "md"}, {"v", ""}};
    }
    if (isa<InlineAsm>(V)) return json::Object{{"k", "other"}, {"v", "asm"}};
    return json::Object{{"k", "v"}, {"v", idOf(V)}};
}
static std::string diName(const DIType *T) {
    if (!T) return "void";
    if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() == dwarf::DW_TAG_array_type) {
            std::string S = diName(C->getBaseType());
            for (auto *E : C->getElements()) if (auto *R = dyn_cast<DISubrange>(E)) if (auto *CI = dyn_cast_if_present<ConstantInt *>(R->getCount())) S += "[" + std::to_string(CI->getSExtValue()) + "]";
            return S;
        }
        std::string S; const DIScope *Sc = C->getScope();
        S = C->getName().str();
        while (Sc) { if (isa<DINamespace>(Sc) || isa<DICompositeType>(Sc)) { if (!Sc->getName().empty()) S = Sc->getName().str() + "::" + S; } Sc = Sc->getScope(); }
        return S;
    }
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
        std::string B = diName(D->getBaseType());
        switch (D->getTag()) {
            case dwarf::DW_TAG_pointer_type: return B + "*";
            case dwarf::DW_TAG_reference_type: return B + "&";
            case dwarf::DW_TAG_const_type: return B;
            default: return B;
        }
    }
    return T->getName().str();
}
// a loop whose top test looks at a carried flag or a carried measure (not at a counter): 'while (!done ...)'
static bool testsFlag(Loop *L) {
    BasicBlock *H = L->getHeader();
    auto *Br = dyn_cast<BranchInst>(H->getTerminator());
    if (!Br || !Br->isConditional() || !L->isLoopExiting(H)) return false;
    SmallVector<Value *, 8> Work{Br->getCondition()};
    std::set<Value *> Seen;
    bool Flag = false;
    while (!Work.empty()) {
        auto *I = dyn_cast<Instruction>(Work.pop_back_val());
        if (!I || I->getParent() != H || !Seen.insert(I).second) continue;
        if (isa<LoadInst>(I)) continue;
        if (isa<CallBase>(I)) return false;
        if (isa<PHINode>(I)) {
            if (I->getType()->isIntegerTy(1) || I->getType()->isIntegerTy(8) || I->getType()->isFloatingPointTy()) Flag = true;
            continue;
        }
        for (Value *O : I->operands()) Work.push_back(O);
    }
    if (!Flag) return false;
    for (Instruction &I : *H)
        if (!isa<DbgInfoIntrinsic>(&I) && (I.mayHaveSideEffects() || isa<CallBase>(&I))) return false;
    return true;
}

static void rotateFlagLoops(Function &F, FunctionAnalysisManager &FAM) {
    for (int Round = 0; Round < 8; ++Round) {
        FAM.invalidate(F, PreservedAnalyses::none());
        auto &LI = FAM.getResult<LoopAnalysis>(F);
        auto &TTI = FAM.getResult<TargetIRAnalysis>(F);
        auto &AC = FAM.getResult<AssumptionAnalysis>(F);
        auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
        auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
        SimplifyQuery SQ(F.getParent()->getDataLayout());
        bool Any = false;
        for (Loop *L : LI.getLoopsInPreorder()) {
            if (!testsFlag(L)) continue;
            if (LoopRotation(L, &LI, &TTI, &AC, &DT, &SE, nullptr, SQ, true, 1000, true)) { Any = true; break; }
        }
        if (!Any) break;
    }
    FAM.invalidate(F, PreservedAnalyses::none());
}

// a loop with several back edges (continue) gets one latch, so that it is not split into nested loops later
static void mergeBackEdges(Function &F) {
    DominatorTree DT(F);
    SmallVector<BasicBlock *, 16> Hs;
    for (BasicBlock &B : F) Hs.push_back(&B);
    for (BasicBlock *H : Hs) {
        if (!DT.isReachableFromEntry(H) || isa<PHINode>(H->begin())) continue;
        SetVector<BasicBlock *> Back;
        for (BasicBlock *P : predecessors(H)) if (DT.isReachableFromEntry(P) && DT.dominates(H, P)) Back.insert(P);
        if (Back.size() < 2) continue;
        BasicBlock *L = BasicBlock::Create(F.getContext(), "latch", &F);
        BranchInst::Create(H, L);
        for (BasicBlock *P : Back) P->getTerminator()->replaceSuccessorWith(H, L);
    }
}

int main(int argc, char **argv) {
    LLVMContext Ctx; SMDiagnostic Err;
    std::unique_ptr<Module> M;
    std::string Pipe = "always-inline,function(lowerinvoke,simplifycfg,sroa,simplifycfg,loop-simplify,lcssa)";
    for (int i = 1; i < argc; ++i) {
        auto N = parseIRFile(argv[i], Err, Ctx);
        if (!N) { Err.print("irdump", errs()); return 2; }
        if (!M) M = std::move(N);
        else if (Linker::linkModules(*M, std::move(N))) return 2;
    }
    if (!M) return 2;
    // layouts before passes (passes do not change them)
    DL = &M->getDataLayout();
    json::Object Types;
    DebugInfoFinder DIF; DIF.processModule(*M);
    for (DIType *T : DIF.types()) {
        auto *C = dyn_cast<DICompositeType>(T);
        if (!C || C->isForwardDecl()) continue;
        if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type) {
            if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
                json::Object E; for (auto *X : C->getElements()) if (auto *En = dyn_cast<DIEnumerator>(X)) E[En->getName().str()] = En->getValue().getSExtValue();
                Types[diName(C)] = json::Object{{"enum", std::move(E)}};
            }
            continue;
        }
        json::Array Ms;
        for (auto *E : C->getElements()) {
            auto *D = dyn_cast<DIDerivedType>(E);
            if (!D || D->isStaticMember()) continue;
            if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance)
                Ms.push_back(json::Object{{"n", D->getName().str()}, {"o", (int64_t)D->getOffsetInBits() / 8}, {"s", (int64_t)D->getSizeInBits() / 8}, {"t", diName(D->getBaseType())}, {"inh", D->getTag() == dwarf::DW_TAG_inheritance}, {"acc", (int)(D->getFlags() & DINode::FlagAccessibility)}});
        }
        std::string N = diName(C);
        if (N.find("atg_scs") == std::string::npos && N.find("vector") == std::string::npos) continue;
        Types[N] = json::Object{{"size", (int64_t)C->getSizeInBits() / 8}, {"m", std::move(Ms)}};
    }
    // iterators, closures and small standard algorithms are notation: they are inlined before scalars are promoted
    for (Function &F : *M) {
        if (F.isDeclaration()) continue;
        std::string D = demangle(F.getName().str());
        std::string H = D.substr(0, D.find('('));
        bool Alg = false;
        for (const char *A : {"std::fill", "std::fill_n", "std::__fill", "std::copy", "std::copy_n", "std::__copy", "std::min", "std::max",
                              "std::swap", "std::accumulate", "std::for_each", "std::count", "std::transform", "std::__niter",
                              "std::__miter", "std::__size_to_integer", "std::move", "std::forward", "std::find", "std::any_of",
                              "std::all_of", "std::none_of", "std::iter_swap", "std::__find", "std::__count", "std::__iterator_category",
                              "std::distance", "std::__distance", "std::next", "std::advance", "std::__advance", "std::inner_product", "std::abs"}) {
            auto P = H.find(A);
            if (P != std::string::npos && (P == 0 || H[P - 1] == ' ')) Alg = true;
        }
        bool VecIt = H.find("std::vector<") != std::string::npos &&
                     (H.size() > 7 && (H.compare(H.size() - 7, 7, "::begin") == 0 || H.compare(H.size() - 5, 5, "::end") == 0 ||
                                       H.compare(H.size() - 8, 8, "::cbegin") == 0 || H.compare(H.size() - 6, 6, "::cend") == 0));
        std::string C;
        int Depth = 0;
        for (char X : H) { if (X == '<') ++Depth; else if (X == '>' && Depth) --Depth; else if (!Depth) C += X; }
        if (C.find("__gnu_cxx::__normal_iterator") != std::string::npos || C.find("__gnu_cxx::operator") != std::string::npos ||
            C.find("__gnu_cxx::__ops") != std::string::npos) Alg = true;
        if (D.find("{lambda(") != std::string::npos || D.find("'lambda") != std::string::npos) Alg = true;
        // free helper functions of the library likewise
        if (auto *SP = F.getSubprogram()) {
            const DIScope *Sc = SP->getScope();
            bool Free = !SP->getDeclaration() && !(Sc && isa<DICompositeType>(Sc));
            if (Free && !SP->getFilename().starts_with("/usr/") && D.find("__cxx_global") == std::string::npos &&
                D.find("_GLOBAL__") == std::string::npos) Alg = true;
        }
        if (Alg || VecIt) {
            F.removeFnAttr(Attribute::NoInline);
            F.removeFnAttr(Attribute::OptimizeNone);
            F.addFnAttr(Attribute::AlwaysInline);
        }
    }
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, Pipe)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    for (Function &F : *M) if (!F.isDeclaration()) mergeBackEdges(F);
    MPM.run(*M, MAM);
    for (Function &F : *M) if (!F.isDeclaration()) rotateFlagLoops(F, FAM);
    ModulePassManager MPM2;
    if (auto E = PB.parsePassPipeline(MPM2, "function(simplifycfg,loop-simplify,lcssa)")) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MAM.invalidate(*M, PreservedAnalyses::none());
    MPM2.run(*M, MAM);
    DL = &M->getDataLayout();

    json::Object Globals;
    for (auto &G : M->globals()) {
        if (!G.hasInitializer()) continue;
        if (!G.isConstant()) { Globals[G.getName().str()] = json::Object{{"const", false}, {"d", demangle(G.getName().str())}}; continue; }
        Globals[G.getName().str()] = json::Object{{"const", true}, {"d", demangle(G.getName().str())}, {"i", constant(G.getInitializer())}};
    }
    json::Array Fs;
    for (auto &F : *M) {
        json::Object FO{{"n", F.getName().str()}, {"d", demangle(F.getName().str())}, {"decl", F.isDeclaration()}, {"noret", F.doesNotReturn()}, {"internal", F.hasLocalLinkage()}, {"ret", tyStr(F.getReturnType())}};
        json::Array As;
        for (auto &A : F.args()) {
            json::Object AO{{"id", idOf(&A)}, {"t", tyStr(A.getType())}, {"n", A.getName().str()}, {"ro", A.onlyReadsMemory()}};
            if (A.hasStructRetAttr()) AO["sret"] = true;
            As.push_back(std::move(AO));
        }
        FO["args"] = std::move(As);
        if (auto *SP = F.getSubprogram()) { FO["file"] = SP->getFilename().str(); FO["line"] = (int)SP->getLine(); }
        if (!F.isDeclaration()) {
            std::map<const BasicBlock *, int> B; int n = 0;
            for (auto &BB : F) B[&BB] = n++;
            json::Array Bs;
            for (auto &BB : F) {
                json::Array Is;
                for (auto &I : BB) {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    json::Object O{{"op", I.getOpcodeName()}, {"id", idOf(&I)}, {"t", tyStr(I.getType())}};
                    if (auto &Loc = I.getDebugLoc()) { O["l"] = (int)Loc.getLine(); if (auto *Sc = dyn_cast_or_null<DIScope>(Loc.getScope())) O["f"] = Sc->getFilename().str(); }
                    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                        MapVector<Value *, APInt> Var; APInt Off(64, 0);
                        if (!G->collectOffset(*DL, 64, Var, Off)) { O["op"] = "gep_unknown"; }
                        json::Array VA; for (auto &P : Var) VA.push_back(json::Array{operand(P.first), P.second.getSExtValue()});
                        O["base"] = operand(G->getPointerOperand()); O["off"] = Off.getSExtValue(); O["var"] = std::move(VA);
                    } else if (auto *P = dyn_cast<PHINode>(&I)) {
                        json::Array In; for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) In.push_back(json::Array{operand(P->getIncomingValue(i)), B[P->getIncomingBlock(i)]});
                        O["in"] = std::move(In);
                    } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                        json::Array S; for (unsigned i = 0; i < Br->getNumSuccessors(); ++i) S.push_back(B[Br->getSuccessor(i)]);
                        O["succ"] = std::move(S); if (Br->isConditional()) O["cond"] = operand(Br->getCondition());
                    } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                        O["cond"] = operand(Sw->getCondition()); O["def"] = B[Sw->getDefaultDest()];
                        json::Array Cs; for (auto &C : Sw->cases()) Cs.push_back(json::Array{C.getCaseValue()->getSExtValue(), B[C.getCaseSuccessor()]});
                        O["cases"] = std::move(Cs);
                    } else if (auto *C = dyn_cast<CallBase>(&I)) {
                        json::Array As2; for (auto &A : C->args()) As2.push_back(operand(A.get()));
                        O["args"] = std::move(As2); O["op"] = "call"; O["callee"] = operand(C->getCalledOperand()); O["noret"] = C->doesNotReturn();
                        O["ind"] = C->getCalledFunction() == nullptr;
                    } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
                        O["at"] = tyStr(A->getAllocatedType());
                        O["sz"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType());
                    } else {
                        json::Array Os; for (auto &X : I.operands()) Os.push_back(operand(X.get()));
                        O["ops"] = std::move(Os);
                        if (auto *Cm = dyn_cast<CmpInst>(&I)) O["pred"] = CmpInst::getPredicateName(Cm->getPredicate()).str();
                        if (auto *L = dyn_cast<LoadInst>(&I)) O["asz"] = (int64_t)DL->getTypeStoreSize(L->getType());
                        if (auto *S = dyn_cast<StoreInst>(&I)) O["asz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType());
                        if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array X; for (auto x : E->indices()) X.push_back((int)x); O["idx"] = std::move(X); }
                        if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array X; for (auto x : E->indices()) X.push_back((int)x); O["idx"] = std::move(X); }
                        if (isa<CastInst>(I)) O["st"] = tyStr(I.getOperand(0)->getType());
                        if (auto *Ex = dyn_cast<PossiblyExactOperator>(&I)) O["exact"] = Ex->isExact();
                    }
                    Is.push_back(std::move(O));
                }
                Bs.push_back(std::move(Is));
            }
            FO["blocks"] = std::move(Bs);
        }
        Fs.push_back(std::move(FO));
    }
    json::Object Out{{"types", std::move(Types)}, {"globals", std::move(Globals)}, {"functions", std::move(Fs)}};
    outs() << json::Value(std::move(Out)) << "\n";
    return 0;
}
