// vfa: obligation discharge by compiler dataflow.
//
// Input: LLVM IR of a harness translation unit (clang -O2 -disable-llvm-passes), in which
//   * root functions (OBL_* or __vf_cell<...>) state proof obligations,
//   * a failed obligation is a call to __vf_fail / a sanitizer trap / an assertion-failure function,
//   * an excluded state is a call to __vf_halt.
// The tool inlines the code under analysis into the roots, adds an obligation for every memory
// access whose object is known, and then runs dataflow passes (value numbering, sparse conditional
// constant propagation, lazy value/range analysis, constraint elimination, scalar evolution with full
// unrolling of constant-trip loops) until nothing changes. An obligation whose failing call
// is no longer reachable is discharged; every residual failing call is reported with
// the source position and inline stack it came from.  Nothing is executed.
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/MemoryBuiltins.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/TargetFolder.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Analysis/LazyValueInfo.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/ToolOutputFile.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/IR/Dominators.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Analysis/Utils/Local.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/IR/AttributeMask.h"
#include <functional>
#include <unistd.h>
#include <map>
#include <set>
#include "bits.hpp"
#include "linear.hpp"
using namespace llvm;

static cl::opt<std::string> Input(cl::Positional, cl::Required, cl::desc("input.ll"));
static cl::opt<std::string> OutIR("o-ir", cl::desc("write final IR"), cl::init(""));
static cl::opt<std::string> OutJson("o-json", cl::desc("write report"), cl::init("-"));
static cl::opt<int> Rounds("rounds", cl::init(3));
static cl::opt<bool> Oob("oob", cl::desc("add bounds obligations"), cl::init(true));
static cl::opt<int> LinDepth("lin-depth", cl::init(3));
static cl::opt<int> Peel("peel", cl::init(0), cl::desc("resolve data-dependent loops over known state by peeling up to this many iterations"));
static cl::opt<bool> Devolatile("devolatile", cl::init(false), cl::desc("no other agent changes the objects: volatile accesses see what was stored"));
static cl::opt<int> Recurse("recurse", cl::init(4), cl::desc("inline recursive calls this deep"));
static cl::opt<int> Shard("shard", cl::init(0)), Shards("shards", cl::init(1), cl::desc("analyse only every n-th root"));
static cl::opt<bool> Houdini("houdini", cl::init(true));
static cl::opt<bool> KeepFlags("keep-flags", cl::init(false));

static bool isRoot(const Function &F) {
	return !F.isDeclaration() && (F.getName().starts_with("OBL_") || F.getName().contains("__vf_cell"));
}
static bool isFailName(StringRef N) {
	return N == "__vf_fail" || N == "__vf_oob" || N.contains("__glibcxx_assert_fail") || N.starts_with("llvm.ubsantrap") ||
		   N == "llvm.trap" || N == "abort" || N.starts_with("_ZSt") && N.contains("__throw") || N == "__assert_fail" || N.contains("terminate");
}
static bool isBenignNoReturn(StringRef N) { return N == "__vf_halt"; }

static std::string strOf(Value *V) {
	StringRef S;
	if (V && getConstantStringInfo(V, S)) return S.str();
	return "";
}

static json::Array stackOf(const DebugLoc &DL) {
	json::Array A;
	DILocation *L = DL.get();
	int n = 0;
	while (L && n++ < 40) {
		std::string f = (L->getDirectory().empty() || L->getFilename().starts_with("/")) ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str();
		std::string fn;
		if (auto *S = L->getScope()->getSubprogram()) fn = S->getName().str();
		A.push_back(json::Object{{"file", f}, {"line", (int64_t)L->getLine()}, {"fn", fn}});
		L = L->getInlinedAt();
	}
	return A;
}

// A minimum or maximum whose operands the branches taken have ordered is one of them.
struct MinMaxFold : PassInfoMixin<MinMaxFold> {
	PreservedAnalyses run(Function &F, FunctionAnalysisManager &AM) {
		std::vector<MinMaxIntrinsic *> W;
		for (Instruction &I : instructions(F))
			if (auto *MM = dyn_cast<MinMaxIntrinsic>(&I)) W.push_back(MM);
		if (W.empty()) return PreservedAnalyses::all();
		auto &LVI = AM.getResult<LazyValueAnalysis>(F);
		bool changed = false;
		for (auto *MM : W) {
			if (!MM->getType()->isIntegerTy()) continue;
			ConstantRange A = LVI.getConstantRange(MM->getLHS(), MM, false), B = LVI.getConstantRange(MM->getRHS(), MM, false);
			auto P = ICmpInst::getNonStrictPredicate(MM->getPredicate());
			Value *R = A.icmp(P, B) ? MM->getLHS() : B.icmp(P, A) ? MM->getRHS() : nullptr;
			if (!R) continue;
			MM->replaceAllUsesWith(R);
			MM->eraseFromParent();
			changed = true;
		}
		return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
	}
};
static void runPipe(Module &M, StringRef Pipe, TargetMachine *TM = nullptr) {
	PipelineTuningOptions PTO;
	PTO.LoopVectorization = false;
	PTO.SLPVectorization = false;
	PTO.LoopUnrolling = true;
	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PassBuilder PB(TM, PTO);
	PB.registerPipelineParsingCallback([](StringRef N, FunctionPassManager &P, ArrayRef<PassBuilder::PipelineElement>) {
		if (N != "minmax") return false;
		P.addPass(MinMaxFold());
		return true;
	});
	PB.registerModuleAnalyses(MAM);
	PB.registerCGSCCAnalyses(CGAM);
	PB.registerFunctionAnalyses(FAM);
	PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	if (auto E = PB.parsePassPipeline(MPM, Pipe)) {
		errs() << "bad pipeline: " << toString(std::move(E)) << "\n";
		exit(3);
	}
	MPM.run(M, MAM);
}

// --- bounds obligations -------------------------------------------------------------------
static unsigned nBounds = 0, nUnknownObj = 0;
static std::vector<std::pair<std::string, json::Array>> unknownObj;

static void instrument(Module &M) {
	auto &C = M.getContext();
	FunctionCallee OobFn = M.getOrInsertFunction("__vf_oob", FunctionType::get(Type::getVoidTy(C), false));
	cast<Function>(OobFn.getCallee())->setDoesNotReturn();
	cast<Function>(OobFn.getCallee())->setDoesNotThrow();
	const DataLayout &DL = M.getDataLayout();
	TargetLibraryInfoImpl TLII(Triple(M.getTargetTriple()));
	for (Function &F : M) {
		if (!isRoot(F)) continue;
		TargetLibraryInfo TLI(TLII, &F);
		ObjectSizeOpts EvalOpts;
		EvalOpts.RoundToAlign = false;
		EvalOpts.EvalMode = ObjectSizeOpts::Mode::ExactSizeFromOffset;
		ObjectSizeOffsetEvaluator Eval(DL, &TLI, C, EvalOpts);
		struct Site { Instruction *I; Value *P; Value *Len; };
		std::vector<Site> Sites;
		for (Instruction &I : instructions(F)) {
			auto sz = [&](Type *T) { return (Value *)ConstantInt::get(Type::getInt64Ty(C), DL.getTypeStoreSize(T)); };
			if (auto *L = dyn_cast<LoadInst>(&I)) Sites.push_back({&I, L->getPointerOperand(), sz(L->getType())});
			else if (auto *S = dyn_cast<StoreInst>(&I)) Sites.push_back({&I, S->getPointerOperand(), sz(S->getValueOperand()->getType())});
			else if (auto *A = dyn_cast<AtomicCmpXchgInst>(&I)) Sites.push_back({&I, A->getPointerOperand(), sz(A->getNewValOperand()->getType())});
			else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) Sites.push_back({&I, R->getPointerOperand(), sz(R->getValOperand()->getType())});
			else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) {
				Sites.push_back({&I, MI->getRawDest(), MI->getLength()});
				if (auto *MT = dyn_cast<MemTransferInst>(MI)) Sites.push_back({&I, MT->getRawSource(), MI->getLength()});
			} else if (auto *CB = dyn_cast<CallBase>(&I)) {
				if (Function *Cal = CB->getCalledFunction()) {
					StringRef N = Cal->getName();
					if (N == "memcpy" || N == "memmove") { Sites.push_back({&I, CB->getArgOperand(0), CB->getArgOperand(2)}); Sites.push_back({&I, CB->getArgOperand(1), CB->getArgOperand(2)}); }
					if (N == "memset") Sites.push_back({&I, CB->getArgOperand(0), CB->getArgOperand(2)});
					if (N == "memcmp" || N == "bcmp") { Sites.push_back({&I, CB->getArgOperand(0), CB->getArgOperand(2)}); Sites.push_back({&I, CB->getArgOperand(1), CB->getArgOperand(2)}); }
					if (N == "memchr") Sites.push_back({&I, CB->getArgOperand(0), CB->getArgOperand(2)});
				}
			}
		}
		for (auto &S : Sites) {
			SizeOffsetValue SO = Eval.compute(S.P);
			IRBuilder<TargetFolder> B(S.I->getParent(), S.I->getIterator(), TargetFolder(DL));
			B.SetCurrentDebugLocation(S.I->getDebugLoc());
			if (!SO.bothKnown()) {
				nUnknownObj++;
				unknownObj.push_back({F.getName().str(), stackOf(S.I->getDebugLoc())});
				continue;
			}
			Value *Size = SO.Size, *Off = SO.Offset;
			Type *I64 = Type::getInt64Ty(C);
			Size = B.CreateZExtOrTrunc(Size, I64);
			Off = B.CreateSExtOrTrunc(Off, I64);
			Value *Len = B.CreateZExtOrTrunc(S.Len, I64);
			Value *Avail = B.CreateSub(Size, Off);
			Value *c1 = B.CreateICmpULT(Size, Off);
			Value *c2 = B.CreateICmpULT(Avail, Len);
			Value *bad = B.CreateOr(c1, c2);
			if (auto *CI = dyn_cast<ConstantInt>(bad))
				if (CI->isZero()) { nBounds++; continue; }
			nBounds++;
			// zero-length transfers never touch memory
			if (!isa<Constant>(Len)) bad = B.CreateAnd(bad, B.CreateICmpNE(Len, ConstantInt::get(I64, 0)));
			Instruction *T = SplitBlockAndInsertIfThen(bad, S.I, true);
			IRBuilder<> TB(T);
			TB.SetCurrentDebugLocation(S.I->getDebugLoc());
			TB.CreateCall(OobFn)->setDoesNotReturn();
		}
	}
}

// --- copies of aggregates ---------------------------------------------------------------------
// A constant-length memcpy becomes one load/store per scalar member, so that the value passes see through it.
static void leaves(Type *T, uint64_t Off, const DataLayout &DL, std::map<uint64_t, Type *> &Out, unsigned cap = 600) {
	if (Out.size() > cap) return;
	if (auto *ST = dyn_cast<StructType>(T)) {
		if (ST->isOpaque()) return;
		auto *SL = DL.getStructLayout(ST);
		for (unsigned i = 0; i < ST->getNumElements(); i++) leaves(ST->getElementType(i), Off + SL->getElementOffset(i), DL, Out, cap);
	} else if (auto *AT = dyn_cast<ArrayType>(T)) {
		uint64_t sz = DL.getTypeAllocSize(AT->getElementType());
		for (uint64_t i = 0; i < AT->getNumElements() && Out.size() <= cap; i++) leaves(AT->getElementType(), Off + i * sz, DL, Out, cap);
	} else if (T->isSized()) Out[Off] = T;
}
static bool objectLeaves(Value *P, const DataLayout &DL, uint64_t Len, std::map<uint64_t, Type *> &Out) {
	APInt Off(64, 0);
	Value *B = P->stripAndAccumulateConstantOffsets(DL, Off, true);
	Type *T = nullptr;
	if (auto *A = dyn_cast<AllocaInst>(B)) { if (A->isArrayAllocation()) return false; T = A->getAllocatedType(); }
	else if (auto *G = dyn_cast<GlobalVariable>(B)) T = G->getValueType();
	else if (auto *GE = dyn_cast<GEPOperator>(B)) { if (Off != 0) return false; T = GE->getResultElementType(); }
	if (!T || !T->isSized() || Off.isNegative()) return false;
	std::map<uint64_t, Type *> All;
	leaves(T, 0, DL, All);
	uint64_t o = Off.getZExtValue();
	if (o + Len > DL.getTypeAllocSize(T)) return false;
	unsigned bytes = 0, n = 0;
	for (auto &[k, t] : All) {
		uint64_t e = k + DL.getTypeStoreSize(t);
		if (e <= o || k >= o + Len) continue;
		if (k < o || e > o + Len) return false;
		if (!(t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy())) return false;
		Out[k - o] = t;
		n++;
		bytes += t->isIntegerTy(8);
	}
	if (n > 400) return false;
	return n && !(bytes > 16 && bytes == n && false);
}
static void expandCopies(Module &M, bool guess = true) {
	const DataLayout &DL = M.getDataLayout();
	auto &C = M.getContext();
	for (Function &F : M) {
		if (F.isDeclaration()) continue;
		std::vector<MemTransferInst *> W;
		for (Instruction &I : instructions(F))
			if (auto *MT = dyn_cast<MemTransferInst>(&I))
				if (auto *L = dyn_cast<ConstantInt>(MT->getLength()))
					if (!MT->isVolatile() && L->getZExtValue() <= 4096) W.push_back(MT);
		for (auto *MT : W) {
			uint64_t Len = cast<ConstantInt>(MT->getLength())->getZExtValue();
			if (Len == 0) { MT->eraseFromParent(); continue; }
			std::map<uint64_t, Type *> L;
			auto coarse = [](std::map<uint64_t, Type *> &X) { unsigned b = 0; for (auto &[k, t] : X) b += t->isIntegerTy(8); return b > 8 && b == X.size(); };
			std::map<uint64_t, Type *> A, B;
			bool okA = objectLeaves(MT->getRawSource(), DL, Len, A), okB = objectLeaves(MT->getRawDest(), DL, Len, B);
			if (okA && okB) L = coarse(A) ? B : coarse(B) ? A : A.size() >= B.size() ? A : B;
			else if (okA) L = A;
			else if (okB) L = B;
			else if (auto *N = MT->getMetadata(LLVMContext::MD_tbaa_struct)) {
				for (unsigned i = 0; i + 2 < N->getNumOperands() + 0; i += 3) {
					uint64_t o = mdconst::extract<ConstantInt>(N->getOperand(i))->getZExtValue();
					uint64_t s = mdconst::extract<ConstantInt>(N->getOperand(i + 1))->getZExtValue();
					uint64_t piece = isPowerOf2_64(s) && s <= 8 ? s : std::min<uint64_t>(8, MinAlign(MinAlign(o, s), MT->getSourceAlign().valueOrOne().value()));
					for (uint64_t k = 0; k + piece <= s; k += piece) L[o + k] = IntegerType::get(C, piece * 8);
				}
			}
			if (L.empty()) {
				if (!guess) continue; // the objects may become known in a later round
				uint64_t al = std::min(MT->getSourceAlign().valueOrOne().value(), MT->getDestAlign().valueOrOne().value());
				uint64_t piece = MinAlign(std::min<uint64_t>(al, 8), Len);
				if (Len == 1 || Len == 2 || Len == 4 || Len == 8) piece = Len;
				if (Len / piece > 64) continue;
				for (uint64_t k = 0; k < Len; k += piece) L[k] = IntegerType::get(C, piece * 8);
			}
			// bytes not covered by a scalar (padding, union tails) are copied bytewise
			uint64_t pos = 0;
			std::vector<std::pair<uint64_t, Type *>> P;
			for (auto &[k, t] : L) {
				for (; pos < k; pos++) P.push_back({pos, Type::getInt8Ty(C)});
				if (k < pos) continue;
				P.push_back({k, t});
				pos = k + DL.getTypeStoreSize(t);
			}
			for (; pos < Len; pos++) P.push_back({pos, Type::getInt8Ty(C)});
			if (pos != Len || P.size() > 500) continue;
			IRBuilder<> Bd(MT);
			std::vector<Value *> V;
			for (auto &[k, t] : P) V.push_back(Bd.CreateAlignedLoad(t, k ? Bd.CreateConstGEP1_64(Bd.getInt8Ty(), MT->getRawSource(), k) : MT->getRawSource(), Align(1)));
			for (unsigned i = 0; i < P.size(); i++) Bd.CreateAlignedStore(V[i], P[i].first ? Bd.CreateConstGEP1_64(Bd.getInt8Ty(), MT->getRawDest(), P[i].first) : MT->getRawDest(), Align(1));
			MT->eraseFromParent();
		}
		for (Instruction &I : instructions(F)) {
			I.setMetadata(LLVMContext::MD_tbaa, nullptr);
		}
	}
}

// A wide load over narrower accesses to the same object is read bytewise, so that each byte can be forwarded.
static void splitWideLoads(Function &F) {
	const DataLayout &DL = F.getParent()->getDataLayout();
	std::map<Value *, std::vector<std::pair<int64_t, uint64_t>>> narrow;
	std::vector<LoadInst *> W;
	for (Instruction &I : instructions(F)) {
		if (auto *S = dyn_cast<StoreInst>(&I)) {
			int64_t o = 0;
			Value *B = GetPointerBaseWithConstantOffset(S->getPointerOperand(), o, DL);
			narrow[B].push_back({o, DL.getTypeStoreSize(S->getValueOperand()->getType())});
		} else if (auto *L = dyn_cast<LoadInst>(&I)) {
			int64_t o = 0;
			Value *B = GetPointerBaseWithConstantOffset(L->getPointerOperand(), o, DL);
			narrow[B].push_back({o, DL.getTypeStoreSize(L->getType())});
			if (L->isSimple() && L->getType()->isIntegerTy() && (L->getType()->getIntegerBitWidth() == 16 || L->getType()->getIntegerBitWidth() == 32 || L->getType()->getIntegerBitWidth() == 64)) W.push_back(L);
		}
	}
	for (LoadInst *L : W) {
		int64_t o = 0;
		uint64_t n = DL.getTypeStoreSize(L->getType());
		Value *B = GetPointerBaseWithConstantOffset(L->getPointerOperand(), o, DL);
		bool split = false;
		for (auto &[so, sn] : narrow[B]) split |= sn < n && so < o + (int64_t)n && so + (int64_t)sn > o;
		if (!split) continue;
		uint64_t g = n / 2; // the coarsest pieces no narrower access cuts
		for (auto &[so, sn] : narrow[B])
			if (sn < n && so < o + (int64_t)n && so + (int64_t)sn > o)
				while (g > 1 && ((so - o) % (int64_t)g || sn % g)) g /= 2;
		IRBuilder<> Bd(L);
		Value *V = nullptr;
		for (uint64_t k = 0; k < n; k += g) {
			Value *P = k ? Bd.CreateConstInBoundsGEP1_64(Bd.getInt8Ty(), L->getPointerOperand(), k) : L->getPointerOperand();
			Value *X = Bd.CreateZExt(Bd.CreateAlignedLoad(Bd.getIntNTy(8 * g), P, commonAlignment(L->getAlign(), k)), L->getType());
			if (k) X = Bd.CreateShl(X, 8 * k);
			V = V ? Bd.CreateOr(V, X) : X;
		}
		L->replaceAllUsesWith(V);
		L->eraseFromParent();
	}
}

// An entry of a small constant integer table is a choice by the index.
static void smallTables(Function &F) {
	const DataLayout &DL = F.getParent()->getDataLayout();
	std::vector<LoadInst *> W;
	for (Instruction &I : instructions(F))
		if (auto *L = dyn_cast<LoadInst>(&I))
			if (L->isSimple() && L->getType()->isIntegerTy()) W.push_back(L);
	for (LoadInst *L : W) {
		Value *P = L->getPointerOperand();
		auto *G = dyn_cast<GlobalVariable>(getUnderlyingObject(P, 8));
		if (!G || !G->isConstant() || !G->hasDefinitiveInitializer() || G == P) continue;
		unsigned BW = DL.getIndexTypeSizeInBits(P->getType());
		MapVector<Value *, APInt> Vars;
		APInt Off(BW, 0);
		while (auto *E = dyn_cast<GEPOperator>(P)) {
			if (!E->collectOffset(DL, BW, Vars, Off)) break;
			P = E->getPointerOperand();
		}
		if (P != G || Vars.size() != 1) continue;
		Value *X = Vars.front().first;
		int64_t step = Vars.front().second.getSExtValue(), size = DL.getTypeAllocSize(G->getValueType()), w = DL.getTypeStoreSize(L->getType());
		if (step <= 0 || !X->getType()->isIntegerTy()) continue;
		IRBuilder<> B(L);
		std::vector<std::pair<int64_t, Constant *>> Es;
		bool ok = true;
		int64_t first = Off.getSExtValue() % step;
		if (first < 0) first += step;
		for (int64_t at = first; ok && at + w <= size; at += step) {
			auto *K = dyn_cast_or_null<ConstantInt>(ConstantFoldLoadFromConst(G->getInitializer(), L->getType(), APInt(BW, at), DL));
			ok = K && Es.size() < 20;
			Es.push_back({(at - Off.getSExtValue()) / step, K});
		}
		if (!ok || Es.empty()) continue;
		Value *V = Es.back().second;
		for (size_t k = Es.size() - 1; k-- > 0;)
			V = B.CreateSelect(B.CreateICmpEQ(X, ConstantInt::get(X->getType(), Es[k].first, true)), Es[k].second, V);
		L->replaceAllUsesWith(V);
		L->eraseFromParent();
	}
}

// An access to one of a few constant places, chosen by conditions, is a choice of the accesses.
static void differences(Function &F) { // x - y is zero when x and y are equal, whatever else the difference is used for
	for (Instruction &I : instructions(F))
		if (auto *C = dyn_cast<ICmpInst>(&I))
			if (C->isEquality() && isa<ConstantInt>(C->getOperand(1)) && cast<ConstantInt>(C->getOperand(1))->isZero())
				if (auto *S = dyn_cast<BinaryOperator>(C->getOperand(0)); S && S->getOpcode() == Instruction::Sub) {
					C->setOperand(0, S->getOperand(0));
					C->setOperand(1, S->getOperand(1));
				}
}
static bool fewPlaces(Value *X, std::vector<int64_t> &out) {
	if (out.size() > 4) return false;
	if (auto *K = dyn_cast<ConstantInt>(X)) { out.push_back(K->getSExtValue()); return K->getBitWidth() <= 64; }
	if (auto *Z = dyn_cast<ZExtInst>(X)) {
		if (Z->getSrcTy()->isIntegerTy(1)) { out.push_back(0); out.push_back(1); return true; }
		return false;
	}
	if (auto *S = dyn_cast<SelectInst>(X)) return fewPlaces(S->getTrueValue(), out) && fewPlaces(S->getFalseValue(), out);
	return false;
}
static Value *perPlace(IRBuilder<> &B, Value *X, const std::function<Value *(int64_t)> &leaf) {
	if (auto *K = dyn_cast<ConstantInt>(X)) return leaf(K->getSExtValue());
	if (auto *Z = dyn_cast<ZExtInst>(X)) { Value *T = leaf(1), *E = leaf(0); return B.CreateSelect(Z->getOperand(0), T, E); }
	auto *S = cast<SelectInst>(X);
	Value *T = perPlace(B, S->getTrueValue(), leaf), *E = perPlace(B, S->getFalseValue(), leaf);
	return T == E ? T : B.CreateSelect(S->getCondition(), T, E);
}
static void chosenPlaces(Function &F) {
	const DataLayout &DL = F.getParent()->getDataLayout();
	std::vector<Instruction *> W;
	for (Instruction &I : instructions(F))
		if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isSimple()) W.push_back(L); }
		else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isSimple()) W.push_back(S); }
	for (Instruction *I : W) {
		Value *P = const_cast<Value *>(getLoadStorePointerOperand(I)), *Ptr = P;
		Type *T = getLoadStoreType(I);
		if (!T->isIntegerTy() && !T->isFloatingPointTy()) continue;
		unsigned BW = DL.getIndexTypeSizeInBits(P->getType());
		MapVector<Value *, APInt> Vars;
		APInt Off(BW, 0);
		bool ok = true;
		while (auto *E = dyn_cast<GEPOperator>(P)) {
			if (!(ok = E->collectOffset(DL, BW, Vars, Off))) break;
			P = E->getPointerOperand();
		}
		if (!ok || P == Ptr || Vars.size() != 1) continue;
		int64_t size;
		if (auto *A = dyn_cast<AllocaInst>(P)) {
			auto n = A->getAllocationSize(DL);
			if (!n || n->isScalable()) continue;
			size = n->getFixedValue();
		} else if (auto *G = dyn_cast<GlobalVariable>(P); G && G->hasDefinitiveInitializer() && isa<LoadInst>(I)) size = DL.getTypeAllocSize(G->getValueType());
		else continue;
		Value *X = Vars.front().first;
		int64_t step = Vars.front().second.getSExtValue(), base = Off.getSExtValue(), w = DL.getTypeStoreSize(T);
		std::vector<int64_t> at;
		if (!fewPlaces(X, at) || at.size() < 2 || at.size() > 4) continue;
		for (int64_t k : at) ok &= base + k * step >= 0 && base + k * step + w <= size;
		if (!ok) continue;
		IRBuilder<> B(I);
		auto place = [&](int64_t k) { return base + k * step ? B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), P, base + k * step) : P; };
		if (auto *L = dyn_cast<LoadInst>(I)) {
			std::map<int64_t, Value *> got;
			L->replaceAllUsesWith(perPlace(B, X, [&](int64_t k) { Value *&V = got[k]; return V ? V : V = B.CreateAlignedLoad(T, place(k), Align(1)); }));
		} else {
			Value *V = cast<StoreInst>(I)->getValueOperand();
			std::sort(at.begin(), at.end());
			at.erase(std::unique(at.begin(), at.end()), at.end());
			for (int64_t k : at) {
				Value *Here = perPlace(B, X, [&](int64_t n) { return B.getInt1(n == k); });
				Value *Q = place(k);
				B.CreateAlignedStore(B.CreateSelect(Here, V, B.CreateAlignedLoad(T, Q, Align(1))), Q, Align(1));
			}
		}
		I->eraseFromParent();
	}
}

// --- linear value numbering ------------------------------------------------------------------
// Values are numbered by their linear form over Z/2^w; equal forms are one value.
struct Form {
	APInt C;
	std::map<Value *, APInt> T;
};
static std::map<Value *, Form> *FormMemo = nullptr; // forms of sums of any length, while one function stays unchanged
static Form formOf(Value *V, const DataLayout &DL, int depth);
static Form formOnce(Value *V, const DataLayout &DL, int depth) {
	unsigned w = V->getType()->getIntegerBitWidth();
	Form F{APInt(w, 0), {}};
	auto atom = [&] { F.T.insert({V, APInt(w, 1)}); return F; };
	if (auto *CI = dyn_cast<ConstantInt>(V)) { F.C = CI->getValue(); return F; }
	auto *I = dyn_cast<BinaryOperator>(V);
	if (!I || depth <= 0) return atom();
	auto comb = [&](const Form &A, const APInt &k) {
		F.C += A.C * k;
		for (auto &[v, c] : A.T) {
			auto It = F.T.insert({v, APInt(w, 0)}).first;
			It->second += c * k;
			if (It->second.isZero()) F.T.erase(It);
		}
	};
	Value *A = I->getOperand(0), *B = I->getOperand(1);
	APInt one(w, 1);
	switch (I->getOpcode()) {
	case Instruction::Add: comb(formOf(A, DL, depth - 1), one); comb(formOf(B, DL, depth - 1), one); return F;
	case Instruction::Sub: comb(formOf(A, DL, depth - 1), one); comb(formOf(B, DL, depth - 1), -one); return F;
	case Instruction::Or:
	case Instruction::Xor:
		if (I->getOpcode() == Instruction::Xor)
			if (auto *K = dyn_cast<ConstantInt>(B))
				if (K->isMinusOne()) { comb(formOf(A, DL, depth - 1), -one); F.C -= 1; return F; }
		if (auto *D = dyn_cast<PossiblyDisjointInst>(I); (D && D->isDisjoint()) || haveNoCommonBitsSet(A, B, DL)) { comb(formOf(A, DL, depth - 1), one); comb(formOf(B, DL, depth - 1), one); return F; }
		return atom();
	case Instruction::Mul:
		if (auto *K = dyn_cast<ConstantInt>(B)) { comb(formOf(A, DL, depth - 1), K->getValue()); return F; }
		return atom();
	case Instruction::Shl:
		if (auto *K = dyn_cast<ConstantInt>(B))
			if (K->getValue().ult(w)) { comb(formOf(A, DL, depth - 1), one << K->getZExtValue()); return F; }
		return atom();
	default: return atom();
	}
}
static Form formOf(Value *V, const DataLayout &DL, int depth) {
	if (!FormMemo || !isa<BinaryOperator>(V)) return formOnce(V, DL, depth);
	if (auto It = FormMemo->find(V); It != FormMemo->end()) return It->second;
	Form F = formOnce(V, DL, depth);
	if (F.T.size() > 200) F = Form{APInt(V->getType()->getIntegerBitWidth(), 0), {{V, APInt(V->getType()->getIntegerBitWidth(), 1)}}};
	return FormMemo->insert({V, F}).first->second;
}
// comparisons of two constant addresses within one object
static Constant *foldConstCmp(Constant *K, const DataLayout &DL, int depth = 6) {
	auto *CE = dyn_cast<ConstantExpr>(K);
	if (!CE || depth <= 0) return nullptr;
	if (CE->getOpcode() == Instruction::ICmp && CE->getOperand(0)->getType()->isPointerTy()) {
		unsigned w = DL.getIndexTypeSizeInBits(CE->getOperand(0)->getType());
		APInt A(w, 0), B(w, 0);
		auto *X = CE->getOperand(0)->stripAndAccumulateConstantOffsets(DL, A, true);
		auto *Y = CE->getOperand(1)->stripAndAccumulateConstantOffsets(DL, B, true);
		if (X != Y && isa<GlobalVariable>(X) && isa<GlobalVariable>(Y) && ICmpInst::isEquality((ICmpInst::Predicate)CE->getPredicate())) {
			auto *G = cast<GlobalVariable>(X), *H = cast<GlobalVariable>(Y);
			if (G->hasInitializer() && H->hasInitializer() && !G->hasGlobalUnnamedAddr() && !H->hasGlobalUnnamedAddr() &&
				A.ult(DL.getTypeAllocSize(G->getValueType())) && B.ult(DL.getTypeAllocSize(H->getValueType()))) // two objects, both addresses inside
				return ConstantInt::getBool(K->getContext(), CE->getPredicate() == ICmpInst::ICMP_NE);
		}
		if (X != Y || !isa<GlobalVariable>(X)) return nullptr;
		auto P = (ICmpInst::Predicate)CE->getPredicate();
		if (!ICmpInst::isEquality(P)) {
			uint64_t sz = DL.getTypeAllocSize(cast<GlobalVariable>(X)->getValueType());
			if (A.ugt(sz) || B.ugt(sz)) return nullptr;
		}
		return ConstantInt::getBool(K->getContext(), ICmpInst::compare(A, B, P));
	}
	bool ch = false;
	SmallVector<Constant *> Ops;
	for (Value *O : CE->operands()) {
		auto *C = cast<Constant>(O);
		Constant *N = foldConstCmp(C, DL, depth - 1);
		ch |= N != nullptr;
		Ops.push_back(N ? N : C);
	}
	return ch ? CE->getWithOperands(Ops) : nullptr;
}
// whether a pointer is null, as a condition: an address within an object is not null
static Value *isNull(Value *V, Instruction *At, int depth = 4) {
	auto &C = V->getContext();
	if (isa<ConstantPointerNull>(V)) return ConstantInt::getTrue(C);
	Value *O = V;
	while (auto *E = dyn_cast<GEPOperator>(O)) O = E->getPointerOperand();
	auto *CB = dyn_cast<CallBase>(O);
	if (isa<AllocaInst>(O) || (isa<GlobalVariable>(O) && !cast<GlobalVariable>(O)->hasExternalWeakLinkage()) || (CB && CB->getCalledFunction() && CB->getCalledFunction()->getName() == "__vf_buf"))
		return ConstantInt::getFalse(C);
	if (depth <= 0) return nullptr;
	if (auto *S = dyn_cast<SelectInst>(V)) {
		Value *A = isNull(S->getTrueValue(), At, depth - 1), *B = A ? isNull(S->getFalseValue(), At, depth - 1) : nullptr;
		if (!A || !B) return nullptr;
		return IRBuilder<>(At).CreateSelect(S->getCondition(), A, B);
	}
	if (auto *P = dyn_cast<PHINode>(V)) {
		std::vector<Value *> In;
		for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
			Value *X = isNull(P->getIncomingValue(i), P->getIncomingBlock(i)->getTerminator(), 0);
			if (!X) return nullptr;
			In.push_back(X);
		}
		auto *N = PHINode::Create(Type::getInt1Ty(C), In.size(), "", P);
		for (unsigned i = 0; i < In.size(); i++) N->addIncoming(In[i], P->getIncomingBlock(i));
		return N;
	}
	return nullptr;
}
// address equality within one object is offset equality (exact modulo 2^64)
static bool offsetCmps(Function &F) {
	const DataLayout &DL = F.getParent()->getDataLayout();
	std::vector<ICmpInst *> W;
	auto strip = [](Value *V, SmallVectorImpl<GEPOperator *> &G) {
		while (auto *E = dyn_cast<GEPOperator>(V)) {
			if (E->getType()->isVectorTy()) break;
			G.push_back(E);
			V = E->getPointerOperand();
		}
		return V;
	};
	for (Instruction &I : instructions(F))
		if (auto *IC = dyn_cast<ICmpInst>(&I))
			if (IC->isEquality() && IC->getOperand(0)->getType()->isPointerTy()) W.push_back(IC);
	bool ch = false;
	for (auto *IC : W) {
		SmallVector<GEPOperator *> A, B;
		if (isa<ConstantPointerNull>(IC->getOperand(1)) && !isa<Argument>(IC->getOperand(0))) {
			if (Value *N = isNull(IC->getOperand(0), IC)) {
				if (IC->getPredicate() == ICmpInst::ICMP_NE) N = IRBuilder<>(IC).CreateNot(N);
				IC->replaceAllUsesWith(N);
				IC->eraseFromParent();
				ch = true;
				continue;
			}
		}
		if (strip(IC->getOperand(0), A) != strip(IC->getOperand(1), B) || (A.empty() && B.empty())) continue;
		while (!A.empty() && !B.empty() && A.back() == B.back()) { A.pop_back(); B.pop_back(); }
		IRBuilder<> Bd(IC);
		auto sum = [&](SmallVectorImpl<GEPOperator *> &G) {
			Value *S = ConstantInt::get(Bd.getInt64Ty(), 0);
			for (auto *E : G) S = Bd.CreateAdd(S, emitGEPOffset(&Bd, DL, E));
			return S;
		};
		Value *R = Bd.CreateICmp(IC->getPredicate(), sum(A), sum(B));
		IC->replaceAllUsesWith(R);
		IC->eraseFromParent();
		ch = true;
	}
	return ch;
}
// Integers converted to floating point and scaled by a power of two are exact: scales cancel, and comparisons move to
// the unscaled value.
static bool scaledInts(Function &F) {
	auto pow2 = [](Value *V, int &e) {
		auto *K = dyn_cast<ConstantFP>(V);
		if (!K || !K->getValueAPF().isFiniteNonZero() || K->isNegative()) return false;
		APFloat One = APFloat(K->getValueAPF().getSemantics(), 1);
		e = ilogb(K->getValueAPF());
		return e > -80 && e < 80 && scalbn(One, e, APFloat::rmNearestTiesToEven).bitwiseIsEqual(K->getValueAPF());
	};
	auto scaled = [&](Value *V, Value *&S, int &e) { // V == S * 2^e, S an integer
		auto *B = dyn_cast<BinaryOperator>(V);
		if (!B || (B->getOpcode() != Instruction::FMul && B->getOpcode() != Instruction::FDiv) || !B->getType()->isFloatingPointTy()) return false;
		unsigned k = 1;
		if (B->getOpcode() == Instruction::FMul && isa<ConstantFP>(B->getOperand(0))) k = 0;
		if (!pow2(B->getOperand(k), e)) return false;
		S = B->getOperand(1 - k);
		if (B->getOpcode() == Instruction::FDiv) e = -e;
		return isa<SIToFPInst>(S) || isa<UIToFPInst>(S);
	};
	auto scale = [](Type *T, int e) { return ConstantFP::get(T->getContext(), scalbn(APFloat(T->getFltSemantics(), 1), e, APFloat::rmNearestTiesToEven)); };
	bool ch = false;
	std::vector<Instruction *> W;
	for (Instruction &I : instructions(F)) W.push_back(&I);
	for (Instruction *I : W) {
		Value *S;
		int e, f;
		if (auto *FC = dyn_cast<FCmpInst>(I)) {
			unsigned k = isa<ConstantFP>(FC->getOperand(0)) ? 1 : 0;
			auto *K = dyn_cast<ConstantFP>(FC->getOperand(1 - k));
			if (!K || !K->getValueAPF().isFinite() || !scaled(FC->getOperand(k), S, e)) continue;
			APFloat N = scalbn(K->getValueAPF(), -e, APFloat::rmNearestTiesToEven);
			if (!N.isFinite() || !scalbn(N, e, APFloat::rmNearestTiesToEven).bitwiseIsEqual(K->getValueAPF())) continue;
			FC->setOperand(k, S);
			FC->setOperand(1 - k, ConstantFP::get(FC->getContext(), N));
			ch = true;
		} else if (auto *B = dyn_cast<BinaryOperator>(I); B && (B->getOpcode() == Instruction::FMul || B->getOpcode() == Instruction::FDiv) && B->getType()->isFloatTy() | B->getType()->isDoubleTy()) {
			unsigned k = B->getOpcode() == Instruction::FMul && isa<ConstantFP>(B->getOperand(0)) ? 0 : 1;
			if (!pow2(B->getOperand(k), f)) continue;
			if (B->getOpcode() == Instruction::FDiv) f = -f;
			Value *X = B->getOperand(1 - k);
			IRBuilder<> Bd(B);
			if (scaled(X, S, e)) {
				B->replaceAllUsesWith(e + f ? Bd.CreateFMul(S, scale(B->getType(), e + f)) : S);
				ch = true;
			} else if (auto *Q = dyn_cast<SelectInst>(X)) {
				bool any = false;
				for (Value *A : {Q->getTrueValue(), Q->getFalseValue()}) any |= scaled(A, S, e) || isa<SelectInst>(A);
				if (!any) continue;
				Constant *C = scale(B->getType(), f);
				B->replaceAllUsesWith(Bd.CreateSelect(Q->getCondition(), Bd.CreateFMul(Q->getTrueValue(), C), Bd.CreateFMul(Q->getFalseValue(), C)));
				ch = true;
			}
		}
	}
	return ch;
}
static bool foldConstCmps(Function &F) {
	const DataLayout &DL = F.getParent()->getDataLayout();
	bool ch = offsetCmps(F);
	ch |= scaledInts(F);
	for (Instruction &I : instructions(F))
		for (Use &U : I.operands())
			if (auto *K = dyn_cast<Constant>(U.get()))
				if (Constant *N = foldConstCmp(K, DL)) { U.set(N); ch = true; }
	return ch;
}
// a saturating difference, or a minimum or maximum, whose side is known where it stands
static void sidesKnown(Function &F, const DataLayout &DL) {
	DominatorTree DT(F);
	std::vector<IntrinsicInst *> W;
	for (Instruction &I : instructions(F))
		if (auto *II = dyn_cast<IntrinsicInst>(&I))
			switch (II->getIntrinsicID()) {
			case Intrinsic::usub_sat: case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: W.push_back(II); break;
			default: break;
			}
	for (auto *II : W) {
		if (!II->getType()->isIntegerTy()) continue;
		Value *A = II->getArgOperand(0), *B = II->getArgOperand(1);
		const auto id = II->getIntrinsicID();
		const auto P = id == Intrinsic::smin || id == Intrinsic::smax ? CmpInst::ICMP_SGE : CmpInst::ICMP_UGE;
		std::optional<bool> ge; // A >= B
		auto *N = DT.getNode(II->getParent());
		for (int up = 0; N && N->getIDom() && !ge && up < 40; up++, N = N->getIDom()) {
			BasicBlock *D = N->getIDom()->getBlock();
			auto *BI = dyn_cast<BranchInst>(D->getTerminator());
			if (!BI || !BI->isConditional() || BI->getSuccessor(0) == BI->getSuccessor(1)) continue;
			for (int k = 0; k < 2 && !ge; k++)
				if (DT.dominates(BasicBlockEdge(D, BI->getSuccessor(k)), II->getParent())) {
					ge = isImpliedCondition(BI->getCondition(), P, A, B, DL, k == 0);
					if (!ge)
						if (auto le = isImpliedCondition(BI->getCondition(), P, B, A, DL, k == 0); le && *le) ge = false; // B >= A serves as well
				}
		}
		if (!ge) continue;
		Value *R;
		if (id == Intrinsic::usub_sat) R = *ge ? BinaryOperator::CreateSub(A, B, "", II) : (Value *)ConstantInt::get(II->getType(), 0);
		else R = *ge == (id == Intrinsic::umax || id == Intrinsic::smax) ? A : B;
		if (R == II) continue;
		II->replaceAllUsesWith(R);
		II->eraseFromParent();
	}
}
static bool linearNumbering(Function &F) {
	const DataLayout &DL = F.getParent()->getDataLayout();
	foldConstCmps(F);
	sidesKnown(F, DL);
	DominatorTree DT(F);
	bool ch = false;
	std::map<std::string, std::vector<Instruction *>> Known;
	ReversePostOrderTraversal<Function *> RPO(&F);
	std::vector<std::pair<Instruction *, Value *>> Rep;
	std::map<Value *, Form> Long;
	auto longForm = [&](Value *V) { // of sums longer than the numbering below looks at
		FormMemo = &Long;
		Form f = formOf(V, DL, 400);
		FormMemo = nullptr;
		return f;
	};
	auto equal = [](const Form &A, const Form &B) { // but for the constant
		if (A.T.size() != B.T.size()) return false;
		for (auto &[v, c] : A.T) { auto It = B.T.find(v); if (It == B.T.end() || It->second != c) return false; }
		return true;
	};
	auto key = [](const Form &f) {
		std::string k;
		raw_string_ostream O(k);
		O << f.C.getBitWidth() << ":" << f.C;
		for (auto &[v, c] : f.T) O << "+" << c << "*" << (const void *)v;
		return O.str();
	};
	for (BasicBlock *BB : RPO)
		for (Instruction &I : *BB) {
			if (auto *IC = dyn_cast<ICmpInst>(&I)) {
				if (!IC->isEquality() || !IC->getOperand(0)->getType()->isIntegerTy()) continue;
				Form A = longForm(IC->getOperand(0)), B = longForm(IC->getOperand(1));
				if (equal(A, B)) Rep.push_back({&I, ConstantInt::getBool(I.getContext(), (A.C == B.C) == (IC->getPredicate() == ICmpInst::ICMP_EQ))});
				continue;
			}
			if (!isa<BinaryOperator>(I) || !I.getType()->isIntegerTy()) continue;
			if (I.getOpcode() == Instruction::Xor && !isa<Constant>(I.getOperand(1))) { // of two equal values
				Form A = longForm(I.getOperand(0)), B = longForm(I.getOperand(1));
				if (A.C == B.C && equal(A, B)) { Rep.push_back({&I, ConstantInt::get(I.getType(), 0)}); continue; }
			}
			Form f = formOf(&I, DL, 8);
			if (f.T.size() == 1 && f.T.begin()->first == &I) continue;
			if (f.T.empty()) { Rep.push_back({&I, ConstantInt::get(I.getContext(), f.C)}); continue; }
			if (f.T.size() == 1 && f.C.isZero() && f.T.begin()->second.isOne()) { Rep.push_back({&I, f.T.begin()->first}); continue; }
			auto &V = Known[key(f)];
			Instruction *Hit = nullptr;
			for (auto *X : V) if (DT.dominates(X, &I)) { Hit = X; break; }
			if (Hit) Rep.push_back({&I, Hit});
			else V.push_back(&I);
		}
	// leaders first: replacements never refer to replaced instructions other than through RAUW
	for (auto &[I, V] : Rep) {
		if (auto *VI = dyn_cast<Instruction>(V)) { (void)VI; }
		if (V == I) continue;
		I->replaceAllUsesWith(V);
		for (auto &R : Rep) if (R.second == I) R.second = V;
		ch = true;
	}
	for (auto &[I, V] : Rep)
		if (I->use_empty() && V != I) I->eraseFromParent();
	return ch;
}

// --- loop invariants ------------------------------------------------------------------------
// Affine relations between loop-header phis (p + q == const, p - q == const) are found with scalar evolution
// and made syntactic by rewriting one phi in terms of the other.
static unsigned nAffine = 0;
struct FnAnalyses {
	TargetLibraryInfoImpl TLII;
	TargetLibraryInfo TLI;
	AssumptionCache AC;
	DominatorTree DT;
	LoopInfo LI;
	ScalarEvolution SE;
	FnAnalyses(Function &F)
		: TLII(Triple(F.getParent()->getTargetTriple())), TLI(TLII, &F), AC(F), DT(F), LI(DT), SE(F, TLI, AC, DT, LI) {}
};
static bool affineStep(Function &F) {
	FnAnalyses A(F);
	auto &SE = A.SE;
	const DataLayout &DL = F.getParent()->getDataLayout();
	for (Loop *L : A.LI.getLoopsInPreorder()) {
		BasicBlock *PH = L->getLoopPreheader(), *H = L->getHeader();
		if (!PH) continue;
		SmallVector<BasicBlock *, 4> Latches;
		L->getLoopLatches(Latches);
		SmallVector<PHINode *, 8> Phis;
		for (PHINode &P : H->phis())
			if ((P.getType()->isIntegerTy() && P.getType()->getIntegerBitWidth() >= 8) || P.getType()->isPointerTy()) Phis.push_back(&P);
		auto asInt = [&](Value *V, Type *T) -> const SCEV * {
			const SCEV *S = SE.getSCEV(V);
			if (V->getType()->isPointerTy()) {
				S = SE.getPtrToIntExpr(S, DL.getIntPtrType(V->getType()));
				if (isa<SCEVCouldNotCompute>(S)) return nullptr;
			}
			if (S->getType() != T) return nullptr;
			return S;
		};
		for (PHINode *P : Phis) {		  // leader
			if (P->getType()->isPointerTy()) continue;
			Type *T = P->getType();
			for (PHINode *Q : Phis) {
				if (P == Q) continue;
				if (Q->getType()->isIntegerTy() && Q->getType() == T && Q->comesBefore(P) ) { /* ints: eliminate later ones only */ continue; }
				if (!Q->getType()->isPointerTy() && Q->getType() != T) continue;
				for (int sign : {+1, -1}) {
					auto combo = [&](Value *p, Value *q) -> const SCEV * {
						auto *a = asInt(p, T), *b = asInt(q, T);
						if (!a || !b) return nullptr;
						return sign > 0 ? SE.getAddExpr(b, a) : SE.getMinusSCEV(b, a);
					};
					auto *here = combo(P, Q);
					if (!here) continue;
					bool ok = true;
					for (auto *LB : Latches) {
						auto *n = combo(P->getIncomingValueForBlock(LB), Q->getIncomingValueForBlock(LB));
						if (!n || n != here) { ok = false; break; }
					}
					if (!ok) continue;
					if (sign > 0 && Q->getType()->isPointerTy()) continue;
					// Q = Q0 -+ (P - P0)
					IRBuilder<> B(&*H->getFirstInsertionPt());
					Value *P0 = P->getIncomingValueForBlock(PH), *Q0 = Q->getIncomingValueForBlock(PH);
					Value *R;
					if (Q->getType()->isPointerTy()) R = B.CreateGEP(B.getInt8Ty(), Q0, B.CreateSub(P, P0));
					else if (sign > 0) R = B.CreateSub(B.CreateAdd(P0, Q0), P);
					else R = B.CreateAdd(B.CreateSub(Q0, P0), P);
					Q->replaceAllUsesWith(R);
					Q->eraseFromParent();
					nAffine++;
					return true;
				}
			}
		}
	}
	return false;
}

// Inequalities: predicate abstraction (Houdini). Candidates over header phis and loop-invariant values are
// assumed at the header and proved on every edge into it by the same passes; what cannot be proved is dropped,
// until the remaining set is inductive.
struct Cand {
	PHINode *P;
	Value *V;
	int kind; // 0: P <=u V, 1: P >=u V, 2: P != V
	bool alive = true;
};
static std::vector<Cand> candidates(Module &M, const std::set<std::string> &Only) {
	std::vector<Cand> Out;
	for (Function &F : M) {
		if (!isRoot(F) || !Only.count(F.getName().str())) continue;
		FnAnalyses A(F);
		for (Loop *L : A.LI.getLoopsInPreorder()) {
			BasicBlock *H = L->getHeader(), *PH = L->getLoopPreheader();
			if (!PH) continue;
			std::map<Type *, SmallSetVector<Value *, 24>> U;
			auto add = [&](Value *V) {
				if (!V->getType()->isIntegerTy() || V->getType()->getIntegerBitWidth() < 8) return;
				if (auto *I = dyn_cast<Instruction>(V)) {
					if (L->contains(I) || !A.DT.dominates(I, PH->getTerminator())) return;
				}
				auto &S = U[V->getType()];
				if (S.size() < 20) S.insert(V);
				if (auto *CI = dyn_cast<ConstantInt>(V)) {
					if (!CI->isZero() && S.size() < 20) S.insert(ConstantInt::get(CI->getType(), CI->getValue() - 1));
				}
			};
			for (BasicBlock *B : L->blocks())
				for (Instruction &I : *B)
					if (auto *IC = dyn_cast<ICmpInst>(&I)) { add(IC->getOperand(0)); add(IC->getOperand(1)); 
						for (Value *O : IC->operands()) if (auto *BO = dyn_cast<BinaryOperator>(O)) { add(BO->getOperand(0)); add(BO->getOperand(1)); } }
			for (PHINode &P : H->phis()) add(P.getIncomingValueForBlock(PH));
			for (Instruction &I : instructions(F))
				if (auto *IC = dyn_cast<ICmpInst>(&I))
					if (!L->contains(&I)) { add(IC->getOperand(0)); add(IC->getOperand(1)); }
			for (PHINode &P : H->phis()) {
				if (!P.getType()->isIntegerTy() || P.getType()->getIntegerBitWidth() < 8) continue;
				for (Value *V : U[P.getType()]) {
					Out.push_back({&P, V, 0});
					Out.push_back({&P, V, 1});
					for (User *U2 : P.users())
						if (auto *IC = dyn_cast<ICmpInst>(U2))
							if (IC->isEquality() && (IC->getOperand(0) == V || IC->getOperand(1) == V)) { Out.push_back({&P, V, 2}); break; }
				}
				for (PHINode &Q : H->phis())
					if (&Q != &P && Q.getType() == P.getType()) Out.push_back({&P, &Q, 0});
			}
		}
	}
	return Out;
}
static Value *candExpr(IRBuilder<> &B, int kind, Value *P, Value *V) {
	switch (kind) {
	case 0: return B.CreateICmpULE(P, V);
	case 1: return B.CreateICmpUGE(P, V);
	default: return B.CreateICmpNE(P, V);
	}
}
static std::unique_ptr<Module> withInvariants(Module &M, std::vector<Cand> &Cs, bool Prove, const std::set<std::string> &Only) {
	ValueToValueMapTy VM;
	auto N = CloneModule(M, VM);
	auto &C = N->getContext();
	auto *VoidFn = FunctionType::get(Type::getVoidTy(C), false);
	auto *IntFn = FunctionType::get(Type::getVoidTy(C), {Type::getInt32Ty(C)}, false);
	auto Halt = N->getOrInsertFunction("__vf_halt", VoidFn);
	cast<Function>(Halt.getCallee())->setDoesNotReturn();
	cast<Function>(Halt.getCallee())->setDoesNotThrow();
	auto Inv = N->getOrInsertFunction("__vf_inv", IntFn);
	cast<Function>(Inv.getCallee())->setDoesNotThrow();
	cast<Function>(Inv.getCallee())->setOnlyAccessesInaccessibleMemory();
	cast<Function>(Inv.getCallee())->setWillReturn();
	auto map = [&](Value *V) -> Value * {
		if (isa<Constant>(V) && !isa<GlobalValue>(V)) return V;
		if (Value *X = VM.lookup(V)) return X;
		return V;
	};
	std::map<PHINode *, std::vector<unsigned>> byHeader; // keyed by first phi of header
	for (unsigned i = 0; i < Cs.size(); i++)
		if (Cs[i].alive) byHeader[&*Cs[i].P->getParent()->phis().begin()].push_back(i);
	for (auto &[First, Ids] : byHeader) {
		auto *H = cast<BasicBlock>(VM[First->getParent()]);
		if (Prove) {
			SmallVector<BasicBlock *, 4> Preds(predecessors(H));
			std::set<BasicBlock *> Uniq(Preds.begin(), Preds.end());
			for (BasicBlock *Pr : Uniq) {
				// edge block
				BasicBlock *E = BasicBlock::Create(C, "inv", H->getParent(), H);
				IRBuilder<> B(E);
				auto sub = [&](Value *V) -> Value * {
					if (auto *PN = dyn_cast<PHINode>(V))
						if (PN->getParent() == H) return PN->getIncomingValueForBlock(Pr);
					return V;
				};
				BasicBlock *Cur = E;
				for (unsigned id : Ids) {
					Value *c = candExpr(B, Cs[id].kind, sub(map(Cs[id].P)), sub(map(Cs[id].V)));
					BasicBlock *Bad = BasicBlock::Create(C, "inv.bad", H->getParent(), H);
					BasicBlock *Nx = BasicBlock::Create(C, "inv.ok", H->getParent(), H);
					B.CreateCondBr(c, Nx, Bad);
					B.SetInsertPoint(Bad);
					B.CreateCall(Inv, {B.getInt32(id)});
					B.CreateBr(Nx);
					B.SetInsertPoint(Nx);
					Cur = Nx;
				}
				B.CreateBr(H);
				Pr->getTerminator()->replaceSuccessorWith(H, E);
				for (PHINode &P : H->phis()) {
					// several edges from the same predecessor collapse into one
					int idx = P.getBasicBlockIndex(Pr);
					P.setIncomingBlock(idx, Cur);
					while ((idx = P.getBasicBlockIndex(Pr)) >= 0) P.removeIncomingValue(idx, false);
				}
			}
		}
		Instruction *IP = &*H->getFirstInsertionPt();
		for (unsigned id : Ids) {
			IRBuilder<> B(IP);
			Value *c = candExpr(B, Cs[id].kind, map(Cs[id].P), map(Cs[id].V));
			Value *nc = B.CreateNot(c);
			Instruction *T = SplitBlockAndInsertIfThen(nc, IP, true);
			IRBuilder<> TB(T);
			TB.CreateCall(Halt)->setDoesNotReturn();
		}
	}
	for (Function &F : *N)
		if (isRoot(F) && !Only.count(F.getName().str())) F.deleteBody();
	return N;
}

// recursive functions: inline a bounded number of levels; what is left is an obligation (no further recursion)
static void inlineRecursive(Module &M, std::set<Function *> &Rec, int depth) {
	for (int d = 0; d < depth; d++) {
		std::vector<CallBase *> Calls;
		for (Function &F : M)
			if (isRoot(F))
				for (Instruction &I : instructions(F))
					if (auto *CB = dyn_cast<CallBase>(&I))
						if (Function *G = CB->getCalledFunction())
							if (Rec.count(G) && !G->isDeclaration()) Calls.push_back(CB);
		if (Calls.empty()) return;
		for (CallBase *CB : Calls) {
			InlineFunctionInfo IFI;
			InlineFunction(*CB, IFI);
		}
	}
}

static const char *Simp = "simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>";
static std::string pipeMain() {
	std::string S = Simp, IC = "instcombine<no-verify-fixpoint>";
	return "function(sroa<modify-cfg>,early-cse<memssa>," + IC + "," + S + ",sccp,jump-threading,correlated-propagation,minmax,constraint-elimination," + IC + ",gvn," + S +
		   ",loop-simplify,lcssa,loop-mssa(loop-instsimplify,loop-simplifycfg,loop-rotate,licm,simple-loop-unswitch<nontrivial>),loop-simplify,lcssa,loop(indvars,loop-idiom,loop-deletion,loop-unroll-full),"
		   "sroa<modify-cfg>,early-cse<memssa>," + IC + ",gvn,sccp,correlated-propagation,minmax,constraint-elimination,bdce," + IC + ",jump-threading,reassociate,gvn,dse,adce," + S + "),always-inline,globaldce";
}
static std::string pipeNoRotate() {
	std::string S = Simp, IC = "instcombine<no-verify-fixpoint>";
	return "function(sroa<modify-cfg>,early-cse<memssa>," + IC + "," + S + ",sccp,correlated-propagation,minmax,constraint-elimination," + IC + ",gvn," + S +
		   ",loop-simplify,lcssa,loop-mssa(loop-instsimplify,loop-simplifycfg,licm),loop-simplify,lcssa,loop(loop-deletion,loop-unroll-full),"
		   "sroa<modify-cfg>,early-cse<memssa>," + IC + ",gvn,sccp,correlated-propagation,minmax,constraint-elimination," + IC + "," + S + ",loop-simplify),always-inline,globaldce";
}
static std::string pipeFinish() {
	std::string S = Simp, IC = "instcombine<no-verify-fixpoint>";
	return "function(" + S + ",correlated-propagation,constraint-elimination," + IC + ",gvn,constraint-elimination," + IC + "," + S + ")";
}

static void linearStep(Module &M, int depth, int rounds) {
	for (int r = 0; r < rounds; r++) {
		bool ch = false;
		for (Function &F : M)
			if (isRoot(F)) { ch |= bits::run(F); ch |= lin::run(F, depth); }
		if (!ch) break;
		runPipe(M, pipeFinish());
	}
}
// Peels one iteration off every outermost loop; the loop itself stays, so nothing is assumed about its trip count.
static bool peelStep(Function &F, unsigned n) {
	DominatorTree DT(F);
	LoopInfo LI(DT);
	AssumptionCache AC(F);
	TargetLibraryInfoImpl TLII(Triple(F.getParent()->getTargetTriple()));
	TargetLibraryInfo TLI(TLII);
	ScalarEvolution SE(F, TLI, AC, DT, LI);
	bool ch = false;
	std::vector<Loop *> Ls(LI.begin(), LI.end());
	for (Loop *L : Ls) {
		if (!L->isLoopSimplifyForm() || !canPeel(L)) continue;
		ValueToValueMapTy VM;
		ch |= peelLoop(L, n, &LI, &SE, DT, &AC, true, VM);
	}
	return ch;
}
struct RootReport {
	std::string name;
	int reach = 0, reach0 = 0, obl0 = 0;
	std::set<std::string> calls;
	struct Item { std::string kind, what; json::Array stack; };
	std::vector<Item> residual;
	std::vector<json::Array> susp;
	int loops = 0;
};
static std::map<std::string, RootReport> report(Module &M) {
	std::map<std::string, RootReport> Out;
	for (Function &F : M) {
		if (!isRoot(F)) continue;
		RootReport &R = Out[F.getName().str()];
		R.name = demangle(F.getName().str());
		{
			DominatorTree DT(F);
			LoopInfo LI(DT);
			R.loops = LI.getLoopsInPreorder().size();
		}
		for (BasicBlock &B : F)
			for (Instruction &I : B) {
				if (auto *CB = dyn_cast<CallBase>(&I)) {
					Function *G = CB->getCalledFunction();
					if (!G) {
						R.calls.insert(CB->isInlineAsm() ? "<asm>" : "<indirect>");
						continue;
					}
					StringRef N = G->getName();
					if (N == "__vf_reach") { R.reach++; continue; }
					if (isFailName(N)) {
						std::string what = N == "__vf_fail" ? strOf(CB->getArgOperand(0)) : demangle(N.str());
						if (N.starts_with("llvm.ubsantrap"))
							if (auto *CI = dyn_cast<ConstantInt>(CB->getArgOperand(0))) what = "ubsan#" + std::to_string(CI->getZExtValue());
						R.residual.push_back({N == "__vf_fail" ? "prove" : N == "__vf_oob" ? "bounds" : "ub", what, stackOf(CB->getDebugLoc())});
						continue;
					}
					if (!isBenignNoReturn(N) && !G->isIntrinsic()) R.calls.insert(demangle(N.str()));
					if (!G->isDeclaration() && !isRoot(*G)) R.residual.push_back({"recursion", demangle(N.str()), stackOf(CB->getDebugLoc())});
				}
				if (isa<UnreachableInst>(I)) {
					Instruction *P = I.getPrevNonDebugInstruction();
					auto *CB = dyn_cast_or_null<CallBase>(P);
					if (!CB || !CB->doesNotReturn()) {
						bool isDef = false;
						for (BasicBlock *Pr : predecessors(&B)) if (auto *SI = dyn_cast<SwitchInst>(Pr->getTerminator())) if (SI->getDefaultDest() == &B) isDef = true;
						if (!isDef) R.susp.push_back(stackOf(I.getDebugLoc()));
					}
				}
			}
	}
	return Out;
}

int main(int argc, char **argv) {
	cl::ParseCommandLineOptions(argc, argv);
	LLVMContext C;
	SMDiagnostic D;
	auto M = parseIRFile(Input, D, C);
	if (!M) { D.print("vfa", errs()); return 3; }

	json::Array Roots, Resid, Reach, Unk, Ext, Susp, LoopsA;
	std::map<std::string, int> proveCount;
	unsigned nObl = 0;

	if (Shards > 1) {
		int n = 0;
		for (Function &F : *M)
			if (isRoot(F) && (n++ * 2654435761u >> 16) % Shards != Shard) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
		runPipe(*M, "globaldce");
	}
	// opaque state objects: external, mutable, of known size and unknown content
	for (GlobalVariable &G : M->globals())
		if (G.isDeclaration() && G.getName().contains("6Opaque")) {
			G.setInitializer(Constant::getNullValue(G.getValueType()));
			G.setLinkage(GlobalValue::ExternalLinkage);
		}
	// the allocation functions touch no object of the program (they may be replaced, but not observed here)
	for (Function &F : *M) {
		StringRef N = F.getName();
		if (!F.isDeclaration()) continue;
		if (N.starts_with("_Znw") || N.starts_with("_Zna")) {
			F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
			if (!N.contains("nothrow")) F.addRetAttr(Attribute::NonNull);
			F.setDoesNotThrow();
		}
		if (N == "__vf_buf") F.addRetAttr(Attribute::NonNull), F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
		if (N.starts_with("_Zdl") || N.starts_with("_Zda") || N == "free") { F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly()); F.setDoesNotThrow(); }
	}
	// recursive functions cannot be inlined
	std::set<std::string> Recursive;
	{
		CallGraph CG(*M);
		// simple DFS self-reachability
		for (Function &F : *M) {
			if (F.isDeclaration()) continue;
			std::set<Function *> seen;
			std::vector<Function *> st{&F};
			bool rec = false;
			while (!st.empty() && !rec) {
				Function *X = st.back(); st.pop_back();
				for (Instruction &I : instructions(*X))
					if (auto *CB = dyn_cast<CallBase>(&I))
						if (Function *G = CB->getCalledFunction()) {
							if (G == &F) { rec = true; break; }
							if (!G->isDeclaration() && seen.insert(G).second) st.push_back(G);
						}
			}
			if (rec) Recursive.insert(F.getName().str());
		}
	}
	for (Function &F : *M) {
		F.removeFnAttr(Attribute::OptimizeNone);
		F.removeFnAttr(Attribute::StackProtect);
		F.removeFnAttr(Attribute::StackProtectStrong);
		if (F.isDeclaration()) continue;
		if (isRoot(F)) {
			F.setLinkage(GlobalValue::ExternalLinkage);
			F.setComdat(nullptr);
			F.addFnAttr(Attribute::NoInline);
			F.removeFnAttr(Attribute::AlwaysInline);
		} else {
			F.setLinkage(GlobalValue::InternalLinkage);
			F.setComdat(nullptr);
			F.removeFnAttr(Attribute::NoInline);
			if (!Recursive.count(F.getName().str())) F.addFnAttr(Attribute::AlwaysInline);
		}
		if (!KeepFlags) {
			AttributeMask AM;
			AM.addAttribute(Attribute::NoUndef);
			AM.addAttribute(Attribute::NonNull);
			AM.addAttribute(Attribute::Dereferenceable);
			for (auto &A : F.args()) A.removeAttrs(AM);
			for (Instruction &I : instructions(F)) {
				I.dropPoisonGeneratingFlags();
				if (auto *CB = dyn_cast<CallBase>(&I)) {
					for (unsigned i = 0; i < CB->arg_size(); i++) CB->removeParamAttrs(i, AM);
					CB->removeRetAttrs(AM);
					if (auto *CI = CB->getCalledFunction()) (void)CI;
				}
			}
			F.removeRetAttrs(AM);
		}
	}
	for (Function &F : *M)
		for (Instruction &I : instructions(F))
			if (auto *CB = dyn_cast<CallBase>(&I))
				if (Function *G = CB->getCalledFunction()) {
					if (!G->isDeclaration() && !isRoot(*G) && !Recursive.count(G->getName().str())) CB->removeFnAttr(Attribute::NoInline);
				}

	std::map<std::string, std::pair<int, int>> Before; // root -> (obligations, reach witnesses) as stated
	std::set<std::string> Analysed;
	runPipe(*M, "function(lower-expect,loweratomic),always-inline,function(loweratomic)");
	for (Function &F : *M)
		if (isRoot(F))
			for (Instruction &I : instructions(F))
				if (auto *CB = dyn_cast<CallBase>(&I))
					if (Function *G = CB->getCalledFunction()) {
						if (G->getName() == "__vf_reach") Before[F.getName().str()].second++;
						if (isFailName(G->getName())) nObl++, Before[F.getName().str()].first++;
					}
	for (Function &F : *M) {
		if (!isRoot(F)) continue;
		for (Instruction &I : instructions(F))
			for (DILocation *L = I.getDebugLoc().get(); L; L = L->getInlinedAt())
				if (auto *S = L->getScope()->getSubprogram())
					if (S->getFilename().contains("util/")) Analysed.insert(S->getFilename().substr(S->getFilename().rfind("util/")).str() + ":" + S->getName().str() + ":" + std::to_string(S->getLine()));
	}
	std::unique_ptr<Module> Start = CloneModule(*M);
	std::map<std::string, RootReport> Rep;
	unsigned nInv = 0, nCand = 0, nIter = 0;
	std::vector<std::unique_ptr<Module>> Dump;
	// an obligation is discharged when one of the strategies discharges it
	auto merge = [&](std::map<std::string, RootReport> R2, const std::set<std::string> &Which) {
		for (auto &[n, r] : R2) {
			if (!Which.count(n)) continue;
			auto It = Rep.find(n);
			if (It == Rep.end()) { Rep[n] = std::move(r); continue; }
			auto key = [](const RootReport::Item &i) {
				std::string k = i.kind + "|" + i.what;
				json::Value V = json::Array(i.stack);
				raw_string_ostream O(k);
				O << V;
				return O.str();
			};
			std::set<std::string> K;
			bool anon = false;
			for (auto &i : r.residual) { K.insert(key(i)); anon |= i.stack.empty(); }
			for (auto &i : It->second.residual) anon |= i.stack.empty();
			if (anon) {
				if (r.residual.empty()) It->second = std::move(r);
				continue;
			}
			auto &V = It->second.residual;
			V.erase(std::remove_if(V.begin(), V.end(), [&](auto &i) { return !K.count(key(i)); }), V.end());
			if (!It->second.reach) It->second.reach = r.reach;
			if (V.empty()) It->second.loops = r.loops;
		}
	};
	auto open = [&](bool loopsOnly) {
		std::set<std::string> S;
		for (auto &[n, r] : Rep)
			if (!r.residual.empty() && (!loopsOnly || r.loops)) S.insert(n);
		return S;
	};
	auto keepOnly = [&](Module &X, const std::set<std::string> &S) {
		for (Function &F : X)
			if (isRoot(F) && !S.count(F.getName().str())) F.deleteBody();
	};
	std::set<std::string> Todo;
	for (Function &F : *Start)
		if (isRoot(F)) Todo.insert(F.getName().str());
	for (int strategy = 0; strategy < 3 && !Todo.empty(); strategy++) {
		M = CloneModule(*Start);
		if (strategy) keepOnly(*M, Todo);
		const bool guess = strategy < 2;
		expandCopies(*M, guess);
		runPipe(*M, "function(sroa<modify-cfg>,early-cse),always-inline,globaldce,function(simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup;no-switch-range-to-icmp>)");
		if (strategy == 0) // constant-trip loops are unrolled before any peephole narrows their counters
			runPipe(*M, "function(sccp,instsimplify,loop-simplify,lcssa,loop(loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,sccp,loop-simplify,lcssa,loop(loop-unroll-full),sroa<modify-cfg>,sccp,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup;no-switch-range-to-icmp>)");
		if (strategy == 2) // loops with a constant upper bound on their trip count are unrolled to that bound
			runPipe(*M, "function(sccp,instsimplify,loop-simplify,lcssa,loop(loop-rotate),loop-unroll<upperbound;no-runtime;no-partial;no-peeling;no-profile-peeling>,sroa<modify-cfg>,early-cse<memssa>,sccp,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup;no-switch-range-to-icmp>)");
		if (Peel && strategy == 0) {
			std::string Clean = std::string("function(sccp,instsimplify,early-cse<memssa>,sroa<modify-cfg>,gvn,sccp,jump-threading,") + Simp + ")";
			std::string Ready = "function(loop-simplify,lcssa,loop(loop-rotate),loop-simplify,lcssa)";
			runPipe(*M, Clean);
			for (int i = 0; i < Peel; i++) {
				runPipe(*M, Ready);
				bool ch = false;
				for (Function &F : *M)
					if (isRoot(F) && !F.isDeclaration()) ch |= peelStep(F, 1);
				if (!ch) break;
				runPipe(*M, Clean);
				for (Function &F : *M)
					if (isRoot(F) && !F.isDeclaration()) splitWideLoads(F);
			}
		}
		// indirect calls through known function pointers appear after SROA; inline again
		runPipe(*M, "function(instsimplify,early-cse<memssa>,instcombine<no-verify-fixpoint>,sroa<modify-cfg>),always-inline,function(sroa<modify-cfg>,instsimplify),globaldce");
		for (int i = 0; i < 3; i++) { // indirect calls whose target is known after propagation
			bool ind = false;
			for (Function &F : *M)
				if (isRoot(F))
					for (Instruction &I : instructions(F))
						if (auto *CB = dyn_cast<CallBase>(&I)) ind |= CB->isIndirectCall();
			if (!ind) break;
			runPipe(*M, std::string("function(instsimplify,early-cse<memssa>,gvn,sccp,") + Simp + ",sroa<modify-cfg>,loop-simplify,lcssa,loop(loop-unroll-full),gvn),always-inline,function(sroa<modify-cfg>,instsimplify),globaldce");
		}
		std::set<Function *> Rec;
		for (auto &N : Recursive)
			if (Function *F = M->getFunction(N)) Rec.insert(F);
		inlineRecursive(*M, Rec, Recurse);
		if (Devolatile)
			for (Function &F : *M)
				for (Instruction &I : instructions(F)) {
					if (auto *L = dyn_cast<LoadInst>(&I)) L->setVolatile(false);
					if (auto *S = dyn_cast<StoreInst>(&I)) S->setVolatile(false);
				}
		unsigned nb = nBounds, nu = unknownObj.size();
		if (Oob) instrument(*M);
		if (strategy) { nBounds = nb; unknownObj.resize(nu); }
		expandCopies(*M, guess);
		auto Base = CloneModule(*M);
		for (int i = 0; i < Rounds; i++) {
			runPipe(*M, pipeMain());
			expandCopies(*M, guess || i > 0);
			for (Function &F : *M)
				if (isRoot(F)) {
					splitWideLoads(F);
					smallTables(F);
					chosenPlaces(F);
					differences(F);
					linearNumbering(F);
				}
		}
		runPipe(*M, pipeFinish());
		for (Function &F : *M)
			if (isRoot(F) && linearNumbering(F)) {}
		runPipe(*M, pipeFinish());
		linearStep(*M, LinDepth, 6);
		if (verifyModule(*M, &errs())) { errs() << "broken module\n"; return 3; }
		merge(report(*M), Todo);
		Dump.push_back(std::move(M));
		std::set<std::string> Again = open(true);
		if (Houdini && !Again.empty()) {
			keepOnly(*Base, Again);
			for (int i = 0; i < 2; i++) runPipe(*Base, pipeNoRotate());
			for (Function &F : *Base)
				if (isRoot(F))
					while (affineStep(F)) {}
			runPipe(*Base, "function(loop-simplify)");
			auto Cs = candidates(*Base, Again);
			nCand += Cs.size();
			for (int it = 0; it < 60; it++) {
				nIter++;
				auto N = withInvariants(*Base, Cs, true, Again);
				if (verifyModule(*N, &errs())) { errs() << "broken module (inv)\n"; return 3; }
				for (int i = 0; i < 2; i++) runPipe(*N, pipeNoRotate());
				runPipe(*N, pipeFinish());
				linearStep(*N, 1, 1);
				bool changed = false;
				auto drop = [&](Cand &c) { if (c.alive) { c.alive = false; changed = true; } };
				for (Function &F : *N)
					if (isRoot(F))
						for (Instruction &I : instructions(F))
							if (auto *CB = dyn_cast<CallBase>(&I))
								if (Function *G = CB->getCalledFunction())
									if (G->getName() == "__vf_inv") {
										if (auto *CI = dyn_cast<ConstantInt>(CB->getArgOperand(0))) drop(Cs[CI->getZExtValue()]);
										else if (auto *PN = dyn_cast<PHINode>(CB->getArgOperand(0))) { // merged failure sites
											for (Value *V : PN->incoming_values())
												if (auto *K = dyn_cast<ConstantInt>(V)) drop(Cs[K->getZExtValue()]);
												else for (auto &c : Cs) drop(c);
										} else for (auto &c : Cs) drop(c);
									}
				if (getenv("VFA_DEBUG")) { unsigned n = 0; for (auto &c : Cs) n += c.alive; errs() << "houdini " << it << ": " << n << " alive\n"; if (!changed) for (auto &c : Cs) if (c.alive) errs() << *c.P << " kind " << c.kind << " " << *c.V << "\n"; }
				if (!changed) break;
				if (it == 59) for (auto &c : Cs) c.alive = false;
			}
			for (auto &c : Cs) nInv += c.alive;
			auto Last = withInvariants(*Base, Cs, false, Again);
			for (int i = 0; i < Rounds; i++) runPipe(*Last, pipeNoRotate());
			runPipe(*Last, pipeFinish());
			linearStep(*Last, LinDepth, 6);
			merge(report(*Last), Again);
			Dump.push_back(std::move(Last));
		}
		Todo = open(false);
	}
	for (auto &[n, r] : Rep) {
		json::Array E;
		for (auto &x : r.calls) E.push_back(x);
		Roots.push_back(json::Object{{"name", r.name}, {"reach", (int64_t)r.reach}, {"reach_stated", Before[n].second}, {"stated", Before[n].first}, {"residual", (int64_t)r.residual.size()}, {"loops", r.loops}, {"calls", std::move(E)}});
		for (auto &i : r.residual) Resid.push_back(json::Object{{"root", r.name}, {"kind", i.kind}, {"what", i.what}, {"stack", std::move(i.stack)}});
		for (auto &x : r.susp) Susp.push_back(json::Object{{"root", r.name}, {"stack", std::move(x)}});
	}
	for (auto &[F, L] : unknownObj) Unk.push_back(json::Object{{"root", demangle(F)}, {"stack", json::Array(L)}});
	json::Array An;
	for (auto &x : Analysed) An.push_back(x);
	json::Value Out = json::Object{{"analysed", std::move(An)}, {"roots", std::move(Roots)}, {"residual", std::move(Resid)}, {"unknown_object", std::move(Unk)}, {"suspicious_unreachable", std::move(Susp)},
		{"obligations", (int64_t)(nObl + nBounds)}, {"explicit_obligations", (int64_t)nObl}, {"bounds_obligations", (int64_t)nBounds},
		{"affine_relations", (int64_t)nAffine}, {"invariant_candidates", (int64_t)nCand}, {"invariants", (int64_t)nInv}, {"houdini_iterations", (int64_t)nIter}};
	std::error_code EC;
	raw_fd_ostream OS(OutJson, EC);
	OS << formatv("{0:2}", Out) << "\n";
	if (!OutIR.empty()) {
		raw_fd_ostream O2(OutIR, EC); // flushed by its destructor
		for (auto &X : Dump) { O2 << "\n;;;;;;; attempt\n"; X->print(O2, nullptr); }
	}
	outs().flush();
	errs().flush();
	OS.flush();
	_exit(0);
}
