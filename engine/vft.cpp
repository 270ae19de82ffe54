// vft: enumerates the paths of small functions as sequences of memory events (atomic and plain accesses, fences,
// compare-and-swap outcomes, calls), for the ordering and ownership rules in checks/trace.py.
//
// Functions named vft_* are the roots.  Callees are inlined; no pass that moves or merges memory accesses across
// atomics is run.  Loops are unrolled when their trip count is constant; any other loop is reported as an event.
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <set>
using namespace llvm;
static cl::opt<std::string> Input(cl::Positional, cl::Required);
static cl::opt<std::string> OutJson("o-json");

static void runPipe(Module &M, StringRef Pipe) {
	PipelineTuningOptions PTO;
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PassBuilder PB(nullptr, PTO);
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	if (auto E = PB.parsePassPipeline(MPM, Pipe)) { errs() << "bad pipeline: " << toString(std::move(E)) << "\n"; exit(3); }
	MPM.run(M, MAM);
}
static json::Array stackOf(const DebugLoc &DL) {
	json::Array A;
	DILocation *L = DL.get();
	for (int n = 0; L && n++ < 12; L = L->getInlinedAt()) {
		std::string f = (L->getDirectory().empty() || L->getFilename().starts_with("/")) ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str();
		std::string fn;
		if (auto *S = L->getScope()->getSubprogram()) fn = S->getName().str();
		A.push_back(json::Object{{"file", f}, {"line", (int64_t)L->getLine()}, {"fn", fn}});
	}
	return A;
}

// Abstract values: unknown, a constant integer, an address (object + offset), an undecided condition, an aggregate
struct AV {
	enum K { Unk, Int, Ptr, Cond, Agg } k = Unk;
	APInt n;
	std::string base;
	int64_t off = 0;
	bool var = false;
	int id = 0; // condition
	bool neg = false;
	std::vector<AV> el;
};
struct Walk {
	Function &F;
	const DataLayout &DL;
	json::Array paths{};
	bool overflow = false;
	struct State {
		std::map<const Value *, AV> env;
		std::map<int, bool> truth;	// decided conditions
		std::map<int, int> casOf;	// condition -> cas event
		std::map<BasicBlock *, int> visits;
		int nextCas = 0, steps = 0;
	} st{};
	json::Array ev{};
	int nextCond = 0;

	AV val(Value *V) {
		if (auto it = st.env.find(V); it != st.env.end()) {
			AV a = it->second;
			if (a.k == AV::Cond) if (auto t = st.truth.find(a.id); t != st.truth.end()) { AV r; r.k = AV::Int; r.n = APInt(std::max(1u, V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth() : 1), t->second != a.neg); return r; }
			return a;
		}
		AV a;
		if (auto *K = dyn_cast<ConstantInt>(V)) { a.k = AV::Int; a.n = K->getValue(); return a; }
		if (auto *A = dyn_cast<Argument>(V)) { if (V->getType()->isPointerTy()) { a.k = AV::Ptr; a.base = "arg" + std::to_string(A->getArgNo()); } return a; }
		if (auto *G = dyn_cast<GlobalValue>(V)) { a.k = AV::Ptr; a.base = ("global " + G->getName()).str(); return a; }
		if (isa<ConstantPointerNull>(V)) { a.k = AV::Ptr; a.base = "null"; return a; }
		if (auto *C = dyn_cast<Constant>(V); C && C->getType()->isAggregateType()) {
			a.k = AV::Agg;
			unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : (unsigned)C->getType()->getArrayNumElements();
			for (unsigned i = 0; i < n; i++) a.el.push_back(C->getAggregateElement(i) ? val(C->getAggregateElement(i)) : AV());
			return a;
		}
		if (auto *CE = dyn_cast<GEPOperator>(V)) return gep(CE);
		return a;
	}
	AV gep(GEPOperator *G) {
		AV p = val(G->getPointerOperand());
		if (p.k != AV::Ptr) { p = AV(); p.k = AV::Ptr; p.base = "unknown"; }
		for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
			Value *Idx = GTI.getOperand();
			if (auto *ST = GTI.getStructTypeOrNull()) { p.off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(Idx)->getZExtValue()); continue; }
			AV i = val(Idx);
			if (i.k == AV::Int) p.off += i.n.getSExtValue() * (int64_t)DL.getTypeAllocSize(GTI.getIndexedType()).getFixedValue();
			else p.var = true;
		}
		return p;
	}
	AV eval(Instruction &I) {
		AV r;
		if (auto *G = dyn_cast<GetElementPtrInst>(&I)) return gep(cast<GEPOperator>(G));
		if (isa<FreezeInst>(I) || isa<BitCastInst>(I)) return val(I.getOperand(0));
		if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
			AV a = val(E->getAggregateOperand());
			for (unsigned i : E->getIndices()) { if (a.k != AV::Agg || i >= a.el.size()) return r; AV t = a.el[i]; a = t; }
			return a;
		}
		if (auto *V = dyn_cast<InsertValueInst>(&I)) {
			AV a = val(V->getAggregateOperand());
			if (V->getIndices().size() != 1) return r;
			if (a.k != AV::Agg) { a = AV(); a.k = AV::Agg; }
			unsigned i = V->getIndices()[0];
			if (a.el.size() <= i) a.el.resize(i + 1);
			a.el[i] = val(V->getInsertedValueOperand());
			return a;
		}
		if (isa<ZExtInst>(I) || isa<TruncInst>(I) || isa<SExtInst>(I)) {
			AV a = val(I.getOperand(0));
			unsigned w = I.getType()->getIntegerBitWidth();
			if (a.k == AV::Int) { a.n = isa<ZExtInst>(I) ? a.n.zextOrTrunc(w) : a.n.sextOrTrunc(w); if (isa<ZExtInst>(I)) a.n = val(I.getOperand(0)).n.zext(w); return a; }
			if (a.k == AV::Cond && !isa<SExtInst>(I)) return a;
			return r;
		}
		if (auto *C = dyn_cast<ICmpInst>(&I)) {
			AV a = val(C->getOperand(0)), b = val(C->getOperand(1));
			r.k = AV::Int;
			if (a.k == AV::Int && b.k == AV::Int) { r.n = APInt(1, ICmpInst::compare(a.n, b.n, C->getPredicate())); return r; }
			if (a.k == AV::Ptr && b.k == AV::Ptr && a.base == b.base && !a.var && !b.var && a.base != "unknown" && a.base != "loaded" && a.base != "call") {
				APInt x(64, a.off, true), y(64, b.off, true);
				CmpInst::Predicate P = C->getPredicate();
				if (CmpInst::isUnsigned(P)) P = C->getSignedPredicate();
				r.n = APInt(1, ICmpInst::compare(x, y, P)); return r;
			}
			if (a.k == AV::Ptr && b.k == AV::Ptr && b.base == "null" && StringRef(a.base).starts_with("arg") && C->isEquality()) { r.n = APInt(1, C->getPredicate() == CmpInst::ICMP_NE); return r; }
			if (a.k == AV::Cond && b.k == AV::Int && C->isEquality()) {
				AV c = a;
				if ((C->getPredicate() == CmpInst::ICMP_EQ) == b.n.isZero()) c.neg = !c.neg;
				return c;
			}
			r = AV(); r.k = AV::Cond; r.id = ++nextCond;
			return r;
		}
		if (auto *B = dyn_cast<BinaryOperator>(&I)) {
			AV a = val(B->getOperand(0)), b = val(B->getOperand(1));
			if (a.k == AV::Cond && b.k == AV::Int && B->getOpcode() == Instruction::Xor && b.n.isOne()) { a.neg = !a.neg; return a; }
			if (a.k == AV::Cond && b.k == AV::Int && B->getOpcode() == Instruction::And && b.n[0]) return a;
			if (a.k == AV::Int && b.k == AV::Int) {
				if (Constant *C = ConstantFoldBinaryOpOperands(B->getOpcode(), ConstantInt::get(I.getContext(), a.n), ConstantInt::get(I.getContext(), b.n), DL))
					if (auto *K = dyn_cast<ConstantInt>(C)) { r.k = AV::Int; r.n = K->getValue(); return r; }
			}
			if (B->getType()->isIntegerTy(1)) { r.k = AV::Cond; r.id = ++nextCond; }
			return r;
		}
		if (isa<AllocaInst>(I)) { r.k = AV::Ptr; r.base = "local"; r.off = 0; return r; }
		if (isa<LoadInst>(I) && I.getType()->isPointerTy()) { r.k = AV::Ptr; r.base = "loaded"; return r; }
		if (isa<CallBase>(I) && I.getType()->isPointerTy()) { r.k = AV::Ptr; r.base = "call"; return r; }
		if (isa<IntToPtrInst>(I)) { r.k = AV::Ptr; r.base = "unknown"; return r; }
		if (I.getType()->isIntegerTy(1) || isa<FCmpInst>(I)) { r.k = AV::Cond; r.id = ++nextCond; return r; }
		return r;
	}
	json::Object addr(Value *P) {
		AV a = val(P);
		json::Object o;
		o["base"] = a.k == AV::Ptr ? a.base : "unknown"; o["off"] = a.off; o["var"] = a.var;
		return o;
	}
	static const char *ord(AtomicOrdering O) {
		switch (O) {
		case AtomicOrdering::NotAtomic: return "plain";
		case AtomicOrdering::Unordered: case AtomicOrdering::Monotonic: return "relaxed";
		case AtomicOrdering::Acquire: return "acquire";
		case AtomicOrdering::Release: return "release";
		case AtomicOrdering::AcquireRelease: return "acq_rel";
		default: return "seq_cst";
		}
	}
	json::Value cval(Value *V) {
		AV a = val(V);
		if (a.k == AV::Int && a.n.getBitWidth() <= 64) return a.n.getBitWidth() == 1 ? (int64_t)a.n.getZExtValue() : a.n.getSExtValue();
		return nullptr;
	}
	void push(Instruction *I, json::Object o) {
		o["stack"] = stackOf(I->getDebugLoc());
		ev.push_back(std::move(o));
	}
	void access(Instruction *I, const char *kind, Value *P, AtomicOrdering O, Value *v, uint64_t size, bool vol) {
		json::Object o = addr(P);
		o["ev"] = kind; o["ord"] = ord(O); o["size"] = (int64_t)size; o["volatile"] = vol;
		if (v) o["val"] = cval(v);
		push(I, std::move(o));
	}
	void end(json::Value ret) {
		if (paths.size() > 4000) { overflow = true; return; }
		paths.push_back(json::Object{{"events", json::Array(ev)}, {"ret", std::move(ret)}});
	}
	// both outcomes of an undecided condition
	void fork(const AV &c, Instruction *At, const std::function<void(bool)> &k) {
		for (int b = 1; b >= 0; b--) {
			State saved = st; size_t n = ev.size();
			bool t = bool(b) != c.neg;
			st.truth[c.id] = t;
			if (auto it = st.casOf.find(c.id); it != st.casOf.end()) ev.push_back(json::Object{{"ev", "casresult"}, {"id", it->second}, {"ok", t}});
			json::Object o{{"ev", "branch"}, {"taken", bool(b)}};
			push(At, std::move(o));
			k(bool(b));
			st = saved;
			while (ev.size() > n) ev.pop_back();
		}
	}
	void enter(BasicBlock *B, BasicBlock *From) {
		if (overflow) return;
		if (From && ++st.visits[B] > 80 ) { loopEnd(From); return; }
		std::vector<std::pair<const Value *, AV>> ph;
		for (auto &PN : B->phis()) ph.push_back({&PN, val(PN.getIncomingValueForBlock(From))});
		for (auto &p : ph) st.env[p.first] = p.second;
		go(B, B->getFirstNonPHI()->getIterator());
	}
	void loopEnd(BasicBlock *From) {
		json::Object o{{"ev", "loop"}};
		push(From->getTerminator(), std::move(o));
		end("loop");
	}
	void jump(BasicBlock *T, BasicBlock *B, bool undecided) {
		if (undecided && st.visits[T] >= 12) { loopEnd(B); return; } // iterates as long as something unknown says so
		enter(T, B);
	}
	void go(BasicBlock *B, BasicBlock::iterator It) {
		for (; It != B->end(); ++It) {
			Instruction &I = *It;
			if (isa<DbgInfoIntrinsic>(I)) continue;
			if (++st.steps > 20000) { overflow = true; return; }
			if (auto *S = dyn_cast<SelectInst>(&I)) {
				AV c = val(S->getCondition());
				if (c.k == AV::Int) { st.env[S] = val(c.n.isZero() ? S->getFalseValue() : S->getTrueValue()); continue; }
				if (c.k == AV::Cond) {
					fork(c, S, [&](bool t) { st.env[S] = val(t ? S->getTrueValue() : S->getFalseValue()); go(B, std::next(It)); });
					return;
				}
				st.env[S] = AV();
				continue;
			}
			if (auto *L = dyn_cast<LoadInst>(&I)) access(L, "load", L->getPointerOperand(), L->getOrdering(), nullptr, DL.getTypeStoreSize(L->getType()), L->isVolatile());
			else if (auto *S = dyn_cast<StoreInst>(&I)) { access(S, "store", S->getPointerOperand(), S->getOrdering(), S->getValueOperand(), DL.getTypeStoreSize(S->getValueOperand()->getType()), S->isVolatile()); continue; }
			else if (auto *X = dyn_cast<AtomicRMWInst>(&I)) {
				json::Object o = addr(X->getPointerOperand());
				o["ev"] = "rmw"; o["ord"] = ord(X->getOrdering()); o["op"] = AtomicRMWInst::getOperationName(X->getOperation()).str(); o["val"] = cval(X->getValOperand());
				auto *K = dyn_cast<ConstantInt>(X->getValOperand());
				if (X->getOperation() == AtomicRMWInst::Xchg && K && K->getBitWidth() == 8 && K->getZExtValue() <= 1) { // a flag: swapped from the other value, or it had this one
					int id = ++st.nextCas;
					o["id"] = id; o["weak"] = false; o["expected"] = int64_t(!K->getZExtValue()); o["desired"] = int64_t(K->getZExtValue());
					push(X, std::move(o));
					AV c; c.k = AV::Cond; c.id = ++nextCond;
					st.casOf[c.id] = id;
					bool to = K->isOne();
					fork(c, X, [&](bool ok) {
						AV v; v.k = AV::Int; v.n = APInt(8, ok ? !to : to);
						st.env[X] = v;
						go(B, std::next(It));
					});
					return;
				}
				push(X, std::move(o));
			} else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
				json::Object o = addr(X->getPointerOperand());
				o["ev"] = "cas"; o["ord"] = ord(X->getSuccessOrdering()); o["ford"] = ord(X->getFailureOrdering()); o["weak"] = X->isWeak();
				o["expected"] = cval(X->getCompareOperand()); o["desired"] = cval(X->getNewValOperand());
				int id = ++st.nextCas;
				o["id"] = id;
				push(X, std::move(o));
				AV a; a.k = AV::Agg; a.el.resize(2);
				a.el[1].k = AV::Cond; a.el[1].id = ++nextCond;
				st.casOf[a.el[1].id] = id;
				st.env[X] = a;
				continue;
			} else if (auto *X = dyn_cast<FenceInst>(&I)) {
				push(X, json::Object{{"ev", "fence"}, {"ord", ord(X->getOrdering())}, {"single", X->getSyncScopeID() == SyncScope::SingleThread}});
				continue;
			} else if (auto *X = dyn_cast<MemIntrinsic>(&I)) {
				uint64_t n = 0;
				if (auto *K = dyn_cast<ConstantInt>(X->getLength())) n = K->getZExtValue();
				if (auto *T = dyn_cast<MemTransferInst>(X)) access(T, "load", T->getSource(), AtomicOrdering::NotAtomic, nullptr, n, T->isVolatile());
				access(X, "store", X->getDest(), AtomicOrdering::NotAtomic, nullptr, n, X->isVolatile());
				continue;
			} else if (auto *X = dyn_cast<CallBase>(&I)) {
				auto *II = dyn_cast<IntrinsicInst>(X);
				bool quiet = II && (!II->mayReadOrWriteMemory() || II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::assume || II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl);
				if (!quiet) {
					Function *C = X->getCalledFunction();
					push(X, json::Object{{"ev", "call"}, {"fn", C ? C->getName().str() : X->isInlineAsm() ? "asm" : "indirect"}});
				}
			} else if (auto *R = dyn_cast<ReturnInst>(&I)) {
				Value *V = R->getReturnValue();
				if (!V) { end("void"); return; }
				AV a = val(V);
				if (a.k == AV::Cond) fork(a, R, [&](bool t) { end((int64_t)t); });
				else end(cval(V));
				return;
			} else if (isa<UnreachableInst>(I)) {
				end("unreachable");
				return;
			} else if (auto *Br = dyn_cast<BranchInst>(&I)) {
				if (!Br->isConditional()) { jump(Br->getSuccessor(0), B, false); return; }
				AV c = val(Br->getCondition());
				if (c.k == AV::Int) { jump(Br->getSuccessor(c.n.isZero() ? 1 : 0), B, false); return; }
				if (c.k != AV::Cond) { c = AV(); c.k = AV::Cond; c.id = ++nextCond; }
				fork(c, Br, [&](bool t) { jump(Br->getSuccessor(t ? 0 : 1), B, true); });
				return;
			} else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
				AV c = val(SW->getCondition());
				if (c.k == AV::Int) { jump(SW->findCaseValue(ConstantInt::get(I.getContext(), c.n))->getCaseSuccessor(), B, false); return; }
				std::set<BasicBlock *> seen;
				for (BasicBlock *T : successors(B)) if (seen.insert(T).second) {
					State saved = st; size_t n = ev.size();
					jump(T, B, true);
					st = saved;
					while (ev.size() > n) ev.pop_back();
				}
				return;
			}
			if (!I.getType()->isVoidTy()) st.env[&I] = eval(I);
		}
	}
};

int main(int argc, char **argv) {
	cl::ParseCommandLineOptions(argc, argv);
	LLVMContext C;
	SMDiagnostic D;
	auto M = parseIRFile(Input, D, C);
	if (!M) { D.print("vft", errs()); return 3; }
	auto isRoot = [](const Function &F) { return F.getName().starts_with("vft_") && !F.isDeclaration(); };
	for (Function &F : *M) {
		F.removeFnAttr(Attribute::OptimizeNone);
		if (F.isDeclaration()) continue;
		F.removeFnAttr(Attribute::NoInline);
		if (isRoot(F)) F.addFnAttr(Attribute::NoInline);
		else F.addFnAttr(Attribute::AlwaysInline);
	}
	const char *Clean = "function(sroa<modify-cfg>,early-cse,instsimplify,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>)";
	runPipe(*M, std::string(Clean) + ",always-inline," + Clean + ",always-inline," + Clean);
	json::Array Fs;
	for (Function &F : *M) {
		if (!isRoot(F)) continue;
		Walk W{F, M->getDataLayout()};
		W.enter(&F.getEntryBlock(), nullptr);
		Fs.push_back(json::Object{{"name", F.getName().str()}, {"paths", std::move(W.paths)}, {"overflow", W.overflow}});
	}
	json::Object G;
	for (GlobalVariable &V : M->globals()) {
		if (!V.getName().starts_with("vft_") || !V.hasInitializer()) continue;
		json::Array a;
		if (auto *K = dyn_cast<ConstantDataArray>(V.getInitializer())) for (unsigned i = 0; i < K->getNumElements(); i++) a.push_back((int64_t)K->getElementAsInteger(i));
		else if (isa<ConstantAggregateZero>(V.getInitializer())) for (unsigned i = 0; i < cast<ArrayType>(V.getValueType())->getNumElements(); i++) a.push_back(0);
		G[V.getName().str()] = std::move(a);
	}
	std::error_code EC;
	raw_fd_ostream OS(OutJson.empty() ? "-" : OutJson.getValue(), EC);
	OS << json::Value(json::Object{{"functions", std::move(Fs)}, {"globals", std::move(G)}}) << "\n";
	return 0;
}
