// Bits as Boolean functions. Every bit of a value is a Boolean function (a reduced ordered decision diagram) of bits
// whose origin is not resolved further: loads, arguments, comparisons of other kinds. Shifts, masks, byte swaps,
// truncations and selections are exact on bits; so are merges, because every block carries the condition under which
// it is reached. Two bits with the same diagram are equal, whatever the unknowns are; a branch is decided when the
// condition of reaching its block settles it.
#pragma once
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include <set>
#include <map>
#include <tuple>
#include <vector>
namespace bits {
using namespace llvm;
typedef int Bit; // node; 0 and 1 are the constants
typedef std::vector<Bit> Vec;
class Diagram {
	struct Node { int var; Bit lo, hi; };
	std::vector<Node> N{{1 << 30, 0, 0}, {1 << 30, 1, 1}};
	std::map<std::tuple<int, Bit, Bit>, Bit> unique;
	std::map<std::tuple<Bit, Bit, Bit>, Bit> memo;
	int vars = 0;
	size_t limit = 60000;

public:
	bool full() const { return N.size() > limit; }
	Bit mk(int v, Bit lo, Bit hi) {
		if (lo == hi) return lo;
		auto [it, fresh] = unique.emplace(std::make_tuple(v, lo, hi), (Bit)N.size());
		if (fresh) N.push_back({v, lo, hi});
		return it->second;
	}
	Bit var() { return mk(vars++, 0, 1); }
	Bit ite(Bit f, Bit g, Bit h) {
		if (f == 1) return g;
		if (f == 0) return h;
		if (g == h) return g;
		if (g == 1 && h == 0) return f;
		auto key = std::make_tuple(f, g, h);
		auto it = memo.find(key);
		if (it != memo.end()) return it->second;
		if (N.size() > 2 * limit) return var(); // too large: anything
		int v = std::min(N[f].var, std::min(N[g].var, N[h].var));
		auto lo = [&](Bit x) { return N[x].var == v ? N[x].lo : x; };
		auto hi = [&](Bit x) { return N[x].var == v ? N[x].hi : x; };
		Bit l = ite(lo(f), lo(g), lo(h)), u = ite(hi(f), hi(g), hi(h));
		Bit r = mk(v, l, u);
		memo[key] = r;
		return r;
	}
	// do these bits depend on at most n unknowns?
	bool few(std::initializer_list<const Vec *> vs, unsigned n) const {
		std::set<int> seen, on;
		std::vector<Bit> todo;
		for (auto *v : vs) for (Bit b : *v) if (b >= 2 && seen.insert(b).second) todo.push_back(b);
		while (!todo.empty()) {
			Bit b = todo.back();
			todo.pop_back();
			on.insert(N[b].var);
			if (on.size() > n || seen.size() > 2000) return false;
			for (Bit c : {N[b].lo, N[b].hi}) if (c >= 2 && seen.insert(c).second) todo.push_back(c);
		}
		return true;
	}
	Bit no(Bit a) { return ite(a, 0, 1); }
	Bit both(Bit a, Bit b) { return ite(a, b, 0); }
	Bit either(Bit a, Bit b) { return ite(a, 1, b); }
	Bit differ(Bit a, Bit b) { return ite(a, no(b), b); }
};
class Analyzer {
	Function &F;
	DominatorTree &DT;
	const DataLayout &DL;
	std::map<Value *, Vec> memo;
	std::map<BasicBlock *, Bit> reach;
	std::map<BasicBlock *, unsigned> order;
	std::map<std::pair<Value *, unsigned>, Bit> source;
	// comparisons as indivisible truths: decides what follows from the shape of the conditions alone
	const bool atomic;
	std::map<std::vector<uintptr_t>, Bit> atoms;
	std::set<std::pair<Value *, Value *>> equated; // pairs that are also compared for equality
	Bit atom(CmpInst::Predicate P, Value *a, Value *b) {
		a = representative(a);
		b = representative(b);
		bool neg = false;
		if (ICmpInst::isEquality(P)) {
			neg = P == CmpInst::ICMP_NE;
			P = CmpInst::ICMP_EQ;
			if (b < a) std::swap(a, b);
		} else {
			if (ICmpInst::isGT(P) || ICmpInst::isLE(P)) { std::swap(a, b); P = CmpInst::getSwappedPredicate(P); }
			if (ICmpInst::isGE(P)) { neg = true; P = CmpInst::getInversePredicate(P); }
		}
		// exactly one of less, equal and greater
		auto var = [&](uintptr_t kind) {
			auto [it, fresh] = atoms.emplace(std::vector<uintptr_t>{kind, (uintptr_t)std::min(a, b), (uintptr_t)std::max(a, b)}, 0);
			if (fresh) it->second = D.var();
			return it->second;
		};
		if (P != CmpInst::ICMP_EQ && !equated.count({std::min(a, b), std::max(a, b)})) {
			auto [it, fresh] = atoms.emplace(std::vector<uintptr_t>{(uintptr_t)P, (uintptr_t)a, (uintptr_t)b, 0u}, 0);
			if (fresh) it->second = D.var();
			return neg ? D.no(it->second) : it->second;
		}
		Bit r = var((uintptr_t)CmpInst::ICMP_EQ);
		if (P != CmpInst::ICMP_EQ) {
			Bit less = var((uintptr_t)P);
			r = a == b ? 0 : D.both(D.no(r), a < b ? less : D.no(less));
		}
		return neg ? D.no(r) : r;
	}
	static bool isC(Bit b) { return b < 2; }
	static bool wide(Value *V) { return V->getType()->isIntegerTy() && V->getType()->getIntegerBitWidth() <= 64; }
	// one representative for equal computations that sit on different paths
	std::map<std::vector<uintptr_t>, Value *> same;
	std::map<Value *, Value *> canon;
	// a read of an object that nothing here writes to, or its address
	std::set<const Value *> written;
	bool anyWritten = false;
	bool settled(Instruction *I) {
		if (auto *E = dyn_cast<GetElementPtrInst>(I)) return E->hasAllConstantIndices();
		auto *L = dyn_cast<LoadInst>(I);
		if (!L || !L->isSimple() || anyWritten) return false;
		const Value *B = getUnderlyingObject(L->getPointerOperand());
		return isIdentifiedObject(B) && !written.count(B);
	}
	void findWrites() {
		for (Instruction &I : instructions(F)) {
			if (!I.mayWriteToMemory()) continue;
			if (auto *C = dyn_cast<CallBase>(&I)) {
				Function *G = C->getCalledFunction();
				if (G && (G->getName().starts_with("__vf_") || G->getName().starts_with("llvm.assume") || G->getName().starts_with("llvm.dbg"))) continue;
				anyWritten = true;
			} else if (auto *S = dyn_cast<StoreInst>(&I)) {
				const Value *B = getUnderlyingObject(S->getPointerOperand());
				if (isIdentifiedObject(B) && !S->isVolatile()) written.insert(B);
				else anyWritten = true;
			} else anyWritten = true;
		}
	}
	Value *representative(Value *V, int depth = 0) {
		auto it = canon.find(V);
		if (it != canon.end()) return it->second;
		auto *I = dyn_cast<Instruction>(V);
		if (!I || depth > 40 || !(isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<CmpInst>(I) || isa<SelectInst>(I) || settled(I))) return V;
		std::vector<uintptr_t> key{I->getOpcode(), (uintptr_t)I->getType(), isa<CmpInst>(I) ? cast<CmpInst>(I)->getPredicate() : isa<GetElementPtrInst>(I) ? (uintptr_t)cast<GetElementPtrInst>(I)->getSourceElementType() : 0u};
		std::vector<uintptr_t> ops;
		for (Value *O : I->operands()) ops.push_back((uintptr_t)representative(O, depth + 1));
		if (I->isCommutative()) std::sort(ops.begin(), ops.end());
		key.insert(key.end(), ops.begin(), ops.end());
		return canon[V] = same.emplace(key, V).first->second;
	}
	Vec own(Value *V) {
		V = representative(V);
		unsigned w = V->getType()->getIntegerBitWidth();
		Vec r(w);
		KnownBits KB = computeKnownBits(V, DL);
		if (auto *L = dyn_cast<LoadInst>(V))
			if (auto *R = L->getMetadata(LLVMContext::MD_range)) {
				ConstantRange CR = getConstantRangeFromMetadata(*R);
				unsigned lead = CR.getUnsignedMax().countl_zero();
				for (unsigned i = 0; i < lead; i++) KB.Zero.setBit(w - 1 - i);
			}
		for (unsigned i = 0; i < w; i++)
			if (KB.Zero[i]) r[i] = 0;
			else if (KB.One[i]) r[i] = 1;
			else {
				auto [it, fresh] = source.emplace(std::make_pair(V, i), 0);
				if (fresh) it->second = D.var();
				r[i] = it->second;
			}
		return r;
	}
	static bool fixed(const Vec &v) { // comparing against a constant has a small diagram
		for (Bit b : v)
			if (!isC(b)) return false;
		return true;
	}
	// care: where the answer matters
	Bit equal(const Vec &a, const Vec &b, bool &known, Bit care = 1) {
		std::set<Bit> open; // where they may differ
		known = true;
		for (size_t i = 0; i < a.size(); i++) {
			if (a[i] == b[i]) continue;
			if (isC(a[i]) && isC(b[i])) return 0;
			Bit d = D.both(care, D.differ(a[i], b[i]));
			if (d == 0) continue;
			if (d == care) return 0;
			open.insert(d);
		}
		if ((open.size() > 8 && !fixed(a) && !fixed(b) && !D.few({&a, &b}, 12)) || D.full()) { known = false; return 0; }
		Bit r = 1;
		for (Bit d : open) r = D.both(r, D.no(d));
		return r;
	}

public:
	Diagram D;
	Analyzer(Function &F, DominatorTree &DT, bool atomic = false) : F(F), DT(DT), DL(F.getParent()->getDataLayout()), atomic(atomic) {
		unsigned n = 0;
		for (BasicBlock *B : ReversePostOrderTraversal<Function *>(&F)) order[B] = n++;
		findWrites();
		if (atomic)
			for (Instruction &I : instructions(F))
				if (auto *C = dyn_cast<ICmpInst>(&I); C && C->isEquality()) {
					Value *a = representative(C->getOperand(0)), *b = representative(C->getOperand(1));
					equated.insert({std::min(a, b), std::max(a, b)});
				}
	}
	bool vague = false; // some comparison was too large
	// the truth of a comparison; ok: whether it could be expressed
	Bit ordered(CmpInst::Predicate P, Vec a, Vec b, bool &ok, Bit care = 1) {
		bool known;
		ok = true;
		Bit e = equal(a, b, known, care);
		if (ICmpInst::isEquality(P)) {
			ok = known;
			return P == CmpInst::ICMP_EQ ? e : D.no(e);
		}
		if (known && e == 1) return CmpInst::isTrueWhenEqual(P);
		unsigned open = 0;
		for (unsigned i = 0; i < a.size(); i++) open += !(a[i] == b[i]) && !(isC(a[i]) && isC(b[i]));
		if (open > 5 && !fixed(a) && !fixed(b) && !D.few({&a, &b}, 12)) { ok = false; return 0; }
		if (ICmpInst::isSigned(P)) { std::swap(a.back(), b.back()); }
		Bit lt = 0, gt = 0;
		for (unsigned i = 0; i < a.size(); i++) {
			lt = D.ite(D.differ(a[i], b[i]), b[i], lt);
			gt = D.ite(D.differ(a[i], b[i]), a[i], gt);
		}
		if (ICmpInst::isLT(P)) return lt;
		if (ICmpInst::isLE(P)) return D.no(gt);
		if (ICmpInst::isGT(P)) return gt;
		return D.no(lt);
	}
	Bit compare(CmpInst::Predicate P, Value *x, Value *y, int depth, int splits, bool &ok, BasicBlock *B = nullptr) {
		ok = true;
		if (x == y) return CmpInst::isTrueWhenEqual(P);
		if (auto *k = dyn_cast<ConstantInt>(x))
			if (auto *l = dyn_cast<ConstantInt>(y)) return ICmpInst::compare(k->getValue(), l->getValue(), P);
		bool ints = wide(x);
		Vec a, b;
		if (ints) {
			a = get(x, depth + 1);
			b = get(y, depth + 1);
			unsigned open = 0;
			for (auto *v : {&a, &b})
				for (Bit c : *v) open += !isC(c);
			if (!atomic || open <= 3) {
				Bit r = ordered(P, a, b, ok);
				if (ok) return r;
				if (B && ICmpInst::isEquality(P))
					if (Bit care = reached(B); care > 1 && !D.full()) {
						r = ordered(P, a, b, ok, care);
						if (ok) return r;
					}
			}
		}
		// by the edge on which the values came
		auto acyclic = [&](Value *v) {
			auto *N = dyn_cast<PHINode>(v);
			if (!N || N->getNumIncomingValues() > 12) return (PHINode *)nullptr;
			for (BasicBlock *Q : N->blocks()) if (!order.count(Q) || order[Q] >= order[N->getParent()]) return (PHINode *)nullptr;
			return N;
		};
		PHINode *p = splits > 0 ? acyclic(x) : nullptr, *q = splits > 0 ? acyclic(y) : nullptr;
		if (p && q && p->getParent() != q->getParent()) (DT.dominates(p->getParent(), q->getParent()) ? p : q) = nullptr;
		if (PHINode *N = p ? p : q) {
			B = N->getParent();
			Bit seen = 0, r = 0;
			bool apart = true;
			for (BasicBlock *Q : predecessors(B)) {
				Bit via = D.both(reached(Q), edge(Q, B));
				if (D.both(seen, via) != 0) { apart = false; break; }
				seen = D.either(seen, via);
				if (via == 0) continue;
				bool sub;
				Bit c = compare(P, p ? p->getIncomingValueForBlock(Q) : x, q ? q->getIncomingValueForBlock(Q) : y, depth + 1, splits - 1, sub);
				if (!sub) { apart = false; break; }
				r = D.ite(via, c, r);
			}
			if (apart && !D.full()) { ok = true; return r; }
		}
		if (atomic && !D.full()) { ok = true; return atom(P, x, y); }
		vague = true;
		ok = false;
		return 0;
	}
	Bit edge(BasicBlock *P, BasicBlock *B) { // the condition of taking P -> B once in P
		Instruction *T = P->getTerminator();
		if (auto *BI = dyn_cast<BranchInst>(T)) {
			if (!BI->isConditional() || BI->getSuccessor(0) == BI->getSuccessor(1)) return 1;
			Bit c = get(BI->getCondition())[0];
			return BI->getSuccessor(0) == B ? c : D.no(c);
		}
		if (auto *SI = dyn_cast<SwitchInst>(T)) {
			const Vec v = get(SI->getCondition());
			Bit any = 0, mine = 0;
			for (auto &C : SI->cases()) {
				bool known;
				Bit e = equal(v, get(C.getCaseValue()), known);
				if (!known) return 1;
				any = D.either(any, e);
				if (C.getCaseSuccessor() == B) mine = D.either(mine, e);
			}
			return SI->getDefaultDest() == B ? D.either(mine, D.no(any)) : mine;
		}
		return 1;
	}
	Bit reached(BasicBlock *B) {
		auto it = reach.find(B);
		if (it != reach.end()) return it->second;
		Bit r = 0;
		bool loop = false;
		for (BasicBlock *P : predecessors(B))
			if (order.count(P) && order[P] >= order[B]) loop = true;
		if (B == &F.getEntryBlock()) r = 1;
		else if (loop || D.full()) r = DT.getNode(B) && DT.getNode(B)->getIDom() ? reached(DT.getNode(B)->getIDom()->getBlock()) : 1;
		else
			for (BasicBlock *P : predecessors(B))
				if (order.count(P)) r = D.either(r, D.both(reached(P), edge(P, B)));
		return reach[B] = r;
	}
	Vec get(Value *V, int depth = 0) {
		auto it = memo.find(V);
		if (it != memo.end()) return it->second;
		memo[V] = own(V); // cut cycles
		Vec r = compute(V, depth);
		return memo[V] = r;
	}
	// how a value compares with a constant: through choices, without building the chosen bits
	bool against(Value *V, ConstantInt *K, bool sgn, Bit &lt, Bit &eq, int depth) {
		if (depth > 200 || D.full()) return false;
		if (auto *S = dyn_cast<SelectInst>(V)) {
			Bit l1, e1, l2, e2;
			if (!against(S->getTrueValue(), K, sgn, l1, e1, depth + 1) || !against(S->getFalseValue(), K, sgn, l2, e2, depth + 1)) return false;
			Bit c = get(S->getCondition(), depth + 1)[0];
			lt = D.ite(c, l1, l2);
			eq = D.ite(c, e1, e2);
			return true;
		}
		if (auto *PN = dyn_cast<PHINode>(V)) {
			if (PN->getNumIncomingValues() > 12) return false;
			for (BasicBlock *P : PN->blocks()) if (!order.count(P) || order[P] >= order[PN->getParent()]) return false;
			Bit seen = 0;
			lt = eq = 0;
			for (unsigned n = 0; n < PN->getNumIncomingValues(); n++) {
				Bit l, e, via = D.both(reached(PN->getIncomingBlock(n)), edge(PN->getIncomingBlock(n), PN->getParent()));
				if (!against(PN->getIncomingValue(n), K, sgn, l, e, depth + 1) || D.both(seen, via) != 0) return false;
				seen = D.either(seen, via);
				lt = D.ite(via, l, lt);
				eq = D.ite(via, e, eq);
			}
			return true;
		}
		Vec a = get(V, depth + 1), b = get(K);
		bool known;
		eq = equal(a, b, known);
		if (!known) return false;
		if (sgn) std::swap(a.back(), b.back());
		lt = 0;
		for (unsigned i = 0; i < a.size(); i++) lt = D.ite(D.differ(a[i], b[i]), b[i], lt);
		return true;
	}
	Vec compute(Value *V, int depth) {
		unsigned w = V->getType()->getIntegerBitWidth();
		if (auto *C = dyn_cast<ConstantInt>(V)) {
			Vec r(w);
			for (unsigned i = 0; i < w; i++) r[i] = C->getValue()[i];
			return r;
		}
		Vec r = own(V);
		auto *I = dyn_cast<Instruction>(V);
		if (!I || depth > 200 || D.full()) return r;
		auto op = [&](int n) -> Vec { return get(I->getOperand(n), depth + 1); };
		auto put = [&](unsigned i, Bit b) { if (!isC(r[i])) r[i] = b; };
		auto K = [&](int n) { auto *C = dyn_cast<ConstantInt>(I->getOperand(n)); return C && C->getValue().ult(w) ? (int)C->getZExtValue() : -1; };
		switch (I->getOpcode()) {
		case Instruction::Trunc:
			if (!wide(I->getOperand(0))) return r;
			[[fallthrough]];
		case Instruction::ZExt:
		case Instruction::SExt: {
			Vec a = op(0);
			for (unsigned i = 0; i < w; i++) put(i, i < a.size() ? a[i] : I->getOpcode() == Instruction::SExt ? a.back() : 0);
			return r;
		}
		case Instruction::Freeze: {
			Vec a = op(0);
			for (unsigned i = 0; i < w; i++) put(i, a[i]);
			return r;
		}
		case Instruction::And:
		case Instruction::Or:
		case Instruction::Xor: {
			Vec a = op(0), b = op(1);
			for (unsigned i = 0; i < w; i++)
				put(i, I->getOpcode() == Instruction::And ? D.both(a[i], b[i]) : I->getOpcode() == Instruction::Or ? D.either(a[i], b[i]) : D.differ(a[i], b[i]));
			return r;
		}
		case Instruction::Add:
		case Instruction::Sub: {
			Vec a = op(0), b = op(1);
			unsigned open = 0;
			for (unsigned i = 0; i < w; i++) open += !isC(a[i]) + !isC(b[i]);
			if (open <= 10 || D.few({&a, &b}, 12)) {
				bool sub = I->getOpcode() == Instruction::Sub;
				Bit c = sub;
				for (unsigned i = 0; i < w; i++) {
					Bit y = sub ? D.no(b[i]) : b[i], x = a[i], s = D.differ(x, y);
					put(i, D.differ(s, c));
					c = D.either(D.both(x, y), D.both(s, c));
				}
				return r;
			}
			if (I->getOpcode() == Instruction::Add)
				for (unsigned i = 0; i < w; i++) { // without a carry into bit i
					if (a[i] == 0) put(i, b[i]);
					else if (b[i] == 0) put(i, a[i]);
					else break;
				}
			return r;
		}
		case Instruction::Shl:
		case Instruction::LShr:
		case Instruction::AShr: {
			int n = K(1);
			if (n < 0) return r;
			Vec a = op(0);
			for (int i = 0; i < (int)w; i++) {
				int j = I->getOpcode() == Instruction::Shl ? i - n : i + n;
				put(i, j < 0 ? 0 : j < (int)w ? a[j] : I->getOpcode() == Instruction::AShr ? a.back() : 0);
			}
			return r;
		}
		case Instruction::Mul:
			if (auto *C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->getValue().isPowerOf2()) {
				int n = C->getValue().logBase2();
				Vec a = op(0);
				for (int i = 0; i < (int)w; i++) put(i, i < n ? 0 : a[i - n]);
			} else if (C && C->getBitWidth() <= 64) {
				Vec a = op(0), sum(w, 0);
				if (!D.few({&a}, 12)) return r;
				for (unsigned k = 0; k < w; k++) {
					if (!C->getValue()[k]) continue;
					Bit c = 0;
					for (unsigned i = k; i < w; i++) {
						Bit x = sum[i], y = a[i - k], s = D.differ(x, y);
						sum[i] = D.differ(s, c);
						c = D.either(D.both(x, y), D.both(s, c));
					}
				}
				for (unsigned i = 0; i < w; i++) put(i, sum[i]);
			}
			return r;
		case Instruction::UDiv:
		case Instruction::URem:
			if (auto *C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->getValue().isPowerOf2()) {
				unsigned n = C->getValue().logBase2();
				Vec a = op(0);
				for (unsigned i = 0; i < w; i++)
					if (I->getOpcode() == Instruction::UDiv) put(i, i + n < w ? a[i + n] : 0);
					else put(i, i < n ? a[i] : 0);
			}
			return r;
		case Instruction::Select: {
			Vec a = op(1), b = op(2);
			Bit c = op(0)[0];
			for (unsigned i = 0; i < w; i++) put(i, D.ite(c, a[i], b[i]));
			return r;
		}
		case Instruction::PHI: {
			auto *PN = cast<PHINode>(I);
			if (PN->getNumIncomingValues() > 12) return r;
			for (BasicBlock *P : PN->blocks()) if (!order.count(P) || order[P] >= order[PN->getParent()]) return r; // a loop
			// which edge: conditions relative to the function entry; exactly one edge is taken
			std::vector<Vec> in;
			std::vector<Bit> via;
			for (unsigned n = 0; n < PN->getNumIncomingValues(); n++) {
				in.push_back(get(PN->getIncomingValue(n), depth + 1));
				via.push_back(D.both(reached(PN->getIncomingBlock(n)), edge(PN->getIncomingBlock(n), PN->getParent())));
			}
			for (unsigned i = 0; i < w; i++) {
				Bit v = in.back()[i];
				bool same = true;
				for (auto &x : in) same = same && x[i] == v;
				if (!same) {
					// only sound when the conditions tell the edges apart
					Bit seen = 0; bool apart = true;
					for (Bit c : via) { if (D.both(seen, c) != 0) apart = false; seen = D.either(seen, c); }
					if (!apart || D.full()) continue;
					v = r[i]; // not reached: anything
					for (size_t n = 0; n < in.size(); n++) v = D.ite(via[n], in[n][i], v);
				}
				put(i, v);
			}
			return r;
		}
		case Instruction::ICmp: {
			auto *IC = cast<ICmpInst>(I);
			if (atomic) {
				bool ok;
				Bit c = D.full() ? 0 : compare(IC->getPredicate(), IC->getOperand(0), IC->getOperand(1), depth, 3, ok);
				if (!D.full() && ok) put(0, c);
				return r;
			}
			if (!wide(IC->getOperand(0))) return r;
			if (auto *C = dyn_cast<ConstantInt>(IC->getOperand(1)); C && (isa<SelectInst>(IC->getOperand(0)) || isa<PHINode>(IC->getOperand(0)))) {
				Bit lt, eq;
				if (against(IC->getOperand(0), C, IC->isSigned(), lt, eq, depth + 1)) {
					switch (IC->getPredicate()) {
					case CmpInst::ICMP_EQ: put(0, eq); break;
					case CmpInst::ICMP_NE: put(0, D.no(eq)); break;
					case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: put(0, lt); break;
					case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: put(0, D.either(lt, eq)); break;
					case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: put(0, D.no(D.either(lt, eq))); break;
					case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: put(0, D.no(lt)); break;
					default: break;
					}
					return r;
				}
			}
			bool ok;
			Bit c = compare(IC->getPredicate(), IC->getOperand(0), IC->getOperand(1), depth, 3, ok, IC->getParent());
			if (ok) put(0, c);
			return r;
		}
		case Instruction::Call:
			if (auto *II = dyn_cast<IntrinsicInst>(I)) {
				if (II->getIntrinsicID() == Intrinsic::bswap) {
					Vec a = op(0);
					for (unsigned i = 0; i < w; i++) put(i, a[(w / 8 - 1 - i / 8) * 8 + i % 8]);
				} else if (II->getIntrinsicID() == Intrinsic::bitreverse) {
					Vec a = op(0);
					for (unsigned i = 0; i < w; i++) put(i, a[w - 1 - i]);
				} else if (II->getIntrinsicID() == Intrinsic::fshl || II->getIntrinsicID() == Intrinsic::fshr) {
					auto *C = dyn_cast<ConstantInt>(II->getArgOperand(2));
					if (!C) return r;
					unsigned n = C->getValue().urem(w);
					Vec hi = op(0), lo = op(1);
					for (unsigned i = 0; i < w; i++)
						if (II->getIntrinsicID() == Intrinsic::fshr) put(i, i + n < w ? lo[i + n] : hi[i + n - w]);
						else put(i, i >= n ? hi[i - n] : lo[w - n + i]);
				}
			}
			return r;
		default: return r;
		}
	}
};
static unsigned decided = 0;
static bool run(Function &F, bool atomic = false) {
	bool changed = false;
	DominatorTree DT(F);
	Analyzer A(F, DT, atomic);
	std::map<Vec, std::vector<Instruction *>> same;
	std::vector<Instruction *> W;
	for (BasicBlock *B : ReversePostOrderTraversal<Function *>(&F))
		for (Instruction &I : *B) W.push_back(&I);
	std::vector<std::pair<Instruction *, Value *>> todo;
	for (Instruction *I : W) {
		// conditions, where they are used
		Value *Cond = nullptr;
		if (auto *BI = dyn_cast<BranchInst>(I)) { if (BI->isConditional()) Cond = BI->getCondition(); }
		else if (auto *SI = dyn_cast<SelectInst>(I)) { if (SI->getCondition()->getType()->isIntegerTy(1)) Cond = SI->getCondition(); }
		if (Cond && !isa<Constant>(Cond) && !A.D.full()) {
			Bit c = A.get(Cond)[0], r = A.reached(I->getParent());
			int d = A.D.both(r, c) == 0 ? 0 : A.D.both(r, A.D.no(c)) == 0 ? 1 : -1;
			if (d >= 0) {
				I->setOperand(isa<SelectInst>(I) ? 0 : 0, ConstantInt::get(Cond->getType(), d));
				decided++; changed = true;
			}
		}
		if (!I->getType()->isIntegerTy() || I->getType()->getIntegerBitWidth() > (atomic ? 1 : 64)) continue;
		Vec a = A.get(I);
		bool all = true;
		for (auto b : a) all = all && b < 2;
		if (all) {
			if (I->use_empty()) continue;
			APInt v(a.size(), 0);
			for (size_t i = 0; i < a.size(); i++) if (a[i]) v.setBit(i);
			todo.push_back({I, ConstantInt::get(I->getType(), v)});
			continue;
		}
		if (I->getType()->isIntegerTy(1)) continue;
		auto &L = same[a];
		for (Instruction *O : L)
			if (!I->use_empty() && DT.dominates(O, I)) { todo.push_back({I, O}); break; }
		L.push_back(I);
	}
	for (auto &[I, V] : todo) { I->replaceAllUsesWith(V); changed = true; }
	if (!atomic && !changed && (A.D.full() || A.vague)) changed = run(F, true);
	return changed;
}
} // namespace bits
