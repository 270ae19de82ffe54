// Linear-inequality dataflow: decides integer comparisons from the branch conditions that dominate them.
//
// Every condition that dominates a program point is a linear fact over mathematical integers, provided the machine
// arithmetic in it cannot wrap; wrap-freedom is itself derived from the facts already established (dominators first).
// A comparison is decided when its negation is inconsistent with the facts (exact rational elimination).
// At merge points, a comparison over a phi is decided edge by edge.  Sound, incomplete.
#pragma once
#include "fp.hpp"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/PatternMatch.h"
#include "llvm/Analysis/LoopInfo.h"
#include <map>
#include <set>
#include <vector>
#include <optional>
#include <numeric>
namespace lin {
using namespace llvm;
typedef __int128 I128;

struct Expr { // c + sum k_i * atom_i
	I128 c = 0;
	std::map<int, I128> k;
	void add(const Expr &o, I128 m) {
		c += o.c * m;
		for (auto &[v, q] : o.k) {
			auto &x = k[v];
			x += q * m;
			if (x == 0) k.erase(v);
		}
	}
	bool isConst() const { return k.empty(); }
};
// constraint: e >= 0
typedef Expr Cons;

static I128 gcdI(I128 a, I128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I128 t = a % b; a = b; b = t; } return a; }
static I128 floorDiv(I128 a, I128 b) { I128 q = a / b; if ((a % b) != 0 && ((a < 0) != (b < 0))) q--; return q; }
static void normalize(Cons &e) {
	I128 g = 0;
	for (auto &[v, q] : e.k) g = gcdI(g, q);
	if (g > 1) {
		for (auto &[v, q] : e.k) q /= g;
		e.c = floorDiv(e.c, g); // integer tightening
	}
}
static bool tooBig(const Cons &e) {
	const I128 L = (I128)1 << 100;
	if (e.c > L || e.c < -L) return true;
	for (auto &[v, q] : e.k) if (q > L || q < -L) return true;
	return false;
}
// true: the system has no integer solution (proved); false: unknown
static bool infeasible(std::vector<Cons> S, const std::set<int> &seedVars) {
	// keep constraints connected with the seed
	std::set<int> live = seedVars;
	for (bool ch = true; ch;) {
		ch = false;
		for (auto &e : S) {
			bool hit = false;
			for (auto &[v, q] : e.k) hit |= live.count(v) > 0;
			if (hit) for (auto &[v, q] : e.k) ch |= live.insert(v).second;
		}
	}
	std::vector<Cons> W;
	for (auto &e : S) {
		if (e.k.empty()) { if (e.c < 0) return true; continue; }
		bool hit = false;
		for (auto &[v, q] : e.k) hit |= live.count(v) > 0;
		if (hit) { normalize(e); W.push_back(e); }
	}
	for (;;) {
		// dedupe: same coefficients -> keep the tightest
		std::map<std::vector<std::pair<int, I128>>, I128> M;
		for (auto &e : W) {
			if (e.k.empty()) { if (e.c < 0) return true; continue; }
			std::vector<std::pair<int, I128>> key(e.k.begin(), e.k.end());
			auto it = M.find(key);
			if (it == M.end()) M[key] = e.c;
			else if (e.c < it->second) it->second = e.c;
		}
		W.clear();
		for (auto &[key, c] : M) { Cons e; e.c = c; e.k.insert(key.begin(), key.end()); W.push_back(e); }
		if (W.empty()) return false;
		// an equality with a unit coefficient: substitute (exact over the integers)
		{
			bool done = false;
			for (auto &[key, c] : M) {
				std::vector<std::pair<int, I128>> nk = key;
				for (auto &[v, q] : nk) q = -q;
				auto it = M.find(nk);
				if (it == M.end() || it->second + c != 0) continue; // also c + c' < 0: found below
				int pv = -1; I128 pq = 0;
				for (auto &[v, q] : key) if (q == 1 || q == -1) { pv = v; pq = q; break; }
				if (pv < 0) continue;
				Cons eq; eq.c = c; eq.k.insert(key.begin(), key.end());
				std::vector<Cons> R;
				for (auto &e : W) {
					auto k = e.k.find(pv);
					if (k == e.k.end()) { R.push_back(e); continue; }
					Cons n = e;
					n.add(eq, -k->second * pq); // eq == 0
					n.k.erase(pv);
					normalize(n);
					if (tooBig(n)) return false;
					if (n.k.empty()) { if (n.c < 0) return true; continue; }
					R.push_back(std::move(n));
				}
				W = std::move(R);
				done = true;
				break;
			}
			if (done) continue;
		}
		std::map<int, std::pair<int, int>> cnt;
		for (auto &e : W) for (auto &[v, q] : e.k) (q > 0 ? cnt[v].first : cnt[v].second)++;
		int best = -1; long bestCost = 0;
		for (auto &[v, pn] : cnt) {
			long cost = (long)pn.first * pn.second - pn.first - pn.second;
			if (best < 0 || cost < bestCost) { best = v; bestCost = cost; }
		}
		std::vector<Cons> P, N, R;
		for (auto &e : W) {
			auto it = e.k.find(best);
			if (it == e.k.end()) R.push_back(e);
			else if (it->second > 0) P.push_back(e);
			else N.push_back(e);
		}
		if (P.size() * N.size() + R.size() > 3000) return false;
		for (auto &p : P)
			for (auto &n : N) {
				I128 a = p.k.at(best), b = -n.k.at(best);
				Cons e;
				e.add(p, b);
				e.add(n, a);
				e.k.erase(best);
				normalize(e);
				if (tooBig(e)) return false;
				if (e.k.empty()) { if (e.c < 0) return true; continue; }
				R.push_back(std::move(e));
			}
		W = std::move(R);
	}
}

typedef std::map<PHINode *, Value *> Env;
typedef std::map<Instruction *, bool> Arms; // case split on selects, minima and maxima

class Analyzer {
	Function &F;
	DominatorTree &DT;
	LoopInfo &LI;
	const DataLayout &DL;

	struct FRel { Value *A, *B; unsigned mask; }; // the relation of A and B is one of the mask
	struct Ctx {
		std::vector<Cons> facts;
		std::map<std::pair<std::pair<I128, std::map<int, I128>>, I128>, int> quot; // quotient of (expression, divisor)
		std::map<int, std::pair<Expr, I128>> quotOf;
		std::map<std::pair<Value *, int>, int> atom; // value (0: unsigned, 1: signed view, 2: quotient aux) -> id
		int next = 0;
		Env env;
		Arms arms;
		std::map<std::pair<int, int>, int> prod; // the product of two atoms
		std::map<Value *, Expr> memoU, memoS;
		int budget = 20000;
		std::vector<FRel> ffacts;
		std::map<Value *, fpi::Iv> memoF;
	};

	bool entails(Ctx &C, const Expr &geq0) { // facts => geq0 >= 0 ?
		if (geq0.isConst()) return geq0.c >= 0;
		if (C.budget-- <= 0) return false;
		std::vector<Cons> S = C.facts;
		Cons neg; // -(e) - 1 >= 0
		neg.add(geq0, -1);
		neg.c -= 1;
		S.push_back(neg);
		std::set<int> seed;
		for (auto &[v, q] : neg.k) seed.insert(v);
		return infeasible(std::move(S), seed);
	}
	static I128 pow2(unsigned w) { return (I128)1 << w; }
	int atomOf(Ctx &C, Value *V, int view, I128 lo, I128 hi) {
		auto key = std::make_pair(V, view);
		auto it = C.atom.find(key);
		if (it != C.atom.end()) return it->second;
		int id = C.next++;
		C.atom[key] = id;
		Cons a; a.k[id] = 1; a.c = -lo; C.facts.push_back(a);
		Cons b; b.k[id] = -1; b.c = hi; C.facts.push_back(b);
		return id;
	}
	Expr atomU(Ctx &C, Value *V) {
		unsigned w = V->getType()->getIntegerBitWidth();
		I128 lo = 0, hi = pow2(w) - 1;
		ConstantRange CR = computeConstantRange(V, false);
		if (auto *L = dyn_cast<LoadInst>(V)) if (auto *R = L->getMetadata(LLVMContext::MD_range)) CR = CR.intersectWith(getConstantRangeFromMetadata(*R));
		KnownBits KB = computeKnownBits(V, DL);
		if (!CR.isEmptySet()) {
			APInt mn = CR.getUnsignedMin(), mx = CR.getUnsignedMax();
			if (mn.getActiveBits() <= 64) lo = (I128)mn.getZExtValue();
			if (mx.getActiveBits() <= 64) hi = (I128)mx.getZExtValue();
		}
		fromFloat(C, V, lo, hi, false);
		I128 kmax = (I128)KB.getMaxValue().getZExtValue(), kmin = (I128)KB.getMinValue().getZExtValue();
		if (kmax < hi) hi = kmax;
		if (kmin > lo) lo = kmin;
		Expr e;
		e.k[atomOf(C, V, 0, lo, hi)] = 1;
		return e;
	}
	Expr num(I128 c) { Expr e; e.c = c; return e; }
	// the range of an integer converted from a floating-point value (out of the target's range: undefined)
	void fromFloat(Ctx &C, Value *V, I128 &lo, I128 &hi, bool sg) {
		auto *I = dyn_cast<CastInst>(V);
		if (!I || (I->getOpcode() != Instruction::FPToUI && I->getOpcode() != Instruction::FPToSI)) return;
		fpi::Iv f = fpEval(C, I->getOperand(0));
		if (f.empty()) return;
		double a = std::trunc(f.lo), b = std::trunc(f.hi);
		unsigned w = I->getType()->getIntegerBitWidth();
		double top = std::ldexp(1.0, w - (I->getOpcode() == Instruction::FPToSI));
		bool low = a >= -(I->getOpcode() == Instruction::FPToSI ? top : 0), high = b < top; // else: anything
		if (!low || !high || f.nan) return;
		I128 x = (I128)a, y = (I128)b;
		if (!sg && I->getOpcode() == Instruction::FPToSI && x < 0) {
			if (y >= 0) return;
			x += pow2(w); y += pow2(w);
		}
		if (sg && I->getOpcode() == Instruction::FPToUI && y >= pow2(w - 1)) return;
		if (x > lo) lo = x;
		if (y < hi) hi = y;
	}
	static bool isFP(Value *V) { return V->getType()->isFloatTy() || V->getType()->isDoubleTy(); }
	// the bounds of e the facts entail, within [lo, hi]
	void tighten(Ctx &C, const Expr &e, I128 &lo, I128 &hi) {
		if (e.isConst()) { lo = hi = e.c; return; }
		I128 a = lo, b = hi; // largest a with e >= a
		for (int n = 0; a < b && n < 70; n++) {
			I128 m = a + (b - a + 1) / 2;
			Expr g = e; g.c -= m;
			if (entails(C, g)) a = m; else b = m - 1;
		}
		lo = a;
		b = hi;
		for (int n = 0; a < b && n < 70; n++) {
			I128 m = floorDiv(a + b, 2);
			Expr g; g.add(e, -1); g.c += m;
			if (entails(C, g)) b = m; else a = m + 1;
		}
		hi = b;
	}
	Value *fpAlias(Ctx &C, Value *V) {
		for (int n = 0; n < 40; n++) {
			if (auto *PN = dyn_cast<PHINode>(V)) {
				auto it = C.env.find(PN);
				if (it == C.env.end() || it->second == PN) return V;
				V = it->second;
			} else if (Value *X = chosen(C.arms, V)) V = X;
			else if (auto *FI = dyn_cast<FreezeInst>(V)) V = FI->getOperand(0);
			else return V;
		}
		return V;
	}
	std::set<Value *> fpOpen; // values under evaluation
	int fpNest = 0; // selects and phis split around it
	struct Nest { int &n; Nest(int &n) : n(n) { n++; } ~Nest() { n--; } };
	fpi::Iv fpEval(Ctx &C, Value *V, int depth = 0) {
		V = fpAlias(C, V);
		if (auto *K = dyn_cast<ConstantFP>(V)) {
			if (K->getType()->isFloatTy()) return fpi::Iv::of(K->getValueAPF().convertToFloat());
			if (K->getType()->isDoubleTy()) return fpi::Iv::of(K->getValueAPF().convertToDouble());
			return fpi::Iv();
		}
		if (!isFP(V) || depth > 40) return fpi::Iv();
		auto it = C.memoF.find(V);
		if (it != C.memoF.end()) return it->second;
		if (!fpOpen.insert(V).second || fpOpen.size() > 60) { if (fpOpen.size() > 60) fpOpen.erase(V); return fpi::Iv(); } // cut cycles
		struct Close { std::set<Value *> &S; Value *V; ~Close() { S.erase(V); } } close{fpOpen, V};
		fpi::Iv r = fpEval0(C, V, depth);
		for (int round = 0; round < 2; round++)
			for (auto &f : C.ffacts) {
				Value *A = fpAlias(C, f.A), *B = fpAlias(C, f.B);
				if (A == V && B != V) r = fpRefine(C, V, r, B, f.mask, depth);
				else if (B == V && A != V) r = fpRefine(C, V, r, A, fpi::swapped(f.mask), depth);
				else if (A == V && B == V && !(f.mask & fpi::UNO)) r.nan = false;
			}
		C.memoF[V] = r;
		return r;
	}
	fpi::Iv fpRefine(Ctx &C, Value *V, fpi::Iv r, Value *O, unsigned mask, int depth) {
		bool s = V->getType()->isFloatTy();
		if (!(mask & fpi::UNO)) r.nan = false;
		fpi::Iv o = fpEval(C, O, depth + 1);
		if ((mask & fpi::UNO) && o.nan) return r;
		if (o.empty()) return r;
		if (!(mask & fpi::GT)) r.hi = std::min(r.hi, mask & fpi::EQ || !std::isfinite(o.hi) ? o.hi : fpi::next(o.hi, s, false));
		if (!(mask & fpi::LT)) r.lo = std::max(r.lo, mask & fpi::EQ || !std::isfinite(o.lo) ? o.lo : fpi::next(o.lo, s, true));
		return r;
	}
	// an entry of a constant table: one of those the index can select
	fpi::Iv tableLoad(Ctx &C, LoadInst *L) {
		using fpi::Iv;
		Expr off;
		Value *Base = L->isVolatile() ? nullptr : ptrOff(C, L->getPointerOperand(), off);
		auto *G = dyn_cast_or_null<GlobalVariable>(Base);
		if (!G || !G->isConstant() || !G->hasDefinitiveInitializer()) return Iv();
		uint64_t Size = DL.getTypeAllocSize(G->getValueType()), W = DL.getTypeStoreSize(L->getType());
		if (Size > 1 << 16 || Size < W) return Iv();
		I128 lo = -1, hi = (I128)Size; // within the object, or undefined
		tighten(C, off, lo, hi);
		lo = std::max(lo, (I128)0); hi = std::min(hi, (I128)(Size - W));
		I128 step = 0; // the offset is off.c modulo the step
		for (auto &[a, k] : off.k) step = step ? std::gcd((int64_t)step, (int64_t)(k < 0 ? -k : k)) : (k < 0 ? -k : k);
		if (!step) step = 1;
		I128 first = lo + ((off.c - lo) % step + step) % step;
		Iv r = Iv::none();
		for (I128 at = first; at <= hi; at += step) {
			auto *K = dyn_cast_or_null<ConstantFP>(ConstantFoldLoadFromConst(G->getInitializer(), L->getType(), APInt(64, (uint64_t)at), DL));
			if (!K) return Iv();
			r = r.join(Iv::of(L->getType()->isFloatTy() ? (double)K->getValueAPF().convertToFloat() : K->getValueAPF().convertToDouble()));
		}
		return r;
	}
	// A * P + R that mixes two values: R is B * (1 - P), or A is X - R; 0 <= P <= 1
	bool mixture(Ctx &C, Value *A, Value *P, Value *R, bool s, int depth, fpi::Iv &out) {
		using fpi::Iv;
		A = fpAlias(C, A); P = fpAlias(C, P); R = fpAlias(C, R);
		auto sub = [&](Value *V) -> Instruction * { auto *I = dyn_cast<Instruction>(V); return I && I->getOpcode() == Instruction::FSub ? I : nullptr; };
		auto unit = [&](Value *V) { Iv p = fpEval(C, V, depth + 1); return !p.nan && !p.empty() && p.lo >= 0 && p.hi <= 1; };
		auto isOne = [&](Value *V) { auto *K = dyn_cast<ConstantFP>(V); return K && K->isExactlyValue(1.0); };
		const double u = s ? 0x1p-24 : 0x1p-53;
		auto mix = [&](Iv a, Iv b) { // linear in each: the corners
			if (!a.finite() || !b.finite() || a.empty() || b.empty()) return Iv();
			Iv p = fpEval(C, P, depth + 1), r = Iv::none();
			for (double x : {a.lo, a.hi}) for (double y : {b.lo, b.hi}) for (double z : {p.lo, p.hi}) r = r.join(Iv::of(x * z + y * (1 - z)));
			return r;
		};
		auto around = [&](Iv a, Iv b, bool cap) {
			Iv g = a.join(b), h = mix(a, b).meet(g);
			if (!h.finite() || h.empty()) return false;
			double m = std::max({std::fabs(g.lo), std::fabs(g.hi), 0x1p-60}), e = m * u * 10, c = 1;
			if (m > 0x1p100) return false;
			while (c < m) c *= 2; // products with a power of two are exact and rounding is monotone
			out = Iv::range(h.lo - e, h.hi + e, false);
			if (cap) out = out.meet(Iv::range(-c, c, false));
			return true;
		};
		if (auto *M = dyn_cast<Instruction>(R); M && M->getOpcode() == Instruction::FMul)
			for (int k : {0, 1}) {
				Value *B = fpAlias(C, M->getOperand(k)), *Q = fpAlias(C, M->getOperand(!k));
				auto *S = sub(Q), *T = sub(P);
				bool co = (S && isOne(fpAlias(C, S->getOperand(0))) && fpAlias(C, S->getOperand(1)) == P) ||
						  (T && isOne(fpAlias(C, T->getOperand(0))) && fpAlias(C, T->getOperand(1)) == Q);
				if (co && unit(P) && unit(Q)) return around(fpEval(C, A, depth + 1), fpEval(C, B, depth + 1), true);
			}
		{ // B is one, or minus one
			Value *W = R;
			double b = 1;
			if (auto *N = dyn_cast<Instruction>(R); N && N->getOpcode() == Instruction::FNeg) { R = fpAlias(C, N->getOperand(0)); b = -1; }
			auto *S = sub(R), *T = sub(P);
			bool co = (S && isOne(fpAlias(C, S->getOperand(0))) && fpAlias(C, S->getOperand(1)) == P) ||
					  (T && isOne(fpAlias(C, T->getOperand(0))) && fpAlias(C, T->getOperand(1)) == R);
			if (co && unit(P) && unit(R)) return around(fpEval(C, A, depth + 1), Iv::of(b), true);
			R = W;
		}
		if (auto *D = sub(A); D && fpAlias(C, D->getOperand(1)) == R && unit(P))
			return around(fpEval(C, D->getOperand(0), depth + 1), fpEval(C, R, depth + 1), false);
		return false;
	}
	// V = c + sum of k * atom, give or take err: keeps what an interval forgets, that the same value occurs more than once
	struct Aff { std::map<Value *, double> k; double c = 0, err = 0; bool ok = true; };
	Aff affine(Ctx &C, Value *V, int depth, int level) {
		V = fpAlias(C, V);
		Aff r;
		fpi::Iv v = fpEval(C, V, depth + 1);
		if (!v.finite() || v.empty()) { r.ok = false; return r; }
		if (v.point()) { r.c = v.lo; return r; }
		auto *I = dyn_cast<Instruction>(V);
		bool s = V->getType()->isFloatTy();
		const double u = s ? 0x1.01p-24 : 0x1.01p-53, tiny = s ? 1e-44 : 1e-300;
		auto atom = [&] { Aff a; a.k[V] = 1; return a; };
		auto mag = [](const fpi::Iv &x) { return std::max(std::fabs(x.lo), std::fabs(x.hi)); };
		auto plus = [&](Aff a, const Aff &b, double m) {
			a.ok &= b.ok;
			a.c += m * b.c;
			a.err += std::fabs(m) * b.err + (std::fabs(a.c) + std::fabs(m * b.c)) * 1e-15;
			for (auto &[x, q] : b.k) a.k[x] += m * q;
			return a;
		};
		if (!I || level > 8) return atom();
		auto op = [&](int n) { return affine(C, I->getOperand(n), depth, level + 1); };
		auto rounded = [&](Aff a, double m) { a.err += u * m + tiny; return a; };
		auto narrow = [&](const fpi::Iv &f) { return f.finite() && !f.empty() && std::fabs(f.lo) < 1e30 && std::fabs(f.hi) < 1e30 && f.hi - f.lo <= 0.02 * std::fabs(f.hi); };
		auto scaled = [&](const Aff &x, const fpi::Iv &f, const fpi::Iv &g) { // x is within g
			double mid = f.lo + (f.hi - f.lo) / 2;
			Aff a = plus(Aff(), x, mid);
			a.err += (std::max(f.hi - mid, mid - f.lo)) * 1.0000001 * mag(g);
			return a;
		};
		switch (I->getOpcode()) {
		case Instruction::FAdd: return rounded(plus(op(0), op(1), 1), mag(v));
		case Instruction::FSub: return rounded(plus(op(0), op(1), -1), mag(v));
		case Instruction::FNeg: return plus(Aff(), op(0), -1);
		case Instruction::FPExt: return op(0);
		case Instruction::FPTrunc: return rounded(op(0), mag(v));
		case Instruction::FMul:
		case Instruction::FDiv:
			for (int n : {1, 0}) {
				fpi::Iv f = fpEval(C, I->getOperand(n), depth + 1);
				if (I->getOpcode() == Instruction::FMul && narrow(f)) return rounded(scaled(op(!n), f, fpEval(C, I->getOperand(!n), depth + 1)), mag(v));
				if (!f.point() || std::fabs(f.lo) > 1e30 || (f.lo == 0 && I->getOpcode() == Instruction::FDiv)) { if (I->getOpcode() == Instruction::FDiv) break; continue; }
				if (I->getOpcode() == Instruction::FDiv && n == 0) break;
				return rounded(plus(Aff(), op(!n), I->getOpcode() == Instruction::FDiv ? 1 / f.lo : f.lo), mag(v));
			}
			return atom();
		case Instruction::Call:
			if (auto *II = dyn_cast<IntrinsicInst>(I); II && (II->getIntrinsicID() == Intrinsic::fmuladd || II->getIntrinsicID() == Intrinsic::fma))
				for (int n : {1, 0}) {
					fpi::Iv f = fpEval(C, I->getOperand(n), depth + 1), g = fpEval(C, I->getOperand(!n), depth + 1);
					if (!g.finite() || !narrow(f)) continue;
					return rounded(plus(op(2), scaled(op(!n), f, g), 1), mag(v) + mag(f) * mag(g));
				}
			return atom();
		default: return atom();
		}
	}
	fpi::Iv affineRange(Ctx &C, Aff a, int depth) {
		fpi::Iv whole;
		if (!a.ok) return whole;
		double lo = a.c - a.err, hi = a.c + a.err;
		for (auto &[x, q] : a.k) {
			fpi::Iv v = fpEval(C, x, depth + 1);
			if (!v.finite() || v.empty()) return whole;
			double y = q * v.lo, z = q * v.hi;
			lo += std::min(y, z); hi += std::max(y, z);
			lo -= (std::fabs(y) + std::fabs(z) + std::fabs(lo)) * 1e-15; hi += (std::fabs(y) + std::fabs(z) + std::fabs(hi)) * 1e-15;
		}
		return fpi::Iv::range(lo, hi, true);
	}
	// the range of a sum from its operands' affine forms
	fpi::Iv sumRange(Ctx &C, Instruction *I, fpi::Iv r, int depth) {
		if (!r.finite() || r.empty() || r.point()) return r;
		C.memoF[I] = r; // for the magnitude of the rounding error
		fpi::Iv a = affineRange(C, affine(C, I, depth, 0), depth);
		C.memoF.erase(I);
		return r.meet(a);
	}
	// a conversion whose operand's range leaves one value
public:
	std::optional<I128> oneInt(CastInst *V, BasicBlock *At) {
		Ctx C;
		domFacts(C, At, nullptr);
		if (contradiction(C)) return std::nullopt;
		bool sg = V->getOpcode() == Instruction::FPToSI;
		unsigned w = V->getType()->getIntegerBitWidth();
		if (w > 64 || !isFP(V->getOperand(0))) return std::nullopt;
		fpi::Iv f = fpEval(C, V->getOperand(0));
		if (f.empty() || f.nan || !f.finite() || std::trunc(f.lo) != std::trunc(f.hi)) return std::nullopt;
		double v = std::trunc(f.lo), top = std::ldexp(1.0, w - sg);
		if (v >= top || v < (sg ? -top : 0)) return std::nullopt;
		return (I128)v;
	}
private:
	fpi::Iv fpEval0(Ctx &C, Value *V, int depth) {
		using fpi::Iv;
		auto *I = dyn_cast<Instruction>(V);
		if (!I) return Iv();
		bool s = V->getType()->isFloatTy();
		auto ev = [&](int n) { return fpEval(C, I->getOperand(n), depth + 1); };
		switch (I->getOpcode()) {
		case Instruction::FAdd: {
			Iv r = fpi::add(ev(0), ev(1), s), m;
			for (int n : {0, 1})
				if (auto *M = dyn_cast<Instruction>(fpAlias(C, I->getOperand(n))); M && M->getOpcode() == Instruction::FMul)
					for (int k : {0, 1})
						if (mixture(C, M->getOperand(k), M->getOperand(!k), I->getOperand(!n), s, depth, m)) r = r.meet(m);
			return sumRange(C, I, r, depth);
		}
		case Instruction::Load: return tableLoad(C, cast<LoadInst>(I));
		case Instruction::FSub: {
			Value *A = fpAlias(C, I->getOperand(0)), *B = fpAlias(C, I->getOperand(1));
			Iv a = ev(0), b = ev(1);
			if (A == B) return Iv::range(0, 0, a.nan || fpi::hasInf(a));
			if (auto *T = dyn_cast<CastInst>(B); T && (T->getOpcode() == Instruction::UIToFP || T->getOpcode() == Instruction::SIToFP))
				if (auto *Q = dyn_cast<CastInst>(T->getOperand(0)); Q && (Q->getOpcode() == Instruction::FPToUI || Q->getOpcode() == Instruction::FPToSI))
					if (fpAlias(C, Q->getOperand(0)) == A && fpi::hasInf(a) == false) { // x - trunc(x), exact
						double one = fpi::next(1.0, s, false);
						return fpi::add(a, fpi::neg(b), s).meet(Iv::range(a.lo >= 0 ? 0 : -one, a.hi <= 0 ? 0 : one, true));
					}
			if (auto *T = dyn_cast<IntrinsicInst>(B); T && T->getIntrinsicID() == Intrinsic::floor && fpAlias(C, T->getArgOperand(0)) == A && !fpi::hasInf(a))
				return Iv::range(0, 1, a.nan);
			return sumRange(C, I, fpi::add(a, fpi::neg(b), s), depth);
		}
		case Instruction::FMul: {
			Iv a = ev(0), b = ev(1), r = fpi::mul(a, b, s);
			if (fpAlias(C, I->getOperand(0)) == fpAlias(C, I->getOperand(1))) { r.lo = std::max(r.lo, 0.0); r.nan = a.nan; }
			return r;
		}
		case Instruction::FDiv: return fpi::div(ev(0), ev(1), s);
		case Instruction::FNeg: return fpi::neg(ev(0));
		case Instruction::FPExt: return ev(0);
		case Instruction::FPTrunc: {
			Iv a = ev(0);
			return a.empty() ? a : Iv::range((double)(float)a.lo, (double)(float)a.hi, a.nan);
		}
		case Instruction::SIToFP:
		case Instruction::UIToFP: {
			Value *X = I->getOperand(0);
			unsigned w = X->getType()->getIntegerBitWidth();
			if (w > 64) return Iv();
			bool sg = I->getOpcode() == Instruction::SIToFP;
			ConstantRange CR = computeConstantRange(X, sg);
			if (CR.isEmptySet()) CR = ConstantRange::getFull(w);
			I128 lo = sg ? (I128)CR.getSignedMin().getSExtValue() : (I128)CR.getUnsignedMin().getZExtValue();
			I128 hi = sg ? (I128)CR.getSignedMax().getSExtValue() : (I128)CR.getUnsignedMax().getZExtValue();
			tighten(C, sg ? S(C, X) : U(C, X), lo, hi);
			double a = (double)lo, b = (double)hi;
			if (s) { a = (double)(float)lo; b = (double)(float)hi; }
			return Iv::range(a, b, false);
		}
		case Instruction::Select: {
			auto *SI = cast<SelectInst>(I);
			Iv r = Iv::none();
			if (fpNest >= 3) return ev(1).join(ev(2)); // deep enough: either arm, whatever the condition
			Nest nest{fpNest};
			for (bool arm : {true, false}) {
				Ctx D = C; // the condition holds on the arm
				D.memoF.clear();
				addFact(D, SI->getCondition(), arm);
				if (fpContradiction(D)) continue;
				r = r.join(fpEval(D, arm ? SI->getTrueValue() : SI->getFalseValue(), depth + 8));
			}
			return r;
		}
		case Instruction::PHI: {
			auto *PN = cast<PHINode>(I);
			if (LI.isLoopHeader(PN->getParent())) return Iv();
			Iv r = Iv::none();
			if (fpNest >= 3) {
				for (unsigned n = 0; n < PN->getNumIncomingValues(); n++) r = r.join(ev(n));
				return r;
			}
			Nest nest{fpNest};
			for (unsigned n = 0; n < PN->getNumIncomingValues(); n++) {
				Ctx D = C;
				D.memoF.clear();
				BasicBlock *P = PN->getIncomingBlock(n);
				edgeFacts(D, P, PN->getParent());
				if (BasicBlock *Q = P->getSinglePredecessor()) edgeFacts(D, Q, P);
				r = r.join(fpEval(D, PN->getIncomingValue(n), depth + 8));
			}
			return r;
		}
		case Instruction::Call:
			if (auto *II = dyn_cast<IntrinsicInst>(I)) {
				switch (II->getIntrinsicID()) {
				case Intrinsic::fmuladd:
				case Intrinsic::fma: {
					Iv r = fpi::muladd(ev(0), ev(1), ev(2), s), m;
					for (int k : {0, 1})
						if (mixture(C, I->getOperand(k), I->getOperand(!k), I->getOperand(2), s, depth, m)) r = r.meet(m);
					return sumRange(C, I, r, depth);
				}
				case Intrinsic::fabs: {
					Iv a = ev(0);
					if (a.empty()) return a;
					double m = std::max(std::fabs(a.lo), std::fabs(a.hi));
					return Iv::range(a.has(0) ? 0 : std::min(std::fabs(a.lo), std::fabs(a.hi)), m, a.nan);
				}
				case Intrinsic::floor: { Iv a = ev(0); return Iv::range(std::floor(a.lo), std::floor(a.hi), a.nan); }
				case Intrinsic::ceil: { Iv a = ev(0); return Iv::range(std::ceil(a.lo), std::ceil(a.hi), a.nan); }
				case Intrinsic::trunc: { Iv a = ev(0); return Iv::range(std::trunc(a.lo), std::trunc(a.hi), a.nan); }
				case Intrinsic::round: { Iv a = ev(0); return Iv::range(std::round(a.lo), std::round(a.hi), a.nan); }
				case Intrinsic::minnum: { // the other operand when one is NaN
					Iv a = ev(0), b = ev(1), r = Iv::range(std::min(a.lo, b.lo), std::min(a.hi, b.hi), a.nan && b.nan);
					if (a.empty() || b.empty()) return Iv();
					if (a.nan) r = r.join(Iv::range(b.lo, b.hi, b.nan));
					if (b.nan) r = r.join(Iv::range(a.lo, a.hi, a.nan));
					return r;
				}
				case Intrinsic::maxnum: {
					Iv a = ev(0), b = ev(1), r = Iv::range(std::max(a.lo, b.lo), std::max(a.hi, b.hi), a.nan && b.nan);
					if (a.empty() || b.empty()) return Iv();
					if (a.nan) r = r.join(Iv::range(b.lo, b.hi, b.nan));
					if (b.nan) r = r.join(Iv::range(a.lo, a.hi, a.nan));
					return r;
				}
				case Intrinsic::sqrt: { Iv a = ev(0); if (a.empty()) return a; return Iv::range(a.lo <= 0 ? 0 : fpi::rnd(std::sqrt(a.lo), s), a.hi <= 0 ? 0 : fpi::rnd(std::sqrt(a.hi), s), a.nan || a.lo < 0); }
				default: break;
				}
			}
			return Iv();
		default: return Iv();
		}
	}
	// the relations possible between two floating-point values
	unsigned fpRel(Ctx &C, Value *A, Value *B, const FRel *skip = nullptr) {
		A = fpAlias(C, A); B = fpAlias(C, B);
		fpi::Iv a = fpEval(C, A), b = fpEval(C, B);
		if (A == B) return a.nan ? fpi::EQ | fpi::UNO : fpi::EQ;
		unsigned m = fpi::relation(a, b);
		if (m != fpi::EQ && m != fpi::GT && m != fpi::LT && a.finite() && b.finite() && !a.empty() && !b.empty()) { // their difference
			Aff d = affine(C, A, 0, 0), e = affine(C, B, 0, 0);
			bool shared = false;
			for (auto &[x, q] : e.k) { shared |= d.k.count(x); d.k[x] -= q; }
			d.c -= e.c; d.err += e.err + std::fabs(d.c) * 1e-15; d.ok &= e.ok;
			if (shared && d.ok) {
				fpi::Iv r = affineRange(C, d, 0);
				if (r.lo > 0) m &= ~(fpi::EQ | fpi::LT);
				if (r.hi < 0) m &= ~(fpi::EQ | fpi::GT);
			}
		}
		// closure over the values the facts mention
		std::vector<Value *> N{A, B};
		auto idx = [&](Value *V) { for (size_t i = 0; i < N.size(); i++) if (N[i] == V) return i; N.push_back(V); return N.size() - 1; };
		struct E { size_t a, b; unsigned m; };
		std::vector<E> es;
		for (auto &f : C.ffacts) {
			if (&f == skip) continue;
			es.push_back({idx(fpAlias(C, f.A)), idx(fpAlias(C, f.B)), f.mask});
			if (N.size() > 14) break;
		}
		size_t n = N.size();
		std::vector<unsigned> R(n * n, 15);
		for (size_t i = 0; i < n; i++)
			for (size_t j = 0; j < n; j++) {
				if (i == j) R[i * n + j] = fpEval(C, N[i]).nan ? 9 : 1;
				else R[i * n + j] = fpi::relation(fpEval(C, N[i]), fpEval(C, N[j]));
			}
		for (auto &e : es) { R[e.a * n + e.b] &= e.m; R[e.b * n + e.a] &= fpi::swapped(e.m); }
		for (size_t k = 0; k < n; k++)
			for (size_t i = 0; i < n; i++)
				for (size_t j = 0; j < n; j++) R[i * n + j] &= fpi::compose(R[i * n + k], R[k * n + j]);
		return m & R[1];
	}
	bool fpContradiction(Ctx &C) {
		for (auto &f : C.ffacts)
			if (!(fpRel(C, f.A, f.B) & f.mask)) return true;
		return false;
	}
	bool within(Ctx &C, const Expr &e, I128 lo, I128 hi) {
		Expr a = e; a.c -= lo;
		if (!entails(C, a)) return false;
		Expr b; b.add(e, -1); b.c += hi;
		return entails(C, b);
	}
	// pointer = base + offset (offset as a mathematical integer; exact modulo 2^64)
	Value *ptrOff(Ctx &C, Value *P, Expr &off, int depth = 0) {
		while (depth++ < 24) {
			if (auto *PN = dyn_cast<PHINode>(P)) {
				auto it = C.env.find(PN);
				if (it != C.env.end() && it->second != PN) { P = it->second; continue; }
				break;
			}
			if (auto *SL = dyn_cast<SelectInst>(P)) {
				auto it = C.arms.find(SL);
				if (it != C.arms.end()) { P = armOf(SL, it->second); continue; }
				break;
			}
			if (auto *G = dyn_cast<GEPOperator>(P)) {
				MapVector<Value *, APInt> VO;
				APInt CO(64, 0);
				if (!G->collectOffset(DL, 64, VO, CO)) break;
				off.c += (I128)CO.getSExtValue();
				for (auto &[V, K] : VO) {
					if (V->getType()->getIntegerBitWidth() > 64) return nullptr;
					off.add(S(C, V, depth), (I128)K.getSExtValue());
				}
				P = G->getPointerOperand();
				continue;
			}
			break;
		}
		return P;
	}
	bool ptrDiff(Ctx &C, Value *A, Value *B, Expr &d) { // A - B for ptrtoint operands over one base
		auto *a = dyn_cast<Operator>(A), *b = dyn_cast<Operator>(B);
		if (!a || !b || a->getOpcode() != Instruction::PtrToInt || b->getOpcode() != Instruction::PtrToInt) return false;
		Expr x, y;
		Value *p = ptrOff(C, a->getOperand(0), x), *q = ptrOff(C, b->getOperand(0), y);
		if (!p || p != q) return false;
		d = x;
		d.add(y, -1);
		return true;
	}
	// the optimiser derived (or the language guarantees) that the operation does not wrap
	static bool noUnsignedWrap(const Operator *I) {
		auto *O = dyn_cast<OverflowingBinaryOperator>(I);
		return O && O->hasNoUnsignedWrap();
	}
	static bool disjointOr(const Operator *I, const DataLayout &DL) {
		if (auto *D = dyn_cast<PossiblyDisjointInst>(I); D && D->isDisjoint()) return true;
		return haveNoCommonBitsSet(I->getOperand(0), I->getOperand(1), SimplifyQuery(DL));
	}
	// the product of two variables as a polynomial: the same however it is grouped and however wide it is computed
	std::optional<Expr> product(Ctx &C, Operator *I, int depth) {
		auto *A = I->getOperand(0), *B = I->getOperand(1);
		unsigned w = I->getType()->getIntegerBitWidth();
		if (!noUnsignedWrap(I)) {
			KnownBits x = computeKnownBits(A, DL), y = computeKnownBits(B, DL);
			if (x.getMaxValue().getActiveBits() + y.getMaxValue().getActiveBits() > w) return std::nullopt;
		}
		Expr a = U(C, A, depth + 1), b = U(C, B, depth + 1);
		auto small = [](const Expr &e) {
			if (e.k.size() > 3 || e.c > pow2(32) || e.c < -pow2(32)) return false;
			for (auto &[v, q] : e.k) if (q > pow2(20) || q < -pow2(20)) return false;
			return true;
		};
		if (!small(a) || !small(b) || a.k.size() * b.k.size() > 4) return std::nullopt;
		Expr e;
		e.c = a.c * b.c;
		for (auto &[v, q] : a.k) if (b.c != 0) e.k[v] += q * b.c;
		for (auto &[v, q] : b.k) if (a.c != 0) e.k[v] += q * a.c;
		for (auto &[v, q] : a.k)
			for (auto &[u, r] : b.k) {
				auto key = std::minmax(u, v);
				auto it = C.prod.find({key.first, key.second});
				if (it == C.prod.end()) it = C.prod.insert({{key.first, key.second}, C.next++}).first;
				e.k[it->second] += q * r;
			}
		for (auto it = e.k.begin(); it != e.k.end();)
			if (it->second == 0) it = e.k.erase(it);
			else ++it;
		Expr own = atomU(C, cast<Value>(I)); // its range
		Cons lo = e, hi;
		lo.add(own, -1);
		hi.add(e, -1);
		hi.add(own, 1);
		C.facts.push_back(lo);
		C.facts.push_back(hi);
		return e;
	}
	// floor(x / k), k > 0, in a canonical form: one auxiliary variable per (reduced numerator, divisor)
	Expr floorQuot(Ctx &C, Expr x, I128 k) {
		Expr out;
		if (k == 1) return x;
		for (auto it = x.k.begin(); it != x.k.end();) {
			if (it->second % k == 0) { out.k[it->first] += it->second / k; it = x.k.erase(it); }
			else ++it;
		}
		I128 cq = floorDiv(x.c, k);
		out.c += cq;
		x.c -= cq * k;
		if (x.isConst()) return out;
		I128 g = k; // a common factor of the coefficients and k cancels: floor((g y + c) / (g m)) = floor((y + floor(c/g)) / m)
		for (auto &[v, q] : x.k) g = gcdI(g, q);
		if (g > 1) {
			for (auto &[v, q] : x.k) q /= g;
			x.c = floorDiv(x.c, g);
			k /= g;
			if (k == 1) { out.add(x, 1); return out; }
		}
		if (x.k.size() == 1 && x.c == 0 && x.k.begin()->second == 1) { // floor(floor(y / a) / k) = floor(y / (a k))
			auto it = C.quotOf.find(x.k.begin()->first);
			if (it != C.quotOf.end() && it->second.second < pow2(60) && k < pow2(60)) { out.add(floorQuot(C, it->second.first, it->second.second * k), 1); return out; }
		}
		std::pair<std::pair<I128, std::map<int, I128>>, I128> key{{x.c, x.k}, k};
		auto it = C.quot.find(key);
		if (it == C.quot.end()) {
			int q = C.next++;
			Expr aq; aq.k[q] = 1;
			Cons a = x; a.add(aq, -k); C.facts.push_back(a);				 // x - kq >= 0
			Cons b; b.add(x, -1); b.add(aq, k); b.c += k - 1; C.facts.push_back(b); // kq + k-1 - x >= 0
			for (auto &[ok, oq] : C.quot) { // nested divisors of the same numerator
				if (ok.first != key.first || ok.second <= 0) continue;
				Expr ao; ao.k[oq] = 1;
				I128 big = ok.second > k ? ok.second : k, small = ok.second > k ? k : ok.second;
				if (big % small) continue;
				Expr hi = ok.second > k ? ao : aq, lo = ok.second > k ? aq : ao;
				Cons c = lo; c.add(hi, -(big / small)); C.facts.push_back(c);
				Cons d; d.add(lo, -1); d.add(hi, big / small); d.c += big / small - 1; C.facts.push_back(d);
			}
			C.quotOf[q] = {x, k};
			it = C.quot.emplace(key, q).first;
		}
		Expr aq; aq.k[it->second] = 1;
		out.add(aq, 1);
		return out;
	}
	// x / k rounded towards zero, sign of x unknown: |x - k q| <= k - 1
	Expr truncQuot(Ctx &C, const Expr &x, I128 k) {
		if (k == 1 || x.isConst()) return k == 1 ? x : num(x.c / k);
		std::pair<std::pair<I128, std::map<int, I128>>, I128> key{{x.c, x.k}, -k};
		auto it = C.quot.find(key);
		if (it == C.quot.end()) {
			int q = C.next++;
			Cons a = x; a.k[q] = -k; a.c += k - 1; C.facts.push_back(a);
			Cons b; b.add(x, -1); b.k[q] = k; b.c += k - 1; C.facts.push_back(b);
			it = C.quot.emplace(key, q).first;
		}
		Expr out; out.k[it->second] = 1;
		return out;
	}
	Expr modulo(Ctx &C, const Expr &x, I128 k) {
		Expr r = x;
		r.add(floorQuot(C, x, k), -k);
		return r;
	}
	// e, the value of V, with the range the optimiser knows for V
	Expr bounded(Ctx &C, Value *V, const Expr &e) {
		if (e.isConst()) return e;
		ConstantRange CR = computeConstantRange(V, false);
		if (CR.isEmptySet() || CR.isFullSet()) return e;
		APInt mn = CR.getUnsignedMin(), mx = CR.getUnsignedMax();
		if (mn.getActiveBits() <= 64 && !mn.isZero()) { Cons a = e; a.c -= (I128)mn.getZExtValue(); C.facts.push_back(a); }
		if (mx.getActiveBits() <= 64) { Cons b; b.add(e, -1); b.c += (I128)mx.getZExtValue(); C.facts.push_back(b); }
		return e;
	}
	// unsigned value of V
	Expr U(Ctx &C, Value *V, int depth = 0) {
		if (auto *CI = dyn_cast<ConstantInt>(V)) {
			if (CI->getBitWidth() <= 64) return num((I128)CI->getZExtValue());
		}
		unsigned w = V->getType()->getIntegerBitWidth();
		if (auto *PN = dyn_cast<PHINode>(V)) {
			auto it = C.env.find(PN);
			if (it != C.env.end() && it->second != PN) return U(C, it->second, depth);
		}
		if (Value *X = chosen(C.arms, V)) return U(C, X, depth + 1);
		auto mm = C.memoU.find(V);
		if (mm != C.memoU.end()) return mm->second;
		Expr r = U0(C, V, w, depth);
		C.memoU[V] = r;
		return r;
	}
	// an expression congruent to V modulo 2^w, taken apart where its own value does not resolve
	Expr ring(Ctx &C, Value *V, unsigned w, int depth, bool force = true) {
		Expr e;
		auto *I = dyn_cast<Operator>(V);
		unsigned vw = V->getType()->getIntegerBitWidth();
		if (auto *K = dyn_cast<ConstantInt>(V); K && vw <= 64) e.c = (I128)K->getZExtValue();
		else if (!I || vw < w || vw > 64 || depth > 64) e = U(C, V, depth + 1);
		else if (Expr x; !force && I->getOpcode() != Instruction::Mul && (x = U(C, V, depth + 1), !(x.c == 0 && x.k.size() == 1 && C.atom.count({V, 0}) && x.k.begin()->first == C.atom[{V, 0}]))) e = x;
		else switch (I->getOpcode()) {
			case Instruction::Trunc: 
				if (I->getOperand(0)->getType()->getIntegerBitWidth() <= 64) e = ring(C, I->getOperand(0), w, depth + 1, true);
				else e = atomU(C, V);
				break;
			case Instruction::Add:
			case Instruction::Sub:
				e = ring(C, I->getOperand(0), w, depth + 1, false);
				e.add(ring(C, I->getOperand(1), w, depth + 1, false), I->getOpcode() == Instruction::Add ? 1 : -1);
				break;
			case Instruction::Mul:
				if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1))) {
					I128 k = (I128)K->getZExtValue() % pow2(w);
					if (k >= pow2(w - 1)) k -= pow2(w);
					if (k < pow2(40) && k > -pow2(40)) { e.add(ring(C, I->getOperand(0), w, depth + 1, false), k); break; }
				}
				e = atomU(C, V);
				break;
			case Instruction::Shl:
				if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
					if (K->getZExtValue() < 40) { e.add(ring(C, I->getOperand(0), w, depth + 1, false), pow2(K->getZExtValue())); break; }
				e = atomU(C, V);
				break;
			case Instruction::FPToSI: case Instruction::SDiv: case Instruction::AShr: e = S(C, V, depth + 1); break; // its range may lie on both sides of zero
			default: e = U(C, V, depth + 1);
		}
		if (w < 64 && (e.c >= pow2(w) || e.c <= -pow2(w))) e.c %= pow2(w);
		return e;
	}
	Expr U0(Ctx &C, Value *V, unsigned w, int depth) {
		if (w > 64 || depth > 64) return atomU(C, V);
		auto *I = dyn_cast<Operator>(V);
		if (!I) return atomU(C, V);
		I128 M = pow2(w);
		auto fit = [&](Expr e) -> std::optional<Expr> {
			if (within(C, e, 0, M - 1)) return e;
			// exactly one wrap
			Expr a = e; a.c -= M; if (within(C, a, 0, M - 1)) return a;
			Expr b = e; b.c += M; if (within(C, b, 0, M - 1)) return b;
			return std::nullopt;
		};
		// the value modulo 2^w as an expression: exact if it fits
		auto ringFit = [&]() -> std::optional<Expr> { return fit(ring(C, V, w, depth)); };
		switch (I->getOpcode()) {
		case Instruction::ZExt: return U(C, I->getOperand(0), depth + 1);
		case Instruction::BitCast: // the representation of a floating-point value
			if (isFP(I->getOperand(0))) {
				Value *X = fpAlias(C, I->getOperand(0));
				if (auto *K = dyn_cast<ConstantFP>(X)) return num((I128)K->getValueAPF().bitcastToAPInt().getZExtValue());
				Expr e;
				e.k[atomOf(C, X, 3, 0, M - 1)] = 1;
				return e;
			}
			break;
		case Instruction::Trunc: {
			if (I->getOperand(0)->getType()->getIntegerBitWidth() > 64) break;
			Expr e = U(C, I->getOperand(0), depth + 1);
			if (auto r = fit(e)) return *r;
			if (auto r = ringFit()) return *r;
			break;
		}
		case Instruction::SExt: {
			Expr s = S(C, I->getOperand(0), depth + 1);
			if (auto r = fit(s)) return *r;
			break;
		}
		case Instruction::Freeze: return U(C, I->getOperand(0), depth + 1);
		case Instruction::Add: {
			Expr e = U(C, I->getOperand(0), depth + 1);
			if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
				e.c += (I128)K->getSExtValue();
			else e.add(U(C, I->getOperand(1), depth + 1), 1);
			if (noUnsignedWrap(I) && !isa<ConstantInt>(I->getOperand(1))) return e;
			if (noUnsignedWrap(I) && cast<ConstantInt>(I->getOperand(1))->getSExtValue() >= 0) return e;
			if (auto r = fit(e)) return *r;
			if (auto r = ringFit()) return *r;
			break;
		}
		case Instruction::Sub: {
			Expr e;
			if (!ptrDiff(C, I->getOperand(0), I->getOperand(1), e)) {
				e = U(C, I->getOperand(0), depth + 1);
				e.add(U(C, I->getOperand(1), depth + 1), -1);
			}
			if (auto r = fit(e)) return *r;
			if (auto r = ringFit()) return *r;
			break;
		}
		case Instruction::Mul:
			if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1))) {
				I128 k = (I128)K->getZExtValue();
				if (k < pow2(40)) { Expr e; e.add(U(C, I->getOperand(0), depth + 1), k); if (noUnsignedWrap(I) || within(C, e, 0, M - 1)) return e; }
				if (auto r = ringFit()) return *r;
			} else if (auto r = product(C, I, depth)) return *r;
			break;
		case Instruction::Shl:
			if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
				if (K->getZExtValue() < 40) { Expr e; e.add(U(C, I->getOperand(0), depth + 1), pow2(K->getZExtValue())); if (auto r = fit(e)) return *r; }
			break;
		case Instruction::Xor: // ~x == M-1-x
			if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
				if (K->isMinusOne() || (~computeKnownBits(I->getOperand(0), DL).Zero).isSubsetOf(K->getValue())) { // all bits that can be set are flipped
					Expr e = num((I128)K->getZExtValue());
					e.add(U(C, I->getOperand(0), depth + 1), -1);
					return e;
				}
			break;
		case Instruction::Or:
			if (disjointOr(I, DL)) {
				Expr e = U(C, I->getOperand(0), depth + 1);
				e.add(U(C, I->getOperand(1), depth + 1), 1);
				return e;
			}
			if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && K->getValue().countr_zero() > 0 && K->getValue().countr_zero() < 40) { // below the lowest bit set
				Expr e = U(C, I->getOperand(0), depth + 1);
				if (within(C, e, 0, pow2(K->getValue().countr_zero()) - 1)) { e.c += (I128)K->getZExtValue(); return e; }
			}
			break;
		case Instruction::UDiv:
		case Instruction::LShr:
			if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1))) {
				I128 k = I->getOpcode() == Instruction::UDiv ? (I128)K->getZExtValue() : (K->getZExtValue() < 63 ? pow2(K->getZExtValue()) : 0);
				if (k > 0) return bounded(C, V, floorQuot(C, U(C, I->getOperand(0), depth + 1), k));
			}
			break;
		case Instruction::URem:
			if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && !K->isZero()) {
				Expr x = U(C, I->getOperand(0), depth + 1);
				return bounded(C, V, modulo(C, x, (I128)K->getZExtValue()));
			} else {
				Expr r = atomU(C, V);
				Cons a = U(C, I->getOperand(0), depth + 1); a.add(r, -1); C.facts.push_back(a); // r <= x
				Cons b = U(C, I->getOperand(1), depth + 1); b.add(r, -1); b.c -= 1; C.facts.push_back(b); // r < y
				return r;
			}
		case Instruction::And: {
			if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && K->getValue().isShiftedMask()) {
				// bits [lo, hi) of x
				unsigned lo = K->getValue().countr_zero(), hi = K->getValue().getActiveBits();
				Expr x = U(C, I->getOperand(0), depth + 1);
				if (hi < w && !within(C, x, 0, pow2(hi) - 1)) {
					Expr y = ring(C, I->getOperand(0), hi, depth + 1);
					x = within(C, y, 0, pow2(hi) - 1) ? y : modulo(C, x, pow2(hi));
				}
				if (lo) { Expr r; r.add(floorQuot(C, x, pow2(lo)), pow2(lo)); x = r; }
				return bounded(C, V, x);
			}
			Expr r = atomU(C, V);
			for (int k = 0; k < 2; k++) { Cons a = U(C, I->getOperand(k), depth + 1); a.add(r, -1); C.facts.push_back(a); }
			return r;
		}
		case Instruction::Select: {
			Expr r = atomU(C, V);
			// min/max like: bounds that hold for both arms
			Expr a = U(C, I->getOperand(1), depth + 1), b = U(C, I->getOperand(2), depth + 1);
			Expr ab = a; ab.add(b, -1); // a - b
			if (entails(C, ab)) { Cons x = a; x.add(r, -1); C.facts.push_back(x); Cons y = r; y.add(b, -1); C.facts.push_back(y); }
			Expr ba = b; ba.add(a, -1);
			if (entails(C, ba)) { Cons x = b; x.add(r, -1); C.facts.push_back(x); Cons y = r; y.add(a, -1); C.facts.push_back(y); }
			return r;
		}
		case Instruction::Call: {
			if (auto *II = dyn_cast<IntrinsicInst>(V)) {
				Intrinsic::ID id = II->getIntrinsicID();
				if (id == Intrinsic::umin || id == Intrinsic::umax) {
					Expr r = atomU(C, V);
					for (int k = 0; k < 2; k++) {
						Expr a = U(C, II->getArgOperand(k), depth + 1);
						Cons x; if (id == Intrinsic::umin) { x = a; x.add(r, -1); } else { x = r; x.add(a, -1); }
						C.facts.push_back(x);
					}
					return r;
				}
				if (id == Intrinsic::usub_sat) {
					Expr a = U(C, II->getArgOperand(0), depth + 1), b = U(C, II->getArgOperand(1), depth + 1);
					Expr d = a; d.add(b, -1);
					if (entails(C, d)) return d;
					Expr r = atomU(C, V);
					Cons x = r; x.add(d, -1); C.facts.push_back(x); Cons y = a; y.add(r, -1); C.facts.push_back(y);
					return r;
				}
				if (id == Intrinsic::smax || id == Intrinsic::smin || id == Intrinsic::abs) {
					Expr s = S(C, V, depth + 1);
					if (within(C, s, 0, pow2(w - 1) - 1)) return s;
				}
			}
			break;
		}
		case Instruction::ExtractValue:
			if (auto *EV = dyn_cast<ExtractValueInst>(V))
				if (auto *WO = dyn_cast<WithOverflowInst>(EV->getAggregateOperand()))
					if (EV->getIndices()[0] == 0) {
						Expr a = WO->isSigned() ? S(C, WO->getLHS(), depth + 1) : U(C, WO->getLHS(), depth + 1);
						Expr b = WO->isSigned() ? S(C, WO->getRHS(), depth + 1) : U(C, WO->getRHS(), depth + 1);
						Expr e = a;
						if (WO->getBinaryOp() == Instruction::Add) e.add(b, 1);
						else if (WO->getBinaryOp() == Instruction::Sub) e.add(b, -1);
						else if (b.isConst()) { e = Expr(); e.add(a, b.c); }
						else break;
						if (auto r = fit(e)) return *r;
					}
			break;
		}
		if (I->getOpcode() == Instruction::AShr || I->getOpcode() == Instruction::SDiv) {
			Expr s = S0(C, V, w, depth + 1, true);
			if (within(C, s, 0, M - 1)) return s;
		}
		return atomU(C, V);
	}
	// signed value of V
	Expr S(Ctx &C, Value *V, int depth = 0) {
		if (auto *CI = dyn_cast<ConstantInt>(V)) {
			if (CI->getBitWidth() <= 64) return num((I128)CI->getSExtValue());
		}
		unsigned w = V->getType()->getIntegerBitWidth();
		if (auto *PN = dyn_cast<PHINode>(V)) {
			auto it = C.env.find(PN);
			if (it != C.env.end() && it->second != PN) return S(C, it->second, depth);
		}
		if (Value *X = chosen(C.arms, V)) return S(C, X, depth + 1);
		auto mm = C.memoS.find(V);
		if (mm != C.memoS.end()) return mm->second;
		Expr r = S0(C, V, w, depth);
		C.memoS[V] = r;
		return r;
	}
	Expr S0(Ctx &C, Value *V, unsigned w, int depth, bool noU = false) {
		I128 H = pow2(w - 1);
		auto *I = dyn_cast<Operator>(V);
		if (I && depth < 20 && w <= 64) {
			auto inRange = [&](const Expr &e) { return within(C, e, -H, H - 1); };
			switch (I->getOpcode()) {
			case Instruction::FPToSI: // of a small enough integer: that integer
				if (auto *K = dyn_cast<CastInst>(fpAlias(C, I->getOperand(0))); K && isFP(K) && (K->getOpcode() == Instruction::SIToFP || K->getOpcode() == Instruction::UIToFP)) {
					Value *X = K->getOperand(0);
					if (!X->getType()->isIntegerTy() || X->getType()->getIntegerBitWidth() > 64) break;
					Expr e = K->getOpcode() == Instruction::SIToFP ? S(C, X, depth + 1) : U(C, X, depth + 1);
					I128 m = pow2(K->getType()->isFloatTy() ? 24 : 53);
					if (within(C, e, -m, m) && inRange(e)) return e;
				}
				break;
			case Instruction::Select: {
				Expr a = S(C, I->getOperand(1), depth + 1), b = S(C, I->getOperand(2), depth + 1);
				Expr r = atomS(C, V, -H, H - 1);
				for (auto [hi, lo] : {std::pair{a, b}, std::pair{b, a}}) {
					Expr d = hi; d.add(lo, -1);
					if (!entails(C, d)) continue;
					Cons x = hi; x.add(r, -1); C.facts.push_back(x);
					Cons y = r; y.add(lo, -1); C.facts.push_back(y);
				}
				return r;
			}
			case Instruction::SExt: return S(C, I->getOperand(0), depth + 1);
			case Instruction::ZExt: return U(C, I->getOperand(0), depth + 1);
			case Instruction::Trunc: {
				if (I->getOperand(0)->getType()->getIntegerBitWidth() > 64) break;
				Expr e = S(C, I->getOperand(0), depth + 1);
				if (inRange(e)) return e;
				break;
			}
			case Instruction::Add:
			case Instruction::Sub: {
				Expr e;
				if (I->getOpcode() == Instruction::Sub && ptrDiff(C, I->getOperand(0), I->getOperand(1), e)) {
					if (inRange(e)) return e;
					break;
				}
				e = S(C, I->getOperand(0), depth + 1);
				e.add(S(C, I->getOperand(1), depth + 1), I->getOpcode() == Instruction::Add ? 1 : -1);
				if (inRange(e)) return e;
				break;
			}
			case Instruction::AShr:
				if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
					if (K->getZExtValue() < 40) {
						I128 k = pow2(K->getZExtValue());
						Expr x = S(C, I->getOperand(0), depth + 1);
						return floorQuot(C, x, k);
					}
				break;
			case Instruction::SDiv:
				if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)))
					if (K->getSExtValue() && K->getSExtValue() != INT64_MIN) {
						I128 k = (I128)K->getSExtValue();
						Expr x = S(C, I->getOperand(0), depth + 1);
						const bool neg = k < 0;
						if (neg) k = -k;
						auto sign = [&](Expr q) { if (!neg) return q; Expr m; m.add(q, -1); return m; };
						bool exact = x.c % k == 0;
						for (auto &[v, q] : x.k) exact = exact && q % k == 0;
						if (exact) { x.c /= k; for (auto &[v, q] : x.k) q /= k; return sign(x); }
						if (entails(C, x)) return sign(floorQuot(C, x, k));
						return sign(truncQuot(C, x, k));
					}
				break;
			case Instruction::Mul:
				if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1))) { Expr e; e.add(S(C, I->getOperand(0), depth + 1), (I128)K->getSExtValue()); if (!tooBig(e) && inRange(e)) return e; }
				break;
			case Instruction::Shl:
				if (auto *K = dyn_cast<ConstantInt>(I->getOperand(1)); K && K->getZExtValue() < 40) {
					Expr e;
					e.add(S(C, I->getOperand(0), depth + 1), pow2(K->getZExtValue()));
					if (!tooBig(e) && inRange(e)) return e;
				}
				break;
			case Instruction::ExtractValue:
				if (auto *EV = dyn_cast<ExtractValueInst>(V))
					if (auto *WO = dyn_cast<WithOverflowInst>(EV->getAggregateOperand()))
						if (EV->getIndices()[0] == 0) {
							Expr a = S(C, WO->getLHS(), depth + 1), b = S(C, WO->getRHS(), depth + 1);
							Expr e = a;
							if (WO->getBinaryOp() == Instruction::Add) e.add(b, 1);
							else if (WO->getBinaryOp() == Instruction::Sub) e.add(b, -1);
							else if (b.isConst()) { e = Expr(); e.add(a, b.c); }
							else break;
							if (inRange(e)) return e;
						}
				break;
			case Instruction::Call:
				if (auto *II = dyn_cast<IntrinsicInst>(V)) {
					Intrinsic::ID id = II->getIntrinsicID();
					if (id == Intrinsic::smin || id == Intrinsic::smax) {
						Expr r = atomS(C, V, -H, H - 1);
						for (int k = 0; k < 2; k++) {
							Expr a = S(C, II->getArgOperand(k), depth + 1);
							Cons x; if (id == Intrinsic::smin) { x = a; x.add(r, -1); } else { x = r; x.add(a, -1); }
							C.facts.push_back(x);
						}
						return r;
					}
				}
				break;
			default: break;
			}
		}
		if (noU) return atomS(C, V, -H, H - 1);
		// fall back on the unsigned view when it is provably in the lower or the upper half
		Expr u = U(C, V, depth + 1);
		if (w <= 64) {
			if (within(C, u, 0, H - 1)) return u;
			Expr up = u; up.c -= 2 * H;
			if (within(C, up, -H, -1)) return up;
		}
		return atomS(C, V, -H, H - 1);
	}
	Expr atomS(Ctx &C, Value *V, I128 lo, I128 hi) {
		unsigned w = V->getType()->getIntegerBitWidth();
		if (w <= 64) {
			ConstantRange CR = computeConstantRange(V, true);
			if (!CR.isEmptySet()) {
				I128 a = (I128)CR.getSignedMin().getSExtValue(), b = (I128)CR.getSignedMax().getSExtValue();
				if (a > lo) lo = a;
				if (b < hi) hi = b;
			}
			fromFloat(C, V, lo, hi, true);
		}
		Expr e; e.k[atomOf(C, V, 1, lo, hi)] = 1; return e;
	}
	// goal (list of e >= 0, all needed) for predicate; empty = not representable
	bool goalFor(Ctx &C, CmpInst::Predicate P, Value *A, Value *B, std::vector<Expr> &out) {
		if (A->getType()->isPointerTy()) {
			Expr x, y;
			Value *p = ptrOff(C, A, x), *q = ptrOff(C, B, y);
			if (!p || p != q) return false;
			if (P != CmpInst::ICMP_EQ && !(within(C, x, 0, (I128)1 << 48) && within(C, y, 0, (I128)1 << 48))) return false;
			auto geq = [&](const Expr &x, const Expr &y, int off) { Expr e = x; e.add(y, -1); e.c += off; out.push_back(e); };
			switch (P) {
			case CmpInst::ICMP_ULT: geq(y, x, -1); return true;
			case CmpInst::ICMP_ULE: geq(y, x, 0); return true;
			case CmpInst::ICMP_UGT: geq(x, y, -1); return true;
			case CmpInst::ICMP_UGE: geq(x, y, 0); return true;
			case CmpInst::ICMP_EQ: geq(x, y, 0); geq(y, x, 0); return true;
			default: return false;
			}
		}
		if (!A->getType()->isIntegerTy() || A->getType()->getIntegerBitWidth() > 64) return false;
		bool sg = CmpInst::isSigned(P);
		Expr a = sg ? S(C, A) : U(C, A), b = sg ? S(C, B) : U(C, B);
		auto geq = [&](const Expr &x, const Expr &y, int off) { Expr e = x; e.add(y, -1); e.c += off; out.push_back(e); };
		switch (P) {
		case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: geq(b, a, -1); return true;
		case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: geq(b, a, 0); return true;
		case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: geq(a, b, -1); return true;
		case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: geq(a, b, 0); return true;
		case CmpInst::ICMP_EQ: geq(a, b, 0); geq(b, a, 0); return true;
		default: return false;
		}
	}
	void addFact(Ctx &C, Value *Cond, bool truth, int depth = 0) {
		using namespace PatternMatch;
		if (depth > 6) return;
		Value *X, *Y;
		if (match(Cond, m_Not(m_Value(X)))) { addFact(C, X, !truth, depth + 1); return; }
		if (truth && match(Cond, m_LogicalAnd(m_Value(X), m_Value(Y)))) { addFact(C, X, true, depth + 1); addFact(C, Y, true, depth + 1); return; }
		if (!truth && match(Cond, m_LogicalOr(m_Value(X), m_Value(Y)))) { addFact(C, X, false, depth + 1); addFact(C, Y, false, depth + 1); return; }
		if (auto *PN = dyn_cast<PHINode>(Cond)) {
			auto it = C.env.find(PN);
			if (it != C.env.end() && it->second != PN) addFact(C, it->second, truth, depth + 1);
			return;
		}
		if (auto *EV = dyn_cast<ExtractValueInst>(Cond)) { // no overflow: the mathematical result fits
			if (auto *WO = dyn_cast<WithOverflowInst>(EV->getAggregateOperand()))
				if (EV->getIndices()[0] == 1 && !truth) {
					unsigned w = WO->getLHS()->getType()->getIntegerBitWidth();
					if (w > 64) return;
					bool sg = WO->isSigned();
					Expr a = sg ? S(C, WO->getLHS()) : U(C, WO->getLHS()), b = sg ? S(C, WO->getRHS()) : U(C, WO->getRHS());
					Expr e = a;
					if (WO->getBinaryOp() == Instruction::Add) e.add(b, 1);
					else if (WO->getBinaryOp() == Instruction::Sub) e.add(b, -1);
					else if (b.isConst()) { e = Expr(); e.add(a, b.c); }
					else return;
					I128 lo = sg ? -pow2(w - 1) : 0, hi = sg ? pow2(w - 1) - 1 : pow2(w) - 1;
					Cons x = e; x.c -= lo; C.facts.push_back(x);
					Cons y; y.add(e, -1); y.c += hi; C.facts.push_back(y);
				}
			return;
		}
		if (auto *FC = dyn_cast<FCmpInst>(Cond)) {
			unsigned m = (unsigned)FC->getPredicate();
			if (isFP(FC->getOperand(0))) { C.ffacts.push_back({FC->getOperand(0), FC->getOperand(1), truth ? m : 15 ^ m}); C.memoF.clear(); }
			return;
		}
		auto *IC = dyn_cast<ICmpInst>(Cond);
		if (!IC) return;
		auto P = truth ? IC->getPredicate() : IC->getInversePredicate();
		Value *A = IC->getOperand(0), *B = IC->getOperand(1);
		if (A->getType()->isPointerTy() && P != CmpInst::ICMP_NE) {
			std::vector<Expr> g;
			if (goalFor(C, P, A, B, g)) for (auto &e : g) C.facts.push_back(e);
			return;
		}
		if (!A->getType()->isPointerTy() && (!A->getType()->isIntegerTy() || A->getType()->getIntegerBitWidth() > 64)) return;
		if (P == CmpInst::ICMP_NE) {
			// useful at the ends of a range
			Expr d;
			if (A->getType()->isPointerTy()) {
				Expr x, y;
				Value *p = ptrOff(C, A, x), *q = ptrOff(C, B, y);
				if (!p || p != q) return;
				d = x; d.add(y, -1);
			} else {
				Expr a = U(C, A), b = U(C, B);
				d = a; d.add(b, -1);
			}
			if (entails(C, d)) { d.c -= 1; C.facts.push_back(d); }
			else { Expr n; n.add(d, -1); if (entails(C, n)) { n.c -= 1; C.facts.push_back(n); } }
			return;
		}
		std::vector<Expr> g;
		if (goalFor(C, P, A, B, g)) for (auto &e : g) C.facts.push_back(e);
		if (auto *K = dyn_cast<ConstantInt>(B)) { // x, x + k or the upper bits of x in a constant range: x in a range, in the signed and the unsigned view
			ConstantRange R = ConstantRange::makeExactICmpRegion(P, K->getValue());
			Value *X = nullptr;
			auto *O = dyn_cast<BinaryOperator>(A);
			auto *k = O ? dyn_cast<ConstantInt>(O->getOperand(1)) : nullptr;
			if (k && O->getOpcode() == Instruction::Add) { X = O->getOperand(0); R = R.subtract(k->getValue()); }
			else if (k && O->getOpcode() == Instruction::And && P == CmpInst::ICMP_EQ && (-k->getValue()).isPowerOf2() && K->getValue().isSubsetOf(k->getValue())) {
				X = O->getOperand(0);
				R = ConstantRange::getNonEmpty(K->getValue(), K->getValue() - k->getValue());
			} else if (CmpInst::isSigned(P) || CmpInst::isUnsigned(P)) X = A; // the other view
			if (X && !R.isFullSet() && !R.isEmptySet()) {
				if (!R.isSignWrappedSet() && !(X == A && CmpInst::isSigned(P))) {
					Expr x = S(C, X);
					Cons l = x; l.c -= (I128)R.getSignedMin().getSExtValue(); C.facts.push_back(l);
					Cons h; h.add(x, -1); h.c += (I128)R.getSignedMax().getSExtValue(); C.facts.push_back(h);
				}
				if (!R.isWrappedSet() && !(X == A && CmpInst::isUnsigned(P))) {
					Expr x = U(C, X);
					Cons l = x; l.c -= (I128)R.getUnsignedMin().getZExtValue(); C.facts.push_back(l);
					Cons h; h.add(x, -1); h.c += (I128)R.getUnsignedMax().getZExtValue(); C.facts.push_back(h);
				}
			}
		}
		if (auto *Add = dyn_cast<BinaryOperator>(A); Add && Add->getOpcode() == Instruction::Add && isa<ConstantInt>(Add->getOperand(1))) {
			// x + k compared as a machine integer: does the comparison say whether the sum wrapped?
			Expr r = U(C, A), t = U(C, Add->getOperand(0));
			I128 M = pow2(A->getType()->getIntegerBitWidth());
			t.c += (I128)cast<ConstantInt>(Add->getOperand(1))->getZExtValue();
			t.add(r, -1); // 0 or M
			if (!t.isConst()) {
				Expr atLeast1 = t; atLeast1.c -= 1;
				Expr below; below.add(t, -1); below.c += M - 1;
				auto refuted = [&](const Expr &e) { Expr n; n.add(e, -1); n.c -= 1; return entails(C, n); }; // e >= 0 impossible
				I128 val = refuted(atLeast1) ? 0 : refuted(below) ? M : -1;
				if (val < 0) { // the sum is in [0, M-1] when not wrapped: t >= M must be impossible
					Expr atM = t; atM.c -= M;
					if (refuted(atM)) val = 0;
					Expr at0; at0.add(t, -1); // t <= 0
					if (val < 0 && refuted(at0)) val = M;
				}
				if (val >= 0) { Expr e = t; e.c -= val; C.facts.push_back(e); Expr f; f.add(e, -1); C.facts.push_back(f); }
			}
		}
		if (P == CmpInst::ICMP_EQ) { // signed view too
			std::vector<Expr> g2;
			Expr a = S(C, A), b = S(C, B);
			Expr e = a; e.add(b, -1); C.facts.push_back(e);
			Expr f = b; f.add(a, -1); C.facts.push_back(f);
		}
	}
	// conditions on the edge From->To
	void edgeFacts(Ctx &C, BasicBlock *From, BasicBlock *To) {
		Instruction *T = From->getTerminator();
		if (auto *BI = dyn_cast<BranchInst>(T)) {
			if (BI->isConditional() && BI->getSuccessor(0) != BI->getSuccessor(1)) addFact(C, BI->getCondition(), BI->getSuccessor(0) == To);
		} else if (auto *SI = dyn_cast<SwitchInst>(T)) {
			if (SI->getDefaultDest() != To) {
				ConstantInt *K = SI->findCaseDest(To);
				if (K && SI->getCondition()->getType()->getIntegerBitWidth() <= 64) {
					Expr u = U(C, SI->getCondition());
					Expr e = u; e.c -= (I128)K->getZExtValue(); C.facts.push_back(e);
					Expr f; f.add(e, -1); C.facts.push_back(f);
				}
			}
		}
	}
	// facts of all edges dominating B, from the entry (or from block `stop`, exclusive, when given) down to B
	void domFacts(Ctx &C, BasicBlock *B, BasicBlock *stop) {
		std::vector<BasicBlock *> chain;
		for (auto *N = DT.getNode(B); N; N = N->getIDom()) {
			chain.push_back(N->getBlock());
			if (N->getBlock() == stop) break;
		}
		for (size_t i = chain.size(); i-- > 0;) {
			BasicBlock *X = chain[i];
			if (X == stop && i + 1 == chain.size()) continue;
			if (BasicBlock *P = X->getSinglePredecessor()) edgeFacts(C, P, X);
			else if (i + 1 < chain.size()) {
				// all predecessors but one are unreachable or the dominating edge is implied: use BasicBlockEdge dominance
				BasicBlock *D = chain[i + 1];
				for (BasicBlock *S2 : successors(D)) {
					BasicBlockEdge E(D, S2);
					if (E.isSingleEdge() && DT.dominates(E, X)) { edgeFacts(C, D, S2); break; }
				}
			}
		}
	}
	// phi nodes (non loop header) reachable from the expression of V
	void phisOf(Value *V, std::set<PHINode *> &out, std::set<Value *> &seen, int depth) {
		if (depth > 10 || !seen.insert(V).second) return;
		if (auto *PN = dyn_cast<PHINode>(V)) {
			if (!LI.isLoopHeader(PN->getParent())) out.insert(PN);
			return;
		}
		if (auto *I = dyn_cast<Instruction>(V))
			if (!isa<LoadInst>(I) && !isa<CallInst>(I) || isa<IntrinsicInst>(I))
				for (Value *O : I->operands()) if (O->getType()->isIntegerTy() || O->getType()->isPointerTy() || isFP(O)) phisOf(O, out, seen, depth + 1);
	}
	static bool isMinMax(Value *V) { return isa<MinMaxIntrinsic>(V); }
	static bool isWidened(Value *V) { // a truth value used as a number
		return (isa<ZExtInst>(V) || isa<SExtInst>(V)) && cast<CastInst>(V)->getOperand(0)->getType()->isIntegerTy(1) && !isa<Constant>(cast<CastInst>(V)->getOperand(0));
	}
	static Value *armOf(Instruction *I, bool arm) {
		if (isWidened(I)) return arm ? isa<ZExtInst>(I) ? ConstantInt::get(I->getType(), 1) : ConstantInt::getAllOnesValue(I->getType()) : ConstantInt::get(I->getType(), 0);
		if (auto *SL = dyn_cast<SelectInst>(I)) return arm ? SL->getTrueValue() : SL->getFalseValue();
		return cast<MinMaxIntrinsic>(I)->getArgOperand(arm ? 0 : 1);
	}
	static Value *chosen(const Arms &arms, Value *V) {
		if (!isa<SelectInst>(V) && !isMinMax(V) && !isWidened(V)) return nullptr;
		auto it = arms.find(cast<Instruction>(V));
		return it == arms.end() ? nullptr : armOf(it->first, it->second);
	}
	struct Path { std::vector<std::pair<BasicBlock *, BasicBlock *>> segs; Env env; Arms arms; }; // segments: facts for chain (B .. stop], then edge
	void selectsOf(const Path &path, Value *V, std::set<Instruction *> &out, std::set<Value *> &seen, int depth) {
		if (depth > 12 || !seen.insert(V).second) return;
		if (auto *PN = dyn_cast<PHINode>(V)) {
			auto it = path.env.find(PN);
			if (it != path.env.end() && it->second != PN) selectsOf(path, it->second, out, seen, depth + 1);
			return;
		}
		if (isWidened(V)) { out.insert(cast<Instruction>(V)); return; }
		if (isa<SelectInst>(V) || isMinMax(V)) {
			if (isFP(V) || V->getType()->isPointerTy() || (V->getType()->isIntegerTy() && V->getType()->getIntegerBitWidth() > 1)) out.insert(cast<Instruction>(V));
			if (Value *X = chosen(path.arms, V)) return selectsOf(path, X, out, seen, depth + 1);
			if (isa<SelectInst>(V)) return;
		}
		if (auto *I = dyn_cast<Instruction>(V))
			if ((!isa<LoadInst>(I) && !isa<CallInst>(I)) || isa<IntrinsicInst>(I))
				for (Value *O : I->operands()) if (O->getType()->isIntegerTy() || O->getType()->isPointerTy() || isFP(O)) selectsOf(path, O, out, seen, depth + 1);
	}
	bool cmpGoal(Ctx &C, CmpInst::Predicate P, Value *A, Value *B) {
		if (P == CmpInst::ICMP_NE) {
			// a != b: a < b or a > b
			std::vector<Expr> g1, g2;
			if (goalFor(C, CmpInst::ICMP_ULT, A, B, g1) && entails(C, g1[0])) return true;
			if (goalFor(C, CmpInst::ICMP_UGT, A, B, g2) && entails(C, g2[0])) return true;
		} else {
			std::vector<Expr> g;
			if (goalFor(C, P, A, B, g)) {
				bool all = true;
				for (auto &e : g) all = all && entails(C, e);
				if (all) return true;
			}
			if (P == CmpInst::ICMP_EQ && A->getType()->isIntegerTy()) { // in the signed view
				Expr d = S(C, A);
				d.add(S(C, B), -1);
				Expr n;
				n.add(d, -1);
				if (entails(C, d) && entails(C, n)) return true;
			}
		}
		if (P == CmpInst::ICMP_NE && A->getType()->isIntegerTy()) {
			Expr d = S(C, A);
			d.add(S(C, B), -1);
			Expr n;
			n.add(d, -1);
			d.c--; n.c--;
			if (entails(C, d) || entails(C, n)) return true;
		}
		return false;
	}
	bool proveOn(const std::function<bool(Ctx &)> &goal, Value *A, Value *B, BasicBlock *At, const Path &path, int depth) {
		Ctx C;
		C.env = path.env;
		C.arms = path.arms;
		// topmost first
		BasicBlock *top = At, *stop = nullptr;
		(void)top;
		std::vector<std::function<void()>> todo;
		// path.segs: from the use upward: {block from which to collect, merge block}, pred
		BasicBlock *cur = At;
		std::vector<std::pair<BasicBlock *, BasicBlock *>> steps; // (start, stopMerge)
		for (auto &[merge, pred] : path.segs) { steps.push_back({cur, merge}); cur = pred; }
		domFacts(C, cur, nullptr);
		for (size_t i = path.segs.size(); i-- > 0;) {
			edgeFacts(C, path.segs[i].second, path.segs[i].first);
			domFacts(C, steps[i].first, path.segs[i].first);
		}
		(void)stop;
		for (auto &[I, arm] : path.arms)
			if (auto *SL = dyn_cast<SelectInst>(I)) addFact(C, SL->getCondition(), arm);
			else if (isWidened(I)) addFact(C, I->getOperand(0), arm);
			else {
				auto *MM = cast<MinMaxIntrinsic>(I);
				auto P = CmpInst::getNonStrictPredicate(MM->getPredicate()); // slt for smin, ...
				std::vector<Expr> g;
				if (goalFor(C, P, armOf(I, arm), armOf(I, !arm), g)) for (auto &e : g) C.facts.push_back(e);
			}
		if (contradiction(C)) return true; // path infeasible
		if (goal(C)) return true;
		if (depth <= 0) return false;
		// case split on a select the compared values are made of
		{
			std::set<Instruction *> sels;
			std::set<Value *> seenS;
			selectsOf(path, A, sels, seenS, 0);
			selectsOf(path, B, sels, seenS, 0);
			for (Instruction &I : instructions(F)) { // a fixed order
				if (!sels.count(&I) || path.arms.count(&I)) continue;
				for (bool arm : {true, false}) {
					Path np = path;
					np.arms[&I] = arm;
					if (!proveOn(goal, A, B, At, np, depth - 1)) return false;
				}
				return true;
			}
		}
		// split on the nearest merge whose phi matters
		std::set<PHINode *> phis;
		std::set<Value *> seen;
		auto viaEnv = [&](Value *V) {
			std::set<PHINode *> ps;
			phisOf(V, ps, seen, 0);
			std::vector<PHINode *> wl(ps.begin(), ps.end());
			while (!wl.empty()) {
				PHINode *p = wl.back(); wl.pop_back();
				auto it = path.env.find(p);
				if (it == path.env.end()) phis.insert(p);
				else { std::set<PHINode *> more; phisOf(it->second, more, seen, 0); for (auto *m : more) wl.push_back(m); }
			}
		};
		viaEnv(A); viaEnv(B);
		// the merge must dominate the current top of the path
		BasicBlock *topB = path.segs.empty() ? At : path.segs.back().second;
		PHINode *best = nullptr;
		for (PHINode *p : phis) {
			if (!DT.dominates(p->getParent(), topB)) continue;
			if (!best || DT.dominates(best->getParent(), p->getParent())) best = p;
		}
		BasicBlock *Mg = best ? best->getParent() : nullptr;
		if (!Mg) { // on the nearest merge: what is known may differ by where the path came from
			for (auto *N = DT.getNode(topB); N && !Mg; N = N->getIDom())
				if (!N->getBlock()->getSinglePredecessor() && !pred_empty(N->getBlock())) Mg = N->getBlock();
			if (!Mg || LI.isLoopHeader(Mg) || LI.getLoopFor(Mg) != LI.getLoopFor(topB) || pred_size(Mg) > 4) return false;
			for (auto &[m, p] : path.segs) if (m == Mg) return false;
			depth = std::min(depth, 2);
		}
		if (LI.getLoopFor(Mg) != LI.getLoopFor(topB) && LI.getLoopFor(topB) && !LI.getLoopFor(topB)->contains(Mg)) {
			// the use is in a deeper loop than the merge: values of the merge are loop invariant, still fine
		}
		for (BasicBlock *Pr : predecessors(Mg)) {
			Path np = path;
			np.segs.push_back({Mg, Pr});
			for (PHINode &q : Mg->phis()) np.env[&q] = q.getIncomingValueForBlock(Pr);
			if (!proveOn(goal, A, B, At, np, depth - 1)) return false;
		}
		return true;
	}
	bool contradiction(Ctx &C) {
		std::set<int> all;
		for (auto &e : C.facts) for (auto &[v, q] : e.k) all.insert(v);
		return infeasible(C.facts, all) || fpContradiction(C);
	}

public:
	Analyzer(Function &F, DominatorTree &DT, LoopInfo &LI) : F(F), DT(DT), LI(LI), DL(F.getParent()->getDataLayout()) {}
	bool differs(Value *A, ConstantInt *K, BasicBlock *At, int depth) { // A can never be K here
		if (A->getType()->getIntegerBitWidth() > 64) return false;
		return proveOn([&](Ctx &C) { return cmpGoal(C, CmpInst::ICMP_NE, A, K); }, A, K, At, Path(), depth);
	}
	int decide(ICmpInst *IC, BasicBlock *At, int depth) { // 1 true, 0 false, -1 unknown
		Path p;
		Type *T = IC->getOperand(0)->getType();
		if (!T->isPointerTy() && (!T->isIntegerTy() || T->getIntegerBitWidth() > 64)) return -1;
		Value *A = IC->getOperand(0), *B = IC->getOperand(1);
		if (proveOn([&](Ctx &C) { return cmpGoal(C, IC->getPredicate(), A, B); }, A, B, At, p, depth)) return 1;
		if (proveOn([&](Ctx &C) { return cmpGoal(C, IC->getInversePredicate(), A, B); }, A, B, At, p, depth)) return 0;
		return -1;
	}
	int decideF(FCmpInst *FC, BasicBlock *At, int depth) {
		Value *A = FC->getOperand(0), *B = FC->getOperand(1);
		if (!isFP(A)) return -1;
		unsigned m = (unsigned)FC->getPredicate();
		if (proveOn([&](Ctx &C) { return !(fpRel(C, A, B) & ~m & 15); }, A, B, At, Path(), depth)) return 1;
		if (proveOn([&](Ctx &C) { return !(fpRel(C, A, B) & m); }, A, B, At, Path(), depth)) return 0;
		return -1;
	}
	bool noOverflow(WithOverflowInst *WO, BasicBlock *At, int depth) {
		unsigned w = WO->getLHS()->getType()->getIntegerBitWidth();
		if (w > 64) return false;
		bool sg = WO->isSigned();
		Path p;
		return proveOn([&](Ctx &C) {
			Expr a = sg ? S(C, WO->getLHS()) : U(C, WO->getLHS()), b = sg ? S(C, WO->getRHS()) : U(C, WO->getRHS());
			Expr e = a;
			if (WO->getBinaryOp() == Instruction::Add) e.add(b, 1);
			else if (WO->getBinaryOp() == Instruction::Sub) e.add(b, -1);
			else if (b.isConst()) { e = Expr(); e.add(a, b.c); }
			else return false;
			return sg ? within(C, e, -pow2(w - 1), pow2(w - 1) - 1) : within(C, e, 0, pow2(w) - 1);
		}, WO->getLHS(), WO->getRHS(), At, p, depth);
	}
	bool deadBlock(BasicBlock *B, int splits) {
		Ctx C;
		domFacts(C, B, nullptr);
		if (contradiction(C)) return true;
		auto *BI = cast<BranchInst>(B->getSinglePredecessor()->getTerminator());
		return proveOn([](Ctx &) { return false; }, BI->getCondition(), BI->getCondition(), B, Path(), splits);
	}
};

struct Stats { unsigned tried = 0, decided = 0; };
static Stats stats;
// decide every comparison that feeds a branch/select in F; returns true when something changed
static bool run(Function &F, int depth) {
	bool changed = false;
	DominatorTree DT(F);
	LoopInfo LI(DT);
	Analyzer A(F, DT, LI);
	std::vector<Instruction *> W;
	for (Instruction &I : instructions(F)) {
		if (isa<CmpInst>(I)) W.push_back(&I);
		if (isa<FPToUIInst>(I) || isa<FPToSIInst>(I)) W.push_back(&I);
		if (auto *EV = dyn_cast<ExtractValueInst>(&I)) if (isa<WithOverflowInst>(EV->getAggregateOperand()) && EV->getIndices()[0] == 1) W.push_back(&I);
	}
	for (Instruction *I : W) {
		if (!DT.isReachableFromEntry(I->getParent())) continue;
		stats.tried++;
		if (auto *FI = dyn_cast<CastInst>(I)) {
			if (!FI->getType()->isIntegerTy()) continue;
			auto put = [&](Use &U, I128 v) { U.set(ConstantInt::get(FI->getType(), (uint64_t)(int64_t)v, true)); stats.decided++; changed = true; };
			SmallVector<Use *, 4> Uses;
			for (Use &U : FI->uses()) Uses.push_back(&U);
			auto whole = A.oneInt(FI, FI->getParent());
			for (Use *U : Uses) {
				auto *UI = dyn_cast<Instruction>(U->getUser());
				auto v = whole;
				if (!v && UI && UI->getParent() != FI->getParent() && !isa<PHINode>(UI)) v = A.oneInt(FI, UI->getParent());
				if (v) put(*U, *v);
			}
		} else if (auto *IC = dyn_cast<CmpInst>(I)) {
			auto decide = [&](BasicBlock *At) { auto *FC = dyn_cast<FCmpInst>(IC); return FC ? A.decideF(FC, At, depth) : A.decide(cast<ICmpInst>(IC), At, depth); };
			// a comparison may be computed above the branch that uses it: decide it where it is used
			SmallVector<Use *, 4> Uses;
			for (Use &U : IC->uses()) Uses.push_back(&U);
			int whole = decide(IC->getParent());
			if (whole >= 0) {
				IC->replaceAllUsesWith(ConstantInt::get(IC->getType(), whole));
				stats.decided++; changed = true;
				continue;
			}
			for (Use *U : Uses) {
				auto *UI = dyn_cast<Instruction>(U->getUser());
				if (!UI || UI->getParent() == IC->getParent() || isa<PHINode>(UI)) continue;
				int d = decide(UI->getParent());
				if (d >= 0) { U->set(ConstantInt::get(IC->getType(), d)); stats.decided++; changed = true; }
			}
		} else {
			auto *WO = cast<WithOverflowInst>(cast<ExtractValueInst>(I)->getAggregateOperand());
			if (A.noOverflow(WO, I->getParent(), depth)) { I->replaceAllUsesWith(ConstantInt::getFalse(I->getType())); stats.decided++; changed = true; }
		}
	}
	// blocks that end in a failure: infeasible when the conditions leading there contradict each other together
	for (BasicBlock &B : F) {
		if (!isa<UnreachableInst>(B.getTerminator()) || !DT.isReachableFromEntry(&B)) continue;
		BasicBlock *P = B.getSinglePredecessor();
		auto *BI = P ? dyn_cast<BranchInst>(P->getTerminator()) : nullptr;
		if (!BI || !BI->isConditional() || isa<Constant>(BI->getCondition()) || isa<ICmpInst>(BI->getCondition()) || BI->getSuccessor(0) == BI->getSuccessor(1)) continue;
		stats.tried++;
		if (A.deadBlock(&B, depth)) {
			BI->setCondition(ConstantInt::get(BI->getCondition()->getType(), BI->getSuccessor(0) != &B));
			stats.decided++; changed = true;
		}
	}
	// cases of a switch that lead to a failure and cannot occur
	std::vector<std::pair<SwitchInst *, ConstantInt *>> never;
	for (BasicBlock &B : F) {
		auto *SI = dyn_cast<SwitchInst>(B.getTerminator());
		if (!SI || !DT.isReachableFromEntry(&B)) continue;
		for (auto &Case : SI->cases())
			if (isa<UnreachableInst>(Case.getCaseSuccessor()->getTerminator()) && Case.getCaseSuccessor() != SI->getDefaultDest()) {
				stats.tried++;
				if (A.differs(SI->getCondition(), Case.getCaseValue(), &B, depth)) never.push_back({SI, Case.getCaseValue()});
			}
	}
	for (auto &[SI, K] : never) {
		auto It = SI->findCaseValue(K);
		It->getCaseSuccessor()->removePredecessor(SI->getParent());
		SI->removeCase(It);
		stats.decided++; changed = true;
	}
	return changed;
}
} // namespace lin
