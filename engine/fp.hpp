// Interval arithmetic over IEEE single and double values. Rounding to nearest is monotone, so the image of an interval
// is the hull of the images of its corners; a single-precision operation done in double precision and rounded once
// more gives the same result (53 >= 2 * 24 + 2).
#pragma once
#include <algorithm>
#include <cmath>
#include <initializer_list>
namespace fpi {
struct Iv { // [lo, hi], perhaps also NaN; lo > hi: no number
	double lo = -HUGE_VAL, hi = HUGE_VAL;
	bool nan = true;
	bool empty() const { return lo > hi; }
	static Iv of(double v) { Iv r; if (std::isnan(v)) { r.lo = HUGE_VAL; r.hi = -HUGE_VAL; } else { r.lo = r.hi = v; r.nan = false; } return r; }
	static Iv range(double a, double b, bool n = false) { Iv r; r.lo = a; r.hi = b; r.nan = n; return r; }
	static Iv none() { return range(HUGE_VAL, -HUGE_VAL, false); }
	bool point() const { return lo == hi && !nan; }
	bool has(double v) const { return lo <= v && v <= hi; }
	bool finite() const { return !nan && std::isfinite(lo) && std::isfinite(hi); }
	Iv join(const Iv &o) const { return range(std::min(lo, o.lo), std::max(hi, o.hi), nan || o.nan); }
	Iv meet(const Iv &o) const { return range(std::max(lo, o.lo), std::min(hi, o.hi), nan && o.nan); }
};
inline double rnd(double v, bool single) { return single ? (double)(float)v : v; }
inline double next(double v, bool single, bool up) {
	return single ? (double)std::nextafterf((float)v, up ? HUGE_VALF : -HUGE_VALF) : std::nextafter(v, up ? HUGE_VAL : -HUGE_VAL);
}
inline Iv hull(std::initializer_list<double> vs, bool nan) {
	Iv r = Iv::none();
	r.nan = nan;
	for (double v : vs) {
		if (std::isnan(v)) { r.nan = true; continue; }
		r.lo = std::min(r.lo, v); r.hi = std::max(r.hi, v);
	}
	return r;
}
inline bool hasInf(const Iv &a) { return std::isinf(a.lo) || std::isinf(a.hi); }
inline Iv add(const Iv &a, const Iv &b, bool s) {
	if (a.empty() || b.empty()) return Iv::range(HUGE_VAL, -HUGE_VAL, a.nan || b.nan);
	bool n = a.nan || b.nan || (a.hi == HUGE_VAL && b.lo == -HUGE_VAL) || (a.lo == -HUGE_VAL && b.hi == HUGE_VAL);
	double l = rnd(a.lo + b.lo, s), h = rnd(a.hi + b.hi, s);
	return Iv::range(std::isnan(l) ? -HUGE_VAL : l, std::isnan(h) ? HUGE_VAL : h, n);
}
inline Iv neg(const Iv &a) { return Iv::range(-a.hi, -a.lo, a.nan); }
inline Iv mul(const Iv &a, const Iv &b, bool s) {
	if (a.empty() || b.empty()) return Iv::range(HUGE_VAL, -HUGE_VAL, a.nan || b.nan);
	bool n = a.nan || b.nan || (hasInf(a) && b.has(0)) || (hasInf(b) && a.has(0));
	auto p = [&](double x, double y) { return (x == 0 || y == 0) ? 0.0 : rnd(x * y, s); };
	return hull({p(a.lo, b.lo), p(a.lo, b.hi), p(a.hi, b.lo), p(a.hi, b.hi)}, n);
}
inline Iv div(const Iv &a, const Iv &b, bool s) {
	if (a.empty() || b.empty()) return Iv::range(HUGE_VAL, -HUGE_VAL, a.nan || b.nan);
	if (b.has(0)) {
		if (a.has(0) || (hasInf(a) && hasInf(b))) return Iv{};
		return Iv::range(-HUGE_VAL, HUGE_VAL, a.nan || b.nan); // the sign of a zero is not tracked
	}
	bool n = a.nan || b.nan || (hasInf(a) && hasInf(b));
	auto q = [&](double x, double y) { double v = x / y; return std::isnan(v) ? 0.0 : rnd(v, s); };
	Iv r = hull({q(a.lo, b.lo), q(a.lo, b.hi), q(a.hi, b.lo), q(a.hi, b.hi)}, n);
	if (hasInf(a) && hasInf(b)) r = Iv::range(-HUGE_VAL, HUGE_VAL, true);
	return r;
}
// a * b + c, fused or not: the compiler may choose
inline Iv muladd(const Iv &a, const Iv &b, const Iv &c, bool s) {
	Iv u = add(mul(a, b, s), c, s);
	if (a.empty() || b.empty() || c.empty()) return u;
	if (u.nan && (hasInf(a) || hasInf(b))) return Iv::range(-HUGE_VAL, HUGE_VAL, u.nan);
	Iv f = Iv::range(HUGE_VAL, -HUGE_VAL, u.nan);
	for (double x : {a.lo, a.hi}) for (double y : {b.lo, b.hi}) for (double z : {c.lo, c.hi}) {
		double v = s ? (double)std::fmaf((float)x, (float)y, (float)z) : std::fma(x, y, z);
		f = f.join(Iv::of(v));
	}
	return u.join(f);
}
enum { EQ = 1, GT = 2, LT = 4, UNO = 8 };
// the relations that are possible between a value of a and a value of b
inline unsigned relation(const Iv &a, const Iv &b) {
	unsigned m = a.nan || b.nan ? UNO : 0;
	if (a.empty() || b.empty()) return m;
	if (a.lo < b.hi) m |= LT;
	if (a.hi > b.lo) m |= GT;
	if (a.lo <= b.hi && b.lo <= a.hi) m |= EQ;
	return m;
}
inline unsigned swapped(unsigned m) { return (m & (EQ | UNO)) | (m & GT ? LT : 0) | (m & LT ? GT : 0); }
// relation of u and w given those of u, v and v, w
inline unsigned compose(unsigned a, unsigned b) {
	if ((a | b) & UNO) return 15;
	unsigned m = 0;
	for (unsigned x : {EQ, GT, LT}) for (unsigned y : {EQ, GT, LT})
		if ((a & x) && (b & y)) m |= x == EQ ? y : y == EQ ? x : x == y ? x : (EQ | GT | LT);
	return m;
}
} // namespace fpi
