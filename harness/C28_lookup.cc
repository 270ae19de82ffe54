// Interpolating lookups: within bounds for every phase, exact at the points, on the line between them.
#include "vf.hh"
#include <array>
#include <cmath>
#include <cstddef>
#include "util/interp_array.hh"
#include "util/lookup_table.hh"

template<class T, size_t N, class P>
using Arr = InterpArray<T, N, P>;

constexpr double pts[8] = {1., -2., 8., 3.5, -0.75, 6., 64., -32.};
template<class A, size_t N>
static A &filled() {
	A &a = construct<A>();
	for (size_t i = 0; i < N; i++) a.set(i, decltype(a.get(0))(pts[i]));
	return a;
}
// the least and greatest of the line through the points (around to the first one) over [lo, hi]
template<size_t N, class T>
struct Line {
	double least = 1e30, most = -1e30;
	static constexpr double at(double x) {
		while (x < 0) x += N;
		while (x >= N) x -= N;
		const size_t i = size_t(x);
		return double(T(pts[i])) + double(T(pts[(i + 1) % N]) - T(pts[i])) * (x - double(i));
	}
	constexpr void see(double v) {
		if (v < least) least = v;
		if (v > most) most = v;
	}
	constexpr Line(double lo, double hi) {
		see(at(lo));
		see(at(hi));
		for (int k = -64; k < 64; k++)
			if (k > lo && k < hi) see(at(k));
	}
};
template<size_t N>
static constexpr double step(double x) { // the point at or before x
	while (x < 0) x += N;
	while (x >= N) x -= N;
	return pts[size_t(x)];
}

template<class T, size_t N, class P>
struct Interp {
	template<size_t B> // an eighth of a point wide, five turns
	static void run() {
		constexpr double lo = (double(B) - 16. * N) / 8., hi = lo + 0.125;
		if constexpr (B < 40 * N) {
			auto &a = filled<Arr<T, N, P>, N>();
			P x = any<P, 1>();
			ASSUME(x > P(lo) + P(0.0001) && x < P(hi) - P(0.0001));
			constexpr Line<N, T> l{lo, hi};
			constexpr double slack = std::is_integral_v<T> ? 1. : 0.001;
			T y = a.interp_by_index_wrap(x);
			PROVE(double(y) >= l.least - slack && double(y) <= l.most + slack);
			constexpr double s = step<N>(lo);
			P ph = any<P, 2>();
			ASSUME(ph > P(lo / N) + P(0.0001) && ph < P(hi / N) - P(0.0001));
			y = a.interp_wrap(ph);
			PROVE(double(y) >= l.least - slack && double(y) <= l.most + slack);
			y = a.closest_wrap(ph);
			PROVE(y == T(s));
			if constexpr (lo >= 0 && hi <= N - 1) {
				y = a.interp_by_index(x);
				PROVE(double(y) >= l.least - slack && double(y) <= l.most + slack);
				P q = any<P, 3>();
				ASSUME(q > P(lo / (N - 1)) + P(0.0001) && q < P(hi / (N - 1)) - P(0.0001));
				y = a.interp(q);
				PROVE(double(y) >= l.least - slack && double(y) <= l.most + slack);
				y = a.closest(q);
				PROVE(y == T(s));
			}
			REACH();
		}
	}
};
using InterpF4 = Interp<float, 4, float>;
CELLS(InterpF4, 160);
using InterpD3 = Interp<float, 3, double>;
CELLS(InterpD3, 120);
using InterpI5 = Interp<int, 5, float>;
CELLS(InterpI5, 200);

template<class T, size_t N, class P>
struct AtPoints { // exactly the points, also whole turns away
	template<size_t K>
	static void run() {
		if constexpr (K < 5 * N) {
			auto &a = filled<Arr<T, N, P>, N>();
			constexpr int k = int(K) - 2 * int(N), p = (k + 4 * int(N)) % int(N);
			PROVE(a.interp_by_index_wrap(P(k)) == T(pts[p]));
			if constexpr ((N & (N - 1)) == 0) {
				PROVE(a.interp_wrap(P(k) / P(N)) == T(pts[p]));
				PROVE(a.closest_wrap(P(k) / P(N)) == T(pts[p]));
			}
			if constexpr (k >= 0 && k < int(N)) {
				PROVE(a.interp_by_index(P(k)) == T(pts[p]));
				PROVE(a[k] == T(pts[p]) && a.get(k) == T(pts[p]));
				if constexpr (((N - 1) & (N - 2)) == 0) {
					PROVE(a.interp(P(k) / P(N - 1)) == T(pts[p]));
					PROVE(a.closest(P(k) / P(N - 1)) == T(pts[p]));
				}
				if constexpr (k == N - 1) {
					PROVE(a.interp(P(1)) == T(pts[p]));
					PROVE(a.closest(P(1)) == T(pts[p]));
				}
				a.set(k, T(7));
				a[(k + 1) % N] = T(9);
				for (size_t j = 0; j < N; j++) PROVE(a.get(j) == (j == (k + 1) % N ? T(9) : j == size_t(k) ? T(7) : T(pts[j])));
			}
			REACH();
		}
	}
};
using PointsF4 = AtPoints<float, 4, float>;
CELLS(PointsF4, 20);
using PointsD3 = AtPoints<float, 3, double>;
CELLS(PointsD3, 15);
using PointsI5 = AtPoints<int, 5, float>;
CELLS(PointsI5, 25);
using PointsF8 = AtPoints<float, 8, float>;
CELLS(PointsF8, 40);

struct Inside { // any phase: an element, whatever the turn
	template<size_t W, size_t TURN>
	static void run() {
		auto &a = opaque<Arr<float, 8, float>>();
		float x = any<float, 1>();
		constexpr float at = float(TURN) - 40.f;
		ASSUME(x > at + 0.0001f && x < at + 0.9999f);
		if constexpr (W == 0) (void)a.interp_wrap(x);
		else if constexpr (W == 1) (void)a.closest_wrap(x);
		else if constexpr (W == 2) (void)a.interp_by_index_wrap(x * 8.f);
		else if constexpr (TURN == 40) {
			float y = any<float, 2>();
			ASSUME(y >= 0.f && y <= 1.f);
			(void)a.interp(y);
			(void)a.closest(y);
			float z = any<float, 3>();
			ASSUME(z >= 0.f && z <= 7.f);
			(void)a.interp_by_index(z);
		}
		REACH();
	}
};
CELLS(Inside, 4, 80);

struct Range {
	static constexpr float min = -2.f, max = 2.f;
};
static constexpr float fn(float x) { return x * x * x - 3.f * x; }
template<size_t N>
struct Table {
	template<size_t B>
	static void run() {
		auto &t = construct<LookupTable<N>>(LookupTable<N>::template generate<Range>([](float x) { return fn(x); }));
		constexpr double lo = -3. + B / 16., hi = lo + 0.0625;
		float x = any<float, 1>();
		ASSUME(x > float(lo) + 0.0001f && x < float(hi) - 0.0001f);
		const double first = (lo + 2) / 4 * (N - 1), last = (hi + 2) / 4 * (N - 1);
		if (lo > -2 && hi < 2 && first > 0 && int(first) != int(last)) { // a point within
			(void)t.lookup(x);
			REACH();
			return;
		}
		auto line = [](double x) {
			if (x <= -2) return double(fn(-2));
			if (x >= 2) return double(fn(2));
			double s = (x + 2) / 4 * (N - 1);
			size_t i = size_t(s);
			if (i == N - 1) i--;
			double p = fn(float(-2. + double(i) * 4. / (N - 1))), q = fn(float(-2. + double(i + 1) * 4. / (N - 1)));
			return p + (q - p) * (s - double(i));
		};
		double a = line(lo), b = line(hi);
		double least = a < b ? a : b, most = a < b ? b : a;
		for (size_t i = 0; i < N; i++) {
			double p = -2. + double(i) * 4. / (N - 1);
			if (p > lo && p < hi) {
				double v = fn(float(p));
				if (v < least) least = v;
				if (v > most) most = v;
			}
		}
		float y = t.lookup(x);
		PROVE(y >= least - 0.001 && y <= most + 0.001);
		y = t(x);
		PROVE(y >= least - 0.001 && y <= most + 0.001);
		REACH();
	}
};
using Table9 = Table<9>;
CELLS(Table9, 96);
using Table2 = Table<2>;
CELLS(Table2, 96);
using Table6 = Table<6>;
CELLS(Table6, 96);

struct Given { // any table, any question
	template<size_t I>
	static void run() {
		auto &pt = opaque<std::array<float, 5>>();
		for (auto &p : pt) ASSUME(p >= -4.f && p <= 4.f);
		auto &t = construct<LookupTable<5>, 1>(-1.f, 1.f, pt);
		float x = any<float, 2>(); // NaN too
		float y = t.lookup(x);
		if (x <= -1.f) PROVE(y == pt[0]);
		if (x >= 1.f) PROVE(y == pt[4]);
		y = t.lookup(-1.f + I * 0.5f);
		PROVE(y >= pt[I] - 0.0001f);
		PROVE(y <= pt[I] + 0.0001f);
		if constexpr (I < 4) {
			float z = any<float, 3>();
			constexpr float lo = -1.f + I * 0.5f, hi = lo + 0.5f;
			ASSUME(z > lo + 0.0001f && z < hi - 0.0001f);
			y = t(z);
			PROVE(y >= -4.001f && y <= 4.001f);
			ASSUME(z < lo + 0.1251f && z > lo + 0.1249f);
			y = t(z); // a quarter of the way
			const float q = 0.75f * pt[I] + 0.25f * pt[I + 1];
			PROVE(y > q - 0.01f);
			PROVE(y < q + 0.01f);
		}
		REACH();
	}
};
CELLS(Given, 5);
