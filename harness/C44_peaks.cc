// VFA: -peel=4
// Running minimum, maximum and average of a signal.
#include "vf.hh"
#include <array>
#include <bit>
#include <cstddef>
#include "util/analyzed_signal.hh"
static bool same(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }
static bool same(int a, int b) { return a == b; }
static bool same(uint8_t a, uint8_t b) { return a == b; }

template<class T, size_t ORDER, class M>
static void three(M &m) { // fresh: extremes of what came, whatever its sign
	static constexpr std::array<size_t, 3> orders[6] = {{{0, 1, 2}}, {{0, 2, 1}}, {{1, 0, 2}}, {{1, 2, 0}}, {{2, 0, 1}}, {{2, 1, 0}}};
	constexpr auto at = orders[ORDER];
	const T v[3] = {any<T, 1>(), any<T, 2>(), any<T, 3>()};
	if constexpr (std::is_floating_point_v<T>) { // numbers
		for (auto x : v) ASSUME(x > -1e30f && x < 1e30f);
	}
	ASSUME(v[at[0]] <= v[at[1]] && v[at[1]] <= v[at[2]] && v[at[0]] <= v[at[2]]);
	m.update(v[0]);
	PROVE(m.min == v[0] && m.max == v[0]);
	m.update(v[1]);
	constexpr bool up = at[0] == 0 || at[2] == 1; // the first two: in order?
	PROVE(m.min == v[!up] && m.max == v[up]);
	m.update(v[2]);
	PROVE(m.min == v[at[0]]);
	PROVE(m.max == v[at[2]]);
}
template<class T>
struct Peak {
	template<size_t OP, size_t ORDER>
	static void run() {
		auto &m = construct<PeakMeter<T>>();
		if constexpr (OP == 1) {
			m.min = any<T, 5>();
			m.max = any<T, 6>();
			m.reset();
		}
		three<T, ORDER>(m);
		REACH();
	}
};
using PeakF = Peak<float>;
CELLS(PeakF, 2, 6);
using PeakI = Peak<int>;
CELLS(PeakI, 2, 6);
using PeakU = Peak<uint8_t>;
CELLS(PeakU, 2, 6);

struct Step { // any state
	static void run() {
		auto &s = opaque<AnalyzedSignal<4>>();
		float lo = any<float, 1>(), hi = any<float, 2>(), x = any<float, 3>();
		ASSUME(lo <= hi && x == x);
		s.min = lo;
		s.max = hi;
		s.update(x);
		if (x < lo) PROVE(same(s.min, x));
		else PROVE(same(s.min, lo));
		if (x > hi) PROVE(same(s.max, x));
		else PROVE(same(s.max, hi));
		PROVE(same(s.avg, s.iir));
		s.reset_to(x);
		PROVE(same(s.min, x) && same(s.max, x) && same(s.avg, x) && same(s.iir, x));
		REACH();
	}
};
CELLS(Step);
struct Fresh {
	template<size_t ORDER>
	static void run() {
		auto &s = construct<AnalyzedSignal<100>>();
		PROVE(s.avg == 0 && s.iir == 0);
		three<float, ORDER>(s);
		REACH();
	}
};
CELLS(Fresh, 6);

struct Iir { // the average moves from where it is toward the input, by the coefficient
	template<size_t FROM, size_t TO>
	static void run() {
		constexpr float at[5] = {-100.f, -1.f, 0.f, 2.f, 64.f};
		auto &s = construct<AnalyzedSignal<4>>();
		float a = any<float, 1>(), x = any<float, 2>();
		ASSUME(a >= at[FROM] && a <= at[FROM] + 0.01f && x >= at[TO] && x <= at[TO] + 0.01f);
		s.iir = a;
		s.update(x);
		const float want = at[FROM] + (at[TO] - at[FROM]) / 4;
		PROVE(s.iir > want - 0.05f);
		PROVE(s.iir < want + 0.05f);
		REACH();
	}
};
CELLS(Iir, 5, 5);
