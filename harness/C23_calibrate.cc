// Calibration: a line through measurements, applied and inverted.
#include "vf.hh"
#include <bit>
#include <cmath>
#include "util/calibrator.hh"
#include <type_traits>
#include "util/voct_calibrator.hh"

static bool bits(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }

struct Apply {
	template<size_t OP>
	static void run() {
		const float s = any<float, 1>(), o = any<float, 2>(), x = any<float, 3>();
		if constexpr (OP == 0) {
			const Calibrator c{s, o};
			PROVE(bits(c.slope(), s) && bits(c.offset(), o));
			PROVE(bits(c.adjust(x), (x - o) * s));
			PROVE(bits(c.reverse_calibrate(x), x / s + o));
		}
		if constexpr (OP == 1) { // untouched until calibrated
			auto &c = construct<Calibrator>();
			PROVE(bits(c.slope(), 1) && bits(c.offset(), 0) && bits(c.adjust(x), x));
		}
		if constexpr (OP == 2) {
			auto &c = opaque<Calibrator>();
			c.set_slope_offset(s, o);
			PROVE(bits(c.slope(), s) && bits(c.offset(), o));
		}
		if constexpr (OP == 3) { // every way of calibrating gives the same line
			const float tl = any<float, 4>(), th = any<float, 5>(), ml = any<float, 6>(), mh = any<float, 7>();
			auto &a = opaque<Calibrator, 1>();
			auto &b = opaque<Calibrator, 2>();
			a.calibrate_chan(tl, th, ml, mh);
			b.calibrate_chan(std::pair{tl, th}, std::pair{ml, mh});
			auto &c = construct<Calibrator, 3>(std::pair{tl, th}, std::pair{ml, mh});
			PROVE(bits(a.slope(), b.slope()) && bits(a.offset(), b.offset()));
			PROVE(bits(a.slope(), c.slope()) && bits(a.offset(), c.offset()));
		}
		REACH();
	}
};
CELLS(Apply, 4);

// the two measured points are mapped to their targets, whichever way round they are given
struct Points {
	template<size_t I, size_t SWAP>
	static void run() {
		struct P { float tl, th, ml, mh; };
		constexpr P points[]{{0, 8, 10, 14}, {-1, 1, -2, 2}, {0, 5, 0.1f, 4.9f}, {1, 2, 2047, 2457}, {-5, 5, 4012, 83}, {100, 900, 12, 31},
							 {0, 4095, 0.25f, 3.05f}, {-0.5f, 0.5f, -32000, 31000}, {2, 4, 1, 3}, {10, -10, 3, 8}};
		constexpr P p = SWAP ? P{points[I].th, points[I].tl, points[I].mh, points[I].ml} : points[I];
		Calibrator c;
		c.calibrate_chan(p.tl, p.th, p.ml, p.mh);
		auto near = [&](float a, float b) { return a - b < 1e-4f * std::abs(p.th - p.tl) && b - a < 1e-4f * std::abs(p.th - p.tl); };
		auto nearm = [&](float a, float b) { return a - b < 1e-4f * std::abs(p.mh - p.ml) && b - a < 1e-4f * std::abs(p.mh - p.ml); };
		PROVE(near(c.adjust(p.ml), p.tl) && near(c.adjust(p.mh), p.th));
		PROVE(near(c.adjust((p.ml + p.mh) / 2), (p.tl + p.th) / 2));
		PROVE(nearm(c.reverse_calibrate(p.tl), p.ml) && nearm(c.reverse_calibrate(p.th), p.mh));
		PROVE(near(c.adjust(c.reverse_calibrate(p.th * 0.25f)), p.th * 0.25f));
		REACH();
	}
};
CELLS(Points, 10, 2);

using V = VoctCalibrator<int>;
template<size_t I>
constexpr V::Note note = V::Note(I);
static int value(int v) {
	ASSUME(v >= -(1 << 20) && v <= 1 << 20);
	return v;
}

// from the beginning: two octaves on a line give that line
struct Line {
	template<size_t A, size_t B>
	static void run() {
		V &c = construct<V>();
		PROVE(c.offset() == 0 && c.slope() == 0);
		const int o = value(any<int, 1>()), s = value(any<int, 2>());
		ASSUME(A != B && A < 11 && B < 11 && s >= 0);
		c.record_measurement(note<A>, o + s * int(A));
		if (A == 0) PROVE(c.offset() == o);
		c.record_measurement(note<B>, o + s * int(B));
		PROVE(c.slope() == s);
		PROVE(c.offset() == o);
		REACH();
	}
};

static bool bits(int a, int b) { return a == b; }
template<class T>
static T value(T v) {
	return v;
}

// any calibration so far: the latest two octaves decide the slope, and the offset until C0 is measured
template<class T, size_t STATE>
struct Later {
	template<size_t A, size_t B>
	static void run() {
		using V = VoctCalibrator<T>;
		auto &c = opaque<V>();
		c.num_datapt_ = STATE / 2;
		c.measured_C0_ = STATE % 2;
		const T a = value(any<T, 1>()), b = value(any<T, 2>()), before = c.offset();
		ASSUME(a - b != 0);
		for (auto &p : c.datapt_) { // what the first of the two calls drops or pairs with
			p.first = typename V::Note((A + 1) % 11);
			value(p.second);
		}
		value(c.slope_);
		value(c.offset_);
		c.record_measurement(typename V::Note(A), a);
		c.record_measurement(typename V::Note(B), b);
		const T slope = (a - b) / (int(A) - int(B));
		PROVE(bits(c.slope(), slope));
		if (B == 0) PROVE(bits(c.offset(), b));
		else if (A == 0) PROVE(bits(c.offset(), a));
		else if (STATE % 2) PROVE(bits(c.offset(), before));
		else PROVE(bits(c.offset(), ((a - slope * int(A)) + (b - slope * int(B))) / 2));
		PROVE(c.measured_C0_ == (STATE % 2 || A == 0 || B == 0));
		REACH();
	}
};
// nothing from before a reset counts
struct Reset {
	template<size_t A, size_t B>
	static void run() {
		auto &c = opaque<V, 1>();
		auto &fresh = construct<V, 2>();
		c.reset();
		PROVE(c.offset() == 0 && c.slope() == 0);
		const int a = value(any<int, 1>()), b = value(any<int, 2>());
		c.record_measurement(note<A>, a);
		fresh.record_measurement(note<A>, a);
		PROVE(c.offset() == fresh.offset() && c.slope() == fresh.slope());
		c.record_measurement(note<B>, b);
		fresh.record_measurement(note<B>, b);
		PROVE(c.offset() == fresh.offset() && c.slope() == fresh.slope());
		REACH();
	}
};
// every ordered pair of different octaves
template<class S>
struct Pairs {
	template<size_t K>
	static void run() { S::template run<K / 10, K % 10 >= K / 10 ? K % 10 + 1 : K % 10>(); }
};
CELLS(Pairs<Line>, 110);
CELLS(Pairs<Reset>, 110);
template<class T>
struct Laters {
	template<size_t K, size_t STATE>
	static void run() { Pairs<Later<T, STATE>>::template run<K>(); }
};
CELLS(Laters<int>, 110, 6);
CELLS(Laters<float>, 110, 6);

template<class T>
static void sane(VoctCalibrator<T> &c, size_t count) {
	c.num_datapt_ = count;
	for (auto &p : c.datapt_) {
		ASSUME(int(p.first) >= 0 && int(p.first) <= 11);
		value(p.second);
	}
	value(c.slope_);
	value(c.offset_);
}
struct Ignored {
	template<size_t OP, size_t COUNT>
	static void run() {
		if constexpr (OP == 0) { // no note: nothing changes
			auto &c = opaque<VoctCalibrator<float>>();
			const auto old = c;
			c.record_measurement(VoctCalibrator<float>::None, any<float, 1>());
			PROVE(bits(c.offset(), old.offset()) && bits(c.slope(), old.slope()) && c.num_datapt_ == old.num_datapt_ && c.measured_C0_ == old.measured_C0_);
			for (int i = 0; i < 2; i++)
				PROVE(c.datapt_[i].first == old.datapt_[i].first && bits(c.datapt_[i].second, old.datapt_[i].second));
		}
		if constexpr (OP == 1) { // C0 is the offset itself
			auto &c = opaque<VoctCalibrator<float>>();
			sane(c, COUNT);
			const float m = any<float, 1>();
			c.record_measurement(VoctCalibrator<float>::C0, m);
			PROVE(bits(c.offset(), m));
		}
		if constexpr (OP == 2) { // the same octave twice, or the same value: the slope stays
			auto &c = opaque<V>();
			sane(c, COUNT);
			if (COUNT == 0) return;
			ASSUME(c.datapt_[(COUNT + 1) % 2].first == V::C4);
			const int s = c.slope();
			c.record_measurement(V::C4, value(any<int, 1>()));
			PROVE(c.slope() == s);
		}
		if constexpr (OP == 3) {
			auto &c = opaque<V>();
			sane(c, COUNT);
			if (COUNT == 0) return;
			const int s = c.slope(), last = c.datapt_[(COUNT + 1) % 2].second;
			c.record_measurement(V::C7, last);
			PROVE(c.slope() == s);
		}
		if constexpr (OP == 4) { // after a reset nothing from before counts
			auto &c = opaque<V>();
			c.reset();
			PROVE(c.offset() == 0 && c.slope() == 0);
			c.record_measurement(V::C3, value(any<int, 1>()));
			PROVE(c.offset() == 0 && c.slope() == 0);
		}
		REACH();
	}
};
CELLS(Ignored, 5, 3);
