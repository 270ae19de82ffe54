// VFA: -peel=4
// Moving averages, oversamplers, one-pole filters.
#include "containers.hh"
#include <algorithm>
#include <bit>
#include <cmath>
#include "util/filter.hh"

static bool same(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }
static bool alike(float a, float b) { return same(a, b); }
template<class T>
static bool alike(T a, T b) { return a == b; }
template<class T>
static T in(T &v) { // a value of twelve bits
	ASSUME(v >= 0 && v < 4096);
	return v;
}

template<size_t Size, class T>
struct Moving { // the mean of the last values, rounded down, wherever the oldest is
	template<size_t AT>
	static void run() {
		using M = MovingAverage<Size, T>;
		auto &m = opaque<M>();
		auto &old = opaque<std::array<T, Size>, 1>();
		auto &fresh = opaque<std::array<T, Size + 1>, 2>();
		unsigned sum = 0;
		for (size_t i = 0; i < Size; i++) sum += m.buff_[i] = in(old[i]);
		m.sum_ = sum;
		m.idx_ = AT;
		PROVE(m.val() == T(sum / Size));
		for (size_t k = 0; k < Size + 1; k++) { // a whole turn and one more
			unsigned left = k < Size ? old[(AT + k) % Size] : fresh[k - Size];
			sum = sum - left + in(fresh[k]);
			T got = m.add_val(fresh[k]);
			PROVE(got == T(sum / Size));
			PROVE(m.val() == got);
		}
		REACH();
	}
};
using Moving1 = Moving<1, unsigned>;
CELLS(Moving1, 1);
using Moving2 = Moving<2, uint16_t>;
CELLS(Moving2, 2);
using Moving4 = Moving<4, unsigned>;
CELLS(Moving4, 4);
using Moving8 = Moving<8, uint16_t>;
CELLS(Moving8, 8);

using Moving32 = Moving<32, uint16_t>; // the sum needs more bits than the values
CELLS(Moving32, 2);

template<class F, size_t Size, bool Smooth>
struct Over { // one new value per Size inputs, the mean of exactly those
	template<size_t AT>
	static void run() {
		auto &f = opaque<F>();
		auto &fresh = opaque<std::array<uint16_t, 2 * Size>, 1>();
		unsigned sum = any<unsigned, 2>();
		auto held = any<decltype(f.val()), 3>();
		ASSUME(sum <= 4096 * AT);
		if constexpr (AT == 0) sum = 0;
		f.idx_ = AT;
		f.buff_ = sum;
		f.val_ = held;
		PROVE(alike(f.val(), held));
		for (size_t k = 0; k < 2 * Size; k++) {
			sum += in(fresh[k]);
			auto got = f.add_val(fresh[k]);
			if ((AT + k + 1) % Size == 0) {
				if constexpr (Smooth) {
					const float q = float(sum) / float(Size), r = float(sum) * (1.f / float(Size));
					PROVE(same(got, q) || same(got, r));
				} else PROVE(got == sum / Size);
				held = got;
				sum = 0;
			} else PROVE(alike(got, held));
			PROVE(alike(f.val(), held));
		}
		REACH();
	}
};
using Over1 = Over<Oversampler<1>, 1, false>;
CELLS(Over1, 1);
using Over4 = Over<Oversampler<4>, 4, false>;
CELLS(Over4, 4);
using Over8 = Over<Oversampler<8>, 8, false>;
CELLS(Over8, 8);
using Over32 = Over<Oversampler<32, uint16_t>, 32, false>; // the sum needs more bits than the values
CELLS(Over32, 2);
using Smooth1 = Over<SmoothOversampler<1>, 1, true>;
CELLS(Smooth1, 1);
using Smooth3 = Over<SmoothOversampler<3>, 3, true>;
CELLS(Smooth3, 3);
using Smooth4 = Over<SmoothOversampler<4>, 4, true>;
CELLS(Smooth4, 4);

using Smooth20 = Over<SmoothOversampler<20, uint16_t>, 20, true>;
CELLS(Smooth20, 2);

struct Resize { // Size S, AT values taken, then resized to N
	template<size_t S, size_t AT, size_t N>
	static void run() {
		if constexpr (S >= 1 && AT < S) {
			auto &f = opaque<ResizingOversampler>();
			float sum = any<float, 1>(), held = any<float, 2>();
			auto &fresh = opaque<std::array<float, 6>, 3>();
			f.size_ = S;
			f.idx_ = AT;
			f.buff_ = sum;
			f.val_ = held;
			auto mean = [](float got, float sum, size_t n) { return same(got, sum / float(n)) || same(got, sum * (1.f / float(n))); };
			size_t at = AT, size = S;
			if constexpr (N > 0) {
				f.set_size(N);
				size = N;
				if (at >= N) {
					PROVE(mean(f.val(), sum, AT));
					held = f.val();
					sum = 0;
					at = 0;
				} else PROVE(same(f.val(), held));
			} else {
				auto &g = construct<ResizingOversampler, 5>(7u);
				PROVE(g.size_ == 7 && g.val() == 0);
				g = f;
				PROVE(g.size_ == S && g.idx_ == AT && same(g.buff_, sum) && same(g.val(), held));
				g.reset();
				PROVE(g.size_ == S && g.idx_ == 0 && g.buff_ == 0 && g.val() == 0);
			}
			for (size_t k = 0; k < 6; k++) {
				ASSUME(fresh[k] == fresh[k] && sum == sum);
				sum += fresh[k];
				at++;
				float got = f.add_val(fresh[k]);
				if (at == size) {
					PROVE(mean(got, sum, size));
					held = got;
					sum = 0;
					at = 0;
				} else PROVE(same(got, held));
				PROVE(same(f.val(), held));
			}
			REACH();
		}
	}
};
CELLS(Resize, 5, 4, 6);

// what a transfer function makes of the difference is added; nothing else
struct Own {
	static inline float seen;
	static float Process(float x) {
		seen = x;
		return any<float, 9>();
	}
};
struct Series {
	static void run() {
		auto &p = opaque<NonLinearOnePoleLp<float, Own>>();
		float s = any<float, 1>(), x = any<float, 2>();
		p.state_ = s;
		PROVE(same(p.val(), s));
		float got = p.add_val(x);
		PROVE(same(Own::seen, x - s));
		PROVE(same(got, s + any<float, 9>()));
		PROVE(same(p.val(), got));
		auto &q = construct<NonLinearOnePoleLp<float, Own>, 3>(s);
		PROVE(same(q.val(), s));
		auto &z = construct<NonLinearOnePoleLp<float, Own>, 4>();
		PROVE(z.val() == 0);
		auto &n = opaque<NoFilter<int>, 5>();
		int v = any<int, 6>();
		PROVE(n.add_val(v) == v && n.val() == v);
		REACH();
	}
};
CELLS(Series);

struct Cascade { // the second filter sees the first one's value once per question
	struct One {
		int last, calls = 0;
		int add_val(int v) {
			last = v;
			calls++;
			return any<int, 1>();
		}
		int val() { return any<int, 2>(); }
	};
	struct Two {
		int last, calls = 0;
		int add_val(int v) {
			last = v;
			calls++;
			return any<int, 3>();
		}
	};
	static void run() {
		auto &c = construct<CascadingFilter<int, One, Two>>();
		int v = any<int, 4>();
		PROVE(c.add_val(v) == (any<int, 1>()));
		PROVE(c.f1.last == v && c.f1.calls == 1 && c.f2.calls == 0);
		PROVE(c.val() == (any<int, 3>()));
		PROVE(c.f2.last == (any<int, 2>()) && c.f2.calls == 1 && c.f1.calls == 1);
		REACH();
	}
};
CELLS(Cascade);

struct Hyst { // within the band nothing moves; outside, the output follows to the edge of the band
	template<size_t B>
	static void run() {
		float x = any<float, 1>();
		constexpr float lo = -4.f + B / 4.f, hi = lo + 0.25f; // the band is 2/4
		ASSUME(x >= lo && x <= hi);
		float y = TransferHysteresis<2, 4>::Process(x);
		if constexpr (lo >= -0.5f && hi <= 0.5f) PROVE(y == 0);
		else if constexpr (lo >= 0.5f) PROVE(y >= lo - 0.5f && y <= hi - 0.5f);
		else PROVE(y >= lo + 0.5f && y <= hi + 0.5f);
		float z = TransferQuadratic<4>::Process(x); // keeps the sign; never past the input
		constexpr float big = (lo < 0 ? lo * lo : hi * hi) / 4, small = (lo < 0 ? hi * hi : lo * lo) / 4;
		if constexpr (lo >= 0) PROVE(z >= small && z <= big);
		else PROVE(z <= -small && z >= -big);
		HysteresisFilter<2, 4> h;
		PROVE(h.val() == 0);
		float got = h.add_val(x);
		if constexpr (lo >= -0.5f && hi <= 0.5f) PROVE(got == 0);
		else PROVE(got >= lo - 0.5f && got <= hi + 0.5f);
		REACH();
	}
};
CELLS(Hyst, 32);
