// Integer helpers against their mathematical definitions.
// VFA: -peel=12 -recurse=34
#include "vf.hh"
#include "util/math.hh"
#include <bit>
#include <limits>
using namespace MathTools;

template<class T>
struct Pow2 { // highest bit B, lowest bit L; one more row: zero
	template<size_t B, size_t L>
	static void run() {
		constexpr size_t bits = sizeof(T) * 8;
		if constexpr (B == bits && L == 0) {
			PROVE(next_power_of_2(T(0)) == 1);
			PROVE(!is_power_of_2(T(0)));
		} else if constexpr (B < bits && L <= B) {
			constexpr T top = T(T(1) << B), low = T(T(1) << L);
			T v = T(any<T>() & T(top - 1) & T(~T(low - 1))) | top | low;
			if constexpr (B == L) PROVE(v == top);
			T r = next_power_of_2(v);
			if (B == L) PROVE(r == top);
			else PROVE(r == T(T(top - 1) * 2 + 2)); // twice the top bit; 0 when that does not fit
			PROVE(is_power_of_2(v) == (B == L));
		}
		REACH();
	}
};
using P8 = Pow2<uint8_t>;
CELLS(P8, 9, 8);
using P16 = Pow2<uint16_t>;
CELLS(P16, 17, 16);
using P32 = Pow2<uint32_t>;
CELLS(P32, 33, 32);
using P64 = Pow2<uint64_t>;
CELLS(P64, 65, 64);

struct LogFloor {
	template<size_t B>
	static void run() {
		if constexpr (B == 32) {
			PROVE(log2_floor(0) == 0);
		} else {
			constexpr uint32_t top = 1u << B;
			uint32_t v = top | (any<uint32_t>() & (top - 1));
			PROVE(log2_floor(v) == B);
			PROVE(Log2<top>::val == B && Log2<top + (top - 1)>::val == B);
		}
		REACH();
	}
};
CELLS(LogFloor, 33);

struct IPow {
	template<size_t B>
	static void run() {
		uint32_t a = any<uint32_t>(), r = 1;
		for (size_t i = 0; i < B; i++) r *= a;
		PROVE(ipow(a, B) == r);
		REACH();
	}
};
CELLS(IPow, 6);

struct TypeRange {
	static void run() {
		PROVE(bipolar_type_range(any<int8_t>()) == 127);
		PROVE(bipolar_type_range(any<int16_t>()) == 32767);
		PROVE(bipolar_type_range(any<int32_t>()) == 2147483647u);
		REACH();
	}
};
CELLS(TypeRange);

template<class T>
struct Pick {
	static void run() {
		T a = any<T, 1>(), b = any<T, 2>(), x = any<T, 3>();
		if constexpr (std::is_floating_point_v<T>) ASSUME(a == a && b == b && x == x);
		T lo = MathTools::min(a, b), hi = MathTools::max(a, b);
		if (a < b) {
			PROVE(lo == a);
			PROVE(hi == b);
		} else {
			PROVE(lo == b);
			PROVE(hi == a);
		}
		if (a <= b) {
			T c = constrain(x, a, b);
			PROVE(c >= a && c <= b);
			if (x >= a && x <= b) PROVE(c == x);
			if (x < a) PROVE(c == a);
			if (x > b) PROVE(c == b);
		}
		REACH();
	}
};
using PickU8 = Pick<uint8_t>;
CELLS(PickU8);
using PickI16 = Pick<int16_t>;
CELLS(PickI16);
using PickI32 = Pick<int32_t>;
CELLS(PickI32);
using PickU32 = Pick<uint32_t>;
CELLS(PickU32);
using PickI64 = Pick<int64_t>;
CELLS(PickI64);
using PickF = Pick<float>;
CELLS(PickF);

template<class T>
struct Distance {
	static void run() {
		T a = any<T, 1>(), b = any<T, 2>();
		if constexpr (std::is_signed_v<T>) ASSUME(a > std::numeric_limits<T>::min() / 4 && a < std::numeric_limits<T>::max() / 4 && b > std::numeric_limits<T>::min() / 4 && b < std::numeric_limits<T>::max() / 4);
		T d = abs_diff(a, b), e = diff(a, b);
		PROVE(d == e);
		if (a >= b) PROVE(d == a - b);
		else PROVE(d == b - a);
		REACH();
	}
};
using DistU8 = Distance<uint8_t>;
CELLS(DistU8);
using DistI16 = Distance<int16_t>;
CELLS(DistI16);
using DistI32 = Distance<int32_t>;
CELLS(DistI32);
using DistU32 = Distance<uint32_t>;
CELLS(DistU32);
using DistU64 = Distance<uint64_t>;
CELLS(DistU64);

template<class T>
struct Between {
	static void run() {
		T x = any<T, 1>(), lo = any<T, 2>(), hi = any<T, 3>();
		if constexpr (std::is_signed_v<T>) ASSUME(lo > -1000000000 && hi < 1000000000); // the distance is representable
		auto r = between(x, lo, hi);
		PROVE(r.has_value() == (x >= lo && x <= hi));
		if (r) PROVE(*r == x - lo);
		REACH();
	}
};
using BetweenI = Between<int32_t>;
CELLS(BetweenI);
using BetweenU = Between<uint32_t>;
CELLS(BetweenU);

// wrapping: inside the range, for any start; the same value modulo the range, for starts up to four ranges away
template<uint32_t MAX>
struct WrapMax {
	template<size_t K>
	static void run() {
		uint32_t v = any<uint32_t>();
		if constexpr (K == 0) {
			PROVE(wrap<MAX>(v) < MAX);
		} else {
			constexpr uint32_t lo = (K - 1) * MAX;
			ASSUME(v >= lo && v < lo + MAX);
			PROVE(wrap<MAX>(v) == v - lo);
		}
		REACH();
	}
};
using Wrap1 = WrapMax<1>;
CELLS(Wrap1, 5);
using Wrap7 = WrapMax<7>;
CELLS(Wrap7, 5);
using Wrap1000 = WrapMax<1000>;
CELLS(Wrap1000, 5);

template<int LO, int HI>
struct WrapRange {
	template<size_t K>
	static void run() {
		int v = any<int>();
		constexpr int n = HI - LO + 1;
		if constexpr (K == 0) {
			ASSUME(v >= -1000000000 && v <= 1000000000);
			int r = wrap(v, LO, HI);
			PROVE(r >= LO && r <= HI);
		} else {
			constexpr int base = LO + (int(K) - 4) * n;
			ASSUME(v >= base && v < base + n);
			PROVE(wrap(v, LO, HI) == v - base + LO);
		}
		REACH();
	}
};
using WrapA = WrapRange<1, 2>;
CELLS(WrapA, 8);
using WrapB = WrapRange<-5, 6>;
CELLS(WrapB, 8);
using WrapC = WrapRange<0, 0>;
CELLS(WrapC, 8);
using WrapD = WrapRange<100, 355>;
CELLS(WrapD, 8);

struct Plateau {
	static void run() {
		int32_t v = any<int32_t, 1>(), c = any<int32_t, 2>();
		uint32_t w = any<uint32_t, 3>();
		ASSUME(v > -500000000 && v < 500000000 && c > -500000000 && c < 500000000 && w < 500000000);
		int32_t h = int32_t(w / 2), r = plateau(v, w, c);
		if (v > c + h) PROVE(r == v - c - h);
		else if (v < c - h) PROVE(r == v - c + h);
		else PROVE(r == 0);
		REACH();
	}
};
CELLS(Plateau);

struct Bytes {
	static void run() {
		uint32_t w = any<uint32_t, 1>();
		uint16_t h = any<uint16_t, 2>(), g = any<uint16_t, 3>();
		auto byte = [](uint32_t x, int i) { return uint8_t(x >> (8 * i)); };
		uint32_t r = swap_bytes32(w);
		PROVE(byte(r, 3) == byte(w, 0));
		PROVE(byte(r, 2) == byte(w, 1));
		PROVE(byte(r, 1) == byte(w, 2));
		PROVE(byte(r, 0) == byte(w, 3));
		uint16_t q = swap_bytes16(h);
		PROVE(byte(q, 1) == byte(h, 0));
		PROVE(byte(q, 0) == byte(h, 1));
		uint32_t c = swap_bytes_and_combine(h, g);
		PROVE(byte(c, 3) == byte(h, 0));
		PROVE(byte(c, 2) == byte(h, 1));
		PROVE(byte(c, 1) == byte(g, 0));
		PROVE(byte(c, 0) == byte(g, 1));
		REACH();
	}
};
CELLS(Bytes);

template<uint32_t MAX>
struct Interpolate {
	template<size_t Q>
	static void run() { // both ends and in between: never outside the two values
		int32_t a = any<int32_t, 1>(), b = any<int32_t, 2>();
		constexpr int32_t phase = int32_t(uint64_t(MAX) * Q / 4);
		int32_t r = interpolate<MAX>(a, b, phase);
		if (Q == 0) PROVE(r == a);
		if (Q == 4) PROVE(r == b);
		if (a <= b) {
			PROVE(r >= a);
			PROVE(r <= b);
		} else {
			PROVE(r >= b);
			PROVE(r <= a);
		}
		REACH();
	}
};
using Interp256 = Interpolate<256>;
CELLS(Interp256, 5);
using Interp1000 = Interpolate<1000>;
CELLS(Interp1000, 5);
using Interp65536 = Interpolate<65536>;
CELLS(Interp65536, 5);

struct Finite {
	static void run() {
		float f = any<float>();
		PROVE(is_finite_fastmath(f) == ((std::bit_cast<uint32_t>(f) & 0x7f800000u) != 0x7f800000u));
		constexpr float big = std::numeric_limits<float>::max();
		if (f >= -big && f <= big) PROVE(!is_inf_fastmath(f));
		if (f > big) PROVE(is_inf_fastmath(f));
		if (f < -big) PROVE(is_inf_fastmath(f));
		REACH();
	}
};
CELLS(Finite);

struct Gate { // on only above the upper threshold, off only below the lower one
	static void run() {
		float off = any<float, 1>(), on = any<float, 2>(), x = any<float, 3>();
		PROVE(hysteresis_gate(off, on, 0.f, x) == (x > on ? 1.f : 0.f));
		float r = hysteresis_gate(off, on, 1.f, x);
		if (x > off) PROVE(r == 1.f);
		if (x < off) PROVE(r == 0.f);
		PROVE(r == 0.f || r == 1.f);
		REACH();
	}
};
CELLS(Gate);
struct Feedback { // the last output moves the threshold by the given amount
	template<size_t LAST>
	static void run() {
		float coef = any<float, 1>(), thresh = any<float, 2>(), x = any<float, 3>();
		ASSUME(coef > -1e6f && coef < 1e6f && x > -1e6f && x < 1e6f);
		float r = hysteresis_feedback(coef, thresh, LAST ? 1.f : 0.f, x);
		PROVE(r == 0.f || r == 1.f);
		if (LAST) PROVE(r == (x + coef > thresh ? 1.f : 0.f));
		else PROVE(r == (x + 0.f * coef > thresh ? 1.f : 0.f));
		REACH();
	}
};
CELLS(Feedback, 2);
struct Magnitude {
	static void run() {
		float x = any<float>();
		if (x >= 0.f) PROVE(f_abs(x) == x);
		if (x < 0.f) PROVE(f_abs(x) == -x && f_abs(x) > 0.f);
		REACH();
	}
};
CELLS(Magnitude);
struct Adjacent { // each element less the one before
	static void run() {
		constexpr std::array<int, 6> in{5, -3, 100, 100, 7, -2000000000};
		constexpr auto d = array_adj_diff(in);
		PROVE(d.size() == 5);
		for (size_t i = 0; i < 5; i++) PROVE(d[i] == in[i + 1] - in[i]);
		constexpr std::array<unsigned, 2> u{3, 10};
		constexpr auto e = array_adj_diff(u);
		PROVE(e.size() == 1 && e[0] == 7);
		REACH();
	}
};
CELLS(Adjacent);
