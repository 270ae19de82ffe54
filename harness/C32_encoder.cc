// VFA: -peel=4
// Quadrature decoding and motion bookkeeping.
#include "vf.hh"
#include "util/quadrature_encoder.hh"
#include "util/rotary_motion.hh"
#include <limits>

// the last three different inputs before this one (oldest first) and this one, as A + 2 B
template<bool INV>
struct Decode {
	template<size_t H, size_t IN>
	static void run() {
		using Q = QuadratureEncoder<INV>;
		Q &q = construct<Q>();
		PROVE(q.prev_state == 0);
		q.prev_state = H;
		constexpr unsigned was = H & 3, h1 = (H >> 2) & 3, h2 = (H >> 4) & 3;
		auto r = q.get_motion(IN & 1, IN & 2);
		if constexpr (IN == was) {
			PROVE(r == Q::None && q.prev_state == H);
		} else {
			PROVE(q.prev_state == uint8_t(H << 2 | IN));
			constexpr unsigned rest = INV ? 0 : 3;
			auto seq = [&](unsigned a, unsigned b, unsigned c) { return h2 == (a ^ (INV ? 3 : 0)) && h1 == (b ^ (INV ? 3 : 0)) && was == (c ^ (INV ? 3 : 0)) && IN == rest; };
			constexpr unsigned A = 1, B = 2; // active low: both released is 3
			PROVE(r == (seq(A, 0, B) ? Q::CW : seq(B, 0, A) ? Q::CCW : Q::None));
		}
		REACH();
	}
};
using DecodePlain = Decode<false>;
CELLS(DecodePlain, 256, 4);
using DecodeInv = Decode<true>;
CELLS(DecodeInv, 256, 4);

// a detent turned from rest, after any history: one step, whatever repeats lie in between
template<bool INV>
struct Detent {
	template<size_t D>
	static void run() {
		using Q = QuadratureEncoder<INV>;
		Q &q = construct<Q>();
		q.prev_state = uint8_t(any<uint8_t>() << 2 | (INV ? 0 : 3));
		constexpr unsigned cw[4] = {1, 0, 2, 3}, ccw[4] = {2, 0, 1, 3};
		int sum = 0;
		for (int i = 0; i < 4; i++) {
			unsigned s = (D ? cw[i] : ccw[i]) ^ (INV ? 3 : 0);
			for (int k = 0; k < 2; k++) { // seen twice
				auto r = q.get_motion(s & 1, s & 2);
				PROVE(i == 3 && k == 0 ? r == (D ? Q::CW : Q::CCW) : r == Q::None);
				sum += r;
			}
		}
		PROVE(sum == (D ? 1 : -1));
		REACH();
	}
};
using DetentPlain = Detent<false>;
CELLS(DetentPlain, 2);
using DetentInv = Detent<true>;
CELLS(DetentInv, 2);

struct Motion {
	template<size_t Op>
	static void run() {
		RotaryMotion &a = opaque<RotaryMotion, 1>(), &b = opaque<RotaryMotion, 2>();
		constexpr int32_t lim = std::numeric_limits<int32_t>::max() / 2;
		auto ok = [](int32_t v) { return v >= -lim && v <= lim; };
		ASSUME(ok(a.motion) && ok(a.abs_pos) && ok(b.motion) && ok(b.abs_pos)); // sums are representable
		const RotaryMotion a0 = a, b0 = b;
		if constexpr (Op == 0) {
			PROVE(a.use_motion() == a0.motion);
			PROVE(a.motion == 0 && a.abs_pos == a0.abs_pos);
			PROVE(a.use_motion() == 0);
		} else if constexpr (Op == 1) {
			a.add_motion(b);
			PROVE(a.motion == a0.motion + b0.motion);
			PROVE(a.abs_pos == a0.abs_pos + b0.motion);
			PROVE(b.motion == b0.motion && b.abs_pos == b0.abs_pos);
		} else {
			a.transfer_motion(b);
			PROVE(a.motion == a0.motion + b0.motion);
			PROVE(a.abs_pos == a0.abs_pos + b0.motion);
			PROVE(b.motion == 0 && b.abs_pos == b0.abs_pos);
		}
		REACH();
	}
};
CELLS(Motion, 3);
