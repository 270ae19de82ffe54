// The software stand-ins for vector instructions work lane by lane, for every float in every lane.
#include "vf.hh"
#include <bit>
#include "util/soft_neon.hh"

static bool bits(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }

struct Lanes {
	template<size_t OP, size_t L>
	static void run() {
		const auto a = any<float32x4_t, 1>(), b = any<float32x4_t, 2>();
		const auto c = any<float32x2_t, 3>(), d = any<float32x2_t, 4>();
		float32x4_t acc = any<float32x4_t, 5>();
		const float32x4_t before = acc;
		const float s = any<float, 6>();
		if constexpr (OP == 0) PROVE(bits(vdupq_n_f32(s)[L], s));
		if constexpr (OP == 1) {
			auto *p = (float *)__vf_buf(4 * sizeof(float));
			PROVE(bits(vld1q_f32(p)[L], p[L]));
		}
		if constexpr (OP == 2) PROVE(bits(vmulq_f32(a, b)[L], a.v[L] * b.v[L]));
		if constexpr (OP == 3) {
			const auto r = vmlaq_f32(acc, a, b);
			PROVE(bits(r[L], before.v[L] + a.v[L] * b.v[L]));
			PROVE(bits(acc[L], r[L]));
		}
		if constexpr (OP == 4) PROVE(bits(vsubq_f32(a, b)[L], a.v[L] - b.v[L]));
		if constexpr (OP == 5) {
			const float m = vmaxq_f32(a, b)[L];
			if (a.v[L] > b.v[L]) PROVE(bits(m, a.v[L]));
			else if (b.v[L] > a.v[L]) PROVE(bits(m, b.v[L]));
			else PROVE(bits(m, a.v[L]) || bits(m, b.v[L]));
		}
		if constexpr (OP == 6 && L < 2) PROVE(bits(vpadd_f32(c, d)[L], L ? d.v[0] + d.v[1] : c.v[0] + c.v[1]));
		if constexpr (OP == 7 && L < 2) PROVE(bits(vget_low_f32(a)[L], a.v[L]) && bits(vget_high_f32(a)[L], a.v[2 + L]));
		if constexpr (OP == 8 && L < 2) PROVE(bits(vget_lane_f32(c, L), c.v[L]));
		if constexpr (OP == 9) {
			acc[L] = s;
			for (size_t i = 0; i < 4; i++)
				PROVE(bits(acc.v[i], i == L ? s : before.v[i]));
			const auto &k = acc;
			PROVE(bits(k[L], s));
		}
		if constexpr (OP == 10 && L < 2) {
			float32x2_t e = c;
			e[L] = s;
			const auto &k = e;
			PROVE(bits(k[L], s) && bits(k[1 - L], c.v[1 - L]));
		}
		REACH();
	}
};
CELLS(Lanes, 11, 4);
