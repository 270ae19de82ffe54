// Saturation to a number of bits.
#include "vf.hh"
#include "util/cortex_math.hh"
#include <cstddef>

struct Sat {
	template<size_t BITS>
	static void run() {
		int32_t x = any<int32_t, 1>();
		int64_t v = x;
		int64_t s = MathTools::signed_saturate(x, BITS), u = MathTools::unsigned_saturate(x, BITS);
		if constexpr (BITS >= 1 && BITS <= 32) {
			constexpr int64_t max = (int64_t(1) << (BITS - 1)) - 1, min = -max - 1;
			if (v > max) PROVE(s == max);
			else if (v < min) PROVE(s == min);
			else PROVE(s == v);
		} else PROVE(s == v);
		if constexpr (BITS <= 31) {
			constexpr int64_t max = (int64_t(1) << BITS) - 1;
			if (v > max) PROVE(u == max);
			else if (v < 0) PROVE(u == 0);
			else PROVE(u == v);
		} else PROVE(u == v);
		REACH();
	}
};
CELLS(Sat, 34);
