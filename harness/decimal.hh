// What the digits of a number are, stated without the code under analysis.
#pragma once
#include "vf.hh"

template<uint32_t BASE, size_t N>
constexpr uint64_t Power = BASE * Power<BASE, N - 1>;
template<uint32_t BASE>
constexpr uint64_t Power<BASE, 0> = 1;

// the N characters at p are the digits of v (v < 10^N): place by place, what remains is below the place
template<size_t N>
[[gnu::always_inline]] inline void prove_digits(const char *p, uint32_t v) {
	if constexpr (N > 0) {
		constexpr uint64_t place = Power<10, N - 1>;
		uint32_t d = uint32_t(uint8_t(p[0])) - '0';
		PROVE(d <= 9);
		if constexpr (place * 9 > 0xffffffffu) PROVE(d <= 0xffffffffu / place);
		PROVE(d * uint32_t(place) <= v);
		uint32_t rest = v - d * uint32_t(place);
		PROVE(rest < uint32_t(place));
		prove_digits<N - 1>(p + 1, rest);
	}
}
template<size_t N>
[[gnu::always_inline]] inline void prove_hex_digits(const char *p, uint32_t v) {
	for (size_t i = 0; i < N; i++) {
		uint32_t d = v >> (4 * (N - 1 - i)) & 15;
		PROVE(p[i] == char(d < 10 ? '0' + d : 'A' + d - 10));
	}
}
// the last D of the N digits of v
template<size_t N, size_t D>
[[gnu::always_inline]] inline uint32_t below(uint32_t v) {
	if constexpr (N == D) return v;
	else return below<N - 1, D>(v - v / uint32_t(Power<10, N - 1>) * uint32_t(Power<10, N - 1>));
}
// any unsigned number of LEN digits
template<size_t LEN, uint32_t BASE = 10>
[[gnu::always_inline]] inline uint32_t magnitude() {
	uint32_t m = any<uint32_t>();
	ASSUME(m < Power<BASE, LEN>);
	if (LEN > 1) ASSUME(m >= Power<BASE, LEN - 1>);
	return m;
}
// any int32_t of LEN digits and the given sign, with its magnitude
template<bool NEG, size_t LEN>
[[gnu::always_inline]] inline int32_t number(uint32_t &mag) {
	mag = magnitude<LEN>();
	ASSUME(mag <= 0x7fffffffu + NEG && mag >= NEG);
	return NEG ? int32_t(0u - mag) : int32_t(mag);
}
