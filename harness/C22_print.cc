// VFA: -peel=12
// Everything that can be printed, into a sink that records it.
#include "containers.hh"
#include "decimal.hh"
#include "util/print.hh"

struct Sink {
	char text[32];
	size_t n;
};
[[gnu::always_inline]] inline Sink &sink() { return opaque<Sink>(); }
[[gnu::always_inline]] inline void put(const char c) {
	auto &s = sink();
	if (s.n < sizeof s.text) s.text[s.n] = c;
	s.n++;
}
[[gnu::always_inline]] inline Sink &fresh() {
	sink().n = 0;
	return sink();
}

template<bool NEG>
struct Dec {
	template<size_t LENI>
	static void run() {
		constexpr size_t LEN = LENI + 1;
		uint32_t mag;
		int32_t v = number<NEG, LEN>(mag);
		auto &s = fresh();
		print<put>(v);
		PROVE(s.n == LEN + NEG);
		if (NEG) PROVE(s.text[0] == '-');
		prove_digits<LEN>(s.text + NEG, mag);
		REACH();
	}
};
using DecPos = Dec<false>;
using DecNeg = Dec<true>;
CELLS(DecPos, 10);
CELLS(DecNeg, 10);

struct HexNum {
	template<size_t LENI>
	static void run() {
		constexpr size_t LEN = LENI + 1;
		uint32_t v = magnitude<LEN, 16>();
		auto &s = fresh();
		print<put>(Hex{v});
		PROVE(s.n == LEN);
		prove_hex_digits<LEN>(s.text, v);
		REACH();
	}
};
CELLS(HexNum, 8);

template<class C>
struct Text {
	template<size_t LEN>
	static void run() {
		auto *mem = static_cast<C *>(__vf_buf(LEN + 1));
		for (size_t i = 0; i < LEN; i++) ASSUME(mem[i] != 0);
		mem[LEN] = 0;
		auto &s = fresh();
		print<put>(static_cast<const C *>(mem));
		PROVE(s.n == LEN);
		for (size_t i = 0; i < LEN; i++) PROVE(s.text[i] == char(mem[i]));
		REACH();
	}
};
using TextC = Text<char>;
using TextU = Text<unsigned char>;
CELLS(TextC, 10);
CELLS(TextU, 10);

struct View { // not terminated, any characters
	template<size_t LEN>
	static void run() {
		auto *mem = static_cast<char *>(__vf_buf(LEN));
		auto &s = fresh();
		print<put>(std::string_view{mem, LEN});
		PROVE(s.n == LEN);
		for (size_t i = 0; i < LEN; i++) PROVE(s.text[i] == mem[i]);
		REACH();
	}
};
CELLS(View, 12);

struct Several { // each argument once, from left to right
	template<size_t A, size_t B>
	static void run() {
		auto *mem = static_cast<char *>(__vf_buf(A));
		uint32_t mag;
		int32_t v = number<B & 1, B / 2 + 1>(mag);
		auto &s = fresh();
		print<put>(std::string_view{mem, A}, v, "=", Hex{0}, std::string_view{mem, A});
		constexpr size_t L = B / 2 + 1 + (B & 1);
		PROVE(s.n == 2 * A + L + 2);
		for (size_t i = 0; i < A; i++) PROVE(s.text[i] == mem[i]);
		if (B & 1) PROVE(s.text[A] == '-');
		prove_digits<B / 2 + 1>(s.text + A + (B & 1), mag);
		PROVE(s.text[A + L] == '=');
		PROVE(s.text[A + L + 1] == '0');
		for (size_t i = 0; i < A; i++) PROVE(s.text[A + L + 2 + i] == mem[i]);
		REACH();
	}
};
CELLS(Several, 4, 6);
