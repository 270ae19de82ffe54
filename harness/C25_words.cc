// CXXFLAGS: -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-builtin-tolower
// VFA: -peel=8
// Whole-word search over every name and word of the lengths below.
#include "vf.hh"
#include "models.hh"
#include <algorithm>
#include <cctype>
#include <string>
#include <string_view>
#include "util/contains_word.hh"

// the character classification functions take values of unsigned char (or EOF) only
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" [[gnu::used]] int tolower(int c) noexcept {
	PROVE(c >= 0 && c <= 255);
	auto r = static_cast<unsigned char>(lower(c));
	ASSUME((r == ' ') == (c == ' ')); // nothing else lowers to a blank: Lower below
	return r;
}
static int low(char c) { return static_cast<unsigned char>(tolower(static_cast<unsigned char>(c))); }

template<size_t L>
static std::string_view text() {
	return {(const char *)__vf_buf(L), L};
}

struct Lower {
	template<size_t Z>
	static void run() {
		auto c = any<unsigned char>();
		PROVE(c == ' ' || static_cast<unsigned char>(lower(c)) != ' ');
		PROVE(lower(c) >= 0 && lower(c) <= 255);
		REACH();
	}
};
CELLS(Lower, 1);

// name of N characters whose blanks are exactly the bits of S, word of W characters
template<size_t N>
struct Word {
	template<size_t S, size_t W>
	static void run() {
		auto n = text<N>();
		auto w = text<W>();
		for (size_t i = 0; i < N; i++)
			if (S >> i & 1) const_cast<char &>(n[i]) = ' ';
			else ASSUME(n[i] != ' ');
		unsigned char ln[N + 1], lw[W + 1];
		for (size_t i = 0; i < N; i++)
			ln[i] = low(n[i]);
		for (size_t i = 0; i < W; i++)
			lw[i] = low(w[i]);
		bool found = false;
		for (size_t at = 0; at + W <= N; at++) {
			bool here = (at == 0 || (S >> (at - 1) & 1)) && (at + W == N || (S >> (at + W) & 1));
			for (size_t i = 0; i < W; i++)
				here = here & (ln[at + i] == lw[i]);
			found = found || here;
		}
		const std::string name{n}, word{w};
		PROVE(contains_word(name, word) == found);
		REACH();
	}
};
CELLS(Word<0>, 1, 4);
CELLS(Word<1>, 2, 4);
CELLS(Word<2>, 4, 4);
CELLS(Word<3>, 8, 5);
CELLS(Word<4>, 16, 4);
// five characters: at most three blanks, two of them in a row at most
constexpr size_t blanks[]{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 17, 18, 20, 21, 22};
struct Word5 {
	template<size_t I, size_t W>
	static void run() { Word<5>::run<blanks[I], W>(); }
};
CELLS(Word5, 17, 3);
