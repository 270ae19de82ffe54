// CXXFLAGS: -fno-builtin-tolower
// Case-insensitive comparison of any two texts of the lengths below.
#include "vf.hh"
#include "models.hh"
#include <algorithm>
#include <cctype>
#include <string_view>
#include "util/string_compare.hh"

// the character classification functions take values of unsigned char (or EOF) only
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" [[gnu::used]] int tolower(int c) noexcept {
	PROVE(c >= -1 && c <= 255);
	return lower(c);
}
static int low(char c) { return lower(static_cast<unsigned char>(c)); }

template<size_t L>
static std::string_view text() {
	return {(const char *)__vf_buf(L), L};
}

struct Less {
	template<size_t A, size_t B>
	static void run() {
		auto a = text<A>(), b = text<B>();
		// the first position that differs decides; a proper prefix is less
		const bool less = [&] {
			for (size_t i = 0; i < A && i < B; i++) {
				if (low(a[i]) < low(b[i])) return true;
				if (low(b[i]) < low(a[i])) return false;
			}
			return A < B;
		}();
		PROVE(less_ci(a, b) == less);
		REACH();
	}
};
CELLS(Less, 5, 6);

struct Equal {
	template<size_t A, size_t B>
	static void run() {
		auto a = text<A>(), b = text<B>();
		bool eq = A == B;
		for (size_t i = 0; i < (A < B ? A : B); i++)
			eq = eq && low(a[i]) == low(b[i]);
		PROVE(equal_ci(a, b) == eq);
		REACH();
	}
};
CELLS(Equal, 6, 6);

