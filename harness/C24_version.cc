// Version texts and their order.
// VFA: -peel=30
#include "vf.hh"
#include "models.hh"
#include <cstdlib>
// what the C library documents for base 10
extern "C" [[gnu::always_inline]] inline long model_strtol(const char *p, char **, int base) {
	PROVE(base == 10);
	while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
	bool neg = false;
	if (*p == '-') neg = true, p++;
	else if (*p == '+') p++;
	long v = 0;
	for (; *p >= '0' && *p <= '9'; p++) v = v > 100000000000000000 ? v : v * 10 + (*p - '0');
	return neg ? -v : v;
}
#define strtol model_strtol
#include "util/version_tools.hh"
#undef strtol
using VersionUtil::Version;

// fields with A, B and C digits (0: field missing), followed by a tail
template<size_t A, size_t B, size_t C, size_t Tail>
struct Shape {
	static constexpr char tails[8][8] = {"", "-", "-rc1", "x", ".7", ".7-a", " ", "+b-1"};
	static constexpr size_t tail = std::string_view{tails[Tail]}.size();
	static constexpr size_t fields = C ? 3 : B ? 2 : 1;
	static constexpr size_t size = A + B + C + fields - 1 + tail;
};
#ifdef VF_THOROUGH
constexpr size_t spare(size_t tail, size_t) { return tail == 0 || tail == 2 ? 6 : 1; }
#else
constexpr size_t spare(size_t tail, size_t fields) { return tail == 0 ? (fields < 3 ? 4 : 2) : tail == 2; }
#endif
struct Parse {
	template<size_t A, size_t B, size_t C, size_t Tail>
	static void run() {
		using S = Shape<A, B, C, Tail>;
		if constexpr (S::size > 0 && (B || !C) && A && A + B + C <= S::fields + spare(Tail, S::fields)) {
			auto &t = opaque<std::array<char, S::size>>();
			size_t n = 0;
			uint32_t want[3]{};
			const size_t len[3] = {A, B, C};
			for (size_t f = 0; f < S::fields; f++) {
				if (f) t[n++] = '.';
				for (size_t k = 0; k < len[f]; k++) {
					ASSUME(t[n] >= '0' && t[n] <= '9');
					want[f] = want[f] * 10 + uint32_t(t[n] & 15);
					n++;
				}
			}
			for (size_t k = 0; k < S::tail; k++) t[n++] = S::tails[Tail][k];
			if (S::fields < 3 && (Tail == 4 || Tail == 5)) want[S::fields] = 7;
			Version v{std::string_view{t.data(), t.size()}};
			if (want[0] < 256) PROVE(v.major == want[0]);
			else PROVE(v.major == 0);
			if (want[1] < 256) PROVE(v.minor == want[1]);
			else PROVE(v.minor == 0);
			if (want[2] < 256) PROVE(v.revision == want[2]);
			else PROVE(v.revision == 0);
			PROVE(v.is_normal == (Tail != 1 && Tail != 2 && Tail != 5 && Tail != 7));
			REACH();
		}
	}
};
CELLS(Parse, 4, 4, 4, 8);

struct Texts { // particular texts
	template<size_t I>
	static void run() {
		struct Case {
			std::string_view text;
			uint8_t major, minor, revision;
			bool normal;
		};
		constexpr Case cases[] = {
			{"", 0, 0, 0, true}, {".", 0, 0, 0, true}, {"..3", 0, 0, 3, true}, {"4294967297.4294967298.3", 0, 0, 3, true},
			{"256.255.1", 0, 255, 1, true}, {"-1.2.3", 0, 2, 3, true}, {"1.-2", 1, 0, 0, false}, {"1.2.3.4.5.6", 1, 2, 3, true},
			{"1-a.2.3", 1, 2, 3, true}, {"1.2.3-", 1, 2, 3, false}, {"007.08.09", 7, 8, 9, true}, {" 1. 2.3", 1, 2, 3, true},
		};
		constexpr Case c = cases[I];
		auto &t = construct<std::array<char, c.text.size() + 1>>();
		for (size_t i = 0; i < c.text.size(); i++) t[i] = c.text[i];
		t[c.text.size()] = any<char, 7>(); // does not belong to the text
		Version v{std::string_view{t.data(), c.text.size()}};
		PROVE(v.major == c.major);
		PROVE(v.minor == c.minor);
		PROVE(v.revision == c.revision);
		PROVE(v.is_normal == c.normal);
		REACH();
	}
};
CELLS(Texts, 12);

struct Order { // lexicographic, a pre-release before the release
	template<size_t M, size_t N, size_t R, size_t P>
	static void run() {
		Version a = any<Version, 1>(), b = any<Version, 2>();
		auto rel = [](int how, auto x, auto y) { return how == 0 ? x < y : how == 1 ? x == y : x > y; };
		ASSUME(rel(M, a.major, b.major));
		ASSUME(rel(N, a.minor, b.minor));
		ASSUME(rel(R, a.revision, b.revision));
		a.is_normal = P & 1;
		b.is_normal = P & 2;
		constexpr int r = M != 1 ? int(M) - 1 : N != 1 ? int(N) - 1 : R != 1 ? int(R) - 1 : P == 1 ? 1 : P == 2 ? -1 : 0;
		PROVE((a < b) == (r < 0));
		PROVE((a > b) == (r > 0));
		PROVE((a == b) == (r == 0));
		PROVE((a <= b) == (r <= 0));
		PROVE((a >= b) == (r >= 0));
		PROVE((a != b) == (r != 0));
		PROVE(a.is_later(b) == (r > 0));
		PROVE(a.can_host_version(b) == (M == 1 && N != 0));
		REACH();
	}
};
CELLS(Order, 3, 3, 3, 4);

struct Fields {
	static void run() {
		uint8_t x = any<uint8_t, 3>(), y = any<uint8_t, 4>(), z = any<uint8_t, 5>();
		auto &v = construct<Version, 6>(x, y, z);
		PROVE(v.major == x && v.minor == y && v.revision == z && v.is_normal);
		auto &w = construct<Version, 7>();
		PROVE(w.major == 0 && w.minor == 0 && w.revision == 0 && w.is_normal);
		REACH();
	}
};
CELLS(Fields);
