// VFA: -peel=4
// Capacity-bounded string: any source text of any length, capacities 0..8, termination and truncation exact.
#include "containers.hh"
#include "models.hh"
#include "util/static_string.hh"

// a valid string of the given length in unknown characters
template<size_t CAP, size_t L, int N = 0>
static StaticString<CAP> &str() {
	auto &s = opaque<StaticString<CAP>, N>();
	for (size_t i = 0; i < L; i++)
		ASSUME(s._data[i] != 0);
	s._data[L] = 0;
	return s;
}
template<size_t CAP>
static void holds(const StaticString<CAP> &s, const char *src, size_t n) {
	for (size_t i = 0; i < n; i++)
		PROVE(s._data[i] == src[i]);
	PROVE(s._data[n] == 0);
	PROVE(s.length() == n && s.size() == n && s.available() == CAP - n && s.capacity == CAP);
	PROVE(s.c_str() == s._data && s.data() == s._data && static_cast<const char *>(s) == s._data);
	PROVE(s.begin() == s._data && s.end() == s._data + n);
	std::string_view v = s;
	PROVE(v.size() == n && v.data() == s._data);
}
constexpr size_t cmin(size_t a, size_t b) { return a < b ? a : b; }

// from text of exactly L non-zero characters in a buffer of exactly that size (plus terminator for C strings)
template<size_t CAP>
struct From {
	template<size_t L, size_t OP>
	static void run() {
		char *src = (char *)__vf_buf(OP == 1 || OP == 3 ? L : L + 1);
		for (size_t i = 0; i < L; i++)
			ASSUME(src[i] != 0);
		if constexpr (OP != 1 && OP != 3) src[L] = 0;
		constexpr size_t n = cmin(L, CAP);
		using S = StaticString<CAP>;
		if constexpr (OP == 0) holds(construct<S>(static_cast<const char *>(src)), src, n);
		else if constexpr (OP == 1) holds(construct<S>(std::string_view{src, L}), src, n);
		else if constexpr (OP == 2) {
			auto &s = opaque<S>();
			s.copy(static_cast<const char *>(src));
			holds(s, src, n);
		} else if constexpr (OP == 3) {
			auto &s = opaque<S>();
			s.copy(std::string_view{src, L});
			holds(s, src, n);
		} else {
			auto &s = opaque<S>();
			const_cast<volatile S &>(s).copy(static_cast<const char *>(src));
			holds(s, src, n);
		}
		REACH();
	}
};
#define FROM(C) \
	using VF_CAT(F, C) = From<C>; \
	CELLS(VF_CAT(F, C), C + 4, 5)
FROM(0);
FROM(1);
FROM(3);
FROM(7);
#ifdef VF_THOROUGH
FROM(15);
#endif

// a source of unknown length, far beyond the capacity: nothing past capacity+1 is written, nothing past the source is read
template<size_t CAP>
struct Long {
	template<size_t OP>
	static void run() {
		struct Guarded { StaticString<CAP> s; char after[4]; };
		auto &g = opaque<Guarded>();
		char a0 = g.after[0], a1 = g.after[3];
		size_t len = any<size_t, 3>();
		ASSUME(len >= CAP && len < (size_t(1) << 40));
		char *src = (char *)__vf_buf(len);
		if constexpr (OP == 0) g.s.copy(std::string_view{src, len});
		else ::new (&g.s) StaticString<CAP>(std::string_view{src, len});
		PROVE(g.s._data[CAP] == 0);
		PROVE(g.after[0] == a0 && g.after[3] == a1);
		REACH();
	}
};
using L0 = Long<0>;
using L5 = Long<5>;
CELLS(L0, 2);
CELLS(L5, 2);

// between strings of different capacity
template<size_t A, size_t B>
struct Across {
	template<size_t L, size_t OP>
	static void run() {
		auto &src = str<A, L, 1>();
		auto &dst = opaque<StaticString<B>, 2>();
		using VA = volatile StaticString<A>;
		using VB = volatile StaticString<B>;
		if constexpr (OP == 0) dst.copy(src);
		else if constexpr (OP == 1) const_cast<VB &>(dst).copy(const_cast<VA &>(src));
		else const_cast<VB &>(dst).copy(src);
		holds(dst, src._data, cmin(L, B));
		holds(src, src._data, L);
		REACH();
	}
};
using A42 = Across<4, 2>;
CELLS(A42, 5, 3);
using A25 = Across<2, 5>;
CELLS(A25, 3, 3);

template<size_t A, size_t B>
struct Equal {
	template<size_t LA, size_t LB>
	static void run() {
		auto &a = str<A, LA, 1>();
		auto &b = str<B, LB, 2>();
		bool same = LA == LB;
		for (size_t i = 0; i < cmin(LA, LB); i++)
			same = same && a._data[i] == b._data[i];
		PROVE((a == b) == same);
		PROVE(a.is_equal(b.c_str()) == same);
		PROVE(b.is_equal(a.c_str()) == same);
		REACH();
	}
};
using E44 = Equal<3, 3>;
CELLS(E44, 4, 4);
using E25 = Equal<2, 4>;
CELLS(E25, 3, 5);

struct Empty {
	template<size_t OP>
	static void run() {
		if constexpr (OP == 0) holds(construct<StaticString<6>>(), "", 0);
		if constexpr (OP == 1) {
			auto &s = opaque<StaticString<6>>();
			s.clear();
			holds(s, "", 0);
		}
		if constexpr (OP == 2) holds(construct<StaticString<0>>(), "", 0);
		REACH();
	}
};
CELLS(Empty, 3);
