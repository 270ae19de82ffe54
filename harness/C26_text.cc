// VFA: -peel=8
// Replacing every occurrence of a text inside a string.
#include "vf.hh"
#include "models.hh"
#include "stdtext.hh"
#define string model_string
#define string_view model_string_view
#define vector model_vector
#include "util/string_util.hh"

// text of N characters in which the one character searched for is exactly at the bits of S; R characters replace it
template<size_t N>
struct One {
	template<size_t S, size_t R>
	static void run() {
		char *t = (char *)__vf_buf(N), *f = (char *)__vf_buf(1), *r = (char *)__vf_buf(R);
		char expect[N * R + N + 1];
		size_t n = 0;
		for (size_t i = 0; i < N; i++)
			if (S >> i & 1) {
				t[i] = f[0];
				for (size_t k = 0; k < R; k++) expect[n++] = r[k];
			} else {
				ASSUME(t[i] != f[0]);
				expect[n++] = t[i];
			}
		ReplaceString s{std::string(t, N)};
		auto &res = s.replace_all(std::string(f, 1), std::string(r, R));
		PROVE(&res == &s);
		PROVE(s.str.size() == n);
		for (size_t i = 0; i < n; i++)
			PROVE(s.str[i] == expect[i]);
		REACH();
	}
};
CELLS(One<0>, 1, 3);
CELLS(One<1>, 2, 4);
CELLS(One<3>, 8, 4);
CELLS(One<5>, 32, 3);

// two different characters searched for; the text is made of M pieces, given by the base-3 digits of S: another
// character, an occurrence, or the first of the two alone
constexpr size_t digit(size_t s, size_t i) {
	while (i--) s /= 3;
	return s % 3;
}
template<size_t M>
struct Pair {
	template<size_t S, size_t R>
	static void run() {
		char *f = (char *)__vf_buf(2), *o = (char *)__vf_buf(M + 1), *r = (char *)__vf_buf(R + 1);
		ASSUME(f[0] != f[1]);
		char t[2 * M + 1], expect[M * (R + 1) + 1];
		size_t l = 0, n = 0;
		for (size_t i = 0; i < M; i++)
			if (digit(S, i) == 1) {
				t[l++] = f[0];
				t[l++] = f[1];
				for (size_t k = 0; k < R; k++) expect[n++] = r[k];
			} else if (digit(S, i) == 2) {
				t[l++] = f[0];
				expect[n++] = f[0];
			} else {
				ASSUME(o[i] != f[0]);
				if (i && digit(S, i - 1) == 2) ASSUME(o[i] != f[1]);
				t[l++] = o[i];
				expect[n++] = o[i];
			}
		ReplaceString s{std::string(t, l)};
		s.replace_all(std::string(f, 2), std::string(r, R));
		PROVE(s.str.size() == n);
		for (size_t i = 0; i < n; i++)
			PROVE(s.str[i] == expect[i]);
		REACH();
	}
};
CELLS(Pair<1>, 3, 3);
CELLS(Pair<2>, 9, 4);
CELLS(Pair<3>, 27, 4);

// the same character twice: occurrences are taken from the left without overlap
struct Twice {
	template<size_t L, size_t R>
	static void run() {
		char *f = (char *)__vf_buf(1), *r = (char *)__vf_buf(R + 1);
		char t[L + 1];
		for (size_t i = 0; i < L; i++) t[i] = f[0];
		ReplaceString s{std::string(t, L)};
		s.replace_all(std::string(2, f[0]), std::string(r, R));
		PROVE(s.str.size() == L / 2 * R + L % 2);
		for (size_t i = 0; i < L / 2 * R; i++)
			PROVE(s.str[i] == r[R ? i % R : 0]);
		if (L % 2) PROVE(s.str[L / 2 * R] == f[0]);
		REACH();
	}
};
CELLS(Twice, 7, 4);

// an empty text occurs nowhere; replacing twice in a row works on the result of the first
struct Nothing {
	template<size_t N, size_t R>
	static void run() {
		char *t = (char *)__vf_buf(N), *r = (char *)__vf_buf(R);
		ReplaceString s{std::string(t, N)};
		s.replace_all(std::string(), std::string(r, R)).replace_all("", "");
		PROVE(s.str.size() == N);
		for (size_t i = 0; i < N; i++)
			PROVE(s.str[i] == t[i]);
		REACH();
	}
};
CELLS(Nothing, 5, 3);
