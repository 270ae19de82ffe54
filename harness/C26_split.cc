// VFA: -peel=8
// Splitting a string at delimiters.
#include "vf.hh"
#include "models.hh"
#define VF_TEXT 6
#include "stdtext.hh"
#define string model_string
#define string_view model_string_view
#define vector model_vector
#include "util/string_util.hh"

// text of N characters whose delimiters (any of D) are the bits of S; P tokens were there before
template<size_t N, size_t D>
struct Split {
	template<size_t S, size_t P>
	static void run() {
		char *t = (char *)__vf_buf(N), *d = (char *)__vf_buf(D), *old = (char *)__vf_buf(1);
		for (size_t i = 0; i < N; i++)
			for (size_t any = 0, k = 0; k < D; k++) {
				if (S >> i & 1) {
					any |= t[i] == d[k];
					if (k + 1 == D) ASSUME(any);
				} else ASSUME(t[i] != d[k]);
			}
		std::vector<std::string> tokens;
		if (P) tokens.push_back(std::string(old, 1));
		tokenize_string({t, N}, tokens, std::string(d, D));
		size_t n = P;
		if (P) PROVE(tokens.size() >= 1 && tokens[0].size() == 1 && tokens[0][0] == old[0]);
		for (size_t i = 0; i < N;) {
			if (S >> i & 1) { i++; continue; }
			size_t e = i;
			while (e < N && !(S >> e & 1)) e++;
			PROVE(n < tokens.size());
			PROVE(tokens[n].size() == e - i);
			for (size_t k = i; k < e; k++)
				PROVE(tokens[n][k - i] == t[k]);
			n++;
			i = e;
		}
		PROVE(tokens.size() == n);
		REACH();
	}
};
using S01 = Split<0, 1>;
CELLS(S01, 1, 2);
using S31 = Split<3, 1>;
CELLS(S31, 8, 2);
using S51 = Split<5, 1>;
CELLS(S51, 32, 1);
using S42 = Split<4, 2>;
CELLS(S42, 16, 1);
using S30 = Split<3, 0>;
CELLS(S30, 1, 2);

struct Comma { // the default delimiter
	template<size_t S>
	static void run() {
		char *t = (char *)__vf_buf(3);
		for (size_t i = 0; i < 3; i++)
			ASSUME((t[i] == ',') == bool(S >> i & 1));
		std::vector<std::string> a, b;
		tokenize_string({t, 3}, a);
		tokenize_string({t, 3}, b, ",");
		PROVE(a.size() == b.size());
		REACH();
	}
};
CELLS(Comma, 8);
