// VFA: -peel=4
// Every control state (top, bottom, full) of the overwriting stack, one operation from each, unknown contents.
#include "containers.hh"
#include "util/circular_stack.hh"

template<size_t N>
constexpr bool valid(size_t TOP, size_t BOT, bool F) { return TOP < N && BOT < N && (!F || TOP == BOT); }

// newest first, popped from a copy
template<size_t N, class T, class S>
static std::array<T, N + 1> contents(S s, size_t n) {
	std::array<T, N + 1> a{};
	for (size_t i = 0; i < n; i++) {
		PROVE(!s.empty());
		auto b = s.back();
		auto o = s.pop_back();
		PROVE(o.has_value() && b.has_value());
		if (o && b) {
			PROVE(*o == *b);
			a[i] = *o;
		}
	}
	PROVE(s.empty() && s.size() == 0 && !s.pop_back().has_value() && !s.back().has_value());
	return a;
}
template<size_t N, class S>
static void sane(S &s, size_t n) {
	PROVE(s.size() == n && s.empty() == (n == 0) && s.max_size() == N);
	auto &[data, top, bot, full] = s;
	PROVE(top >= 0 && top < int(N) && bot >= 0 && bot < int(N));
	PROVE(!full || top == bot);
}
template<class T, size_t N>
struct Op {
	using S = CircularStack<T, int(N)>;
	template<size_t TOP, size_t BOT, size_t F, size_t OP>
	static void run() {
		if constexpr (valid<N>(TOP, BOT, F)) {
			constexpr size_t n = F ? N : (TOP + N - BOT) % N;
			auto &s = opaque<S>();
			{
				auto &[data, top, bot, full] = s;
				top = TOP; bot = BOT; full = F;
			}
			sane<N>(s, n);
			auto old = contents<N, T>(s, n);
			if constexpr (OP == 0) {
				T x = any<T>();
				s.push_back(x);
				constexpr size_t m = n < N ? n + 1 : N;
				sane<N>(s, m);
				auto now = contents<N, T>(s, m);
				PROVE(now[0] == x);
				for (size_t i = 1; i < m; i++)
					PROVE(now[i] == old[i - 1]);
			} else if constexpr (OP == 1 || OP == 2) {
				if constexpr (OP == 1) {
					auto o = s.pop_back();
					PROVE(o.has_value() == (n > 0));
					if constexpr (n > 0) PROVE(*o == old[0]);
				} else {
					T o = s.pop_back_or_zero();
					PROVE(o == (n ? old[0] : T{}));
				}
				constexpr size_t m = n ? n - 1 : 0;
				sane<N>(s, m);
				auto now = contents<N, T>(s, m);
				for (size_t i = 0; i < m; i++)
					PROVE(now[i] == old[i + 1]);
			} else if constexpr (OP == 3) {
				s.clear();
				sane<N>(s, 0);
			} else {
				auto b = s.back();
				PROVE(b.has_value() == (n > 0));
				if constexpr (n > 0) PROVE(*b == old[0]);
				sane<N>(s, n);
				auto now = contents<N, T>(s, n);
				for (size_t i = 0; i < n; i++)
					PROVE(now[i] == old[i]);
			}
			REACH();
		}
	}
};
#define ALL(T, N) \
	using VF_CAT(X, __LINE__) = Op<T, N>; \
	CELLS(VF_CAT(X, __LINE__), N, N, 2, 5)
ALL(Ptr, 4);
ALL(Wide, 3);
ALL(uint8_t, 1);
ALL(Ptr, 2);
#ifdef VF_THOROUGH
ALL(Ptr, 7);
ALL(uint8_t, 5);
#endif
struct Ctor {
	template<size_t K>
	static void run() {
		Ptr a = any<Ptr>(), b = any<Ptr, 1>(), c = any<Ptr, 2>();
		using S = CircularStack<Ptr, 3>;
		S &s = *[&] {
			if constexpr (K == 0) return &construct<S>();
			else if constexpr (K == 1) return &construct<S>(a);
			else if constexpr (K == 2) return &construct<S>(a, b);
			else return &construct<S>(a, b, c);
		}();
		sane<3>(s, K);
		auto now = contents<3, Ptr>(s, K);
		Ptr e[] = {a, b, c};
		for (size_t i = 0; i < K; i++)
			PROVE(now[i] == e[K - 1 - i]);
		s.push_back(c);
		PROVE(*s.back() == c);
		REACH();
	}
};
CELLS(Ctor, 4);
