// Every size, every operation and index, unknown contents, against a plain sequence model.
// VFA: -peel=5
#include "containers.hh"
#include "util/fixed_vector.hh"

template<class T, size_t N>
using Seq = std::array<T, N + 1>;

template<size_t N, class T>
static void is(FixedVector<T, N> &v, const Seq<T, N> &want, size_t n) {
	PROVE(v.size() == n && v.available() == N - n && v.max_size() == N);
	const auto &cv = v;
	auto &[slots, cnt] = v;
	PROVE(v.begin() == slots.begin() && cv.begin() == slots.begin());
	PROVE(size_t(v.end() - v.begin()) == n && size_t(cv.end() - cv.begin()) == n);
	auto sp = v.span();
	auto csp = cv.span();
	PROVE(sp.size() == n && csp.size() == n);
	for (size_t i = 0; i < n; i++) {
		PROVE(v[i] == want[i] && cv[i] == want[i]);
		PROVE(sp[i] == want[i] && csp[i] == want[i] && *(v.begin() + i) == want[i] && *(cv.begin() + i) == want[i]);
	}
	PROVE(v.back() == (n ? want[n - 1] : T{}));
}

template<class T, size_t N>
struct Op {
	using V = FixedVector<T, N>;
	template<size_t n, size_t OP, size_t IDX>
	static void run() {
		constexpr bool indexed = OP == 1 || OP == 2 || OP == 3 || OP == 4 || OP == 8;
		if constexpr (!indexed && IDX > 0) {
			return;
		} else {
			auto &v = opaque<V>();
			Seq<T, N> model{};
			{
				auto &[slots, cnt] = v;
				cnt = n;
				for (size_t i = 0; i < n; i++)
					model[i] = slots[i];
			}
			is<N, T>(v, model, n);
			T x = any<T, 1>();
			if constexpr (OP == 0) { // append, refused exactly when full
				bool ok = v.push_back(x);
				PROVE(ok == (n < N));
				constexpr size_t m = n < N ? n + 1 : n;
				if constexpr (n < N) model[n] = x;
				is<N, T>(v, model, m);
			} else if constexpr (OP == 1) { // insert before IDX; refused when full or past the end
				v.insert(IDX, x);
				constexpr bool ok = n < N && IDX <= n;
				if constexpr (ok) {
					for (size_t i = n; i > IDX; i--)
						model[i] = model[i - 1];
					model[IDX] = x;
				}
				is<N, T>(v, model, n + ok);
			} else if constexpr (OP == 2) { // erase IDX
				v.erase(unsigned(IDX));
				constexpr bool ok = IDX < n;
				if constexpr (ok)
					for (size_t i = IDX; i + 1 < n; i++)
						model[i] = model[i + 1];
				is<N, T>(v, model, n - ok);
			} else if constexpr (OP == 3) { // resize to IDX (at most the capacity), new elements get the value
				bool ok = v.resize(IDX, x);
				PROVE(ok == (IDX <= N));
				constexpr size_t m = IDX < N ? IDX : N;
				for (size_t i = n; i < m; i++)
					model[i] = x;
				is<N, T>(v, model, m);
			} else if constexpr (OP == 4) { // resize without filling: the kept part stays
				bool ok = v.resize_for_overwrite(IDX);
				PROVE(ok == (IDX <= N));
				constexpr size_t m = IDX < N ? IDX : N;
				PROVE(v.size() == m && v.available() == N - m);
				for (size_t i = 0; i < n && i < m; i++)
					PROVE(v[i] == model[i]);
			} else if constexpr (OP == 5) {
				T o = v.pop_back();
				PROVE(o == (n ? model[n ? n - 1 : 0] : T{}));
				is<N, T>(v, model, n ? n - 1 : 0);
			} else if constexpr (OP == 6) {
				v.clear();
				is<N, T>(v, model, 0);
			} else if constexpr (OP == 7) {
				size_t i = v.push_back_for_overwrite();
				PROVE(i == (n < N ? n : N));
				constexpr size_t m = n < N ? n + 1 : n;
				if constexpr (n < N) {
					v[n] = x;
					model[n] = x;
				}
				is<N, T>(v, model, m);
			} else if constexpr (OP == 8) { // erase [IDX, IDX+k)
				constexpr size_t from = IDX / (N + 2), k = IDX % (N + 2);
				if constexpr (from + k <= n) {
					v.erase(v.begin() + from, v.begin() + from + k);
					for (size_t i = from; i + k < n; i++)
						model[i] = model[i + k];
					is<N, T>(v, model, n - k);
				} else
					return;
			}
			REACH();
		}
	}
};
#define ALL(T, N) \
	using VF_CAT(X, __LINE__) = Op<T, N>; \
	CELLS(VF_CAT(X, __LINE__), N + 1, 8, N + 2); \
	struct VF_CAT(Y, __LINE__) { \
		template<size_t n, size_t I> \
		static void run() { Op<T, N>::template run<n, 8, I>(); } \
	}; \
	CELLS(VF_CAT(Y, __LINE__), N + 1, (N + 2) * (N + 1))
ALL(Ptr, 4);
ALL(Wide, 3);
ALL(uint8_t, 1);
#ifdef VF_THOROUGH
ALL(Ptr, 7);
ALL(double, 4);
#endif
struct Ctor {
	template<size_t K>
	static void run() {
		Ptr a = any<Ptr>(), b = any<Ptr, 1>(), c = any<Ptr, 2>();
		using V = FixedVector<Ptr, 3>;
		V &v = *[&] {
			if constexpr (K == 0) return &construct<V>();
			else if constexpr (K == 1) return &construct<V>(a);
			else if constexpr (K == 2) return &construct<V>(a, b);
			else return &construct<V>(a, b, c);
		}();
		is<3, Ptr>(v, Seq<Ptr, 3>{a, b, c, nullptr}, K);
		V w{v};
		is<3, Ptr>(w, Seq<Ptr, 3>{a, b, c, nullptr}, K);
		REACH();
	}
};
CELLS(Ctor, 4);
// an index far outside is refused, too
struct Far {
	template<size_t n, size_t OP>
	static void run() {
		auto &v = opaque<FixedVector<Ptr, 3>>();
		Seq<Ptr, 3> model{};
		auto &[slots, cnt] = v;
		cnt = n;
		for (size_t i = 0; i < n; i++)
			model[i] = slots[i];
		unsigned far = any<unsigned, 1>();
		ASSUME(far > n);
		if constexpr (OP == 0) v.insert(far, nullptr);
		if constexpr (OP == 1) v.erase(far);
		if constexpr (OP == 2) v.erase(v.begin(), v.begin());
		if constexpr (OP == 3) v.erase(nullptr, nullptr);
		if constexpr (OP == 5) // an inverted range is empty
			for (size_t i = 0; i <= n; i++)
				for (size_t j = 0; j < i; j++) v.erase(v.begin() + i, v.begin() + j);
		is<3, Ptr>(v, model, n);
		if constexpr (OP == 4) {
			size_t big = any<size_t, 2>();
			ASSUME(big > 3);
			PROVE(!v.resize(big, nullptr) && v.size() == 3);
			for (size_t i = 0; i < 3; i++)
				PROVE(v[i] == (i < n ? model[i] : nullptr));
			PROVE(!v.resize_for_overwrite(big) && v.size() == 3);
		}
		REACH();
	}
};
CELLS(Far, 4, 6);
