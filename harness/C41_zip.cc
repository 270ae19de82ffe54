// VFA: -peel=4
// Parallel iteration: exactly the common prefix, each element once, by reference, with its index.
#include "containers.hh"
#include "util/countzip.hh"
#include "util/zip.hh"

template<class A, class B>
struct Pairs {
	template<size_t N, size_t M>
	static void run() {
		using VA = std::array<A, N>;
		using VB = std::array<B, M>;
		auto &a = opaque<VA, 1>();
		auto &b = opaque<VB, 2>();
		const VA a0 = a;
		const VB b0 = b;
		constexpr size_t len = N < M ? N : M;
		size_t n = 0;
		for (auto [x, y] : zip(a, b)) {
			PROVE(n < len);
			PROVE(&x == &a[n]);
			PROVE(&y == &b[n]);
			x = A(any<A, 3>());
			n++;
		}
		PROVE(n == len);
		for (size_t i = 0; i < N; i++) PROVE(a[i] == (i < len ? A(any<A, 3>()) : a0[i]));
		for (size_t i = 0; i < M; i++) PROVE(b[i] == b0[i]);
		n = 0;
		const VA &ca = a;
		for (auto [k, x, y] : countzip(ca, b)) {
			PROVE(k == n && n < len);
			PROVE(&x == &a[n]);
			PROVE(&y == &b[n]);
			static_assert(std::is_const_v<std::remove_reference_t<decltype(x)>>);
			n++;
		}
		PROVE(n == len);
		REACH();
	}
};
using PairsII = Pairs<uint32_t, uint8_t>;
CELLS(PairsII, 5, 5);

struct Three {
	template<size_t N, size_t M, size_t K>
	static void run() {
		auto &a = opaque<std::array<uint16_t, N + 1>, 1>();
		auto &b = opaque<std::array<uint32_t, M + 1>, 2>();
		auto &c = opaque<std::array<uint8_t, K>, 3>();
		constexpr size_t len = N < M ? (N + 1 < K ? N + 1 : K) : (M + 1 < K ? M + 1 : K);
		size_t n = 0;
		for (auto [k, x, y, z] : countzip(a, b, c)) {
			PROVE(k == n && n < len);
			PROVE(&x == &a[n]);
			PROVE(&y == &b[n]);
			PROVE(&z == c.begin() + n);
			n++;
		}
		PROVE(n == len);
		n = 0;
		for (auto [k, x] : enumerate(a)) {
			PROVE(k == n && &x == &a[n]);
			n++;
		}
		PROVE(n == N + 1);
		REACH();
	}
};
CELLS(Three, 3, 3, 4);

struct Temporaries { // a temporary is kept alive inside the zipper
	static void run() {
		uint32_t u = any<uint32_t, 1>(), v = any<uint32_t, 2>();
		size_t n = 0;
		for (auto [k, x, y] : countzip(std::array<uint32_t, 2>{u, v}, std::array<uint32_t, 3>{v, u, 7})) {
			PROVE(x == (k == 0 ? u : v));
			PROVE(y == (k == 0 ? v : u));
			n++;
		}
		PROVE(n == 2);
		n = 0;
		for (auto [x, y] : zip(std::array<uint32_t, 2>{u, v}, std::array<uint32_t, 3>{v, u, 7})) {
			PROVE(x == (n == 0 ? u : v));
			PROVE(y == (n == 0 ? v : u));
			n++;
		}
		PROVE(n == 2);
		REACH();
	}
};
CELLS(Temporaries);

struct Steps { // post-increment returns the old place; equality as documented
	static void run() {
		auto &a = opaque<std::array<uint32_t, 3>, 1>();
		auto &b = opaque<std::array<uint32_t, 3>, 2>();
		auto z = countzip(a, b);
		auto it = z.begin(), old = it++;
		PROVE(std::get<0>(*old) == 0 && &std::get<1>(*old) == &a[0]);
		PROVE(std::get<0>(*it) == 1 && &std::get<1>(*it) == &a[1] && &std::get<2>(*it) == &b[1]);
		PROVE(it != old && !(it == old));
		++old;
		PROVE(it == old);
		auto y = zip(a, b);
		auto jt = y.begin(), prev = jt++;
		PROVE(&std::get<0>(*prev) == &a[0]);
		PROVE(&std::get<0>(*jt) == &a[1] && &std::get<1>(*jt) == &b[1]);
		PROVE(jt != prev && !(jt == prev));
		++(++jt);
		PROVE(jt == y.end());
		REACH();
	}
};
CELLS(Steps);

struct Counting { // the count goes on, however far
	static void run() {
		auto &a = opaque<std::array<uint32_t, 3>, 1>();
		auto z = countzip(a);
		auto it = z.begin();
		const size_t at = any<size_t>();
		ASSUME(at < SIZE_MAX - 2);
		it.m_cnt = at;
		PROVE(std::get<0>(*it) == at);
		++it;
		PROVE(std::get<0>(*it) == at + 1 && &std::get<1>(*it) == &a[1]);
		auto prev = it++;
		PROVE(std::get<0>(*prev) == at + 1);
		PROVE(std::get<0>(*it) == at + 2 && &std::get<1>(*it) == &a[2]);
		REACH();
	}
};
CELLS(Counting);
