// Parameters and latched parameters.
#include "containers.hh"
#include "util/parameter.hh"
#include <bit>

static bool same(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }
static bool same(int a, int b) { return a == b; }
static bool same(unsigned a, unsigned b) { return a == b; }
static bool same(uint8_t a, uint8_t b) { return a == b; }

template<class T>
struct Told { // Parameter: a different value at any time since the last question
	template<size_t PENDING, size_t N>
	static void run() {
		auto &p = opaque<Parameter<T>>();
		auto &[cur, changed] = p;
		T v0 = any<T, 1>();
		ASSUME(v0 == v0);
		cur = v0;
		changed = PENDING;
		T v[3] = {any<T, 2>(), any<T, 3>(), any<T, 4>()};
		bool differs = PENDING;
		T last = v0;
		for (size_t i = 0; i < N; i++) {
			ASSUME(v[i] == v[i]);
			if (i % 2) p = v[i];
			else p.setValue(v[i]);
			if (v[i] != last) differs = true;
			last = v[i];
			PROVE(p.getValue() == last);
			PROVE(T(p) == last);
		}
		if (differs) PROVE(p.isChanged());
		else PROVE(!p.isChanged());
		PROVE(!p.isChanged()); // told once
		PROVE(p.getValue() == last);
		REACH();
	}
};
using ToldI = Told<int>;
CELLS(ToldI, 2, 4);
using ToldU8 = Told<uint8_t>;
CELLS(ToldU8, 2, 4);
using ToldF = Told<float>;
CELLS(ToldF, 2, 2);
struct Fresh {
	static void run() {
		auto &p = construct<Parameter<int>>();
		PROVE(p.getValue() == 0 && p.isChanged() && !p.isChanged());
		int x = any<int, 9>();
		auto &q = construct<Parameter<int>, 1>(x);
		PROVE(q.getValue() == x && q.isChanged() && !q.isChanged());
		auto &l = construct<LatchedParam<int, 3>, 2>();
		PROVE(int(l) == 0 && !l.did_change());
		REACH();
	}
};
CELLS(Fresh);

template<class T>
struct Refer { // RefParameter: different from what it was at the last question
	static void run() {
		T v = any<T, 1>(), last = any<T, 2>(), w = any<T, 3>();
		auto &x = construct<T, 5>(v);
		auto &r = construct<RefParameter<T>, 6>(x);
		PROVE(r.lastVal == T(0) && &r.currentVal == &x);
		r.lastVal = last;
		if (v == last) PROVE(!r.isChanged());
		else PROVE(r.isChanged());
		PROVE(!r.isChanged());
		r.setValue(w);
		PROVE(x == w && r.getValue() == w && T(r) == w);
		x = last; // changed behind its back
		if (last == v) PROVE(!r.isChanged());
		else PROVE(r.isChanged());
		r = w;
		PROVE(x == w);
		REACH();
	}
};
using ReferI = Refer<int>;
CELLS(ReferI);
using ReferU = Refer<uint8_t>;
CELLS(ReferU);

template<class T, unsigned NUM, unsigned DEN>
struct Latch { // follows only changes of at least the threshold
	template<size_t PENDING>
	static void run() {
		using L = LatchedParam<T, NUM, DEN>;
		auto &p = opaque<L>();
		T v = any<T, 1>(), x = any<T, 2>();
		p.val = v;
		p.changed = PENDING;
		if constexpr (std::is_signed_v<T> && std::is_integral_v<T>) ASSUME(v > -1000000000 && v < 1000000000 && x > -1000000000 && x < 1000000000);
		if constexpr (std::is_floating_point_v<T>) ASSUME(v > T(-1e30) && v < T(1e30) && x > T(-1e30) && x < T(1e30));
		T away = x >= v ? x - v : v - x;
		bool took = p.store_changed(x);
		if (away >= T(NUM) / T(DEN)) {
			PROVE(took);
			PROVE(same(p.val, x) && p.changed);
			PROVE(p.did_change() && !p.did_change());
		} else {
			PROVE(!took);
			PROVE(same(p.val, v));
			PROVE(p.changed == PENDING);
			PROVE(p.did_change() == PENDING);
			PROVE(!p.did_change());
		}
		auto &q = opaque<L, 7>();
		bool c = any<bool, 8>();
		q.val = x;
		q.changed = c;
		p = q;
		PROVE(same(p.val, x) && p.changed == c);
		p = v;
		PROVE(same(p.val, v) && p.changed == c);
		REACH();
	}
};
using LatchI = Latch<int, 5, 1>;
CELLS(LatchI, 2);
using LatchU = Latch<unsigned, 7, 2>;
CELLS(LatchU, 2);
using LatchF = Latch<float, 1, 100>;
CELLS(LatchF, 2);

