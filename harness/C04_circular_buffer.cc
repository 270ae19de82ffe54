// VFA: -peel=4
// Every control state (head, tail, full) of the overwriting ring buffers, one operation from each, unknown contents.
#include "containers.hh"
#include "util/circular_buffer.hh"
#include "util/circular_buffer_opt.hh"

template<class CB>
struct View {
	static constexpr bool opt = requires(CB &c) { c.get().has_value(); };
};
template<class CB, size_t N, size_t H, size_t TL, size_t F>
static CB &state() {
	auto &cb = opaque<CB>();
	auto &[buf, head, tail, full] = cb;
	head = H;
	tail = TL;
	full = F;
	return cb;
}
template<size_t N, size_t H, size_t TL, size_t F>
constexpr bool valid() { return H < N && TL < N && (!F || H == TL); }

// what the buffer holds, oldest first, read out of a copy through the public interface only
template<size_t N, class T, class CB>
static std::array<T, N + 1> contents(CB cb, size_t n) {
	std::array<T, N + 1> a{};
	for (size_t i = 0; i < n; i++) {
		if constexpr (View<CB>::opt) {
			auto o = cb.get();
			PROVE(o.has_value());
			if (o) a[i] = *o;
		} else {
			PROVE(!cb.empty());
			a[i] = cb.get();
		}
	}
	PROVE(cb.empty() && cb.count() == 0);
	return a;
}
template<size_t N, class CB>
static void sane(const CB &cb, size_t n) {
	PROVE(cb.count() == n);
	PROVE(cb.num_filled() == n);
	PROVE(cb.empty() == (n == 0));
	PROVE(cb.full() == (n == N));
	PROVE(cb.max_size() == N && cb.max_capacity() == N);
	PROVE(cb.get_head_idx() < N && cb.get_tail_idx() < N);
	PROVE((cb.get_head_idx() - cb.get_tail_idx()) % N == n % N);
	auto &[buf, head, tail, full] = cb;
	PROVE(!full || head == tail);
}

template<template<class, size_t> class C, class T, size_t N>
struct Op {
	using CB = C<T, N>;
	template<size_t H, size_t TL, size_t F, size_t OP>
	static void run() {
		if constexpr (valid<N, H, TL, F>()) {
			constexpr size_t n = F ? N : (H + N - TL) % N;
			auto &cb = state<CB, N, H, TL, F>();
			sane<N>(cb, n);
			auto old = contents<N, T>(cb, n);
			if constexpr (OP == 0) { // put: newest appended; only when full the oldest goes
				T x = any<T>();
				cb.put(x);
				constexpr size_t drop = n == N, m = n + 1 - drop;
				sane<N>(cb, m);
				auto now = contents<N, T>(cb, m);
				for (size_t i = 0; i + 1 < m; i++)
					PROVE(now[i] == old[i + drop]);
				PROVE(now[m - 1] == x);
			} else if constexpr (OP == 1) { // get
				if constexpr (View<CB>::opt) {
					auto g = cb.get();
					PROVE(g.has_value() == (n > 0));
					if constexpr (n > 0) PROVE(*g == old[0]);
				} else {
					T g = cb.get();
					if constexpr (n > 0) PROVE(g == old[0]);
					else PROVE(g == T{});
				}
				constexpr size_t m = n ? n - 1 : 0;
				sane<N>(cb, m);
				auto now = contents<N, T>(cb, m);
				for (size_t i = 0; i < m; i++)
					PROVE(now[i] == old[i + 1]);
			} else if constexpr (OP == 2) { // remove_first
				cb.remove_first();
				constexpr size_t m = n ? n - 1 : 0;
				sane<N>(cb, m);
				auto now = contents<N, T>(cb, m);
				for (size_t i = 0; i < m; i++)
					PROVE(now[i] == old[i + 1]);
			} else if constexpr (OP == 3) { // reset: empty, and a following put/get pair works
				cb.reset();
				sane<N>(cb, 0);
				T x = any<T>();
				cb.put(x);
				sane<N>(cb, 1);
				auto now = contents<N, T>(cb, 1);
				PROVE(now[0] == x);
			} else if constexpr (OP == 4) { // peeking (CircularBuffer only)
				if constexpr (requires { cb.peek(0); }) {
					for (size_t i = 0; i < n; i++)
						PROVE(cb.peek(i) == old[i]);
				}
				if constexpr (n > 0 && requires { cb.first(); })
					PROVE(cb.first() == old[0]);
				sane<N>(cb, n);
			} else if constexpr (OP == 5) { // fixed delay: the write position is set ahead of the read position
				if constexpr (n == 0) {
					constexpr size_t d = 1 % N;
					cb.set_head((TL + d) % N);
					sane<N>(cb, d);
				}
			} else if constexpr (OP == 6) { // every slot is written by fill_buffer, the fill level stays
				std::array<T, N> src;
				for (size_t i = 0; i < N; i++)
					src[i] = opaque<std::array<T, N>, 5>()[i];
				cb.fill_buffer(src);
				sane<N>(cb, n);
				auto now = contents<N, T>(cb, n);
				for (size_t i = 0; i < n; i++)
					PROVE(now[i] == src[(TL + i) % N]);
			} else { // fill_buffer with one value
				T x = any<T>();
				if constexpr (requires { cb.fill_buffer(x); } && !(View<CB>::opt && !std::is_integral_v<T>)) {
					cb.fill_buffer(x);
					sane<N>(cb, n);
					auto now = contents<N, T>(cb, n);
					for (size_t i = 0; i < n; i++)
						PROVE(now[i] == x);
				}
			}
			REACH();
		}
	}
};
#define ALL(C, T, N) \
	using VF_CAT(X, __LINE__) = Op<C, T, N>; \
	CELLS(VF_CAT(X, __LINE__), N, N, 2, 8)
ALL(CircularBuffer, Ptr, 4);
ALL(CircularBuffer, Wide, 2);
ALL(CircularBuffer, uint8_t, 1);
ALL(CircularBufferOpt, Ptr, 4);
ALL(CircularBufferOpt, Wide, 2);
ALL(CircularBufferOpt, uint16_t, 4);
#ifdef VF_THOROUGH
ALL(CircularBuffer, Ptr, 8);
ALL(CircularBufferOpt, Ptr, 8);
ALL(CircularBuffer, double, 4);
#endif

template<template<class, size_t> class C, class T, size_t N>
struct Ctor {
	template<size_t>
	static void run() {
		auto &cb = construct<C<T, N>>();
		sane<N>(cb, 0);
		REACH();
	}
};
using Ct1 = Ctor<CircularBuffer, Ptr, 4>;
CELLS(Ct1, 1);
using Ct2 = Ctor<CircularBufferOpt, Ptr, 4>;
CELLS(Ct2, 1);
