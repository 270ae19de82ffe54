// VFA: -peel=4
// Single-producer single-consumer queues: every fill level, every ring position, counters of any magnitude.
#include "containers.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"

template<class F>
static void sane(const F &f, size_t N, size_t n) {
	PROVE(f.num_filled() == n);
	PROVE(f.num_free() == N - n);
	PROVE(f.empty() == (n == 0));
	PROVE(f.full() == (n == N));
	PROVE(f.max_size() == N);
}
// one operation from the state described by (n elements, whose values are old[0..n))
template<size_t OP, size_t N, size_t n, class F, class T>
static void step(F &f, std::array<T, N> &old) {
	sane(f, N, n);
	std::array<T, N + 1> want{};
	size_t m = n;
	for (size_t i = 0; i < n; i++)
		want[i] = old[i];
	auto pop = [&] {
		for (size_t i = 0; i + 1 < n; i++)
			want[i] = old[i + 1];
		m = n ? n - 1 : 0;
	};
	if constexpr (OP == 0) { // put: refused exactly when full, never overwrites
		T x = any<T>();
		bool ok = f.put(x);
		PROVE(ok == (n < N));
		if constexpr (n < N) {
			want[n] = x;
			m = n + 1;
		}
	} else if constexpr (OP == 1) {
		auto g = f.get();
		PROVE(g.has_value() == (n > 0));
		if constexpr (n > 0) PROVE(*g == old[0]);
		pop();
	} else if constexpr (OP == 2) {
		T out = any<T, 1>();
		T before = out;
		bool ok = f.get_move(out);
		PROVE(ok == (n > 0));
		if constexpr (n > 0) PROVE(out == old[0]);
		else PROVE(out == before);
		pop();
	} else if constexpr (OP == 3) {
		T g = f.get_or_default();
		if constexpr (n > 0) PROVE(g == old[0]);
		else PROVE(g == T{});
		pop();
	} else if constexpr (OP == 4) {
		f.remove_first();
		pop();
	} else if constexpr (OP == 5) {
		f.reset();
		m = 0;
	}
	sane(f, N, m);
	// drain through the public interface
	for (size_t i = 0; i < m; i++) {
		auto g = f.get();
		PROVE(g.has_value());
		if (g) PROVE(*g == want[i]);
	}
	PROVE(!f.get().has_value());
	REACH();
}
template<class T, size_t N>
struct Fixed {
	template<size_t TL, size_t n, size_t OP>
	static void run() {
		auto &f = opaque<LockFreeFifoSpsc<T, N>>();
		auto &[head, tail, buf] = f;
		size_t t = any<size_t>() * N + TL; // any counter value with this ring position, including wrap-around
		tail.store(t);
		head.store(t + n);
		std::array<T, N> old{};
		for (size_t i = 0; i < n; i++)
			old[i] = buf[(TL + i) % N];
		step<OP, N, n>(f, old);
	}
};
#define FIXED(T, N) \
	using VF_CAT(F, __LINE__) = Fixed<T, N>; \
	CELLS(VF_CAT(F, __LINE__), N, N + 1, 6)
FIXED(Ptr, 4);
FIXED(Wide, 2);
FIXED(uint8_t, 1);

// The run-time sized queue: BASE is the counter value of the read position
template<class T, size_t M>
struct Dyn {
	template<size_t TL, size_t n, size_t OP>
	static void run() {
		auto &f = construct<LockFreeFifoSpscDyn<T>>(M);
		auto &[max, head, tail, buf] = f;
		size_t t;
		if constexpr ((M & (M - 1)) == 0) t = any<size_t>() * M + TL;
		else t = TL;
		tail.store(t);
		head.store(t + n);
		std::array<T, M> old{};
		for (size_t i = 0; i < n; i++) {
			old[i] = opaque<std::array<T, M>, 3>()[i];
			buf.data()[(TL + i) % M] = old[i];
		}
		step<OP, M, n>(f, old);
	}
};
#define DYN(T, N) \
	using VF_CAT(D, __LINE__) = Dyn<T, N>; \
	CELLS(VF_CAT(D, __LINE__), 2 * N, N + 1, 6)
DYN(Ptr, 4);
DYN(Wide, 3);
DYN(Ptr, 1);

// going back: the last elements put are delivered again, whatever the counters
template<class F, size_t N>
struct Offset {
	template<size_t TL, size_t n, size_t OFF>
	static void run() {
		F *f;
		if constexpr (std::is_constructible_v<F, std::span<Ptr, N>>) f = &construct<F>();
		else f = &construct<F>(N);
		size_t base = any<size_t>();
		ASSUME(base < SIZE_MAX / N - 8);
		size_t t = base * N + N + TL;
		f->set_write_pos(t);
		f->set_read_pos(t);
		std::array<Ptr, N> &v = opaque<std::array<Ptr, N>, 1>();
		for (size_t i = 0; i < N; i++) PROVE(f->put(v[i]));
		PROVE(!f->put(v[0]));
		for (size_t i = 0; i < N - n; i++) f->remove_first();
		sane(*f, N, n);
		f->set_read_offset(OFF);
		sane(*f, N, OFF);
		for (size_t i = N - OFF; i < N; i++) {
			auto g = f->get();
			PROVE(g && *g == v[i]);
		}
		PROVE(f->empty());
		REACH();
	}
};
using Off4 = Offset<LockFreeFifoSpsc<Ptr, 4>, 4>;
CELLS(Off4, 4, 5, 5);
using OffD4 = Offset<LockFreeFifoSpscDyn<Ptr>, 4>;
CELLS(OffD4, 4, 5, 5);

struct Construct {
	template<size_t K>
	static void run() {
		if constexpr (K == 0) {
			auto &f = construct<LockFreeFifoSpsc<Ptr, 4>>();
			sane(f, 4, 0);
			PROVE(!f.get().has_value());
		} else if constexpr (K == 1) { // preset delay: the first d reads deliver the initial contents, then what is put
			auto &f = construct<LockFreeFifoSpsc<Ptr, 4>>(size_t(2));
			sane(f, 4, 2);
			auto a = f.get();
			PROVE(a.has_value() && *a == nullptr);
			Ptr x = any<Ptr>();
			PROVE(f.put(x));
			auto b = f.get(), c = f.get();
			PROVE(b.has_value() && *b == nullptr);
			PROVE(c.has_value() && *c == x);
			PROVE(f.empty());
		} else if constexpr (K == 2) {
			auto &src = opaque<std::array<Wide, 4>>();
			auto &f = construct<LockFreeFifoSpsc<Wide, 4>>(std::span<Wide, 4>{src});
			f.set_write_pos(4);
			for (auto &s : src) {
				auto g = f.get();
				PROVE(g.has_value() && *g == s);
			}
		} else if constexpr (K == 3) {
			auto &f = construct<LockFreeFifoSpscDyn<Ptr>>(size_t(3));
			sane(f, 3, 0);
			PROVE(!f.get().has_value());
		} else if constexpr (K == 4) {
			auto &f = construct<LockFreeFifoSpscDyn<Ptr>>(size_t(4), size_t(2));
			sane(f, 4, 2);
			auto a = f.get();
			PROVE(a.has_value() && *a == nullptr);
			Ptr x = any<Ptr>();
			PROVE(f.put(x));
			auto b = f.get(), c = f.get();
			PROVE(b.has_value() && *b == nullptr);
			PROVE(c.has_value() && *c == x);
		} else if constexpr (K == 5) { // read offset: exactly the last d elements are delivered again
			auto &f = construct<LockFreeFifoSpsc<Ptr, 4>>();
			Ptr a = any<Ptr, 0>(), b = any<Ptr, 1>(), c = any<Ptr, 2>();
			f.put(a), f.put(b), f.put(c);
			f.set_read_offset(2);
			sane(f, 4, 2);
			auto g = f.get(), h = f.get();
			PROVE(g && *g == b && h && *h == c);
			PROVE(f.empty());
		} else if constexpr (K == 6) {
			auto &f = construct<LockFreeFifoSpscDyn<Ptr>>(size_t(4));
			Ptr a = any<Ptr, 0>(), b = any<Ptr, 1>(), c = any<Ptr, 2>();
			f.put(a), f.put(b), f.put(c);
			f.set_read_offset(2);
			sane(f, 4, 2);
			auto g = f.get(), h = f.get();
			PROVE(g && *g == b && h && *h == c);
			PROVE(f.empty());
		} else if constexpr (K == 7) { // the longest delay
			auto &f = construct<LockFreeFifoSpsc<Ptr, 4>>(size_t(4));
			sane(f, 4, 4);
			auto &g = construct<LockFreeFifoSpscDyn<Ptr>, 1>(size_t(4), size_t(4));
			sane(g, 4, 4);
		}
		REACH();
	}
};
CELLS(Construct, 8);

// resizing: same size keeps the contents, another size leaves an empty queue of that size whose slots are all usable
template<size_t M, size_t NEW>
struct Resize {
	template<size_t n>
	static void run() {
		auto &f = construct<LockFreeFifoSpscDyn<Ptr>>(M);
		std::array<Ptr, M + NEW> v;
		for (size_t i = 0; i < M + NEW; i++)
			v[i] = opaque<std::array<Ptr, M + NEW>>()[i];
		for (size_t i = 0; i < n; i++)
			f.put(v[i]);
		f.resize(NEW);
		if constexpr (M == NEW) {
			sane(f, M, n);
			for (size_t i = 0; i < n; i++) {
				auto g = f.get();
				PROVE(g.has_value() && *g == v[i]);
			}
		} else {
			sane(f, NEW, 0);
			for (size_t i = 0; i < NEW; i++)
				PROVE(f.put(v[M + i]));
			PROVE(!f.put(v[0]));
			for (size_t i = 0; i < NEW; i++) {
				auto g = f.get();
				PROVE(g.has_value() && *g == v[M + i]);
			}
			PROVE(f.empty());
		}
		REACH();
	}
};
using R22 = Resize<2, 2>;
using R24 = Resize<2, 4>;
using R42 = Resize<4, 2>;
using R31 = Resize<3, 1>;
CELLS(R22, 3);
CELLS(R24, 3);
CELLS(R42, 5);
CELLS(R31, 4);
