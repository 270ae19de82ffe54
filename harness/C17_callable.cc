// Stored callables: call forwarding, lifetime balance, capacity rule.
#include "containers.hh"
#include "util/callable.hh"

static int made, gone;
struct Probe { // a capture with a non-trivial life
	Ptr id;
	Probe(Ptr p) : id{p} { made++; }
	Probe(const Probe &o) : id{o.id} { made++; }
	~Probe() { gone++; }
};
struct Add {
	Ptr a;
	Ptr b;
	std::pair<Ptr, Ptr> operator()(Ptr x, Ptr y) { return {a == x ? b : x, y}; }
};
struct Calls {
	template<size_t OP>
	static void run() {
		if constexpr (OP == 0) { // arguments in order, result back
			Ptr x = any<Ptr>(), y = any<Ptr, 1>();
			int z = any<int, 2>();
			FunctionSized<16, Wide(Ptr, Ptr, int)> f{[x, y](Ptr p, Ptr q, int r) -> Wide {
				PROVE(p == any<Ptr, 3>() && q == any<Ptr, 4>() && r == any<int, 2>() && x == any<Ptr>() && y == any<Ptr, 1>());
				return {1, 2, 3};
			}};
			PROVE(bool(f));
			PROVE((f(any<Ptr, 3>(), any<Ptr, 4>(), z) == Wide{1, 2, 3}));
			PROVE((f.call(any<Ptr, 3>(), any<Ptr, 4>(), z) == Wide{1, 2, 3}));
		} else if constexpr (OP == 1) { // mutable state persists across calls
			size_t n0 = any<size_t>();
			Function<size_t(size_t)> f{[n = n0](size_t k) mutable { return n += k; }};
			PROVE(f(1) == n0 + 1);
			PROVE(f(5) == n0 + 6);
		} else if constexpr (OP == 2) { // empty
			FunctionSized<8, int(int)> f;
			PROVE(!f);
			Callback c;
			PROVE(!c);
			CallbackSized<24> d;
			PROVE(!d);
		} else if constexpr (OP == 3) { // every capture that is made is destroyed, once
			made = gone = 0;
			Ptr p = any<Ptr>();
			int calls = 0;
			{
				Probe pr{p};
				FunctionSized<32, Ptr(int &)> f{[pr](int &c) { c++; return pr.id; }};
				PROVE(f(calls) == p && f(calls) == p && calls == 2);
				PROVE(made > gone);
				PROVE(made - gone == 2);
			}
			PROVE(made == gone);
		} else if constexpr (OP == 4) {
			made = gone = 0;
			Ptr p = any<Ptr>(), seen = nullptr;
			{
				Probe pr{p};
				CallbackSized<32> f{[pr, &seen] { seen = pr.id; }};
				PROVE(bool(f));
				f();
				PROVE(seen == p);
				PROVE(made - gone == 2);
			}
			PROVE(made == gone);
		} else if constexpr (OP == 5) { // references are forwarded, not copied
			auto &w = opaque<Wide>();
			Function<Wide *(Wide &)> f{[](Wide &x) { return &x; }};
			PROVE(f(w) == &w);
		} else if constexpr (OP == 6) { // the largest callable that fits
			struct Big { Ptr p[4]; Ptr operator()(size_t i) { return i < 4 ? p[i] : nullptr; } };
			auto &b = opaque<Big>();
			FunctionSized<sizeof(Big), Ptr(size_t)> f{b};
			for (size_t i = 0; i < 4; i++)
				PROVE(f(i) == b.p[i]);
		} else if constexpr (OP == 7) { // a void signature ignores the result
			int n = 0;
			Function<void(int)> f{[&n](int k) { n += k; return 5; }};
			f(3);
			PROVE(n == 3);
		} else if constexpr (OP == 9) { // state persists without a result, too
			size_t n = any<size_t>(), m = n;
			Function<void()> f{[&n, k = size_t(0)]() mutable { n += ++k; }};
			f();
			f();
			f.call();
			PROVE(n == any<size_t>() + 6);
			Callback c{[&m, k = size_t(0)]() mutable { m += ++k; }};
			c();
			c();
			PROVE(m == any<size_t>() + 3);
		} else { // copying: each copy destroys its own capture
			made = gone = 0;
			{
				Probe pr{any<Ptr>()};
				FunctionSized<32, Ptr(int)> f{[pr](int) { return pr.id; }};
				FunctionSized<32, Ptr(int)> g{f};
				PROVE(g(1) == pr.id);
			}
			PROVE(made == gone);
		}
		REACH();
	}
};
CELLS(Calls, 10);

// what does not fit is rejected when compiling
template<size_t B>
struct Fat { uint8_t x[B]; int operator()(int) { return 0; } };
template<size_t B>
struct alignas(32) Strict { uint8_t x[B]; int operator()(int) { return 0; } };
struct Rejects {
	template<size_t OP>
	static void run() {
		PROVE((std::is_constructible_v<FunctionSized<16, int(int)>, Fat<16>>));
		PROVE((!std::is_constructible_v<FunctionSized<16, int(int)>, Fat<17>>));
		PROVE((!std::is_constructible_v<FunctionSized<16, int(int)>, Fat<400>>));
		PROVE((!std::is_constructible_v<FunctionSized<16, int(char *, int)>, Fat<1>>));
		PROVE((!std::is_constructible_v<FunctionSized<64, int(int)>, Strict<1>>)); // the store is 8-byte aligned
		PROVE(alignof(FunctionSized<16, int(int)>) >= alignof(uint64_t));
		FunctionSized<16, int(int)> f{Fat<16>{}};
		auto &[cb, del, data] = f;
		PROVE(sizeof(data) >= 16 && size_t((char *)&data[0] - (char *)&f) % alignof(uint64_t) == 0);
		REACH();
	}
};
CELLS(Rejects, 1);
