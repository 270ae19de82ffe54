// VFA: -peel=4
// Every occupancy pattern, every operation, unknown contents.
#include "containers.hh"
#include "util/pool.hh"
#include "util/thread_safe_pool.hh"

struct Obj { // a value whose default is recognisable
	uint32_t a = 7;
	Ptr p = nullptr;
	bool operator==(const Obj &) const = default;
};
template<size_t N>
constexpr size_t first_free(size_t mask) {
	for (size_t i = 0; i < N; i++)
		if (!(mask >> i & 1)) return i;
	return N;
}
template<size_t N>
struct P {
	using Pool = cpputil::Pool<Obj, N>;
	template<size_t MASK, size_t OP, size_t IDX>
	static void run() {
		if constexpr (OP < 2 && IDX > 0) return;
		else {
			auto &p = opaque<Pool>();
			for (size_t i = 0; i < N; i++)
				p.entries[i].used = MASK >> i & 1;
			std::array<Obj, N> old;
			for (size_t i = 0; i < N; i++)
				old[i] = p.entries[i].data;
			constexpr size_t f = first_free<N>(MASK);
			size_t expect = MASK;
			size_t touched = N;
			if constexpr (OP == 0 || OP == 1) {
				Obj *o = OP == 0 ? p.create() : p.create_for_overwrite();
				PROVE((o != nullptr) == (f < N)); // refused exactly when all are in use
				if constexpr (f < N) {
					bool fresh = false; // an entry of this pool that was not in use
					for (size_t i = 0; i < N; i++)
						if (o == &p.entries[i].data) {
							fresh = !(MASK >> i & 1);
							expect = MASK | size_t(1) << i;
							touched = i;
						}
					PROVE(fresh);
					if constexpr (OP == 0) PROVE(*o == Obj{});
				}
			} else if constexpr (OP == 2) {
				bool ok = p.destroy(&p.entries[IDX].data);
				PROVE(ok == bool(MASK >> IDX & 1));
				expect = MASK & ~(size_t(1) << IDX);
				touched = IDX;
			} else {
				Obj &alien = opaque<Obj, 3>();
				PROVE(!p.destroy(IDX == 0 ? &alien : nullptr));
			}
			for (size_t i = 0; i < N; i++) {
				PROVE(p.entries[i].used == bool(expect >> i & 1));
				if (i != touched) PROVE(p.entries[i].data == old[i]);
			}
			REACH();
		}
	}
};
using P3 = P<3>;
CELLS(P3, 8, 4, 3);
using P1 = P<1>;
CELLS(P1, 2, 4, 1);
#ifdef VF_THOROUGH
using P5 = P<5>;
CELLS(P5, 32, 4, 5);
#endif

template<size_t N>
struct TS {
	using Pool = cpputil::ThreadSafePool<Obj, N>;
	template<size_t MASK, size_t OP, size_t IDX>
	static void run() {
		if constexpr ((OP == 0 || OP == 3 || OP == 4) && IDX > 0) return;
		else {
			auto &p = opaque<Pool>();
			auto &[data, flags] = p;
			for (size_t i = 0; i < N; i++)
				flags[i] = bool(MASK >> i & 1);
			std::array<Obj, N> old = data;
			size_t expect = MASK;
			constexpr size_t f = first_free<N>(MASK);
			if constexpr (OP == 0) {
				auto o = p.create();
				PROVE(o.has_value() == (f < N));
				if constexpr (f < N) {
					PROVE(*o < N && !(MASK >> *o & 1));
					expect = MASK | size_t(1) << *o;
				}
			} else if constexpr (OP == 1) {
				bool ok = p.destroy(IDX);
				PROVE(ok == bool(MASK >> IDX & 1));
				expect = MASK & ~(size_t(1) << IDX);
			} else if constexpr (OP == 2) {
				PROVE(p.is_used(IDX) == bool(MASK >> IDX & 1));
				PROVE(&p[IDX] == &data[IDX] && p.size() == N);
				const Pool &c = p;
				PROVE(&c[IDX] == &data[IDX]);
			} else if constexpr (OP == 3) {
				size_t out = any<size_t, 1>();
				ASSUME(out >= N);
				PROVE(!p.destroy(out) && !p.is_used(out));
			} else {
				p.clear();
				expect = 0;
				for (size_t i = 0; i < N; i++)
					PROVE(data[i] == Obj{});
			}
			for (size_t i = 0; i < N; i++) {
				PROVE(p.is_used(i) == bool(expect >> i & 1));
				if (OP != 4) PROVE(data[i] == old[i]);
			}
			REACH();
		}
	}
};
using T3 = TS<3>;
CELLS(T3, 8, 5, 3);
using T1 = TS<1>;
CELLS(T1, 2, 5, 1);
#ifdef VF_THOROUGH
using T5 = TS<5>;
CELLS(T5, 32, 5, 5);
#endif
struct Fresh {
	template<size_t OP>
	static void run() {
		if constexpr (OP == 0) {
			auto &p = construct<cpputil::Pool<Obj, 3>>();
			for (auto &e : p.entries)
				PROVE(!e.used);
		} else {
			auto &p = construct<cpputil::ThreadSafePool<Obj, 3>>();
			PROVE(!p.is_used(0) && !p.is_used(1) && !p.is_used(2));
		}
		REACH();
	}
};
CELLS(Fresh, 2);
