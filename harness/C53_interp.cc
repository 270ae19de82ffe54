// VFA: -peel=4
// Interpolated parameters and filtered interpolated arrays (used by one thread).
#include "containers.hh"
#include "util/filtered_interp_array.hh"
#include "util/interp_param.hh"
#include <bit>

static bool same(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }
static bool same(int a, int b) { return a == b; }
static bool same(unsigned a, unsigned b) { return a == b; }
static bool same(uint8_t a, uint8_t b) { return a == b; }

// integers: N equal steps, never past the target, closer than N at the end; the last step snaps where promised
template<class P, int N>
struct Ramp {
	static void run() {
		P &p = *[] {
			if constexpr (requires { P(unsigned(N)); }) return &construct<P>(unsigned(N));
			else return &construct<P>();
		}();
		PROVE(p.next() == 0 && p.next() == 0 && p.get_step_size() == 0);
		int from = any<int, 1>(), to = any<int, 2>();
		ASSUME(from > -100000000 && from < 100000000 && to > -100000000 && to < 100000000);
		p.cur_val = from;
		if constexpr (requires { p.set_new_value(to, 3u); }) p.set_new_value(to, N);
		else p.set_new_value(to);
		int step = p.get_step_size();
		PROVE(step == (to - from) / N);
		for (int i = 1; i <= N; i++) PROVE(p.next() == from + i * step);
		PROVE(p.cur_val - to < N && to - p.cur_val < N);
		if constexpr (requires { p.snap_to_target(); }) {
			PROVE(p.snap_to_target() == to);
			PROVE(p.cur_val == to);
			int s = p.get_step_size();
			p.set_new_value(from, 0); // no time to interpolate
			PROVE(p.get_step_size() == s && p.cur_val == to);
			PROVE(p.snap_to_target() == from);
		}
		if constexpr (requires { p.get_num_updates(); }) {
			PROVE(p.get_num_updates() == N);
			p.set_num_updates(N + 1);
			PROVE(p.get_num_updates() == N + 1);
		}
		REACH();
	}
};
using Ramp1 = Ramp<InterpParam<int, 1>, 1>;
CELLS(Ramp1);
using Ramp4 = Ramp<InterpParam<int, 4>, 4>;
CELLS(Ramp4);
using Ramp7 = Ramp<InterpParam<int, 7>, 7>;
CELLS(Ramp7);
using RampV5 = Ramp<InterpParamVar<int>, 5>;
CELLS(RampV5);
using RampW5 = Ramp<InterpParamVariable<int>, 5>;
CELLS(RampW5);

// floats: from any value near F to any value near T in N steps: near T afterwards, and half way in the middle
template<class P>
struct FloatRamp {
	template<size_t F, size_t T, size_t N>
	static void run() {
		if constexpr (N > 0) {
			P &p = *[] {
				if constexpr (requires { P(unsigned(N)); }) return &construct<P>(unsigned(N));
				else return &construct<P>();
			}();
			constexpr float at[4] = {0.f, 1.f, -3.f, 20.f};
			float from = any<float, 1>(), to = any<float, 2>();
			ASSUME(from > at[F] - 0.01f && from < at[F] + 0.01f);
			ASSUME(to > at[T] - 0.01f && to < at[T] + 0.01f);
			p.cur_val = from;
			if constexpr (requires { p.set_new_value(to, 3u); }) p.set_new_value(to, N);
			else p.set_new_value(to);
			for (size_t i = 1; i <= N; i++) {
				float x = p.next();
				const float want = at[F] + (at[T] - at[F]) * (float(i) / float(N));
				PROVE(x > want - 0.1f);
				PROVE(x < want + 0.1f);
			}
			if constexpr (requires { p.snap_to_target(); }) PROVE(same(p.snap_to_target(), to) && same(p.cur_val, to));
			REACH();
		}
	}
};
using FloatRampV = FloatRamp<InterpParamVar<float>>;
CELLS(FloatRampV, 4, 4, 5);
using FloatRampW = FloatRamp<InterpParamVariable<float>>;
CELLS(FloatRampW, 4, 4, 5);
struct FloatRampP {
	template<size_t F, size_t T, size_t N>
	static void run() {
		struct P : InterpParam<float, 3> {};
		if constexpr (N == 3) FloatRamp<P>::template run<F, T, N>();
	}
};
CELLS(FloatRampP, 4, 4, 4);

// the filtered array: one batch per announcement, one reading per channel, through its own filter
struct Own {
	int mine; // what this channel's filter makes of it
	int got = 0, calls = 0;
	int add_val(int v) {
		got = v;
		calls++;
		return mine;
	}
};
template<size_t N>
struct Array {
	template<size_t OP>
	static void run() {
		using A = FilteredInterpArray<N, Own, int>;
		auto &a = opaque<A>();
		auto &raw = opaque<std::array<int, N>, 1>();
		auto &cur = opaque<std::array<int, N>, 2>();
		auto &old = opaque<std::array<int, N>, 3>();
		auto &step = opaque<std::array<int, N>, 4>();
		auto &filtered = opaque<std::array<int, N>, 5>();
		for (size_t i = 0; i < N; i++) {
			ASSUME(filtered[i] > -100000000 && filtered[i] < 100000000 && cur[i] > -100000000 && cur[i] < 100000000);
			ASSUME(step[i] > -100000000 && step[i] < 100000000);
			a._interps[i].cur_val = cur[i];
			a._interps[i].target_val = old[i];
			a._interps[i].step_size = step[i];
			a._filters[i].mine = filtered[i];
			a._filters[i].calls = 0;
		}
		unsigned done = any<unsigned, 6>(), plan = any<unsigned, 7>();
		ASSUME(done < 1000000 && plan < 1000000);
		a._update_count = done;
		a._num_updates = plan;
		a._new_data_ready = false;
		unsigned reads = 0, writes = 0;
		auto read = [&](unsigned i) {
			PROVE(i == reads && i < N);
			reads++;
			return raw[i];
		};
		auto take = [&] {
			if constexpr (OP & 1) a.mark_new_data_ready();
			a.add_new_readings(read);
			PROVE(reads == (OP & 1 ? N : 0));
			for (size_t i = 0; i < N; i++) {
				PROVE(a._filters[i].calls == (OP & 1 ? 1 : 0));
				if constexpr (OP & 1) PROVE(a._filters[i].got == raw[i]);
			}
			a.add_new_readings(read); // announced once, taken once
			PROVE(reads == (OP & 1 ? N : 0));
		};
		if constexpr (OP < 2) { // the outputs that follow
			take();
			unsigned fresh = OP & 1 ? 0 : done, span = OP & 1 && done ? done : plan;
			a.get_interp_values([&](unsigned i, int v) {
				PROVE(i == writes && i < N);
				writes++;
				int target = OP & 1 ? filtered[i] : old[i];
				if (fresh + 1 >= span) PROVE(v == target); // the time is up
				else if constexpr (OP == 0) PROVE(v == cur[i] + step[i]);
				else PROVE(v == cur[i] + (filtered[i] - cur[i]) / int(span));
			});
			PROVE(writes == N);
		} else if constexpr (OP == 2) { // outputs go on until the time is up, then stay at the target
			a._num_updates = 3;
			a._update_count = 0;
			for (unsigned k = 1; k <= 5; k++) {
				writes = 0;
				a.get_interp_values([&](unsigned i, int v) {
					PROVE(i == writes);
					writes++;
					PROVE(v == (k < 3 ? cur[i] + int(k) * step[i] : old[i]));
				});
				PROVE(writes == N);
			}
		} else if constexpr (OP == 3) { // the time between batches sets the pace of the next batch
			a._update_count = 0;
			for (int k = 0; k < 4; k++) a.get_interp_values([](unsigned, int) {});
			for (size_t i = 0; i < N; i++) a._interps[i].cur_val = cur[i];
			take();
			for (int k = 1; k <= 4; k++)
				a.get_interp_values([&](unsigned i, int v) { PROVE(v == (k < 4 ? cur[i] + k * ((filtered[i] - cur[i]) / 4) : filtered[i])); });
		} else {
			auto &f = construct<A, 8>();
			unsigned n = 0;
			f.add_new_readings([&](unsigned) { n++; return 0; });
			PROVE(n == 0); // nothing announced
			f.get_interp_values([&](unsigned i, int v) {
				PROVE(i == n && v == 0);
				n++;
			});
			PROVE(n == N && A::size() == N);
			unsigned pace = any<unsigned, 9>();
			f.set_num_updates(pace);
			PROVE(f._num_updates == pace);
		}
		REACH();
	}
};
using Array1 = Array<1>;
CELLS(Array1, 5);
using Array3 = Array<3>;
CELLS(Array3, 5);
