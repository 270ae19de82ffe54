// Oscillators, counters and one-shots: every phase and step.
// VFA: -peel=3
// CXXFLAGS: -fno-math-errno
#include "vf.hh"
#include <bit>
#include <cmath>
#include <cstddef>
#include "util/oscs.hh"
#include "util/math_tables.cc"

static constexpr uint64_t top = 0xFFFFFFFF;
static bool same(float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); }

template<int Rate>
struct Triangle {
	static void run() {
		using O = TriangleOscillator<Rate>;
		auto &o = opaque<O>();
		const uint32_t p = any<uint32_t, 1>(), inc = any<uint32_t, 2>();
		o.set_phase(p);
		o.increment_ = inc;
		auto wave = [](uint64_t at) { return at <= top / 2 ? 2 * at : 2 * (top + 1) - 1 - 2 * at; };
		PROVE(o.val() == wave(p));
		PROVE(o.val() == wave(p)); // looking moves nothing
		uint32_t got = o.process();
		uint32_t at = p + inc;
		PROVE(got == wave(at) && o.val() == got);
		o.update();
		at += inc;
		PROVE(o.val() == wave(at));
		float f = o.process_float();
		at += inc;
		PROVE(o.val() == wave(at));
		PROVE(f >= 0.f && f <= 1.f);
		REACH();
	}
};
using Triangle48k = Triangle<48000>;
CELLS(Triangle48k);

struct TriangleFloat { // the same scale all over
	template<size_t B>
	static void run() {
		auto &o = construct<TriangleOscillator<1000>>();
		uint32_t p = any<uint32_t, 1>();
		constexpr uint32_t lo = uint32_t(B) << 26, hi = lo + 0x3ffffff;
		ASSUME(p >= lo && p <= hi);
		o.set_phase(p);
		float f = o.process_float();
		constexpr double a = B < 32 ? B / 32. : (64 - B) / 32., b = B < 32 ? (B + 1) / 32. : (63 - B) / 32.;
		PROVE(f >= (a < b ? a : b) - 1e-6 && f <= (a < b ? b : a) + 1e-6);
		REACH();
	}
};
CELLS(TriangleFloat, 64);

template<int Rate>
struct Steps { // how far an update goes, for frequencies and periods
	template<size_t W>
	static void run() {
		auto &o = opaque<TriangleOscillator<Rate>>();
		auto &r = opaque<PhaseAccum<Rate>, 1>();
		auto &d = opaque<DownCounter<Rate>, 2>();
		constexpr uint64_t unit = top / Rate;
		const uint32_t p = any<uint32_t, 1>(), f = any<uint32_t, 2>();
		o.phase_ = p;
		r.phase_ = p;
		d.phase_ = p;
		if constexpr (W == 0) { // as many cycles per second
			ASSUME(f <= Rate / 2);
			o.set_frequency(f);
			PROVE(o.increment_ == f * unit && o.phase_ == p);
			o.set_frequency(int(f));
			PROVE(o.increment_ == f * unit && o.phase_ == p);
			r.set_frequency(f);
			PROVE(r.increment_ == f * unit && r.phase_ == p);
			d.set_frequency(f);
			PROVE(d.increment_ == f * unit && d.phase_ == p);
			auto &q = construct<TriangleOscillator<Rate>, 4>(f);
			PROVE(q.increment_ == f * unit && q.phase_ == 0);
			auto &z = construct<PhaseAccum<Rate>, 4>(f);
			PROVE(z.increment_ == f * unit && z.phase_ == 0);
			auto &s = construct<SineOscillator<Rate>, 4>(f);
			PROVE(s._phaseacc.increment_ == f * unit && s._phaseacc.phase_ == 0);
			auto &t = opaque<SineOscillator<Rate>, 5>();
			t._phaseacc.phase_ = p;
			t.set_frequency(f);
			PROVE(t._phaseacc.increment_ == f * unit && t._phaseacc.phase_ == p);
		} else if constexpr (W == 1) { // the cycle takes the period, short of a step per update
			ASSUME(f >= 1);
			o.set_period_ms(f);
			PROVE(o.phase_ == p);
		} else if constexpr (W == 2) {
			ASSUME(f >= 1);
			o.set_period_sec(f);
			PROVE(o.increment_ == unit / f && o.phase_ == p);
		} else if constexpr (W == 3) {
			d.set_period_ms(f);
			PROVE(d.phase_ == p);
		} else if constexpr (W == 4) { // at rest
			auto &q = construct<TriangleOscillator<Rate>, 4>();
			PROVE(q.increment_ == 0 && q.phase_ == 0 && q.val() == 0);
			auto &z = construct<PhaseAccum<Rate>, 4>();
			PROVE(z.increment_ == 0 && z.phase_ == 0 && z.val() == 0);
			auto &s = construct<SineOscillator<Rate>, 4>();
			PROVE(s._phaseacc.increment_ == 0 && s._phaseacc.phase_ == 0);
			auto &c = construct<DownCounter<Rate>, 4>();
			PROVE(c.increment_ == top && c.phase_ == top);
		}
		REACH();
	}
};
using Steps100 = Steps<100>;
CELLS(Steps100, 5);
using Steps1000 = Steps<1000>;
CELLS(Steps1000, 5);
using Steps48000 = Steps<48000>;
CELLS(Steps48000, 5);

template<int Rate>
struct Periods { // particular ones
	template<size_t W>
	static void run() {
		auto &o = opaque<TriangleOscillator<Rate>>();
		auto &d = opaque<DownCounter<Rate>, 2>();
		constexpr uint32_t ms[16] = {1, 2, 3, 7, 10, 33, 100, 999, 1000, 1001, 1500, 2000, 10000, 65535, 1000000, 4294967295u};
		constexpr uint64_t want = top / Rate * 1000 / ms[W];
		if constexpr (want <= top / 2) { // at least two updates
			o.set_period_ms(ms[W]);
			PROVE(o.increment_ >= want - want / 4194304 - (want > 0) && o.increment_ <= want + want / 4194304 + 1);
		}
		d.set_period_ms(ms[W]);
		if (want >= top) PROVE(d.increment_ >= top - 1024); // ends with the next update
		else PROVE(d.increment_ >= want - want / 4194304 - (want > 0) && d.increment_ <= want + want / 4194304 + 1);
		d.set_period_ms(0);
		d.reset();
		d.update();
		PROVE(d.val() == 0);
		REACH();
	}
};
using Periods100 = Periods<100>;
CELLS(Periods100, 16);
using Periods1000 = Periods<1000>;
CELLS(Periods1000, 16);
using Periods48000 = Periods<48000>;
CELLS(Periods48000, 16);

struct FloatSteps {
	template<size_t B> // frequencies in steps of 1/8 up to 16
	static void run() {
		constexpr uint32_t unit = top / 1000;
		auto &o = opaque<TriangleOscillator<1000>>();
		float f = any<float, 1>();
		const uint32_t p = any<uint32_t, 1>();
		o.phase_ = p;
		ASSUME(f >= B / 8.f && f <= (B + 1) / 8.f);
		o.set_frequency(f);
		PROVE(o.increment_ >= uint32_t(unit / 8. * B * 0.999999) && o.increment_ <= uint32_t(unit / 8. * (B + 1) * 1.000001));
		PROVE(o.phase_ == p);
		REACH();
	}
};
CELLS(FloatSteps, 128);

template<int Rate>
struct Ramp {
	static void run() {
		auto &o = opaque<PhaseAccum<Rate>>();
		const uint32_t p = any<uint32_t, 1>(), inc = any<uint32_t, 2>();
		o.set_phase(p);
		o.increment_ = inc;
		PROVE(o.val() == p);
		PROVE(o.process() == uint32_t(p + inc) && o.val() == uint32_t(p + inc));
		PROVE(o.Process() == uint32_t(p + 2 * inc));
		o.update();
		PROVE(o.val() == uint32_t(p + 3 * inc));
		float f = o.process_float();
		PROVE(o.val() == uint32_t(p + 4 * inc) && o.increment_ == inc);
		PROVE(f >= 0.f && f <= 1.f);
		REACH();
	}
};
using Ramp48k = Ramp<48000>;
CELLS(Ramp48k);
struct RampFloat {
	template<size_t B>
	static void run() {
		auto &o = construct<PhaseAccum<1000>>();
		uint32_t p = any<uint32_t, 1>();
		constexpr uint32_t lo = uint32_t(B) << 26, hi = lo + 0x3ffffff;
		ASSUME(p >= lo && p <= hi);
		o.set_phase(p);
		float f = o.process_float();
		PROVE(f >= B / 64. - 1e-7 && f <= (B + 1) / 64. + 1e-7);
		REACH();
	}
};
CELLS(RampFloat, 64);

template<size_t B>
static void sineAt(auto &o) { // an eighth of the table entries, each in the middle
	uint32_t p = any<uint32_t, 1>();
	constexpr uint32_t lo = uint32_t(B) * (8u << 21) + (1u << 19), hi = lo + (1u << 20);
	ASSUME(p >= lo && p <= hi);
	o.set_phase(p);
}
struct Sine {
	template<size_t B>
	static void run() {
		auto &o = construct<SineOscillator<1000>>();
		sineAt<B>(o);
		const double want = std::sin(2 * 3.14159265358979323846 * (B * 8 + 0.5) / 2048);
		float f = o.process_bipolar();
		PROVE(f >= want - 0.002);
		PROVE(f <= want + 0.002);
		f = o.process_unipolar();
		PROVE(f >= want / 2 + 0.498);
		PROVE(f <= want / 2 + 0.502);
		uint32_t u = o.process();
		const double full = 4294967040.;
		PROVE(u >= (want / 2 + 0.498 > 0 ? (want / 2 + 0.498) * full : 0));
		PROVE(u <= (want / 2 + 0.502 < 1 ? (want / 2 + 0.502) * full : full));
		u = o.val();
		PROVE(u >= (want / 2 + 0.498 > 0 ? (want / 2 + 0.498) * full : 0));
		PROVE(u <= (want / 2 + 0.502 < 1 ? (want / 2 + 0.502) * full : full));
		REACH();
	}
};
CELLS(Sine, 256);
struct SineRange { // any phase
	static void run() {
		auto &o = opaque<SineOscillator<48000>>();
		const uint32_t p = any<uint32_t, 1>(), inc = any<uint32_t, 2>();
		o._phaseacc.increment_ = inc;
		o.set_phase(p);
		float f = o.process_bipolar();
		PROVE(o._phaseacc.phase_ == uint32_t(p + inc));
		PROVE(f >= -1.f && f <= 1.f);
		f = o.process_unipolar();
		PROVE(o._phaseacc.phase_ == uint32_t(p + 2 * inc));
		PROVE(f >= 0.f && f <= 1.f);
		(void)o.process();
		PROVE(o._phaseacc.phase_ == uint32_t(p + 3 * inc));
		(void)o.val();
		PROVE(o._phaseacc.phase_ == uint32_t(p + 4 * inc));
		o.update();
		PROVE(o._phaseacc.phase_ == uint32_t(p + 5 * inc) && o._phaseacc.increment_ == inc);
		REACH();
	}
};
CELLS(SineRange);

struct Down {
	static void run() {
		auto &d = opaque<DownCounter<1000>>();
		const uint32_t p = any<uint32_t, 1>(), inc = any<uint32_t, 2>();
		d.set_phase(p);
		d.increment_ = inc;
		PROVE(d.val() == p);
		d.update();
		const uint32_t next = inc == 0 || p <= inc ? 0 : p - inc;
		PROVE(d.val() == next && d.increment_ == inc);
		d.update();
		PROVE(d.val() <= next && d.increment_ == inc);
		d.reset();
		PROVE(d.val() == top && d.increment_ == inc);
		REACH();
	}
};
CELLS(Down);

struct Shot {
	static void run() {
		auto &s = opaque<OneShot>();
		float left = any<float, 1>(), step = any<float, 2>(), w = any<float, 3>(), hz = any<float, 4>();
		ASSUME(left == left && step == step && w == w && hz == hz);
		s.pulse_width_ = left;
		s.increment_ = step;
		bool on = s.update();
		PROVE(on == (left > 0));
		if (on) PROVE(same(s.pulse_width_, left - step));
		else PROVE(same(s.pulse_width_, left));
		PROVE(same(s.increment_, step));
		s.start(w);
		PROVE(same(s.pulse_width_, w) && same(s.increment_, step));
		s.set_update_rate_hz(hz);
		if (hz > 0) PROVE(same(s.increment_, 1.f / hz));
		else PROVE(same(s.increment_, step));
		PROVE(same(s.pulse_width_, w));
		s.stop();
		PROVE(!s.update() && s.pulse_width_ == 0);
		ASSUME(hz > 0);
		auto &n = construct<OneShot, 5>(hz);
		PROVE(same(n.increment_, 1.f / hz) && !n.update());
		auto &k = construct<OneShot, 6>();
		PROVE(same(k.increment_, 1.f / 48000.f) && !k.update());
		REACH();
	}
};
CELLS(Shot);
