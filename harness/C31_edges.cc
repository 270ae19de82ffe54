// Edge, change and level detectors.
#include "vf.hh"
#include "util/change_detector.hh"
#include "util/edge_detector.hh"
#include "util/schmitt_trigger.hh"

struct Edges {
	static void run() {
		auto &d = construct<EdgeStateDetector>();
		PROVE(!d.state_ && !d.last_state_);
		bool a = any<bool, 1>(), b = any<bool, 2>(), c = any<bool, 3>();
		d.last_state_ = a;
		d.state_ = b;
		d.update(c);
		PROVE(d.changed() == (b != c));
		PROVE(d.went_high() == (!b && c));
		PROVE(d.went_low() == (b && !c));
		PROVE(d.is_high() == c);
		PROVE(d.staying_high() == (b && c));
		PROVE(d.staying_low() == (!b && !c));
		PROVE(d.changed() == (b != c) && d.is_high() == c); // asking changes nothing
		d.reset();
		PROVE(!d.is_high() && !d.changed() && d.staying_low());
		REACH();
	}
};
CELLS(Edges);

struct OneSided {
	static void run() {
		auto &r = construct<RisingEdgeDetector>();
		auto &f = construct<FallingEdgeDetector>();
		PROVE(!r.last_state_ && !f.last_state_);
		bool a = any<bool, 1>(), b = any<bool, 2>(), c = any<bool, 3>();
		r.last_state_ = f.last_state_ = a;
		PROVE(r.update(b) == (!a && b));
		PROVE(f.update(b) == (a && !b));
		PROVE(r.update(c) == (!b && c));
		PROVE(f.update(c) == (b && !c));
		REACH();
	}
};
CELLS(OneSided);

struct Changes { // any change since the last question is told once, however many updates
	template<size_t N>
	static void run() {
		auto &d = construct<ChangeDetector>();
		PROVE(!d.last_state_ && !d.changed_);
		bool s0 = any<bool, 1>(), pending = any<bool, 2>();
		d.last_state_ = s0;
		d.changed_ = pending;
		bool s[4] = {any<bool, 3>(), any<bool, 4>(), any<bool, 5>(), any<bool, 6>()};
		bool expect = pending, last = s0;
		for (size_t i = 0; i < N; i++) {
			d.update(s[i]);
			expect = expect || s[i] != last;
			last = s[i];
		}
		PROVE(d.changed() == expect);
		PROVE(!d.changed());
		PROVE(d.last_state_ == last);
		REACH();
	}
};
CELLS(Changes, 5);

struct Schmitt {
	template<size_t S>
	static void run() {
		float lo = any<float, 1>(), hi = any<float, 2>(), v = any<float, 3>();
		auto &t = construct<cpputil::SchmittTrigger>(lo, hi);
		constexpr bool h = S & 1, r = bool(S & 2), f = bool(S & 4);
		t.is_high_ = h;
		t.got_rising_edge_ = r;
		t.got_falling_edge_ = f;
		t.process(v);
		if (!h && v > hi) PROVE(t.is_high_ && t.got_rising_edge_ && !t.got_falling_edge_);
		else if (h && v < lo) PROVE(!t.is_high_ && !t.got_rising_edge_ && t.got_falling_edge_);
		else PROVE(t.is_high_ == h && t.got_rising_edge_ == r && t.got_falling_edge_ == f);
		REACH();
	}
};
CELLS(Schmitt, 8);

struct RisingSchmitt {
	template<size_t S>
	static void run() {
		float lo = any<float, 1>(), hi = any<float, 2>(), v = any<float, 3>();
		auto &t = construct<cpputil::RisingSchmittTrigger>(lo, hi);
		PROVE(!t.last_state_);
		t.last_state_ = S;
		bool out = t.update(v);
		if (!S && v > hi) PROVE(out && t.last_state_);
		else if (S && v < lo) PROVE(!out && !t.last_state_);
		else PROVE(!out && t.last_state_ == bool(S));
		REACH();
	}
};
CELLS(RisingSchmitt, 2);

struct Defaults {
	static void run() {
		auto &a = construct<cpputil::SchmittTrigger>();
		auto &b = construct<cpputil::RisingSchmittTrigger>();
		PROVE(a.low == 0.4f && a.high == 0.6f && b.low == 0.4f && b.high == 0.6f);
		PROVE(!a.is_high() && !a.just_went_high() && !a.just_went_low());
		REACH();
	}
};
CELLS(Defaults);
