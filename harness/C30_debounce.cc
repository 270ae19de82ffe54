// Togglers report each edge once; debouncers find edges exactly where the last samples match the pattern.
// VFA: -devolatile
#include "vf.hh"
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"

template<class T>
struct State {
	bool high, rise, fall;
	State(T &t) : high(t.is_high_), rise(t.got_rising_edge_), fall(t.got_falling_edge_) {}
	bool is(bool h, bool r, bool f) const { return high == h && rise == r && fall == f; }
};
template<class T, int N = 0, size_t S>
T &in(std::integral_constant<size_t, S>) {
	T &t = construct<T, N>();
	t.is_high_ = S & 1;
	t.got_rising_edge_ = bool(S & 2);
	t.got_falling_edge_ = bool(S & 4);
	return t;
}

template<class T>
struct Toggle {
	template<size_t S, size_t Op>
	static void run() {
		T &t = in<T>(std::integral_constant<size_t, S>{});
		constexpr bool h = S & 1, r = bool(S & 2), f = bool(S & 4);
		bool x = any<bool>();
		if constexpr (Op == 0) {
			t.register_state(x);
			if (x == h) PROVE(State(t).is(h, r, f));
			else if (x) PROVE(State(t).is(true, true, f));
			else PROVE(State(t).is(false, r, true));
		} else if constexpr (Op == 1) {
			t.process(x);
			if (x == h) PROVE(State(t).is(h, r, f));
			else if (x) PROVE(State(t).is(true, true, f));
			else PROVE(State(t).is(false, r, true));
		} else if constexpr (Op == 2) { // told once, then forgotten
			PROVE(t.is_just_pressed() == r);
			PROVE(State(t).is(h, false, f));
			PROVE(!t.is_just_pressed());
		} else if constexpr (Op == 3) {
			PROVE(t.is_just_released() == f);
			PROVE(State(t).is(h, r, false));
			PROVE(!t.is_just_released());
		} else if constexpr (Op == 4) {
			PROVE(t.just_went_high() == r);
			PROVE(State(t).is(h, false, f));
			PROVE(t.just_went_low() == f);
			PROVE(State(t).is(h, false, false));
		} else if constexpr (Op == 5) {
			PROVE(t.is_high() == h && t.is_pressed() == h && bool(t) == h);
			PROVE(State(t).is(h, r, f));
			t.clear_events();
			PROVE(State(t).is(h, false, false));
			t.reset();
			PROVE(State(t).is(false, false, false));
		} else if constexpr (Op == 6) {
			t.register_rising_edge();
			PROVE(State(t).is(true, true, false));
		} else if constexpr (Op == 7) {
			t.register_falling_edge();
			PROVE(State(t).is(false, false, true));
		} else if constexpr (Op == 8) {
			unsigned u = any<unsigned>();
			t.set_state_no_events(u);
			PROVE(State(t).is(u != 0, r, f));
		} else {
			T &n = construct<T, 7>();
			PROVE(State(n).is(false, false, false));
		}
		REACH();
	}
};
using TogglePlain = Toggle<Toggler>;
CELLS(TogglePlain, 8, 10);
using ToggleCompact = Toggle<TogglerCompact>;
CELLS(ToggleCompact, 8, 10);

template<class T>
struct Transfer {
	template<size_t S, size_t O, size_t Op>
	static void run() {
		T &t = in<T, 0>(std::integral_constant<size_t, S>{}), &o = in<T, 1>(std::integral_constant<size_t, O>{});
		constexpr bool h = O & 1, r = bool(O & 2), f = bool(O & 4), myr = bool(S & 2), myf = bool(S & 4);
		if constexpr (Op == 0) {
			t.copy_state(o);
			PROVE(State(t).is(h, r, f));
			PROVE(State(o).is(h, r, f));
		} else if constexpr (Op == 1) {
			t = o;
			PROVE(State(t).is(h, r, f));
			PROVE(State(o).is(h, r, f));
		} else if constexpr (!(r && f)) { // pending events are kept, the other's event is added
			if constexpr (Op == 2) t.update_state(o);
			else t.transfer_events(o);
			PROVE(State(t).is(h, myr || r, myf || f));
			PROVE(State(o).is(h, Op == 2 && r, Op == 2 && f));
		} else {
			if constexpr (Op == 2) t.update_state(o);
			else t.transfer_events(o);
			PROVE(t.is_high() == h);
			PROVE(State(o).is(h, Op == 2, Op == 2));
		}
		REACH();
	}
};
using TransferPlain = Transfer<Toggler>;
CELLS(TransferPlain, 8, 8, 4);
using TransferCompact = Transfer<TogglerCompact>;
CELLS(TransferCompact, 8, 8, 4);

struct Counter {
	template<size_t S>
	static void run() {
		auto &t = in<TogglerCounter>(std::integral_constant<size_t, S>{});
		constexpr bool h = S & 1, r = bool(S & 2), f = bool(S & 4);
		unsigned n = any<unsigned, 2>();
		bool x = any<bool>(), how = any<bool, 3>();
		PROVE(t.steady_state_count() == 0);
		t.steady_state_ctr = n;
		if (how) t.register_state(x);
		else t.process(x);
		if (x == h) {
			PROVE(State(t).is(h, r, f));
			PROVE(t.steady_state_count() == n + 1);
		} else {
			PROVE(State(t).is(x, r || x, f || !x));
			PROVE(t.steady_state_count() == 0);
		}
		t.reset_count();
		PROVE(t.steady_state_count() == 0);
		REACH();
	}
};
CELLS(Counter, 8);

// one sample, from any history of samples
template<class D, unsigned RISE, unsigned FALL, unsigned MASK, bool RAW, bool COUNT>
struct Debounce {
	template<size_t S>
	static void run() {
		D &d = in<D>(std::integral_constant<size_t, S>{});
		constexpr bool h = S & 1, r = bool(S & 2), f = bool(S & 4);
		unsigned hist = any<unsigned, 4>() & MASK;
		unsigned n = any<unsigned, 5>();
		d.debounce_state_ = hist;
		if constexpr (COUNT) d.steady_state_ctr = n;
		bool x = any<bool>();
		d.register_state(x);
		unsigned now = (hist << 1 | unsigned(x)) & MASK;
		PROVE(d.debounce_state_ == now);
		if (now == (RISE & MASK)) {
			PROVE(State<D>(d).is(true, true, false));
			if constexpr (COUNT) PROVE(d.steady_state_ctr == 0);
		} else if (now == (FALL & MASK)) {
			PROVE(State<D>(d).is(false, false, true));
			if constexpr (COUNT) PROVE(d.steady_state_ctr == 0);
		} else {
			PROVE(State<D>(d).is(RAW ? h : x, r, f));
			if constexpr (COUNT) PROVE(d.steady_state_ctr == n + 1);
		}
		REACH();
	}
};
using Deb = Debounce<Debouncer<>, 1, 0xfffffffe, 0xfff, false, false>;
CELLS(Deb, 8);
using DebRaw = Debounce<Debouncer<1, 0xfffffffe, 0xfff, true>, 1, 0xfffffffe, 0xfff, true, false>;
CELLS(DebRaw, 8);
using DebShort = Debounce<Debouncer<0b0111, 0b1000, 0b1111>, 0b0111, 0b1000, 0b1111, false, false>;
CELLS(DebShort, 8);
using DebWide = Debounce<Debouncer<0x7fffffff, 0x80000000, 0xffffffff, true>, 0x7fffffff, 0x80000000, 0xffffffff, true, false>;
CELLS(DebWide, 8);
using DebCount = Debounce<DebouncerCounter<>, 1, 0xfffffffe, 0xfff, false, true>;
CELLS(DebCount, 8);
using DebCountRaw = Debounce<DebouncerCounter<0b01, 0b10, 0b11, true>, 0b01, 0b10, 0b11, true, true>;
CELLS(DebCountRaw, 8);

// a whole history from power-on: no edge before a full window says so
template<class D>
struct Fresh {
	template<size_t LEN>
	static void run() {
		D &d = construct<D>();
		PROVE(State<D>(d).is(false, false, false));
		PROVE(d.debounce_state_ == 0);
		for (size_t i = 0; i < LEN; i++) d.register_state(0); // quiet stays quiet
		PROVE(!d.is_just_pressed() && !d.is_just_released() && !d.is_high());
		d.register_state(1);
		PROVE(d.is_just_pressed() && d.is_high());
		for (size_t i = 0; i < 10; i++) { // bouncing: no further event
			d.register_state(any<bool>());
			PROVE(!d.is_just_pressed());
			PROVE(!d.is_just_released());
		}
		REACH();
	}
};
using FreshD = Fresh<Debouncer<>>;
CELLS(FreshD, 14);
using FreshC = Fresh<DebouncerCounter<>>;
CELLS(FreshC, 14);
