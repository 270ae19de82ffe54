// Periodic polling, across clock overflow.
#include "vf.hh"
#include "util/poll_change.hh"
#include "util/poll_event.hh"

template<class T>
struct Event { // fires exactly when at least one period has passed, on an unsigned clock
	static void run() {
		T period = any<T, 1>(), last = any<T, 2>(), now = any<T, 3>();
		auto &p = construct<PollEvent<T>>(period);
		PROVE(p.last_poll == 0);
		p.last_poll = last;
		unsigned calls = 0;
		p.poll(now, [&] { calls++; });
		bool due = T(now - last) >= period;
		if (due) {
			PROVE(calls == 1);
			PROVE(p.last_poll == now);
		} else {
			PROVE(calls == 0);
			PROVE(p.last_poll == last);
		}
		PROVE(p.period == period);
		REACH();
	}
};
using Event8 = Event<uint8_t>;
CELLS(Event8);
using Event16 = Event<uint16_t>;
CELLS(Event16);
using Event32 = Event<uint32_t>;
CELLS(Event32);
using Event64 = Event<uint64_t>;
CELLS(Event64);
struct EventSigned { // the default clock type, running forward without overflow
	static void run() {
		long period = any<long, 1>(), last = any<long, 2>(), now = any<long, 3>();
		ASSUME(period >= 0 && last >= 0 && now >= last);
		auto &p = construct<PollEvent<>>(period);
		p.last_poll = last;
		unsigned calls = 0;
		p.poll(now, [&] { calls++; });
		PROVE(calls == (now - last >= period ? 1 : 0));
		PROVE(p.last_poll == (now - last >= period ? now : last));
		REACH();
	}
};
CELLS(EventSigned);

struct Change {
	template<size_t Pending, size_t How>
	static void run() {
		unsigned ticks = any<unsigned, 1>(), last = any<unsigned, 2>(), now = any<unsigned, 3>();
		bool cur = any<bool, 4>(), in = any<bool, 5>();
		auto &p = construct<PollChange>(ticks);
		PROVE(!p.current_state && !p.change_detected && p.last_update_time == 0 && p.update_ticks == ticks);
		p.last_update_time = last;
		p.current_state = cur;
		p.change_detected = Pending;
		unsigned asked = 0;
		if constexpr (How == 0) p.poll(now, in);
		else p.poll(now, [&] { asked++; return in; });
		if (now - last >= ticks) {
			PROVE(p.current_state == in);
			PROVE(p.last_update_time == now);
			PROVE(p.change_detected == (Pending || cur != in));
			if (How) PROVE(asked == 1);
		} else {
			PROVE(p.current_state == cur);
			PROVE(p.last_update_time == last);
			PROVE(p.change_detected == bool(Pending));
			if (How) PROVE(asked == 0); // the costly function is left alone
		}
		PROVE(p.update_ticks == ticks);
		bool told = p.change_detected;
		PROVE(p.take_change() == told);
		PROVE(!p.take_change());
		p.reset();
		PROVE(p.take_change());
		PROVE(!p.take_change());
		REACH();
	}
};
CELLS(Change, 2, 2);
