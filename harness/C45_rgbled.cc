// What an RGB LED shows: flash over breathing over base colour, calibrated, each driver its own channel.
#include "vf.hh"
#include "util/rgbled.hh"

static uint8_t shown[3];
template<int N>
struct Driver {
	void set(uint8_t v) const { shown[N] = v; }
};
template<unsigned Rate>
using Led = MixedRgbLed<Driver<0>, Driver<1>, Driver<2>, Rate>;

static void expect(const Color &c) {
	PROVE(shown[0] == c.red() && shown[1] == c.green() && shown[2] == c.blue());
}

struct Direct {
	template<size_t OP>
	static void run() {
		auto &l = opaque<Led<1000>>();
		const Color c{any<uint8_t, 1>(), any<uint8_t, 2>(), any<uint8_t, 3>()};
		if constexpr (OP == 0) {
			l.set_color(c);
			expect(c);
		} else if constexpr (OP == 1) {
			const auto b = any<uint8_t, 4>();
			l.set_color(c, b);
			PROVE(shown[0] == (c.red() * b) / 256 && shown[1] == (c.green() * b) / 256 && shown[2] == (c.blue() * b) / 256);
		} else if constexpr (OP == 2) {
			const auto b = any<float, 4>();
			ASSUME(b >= 0.f && b <= 1.f);
			l.set_color(c, b);
			PROVE(shown[0] == uint8_t(c.red() * b) && shown[1] == uint8_t(c.green() * b) && shown[2] == uint8_t(c.blue() * b));
		}
		REACH();
	}
};
CELLS(Direct, 3);

// a new LED is off until told otherwise; setters change what is meant and nothing else
struct Setters {
	template<size_t OP>
	static void run() {
		auto &l = opaque<Led<1000>>();
		const Led<1000> old = l;
		const Color c{any<uint8_t, 1>(), any<uint8_t, 2>(), any<uint8_t, 3>()};
		Color base = old.background_color_, breathe = old.breathe_color_, flash = old.flash_color_;
		bool fade = old.do_smooth_fade_;
		if constexpr (OP == 0) { l.set_base_color(c); base = c; }
		if constexpr (OP == 1) {
			l.blend_base_color(c);
			base = Color(base.red() / 2 + c.red() / 2, base.green() / 2 + c.green() / 2, base.blue() / 2 + c.blue() / 2);
		}
		if constexpr (OP == 2) { l.flash_once_ms(c, 100.f); flash = c; fade = false; }
		if constexpr (OP == 3) { l.fade_once_ms(c, 100.f); flash = c; fade = true; }
		if constexpr (OP == 4) { l.breathe(c, 2.f); breathe = c; }
		if constexpr (OP == 5) l.reset_breathe();
		if constexpr (OP == 6) {
			Color::Adjustment a{any<uint8_t, 4>(), any<uint8_t, 5>(), any<uint8_t, 6>()};
			l.set_color_calibration(a);
			PROVE(l.color_cal_.r == a.r && l.color_cal_.g == a.g && l.color_cal_.b == a.b);
		} else PROVE(l.color_cal_.r == old.color_cal_.r && l.color_cal_.g == old.color_cal_.g && l.color_cal_.b == old.color_cal_.b);
		PROVE(l.background_color_ == base && l.breathe_color_ == breathe && l.flash_color_ == flash);
		PROVE(l.do_smooth_fade_ == fade);
		if constexpr (OP == 2 || OP == 3) PROVE(l.flasher_.phase_ == 0xFFFFFFFF);
		else PROVE(l.flasher_.phase_ == old.flasher_.phase_ && l.flasher_.increment_ == old.flasher_.increment_);
		if constexpr (OP == 4) PROVE(l.fader_.phase_ == old.fader_.phase_ && l.fader_.increment_ == 2 * (0xFFFFFFFFu / 1000));
		else if constexpr (OP == 5) PROVE(l.fader_.phase_ == 0 && l.fader_.increment_ == 0);
		else PROVE(l.fader_.phase_ == old.fader_.phase_ && l.fader_.increment_ == old.fader_.increment_);
		REACH();
	}
};
CELLS(Setters, 7);

struct Begin {
	template<size_t Z>
	static void run() {
		auto &l = construct<Led<1000>>();
		PROVE(l.background_color_ == Color(0, 0, 0) && l.fader_.val() == 0 && l.fader_.increment_ == 0);
		PROVE(!l.do_smooth_fade_);
		PROVE(l.color_cal_.r == 128 && l.color_cal_.g == 128 && l.color_cal_.b == 128);
		l.update_animation();
		l.update_animation();
		expect(Color(0, 0, 0));
		REACH();
	}
};
CELLS(Begin, 1);

static uint8_t mix(uint8_t a, uint8_t b, uint32_t phase) { return (a * (256 - (phase >> 24)) + b * (phase >> 24)) / 256; }
static uint8_t cal(uint8_t a, uint8_t k) { return a * k / 128 > 255 ? 255 : a * k / 128; }
static Color mix(const Color &a, const Color &b, uint32_t p) { return Color(mix(a.red(), b.red(), p), mix(a.green(), b.green(), p), mix(a.blue(), b.blue(), p)); }
static Color cal(const Color &a, Color::Adjustment k) { return Color(cal(a.red(), k.r), cal(a.green(), k.g), cal(a.blue(), k.b)); }

// any animation state: MODE 0 flashing, 1 fading, 2 and 4 breathing, 3 and 5 base
struct Update {
	template<size_t MODE>
	static void run() {
		auto &l = opaque<Led<1000>>();
		Led<1000> old = l;
		const uint32_t from = old.flasher_.phase_, step = old.flasher_.increment_;
		uint32_t left = 0;
		if (MODE < 2) {
			ASSUME(step && from > step);
			left = from - step;
		} else if (MODE < 4) ASSUME(step && from <= step);
		else ASSUME(!step);
		const uint32_t p = old.fader_.phase_ + old.fader_.increment_;
		const uint32_t wave = p >= 0x80000000u ? 0xFFFFFFFFu - p * 2 : p * 2;
		if (MODE < 2) ASSUME(old.do_smooth_fade_ == bool(MODE));
		else ASSUME((wave != 0) == (MODE % 2 == 0));
		l.update_animation();
		const Color base = old.background_color_;
		const Color c = MODE == 0 ? old.flash_color_ : MODE == 1 ? mix(base, old.flash_color_, left) : MODE % 2 == 0 ? mix(base, old.breathe_color_, wave) : base;
		expect(cal(c, old.color_cal_));
		PROVE(l.background_color_ == base && l.breathe_color_ == old.breathe_color_ && l.flash_color_ == old.flash_color_);
		PROVE(l.flasher_.phase_ == left && l.fader_.phase_ == p);
		REACH();
	}
};
CELLS(Update, 6);

// a flash of T ms is over after the updates that make up T ms, and not more than one update early or late
template<unsigned Rate>
struct Length {
	template<size_t I>
	static void run() {
		constexpr unsigned T[]{1, 2, 3, 5, 7, 10, 16, 20, 33, 50, 100, 150, 250, 333, 500, 700, 999, 1000, 1001, 1500, 2000, 3500, 10000, 60000};
		constexpr uint64_t max = 0xFFFFFFFFull;
		auto &l = opaque<Led<Rate>>();
		l.flash_once_ms(Color{1, 2, 3}, float(T[I]));
		const uint64_t updates = uint64_t{T[I]} * Rate / 1000;
		const uint64_t inc = l.flasher_.increment_;
		PROVE(l.flasher_.phase_ == max);
		PROVE(inc != 0 && inc * (updates + 1 + updates / 1000) >= max);
		PROVE(updates < 2 || inc * (updates - 1) < max);
		REACH();
	}
};
CELLS(Length<1000>, 24);
CELLS(Length<100>, 24);
CELLS(Length<48000>, 24);
