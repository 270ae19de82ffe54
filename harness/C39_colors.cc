// Colours: packing, mixing, hue.
#include "vf.hh"
#include <array>
#include <cstddef>
#include "util/colors.hh"
#include "util/colors_rgb565.hh"
#include "util/hsv.hh"

struct Pack {
	template<size_t OP>
	static void run() {
		uint8_t r = any<uint8_t, 1>(), g = any<uint8_t, 2>(), b = any<uint8_t, 3>();
		uint16_t raw = any<uint16_t, 4>();
		uint32_t rgb = any<uint32_t, 5>();
		if constexpr (OP == 0) {
			RGB565 x{r, g, b};
			PROVE(x.r == r >> 3 && x.g == g >> 2 && x.b == b >> 3);
			PROVE(x.red() == (r & 0xf8) && x.green() == (g & 0xfc) && x.blue() == (b & 0xf8));
			PROVE(x.raw() == ((r >> 3) << 11 | (g >> 2) << 5 | b >> 3));
			PROVE(uint16_t(x) == x.raw());
		} else if constexpr (OP == 1) {
			RGB565 x;
			PROVE(x.raw() == 0);
			x = raw;
			PROVE(x.raw() == raw);
			PROVE(uint16_t(x) == raw);
			PROVE(x.red() == (raw >> 11) << 3 && x.green() == ((raw >> 5) & 63) << 2 && x.blue() == (raw & 31) << 3);
		} else if constexpr (OP == 2) {
			RGB565 x{rgb};
			PROVE(x.red() == ((rgb >> 16) & 0xf8));
			PROVE(x.green() == ((rgb >> 8) & 0xfc));
			PROVE(x.blue() == (rgb & 0xf8));
		} else if constexpr (OP == 3) {
			Color c{r, g, b};
			PROVE(c.red() == r && c.green() == g && c.blue() == b);
			PROVE(c.Rgb565() == ((r >> 3) << 11 | (g >> 2) << 5 | b >> 3));
			RGB565 x{r, g, b};
			PROVE(c.Rgb565() == x.raw());
		} else if constexpr (OP == 4) {
			Color c{raw};
			PROVE(c.red() == (raw >> 11) << 3 && c.green() == ((raw >> 5) & 63) << 2 && c.blue() == (raw & 31) << 3);
			PROVE(c.Rgb565() == raw);
		} else {
			Color c{r, g, b}, d{any<uint8_t, 6>(), any<uint8_t, 7>(), any<uint8_t, 8>()};
			bool same = c.red() == d.red() && c.green() == d.green() && c.blue() == d.blue();
			if (same) PROVE(c == d && !(c != d));
			else PROVE(c != d && !(c == d));
			PROVE(Color{} == Color(0, 0, 0) && c == c);
		}
		REACH();
	}
};
CELLS(Pack, 6);

// which channel is looked at
template<size_t CH>
uint8_t channel(Color c) {
	return CH == 0 ? c.red() : CH == 1 ? c.green() : c.blue();
}
struct Pair {
	Color a{any<uint8_t, 1>(), any<uint8_t, 2>(), any<uint8_t, 3>()};
	Color b{any<uint8_t, 4>(), any<uint8_t, 5>(), any<uint8_t, 6>()};
};
struct Add {
	template<size_t CH>
	static void run() {
		Pair p;
		unsigned x = channel<CH>(p.a), y = channel<CH>(p.b);
		if (x + y < 256) PROVE(channel<CH>(p.a + p.b) == x + y);
		if (x + y < 256) PROVE(channel<CH>(p.a.combine(p.b)) == x + y);
		else PROVE(channel<CH>(p.a.combine(p.b)) == 255);
		unsigned half = channel<CH>(p.a.blend(p.b));
		PROVE(2 * half <= x + y);
		PROVE(2 * half + 2 >= x + y);
		REACH();
	}
};
CELLS(Add, 3);

struct Blend { // by a fixed weight
	template<size_t W>
	static void run() {
		Pair p;
		each<W, 0>(p);
		each<W, 1>(p);
		each<W, 2>(p);
		REACH();
	}
	template<size_t W, size_t CH>
	static void each(Pair &p) {
		unsigned x = channel<CH>(p.a), y = channel<CH>(p.b);
		{ // 0 .. 255: linear, rounded down
			unsigned v = channel<CH>(p.a.blend(p.b, uint8_t(W))), sum = y * W + x * (255 - W);
			PROVE(v * 255 <= sum);
			PROVE(v * 255 + 255 > sum);
		}
		{ // the top eight bits count
			uint32_t phase = any<uint32_t, 7>();
			ASSUME(phase >> 24 == W);
			unsigned v = channel<CH>(p.a.blend(p.b, phase)), sum = y * W + x * (256 - W);
			PROVE(v * 256 <= sum);
			PROVE(v * 256 + 256 > sum);
		}
		{
			unsigned v = channel<CH>(p.a.adjust({uint8_t(CH == 0 ? W : 7), uint8_t(CH == 1 ? W : 7), uint8_t(CH == 2 ? W : 7)})), sum = x * W;
			if (sum >= 256 * 128) PROVE(v == 255);
			else {
				PROVE(v * 128 <= sum);
				PROVE(v * 128 + 128 > sum);
			}
		}
	}
};
CELLS(Blend, 256);

struct BlendF { // float weights: always in range, the ends exact
	template<size_t H, size_t L>
	static void run() {
		constexpr size_t W = H * 19 + L;
		Pair p;
		float w = any<float, 8>();
		constexpr float lo = float(W) / 512, hi = float(W + 1) / 512;
		if constexpr (W == 512) ASSUME(w == 1.f);
		else ASSUME(w >= lo && w <= hi);
		Color c = p.a.blend(p.b, w), d = p.a * w;
		if constexpr (W == 512) PROVE(c == p.b && d == p.a);
		PROVE(d.red() <= 255 * hi && d.green() <= 255 * hi && d.blue() <= 255 * hi);
		d = Color(200, 60, 255) * w;
		PROVE(d.red() + 2 > 200 * lo && d.green() + 2 > 60 * lo && d.blue() + 2 > 255 * lo);
		PROVE(d.red() <= 200 * hi && d.green() <= 60 * hi && d.blue() <= 255 * hi);
		Color e = Color(10, 255, 0).blend(Color(210, 0, 255), w);
		PROVE(e.red() + 2 >= 10 + 200 * lo && e.red() <= 10 + 200 * hi + 1);
		PROVE(e.green() <= 255 - 255 * lo + 1 && e.green() + 2 >= 255 - 255 * hi);
		PROVE(e.blue() + 2 >= 255 * lo && e.blue() <= 255 * hi + 1);
		REACH();
	}
};
CELLS(BlendF, 27, 19);

struct Zero {
	static void run() {
		Pair p;
		PROVE(p.a.blend(p.b, 0.f) == p.a);
		PROVE(p.a * 0.f == Color(0, 0, 0));
		REACH();
	}
};
CELLS(Zero);

struct Blend565 { // one channel unknown, the others at their ends
	template<size_t A, size_t F, size_t O> // weight in 32nds
	static void run() {
		constexpr uint16_t field = F == 0 ? 0xf800 : F == 1 ? 0x07e0 : 0x001f;
		uint16_t x = any<uint16_t, 1>() & field, y = any<uint16_t, 2>() & field;
		if constexpr (O & 1) x |= uint16_t(~field);
		if constexpr (O & 2) y |= uint16_t(~field);
		uint16_t v = Color::blend(x, y, uint8_t(A == 32 ? 255 : A * 8));
		if constexpr (A == 0) PROVE(v == x);
		if constexpr (A == 32) PROVE(v == y);
		PROVE((v >> 11) == ((x >> 11) * (32 - A) + (y >> 11) * A) >> 5);
		PROVE(((v >> 5) & 63) == (((x >> 5) & 63) * (32 - A) + ((y >> 5) & 63) * A) >> 5);
		PROVE((v & 31) == ((x & 31) * (32 - A) + (y & 31) * A) >> 5);
		REACH();
	}
};
CELLS(Blend565, 33, 3, 4);
struct Weight565 { // weights are rounded to 32nds
	template<size_t W>
	static void run() {
		uint16_t x = any<uint16_t, 1>(), y = any<uint16_t, 2>();
		constexpr uint8_t near = W >= 252 ? 252 : (W + 4) / 8 * 8;
		PROVE(Color::blend(x, y, uint8_t(W)) == Color::blend(x, y, near));
		REACH();
	}
};
CELLS(Weight565, 256);
struct Ends565 {
	static void run() {
		uint16_t x = any<uint16_t, 1>(), y = any<uint16_t, 2>();
		PROVE(Color::blend(x, y, uint8_t(0)) == x && Color::blend(x, y, uint8_t(255)) == y);
		PROVE(Color::blend(x, y, 0.f) == x && Color::blend(x, y, 1.f) == y);
		float w = any<float, 3>();
		ASSUME(w >= 0.f && w <= 1.f);
		(void)Color::blend(x, y, w);
		(void)Color::slow_blend(x, y, w);
		PROVE(Color::slow_blend(x, y, 0.f) == x && Color::slow_blend(x, y, 1.f) == y);
		REACH();
	}
};
CELLS(Ends565);

struct Floats { // float channels in thirty-seconds and sixty-fourths
	template<size_t B>
	static void run() {
		float x = any<float, 1>();
		constexpr float lo = -1.f + B / 16.f, hi = lo + 1 / 16.f;
		if constexpr (B == 0) ASSUME(x < 0.f);
		else if constexpr (B == 32) ASSUME(x >= 1.f);
		else ASSUME(x >= lo && x < hi);
		RGB565 r{x, 0.f, 0.f}, g{0.f, x, 0.f}, b{0.f, 0.f, x};
		PROVE(r.g == 0 && r.b == 0 && g.r == 0 && g.b == 0 && b.r == 0 && b.g == 0);
		if constexpr (B < 16) PROVE(r.r == 0 && g.g == 0 && b.b == 0);
		else if constexpr (B == 32) PROVE(r.r == 31 && g.g == 63 && b.b == 31);
		else {
			PROVE(r.r >= int(lo * 32) && r.r < int(hi * 32));
			PROVE(g.g >= int(lo * 64) && g.g < int(hi * 64));
			PROVE(b.b >= int(lo * 32) && b.b < int(hi * 32));
		}
		REACH();
	}
};
CELLS(Floats, 33);

struct Hue {
	template<size_t V, size_t R>
	static void run() {
		HSVColor c;
		c.h = any<uint8_t, 1>();
		c.s = any<uint8_t, 2>();
		c.v = V;
		ASSUME(c.h >= R * 43 && c.h < R * 43 + 43);
		Color x = c;
		constexpr size_t top = R == 0 || R == 5 ? 0 : R < 3 ? 1 : 2;
		PROVE(channel<top>(x) == V);
		PROVE(x.red() <= V);
		PROVE(x.green() <= V);
		PROVE(x.blue() <= V);
		if (!c.s) PROVE(x == Color(V, V, V));
		REACH();
	}
};
CELLS(Hue, 256, 6);

struct Mixed { // the least channel is the value less the saturation, the third moves evenly between the two
	template<size_t H>
	static void run() {
		HSVColor c;
		c.h = H;
		c.s = any<uint8_t, 1>();
		c.v = any<uint8_t, 2>();
		const unsigned s = c.s, v = c.v;
		constexpr size_t R = H / 43, part = H % 43 * 6;
		constexpr size_t top = R == 0 || R == 5 ? 0 : R < 3 ? 1 : 2;
		constexpr size_t low = R == 0 || R == 1 ? 2 : R < 4 ? 0 : 1;
		constexpr size_t mid = 3 - top - low;
		ASSUME(s > 0);
		Color x = c;
		PROVE(channel<top>(x) == v);
		PROVE(channel<low>(x) == v * (255 - s) / 256);
		if constexpr (R & 1) PROVE(channel<mid>(x) == v * (255 - s * part / 256) / 256);
		else PROVE(channel<mid>(x) == v * (255 - s * (255 - part) / 256) / 256);
		REACH();
	}
};
CELLS(Mixed, 256);
