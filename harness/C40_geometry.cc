// Rectangles and polygons.
#include "vf.hh"
#include "util/geometry.hh"

struct Overlap { // closed intervals overlap exactly when neither lies beyond the other
	static void run() {
		RectC a = any<RectC, 1>(), b = any<RectC, 2>();
		ASSUME(a.left <= a.right && a.top <= a.bottom);
		ASSUME(b.left <= b.right && b.top <= b.bottom);
		if (a.right < b.left) PROVE(!a.x_intersects(b));
		else if (b.right < a.left) PROVE(!a.x_intersects(b));
		else PROVE(a.x_intersects(b));
		if (a.bottom < b.top) PROVE(!a.y_intersects(b));
		else if (b.bottom < a.top) PROVE(!a.y_intersects(b));
		else PROVE(a.y_intersects(b));
		if (!a.x_intersects(b)) PROVE(!a.is_intersecting(b));
		else if (!a.y_intersects(b)) PROVE(!a.is_intersecting(b));
		else PROVE(a.is_intersecting(b));
		REACH();
	}
};
CELLS(Overlap);

struct Symmetric {
	static void run() {
		RectC a = any<RectC, 1>(), b = any<RectC, 2>();
		ASSUME(a.left <= a.right && a.top <= a.bottom);
		ASSUME(b.left <= b.right && b.top <= b.bottom);
		if (a.x_intersects(b)) PROVE(b.x_intersects(a));
		else PROVE(!b.x_intersects(a));
		if (a.y_intersects(b)) PROVE(b.y_intersects(a));
		else PROVE(!b.y_intersects(a));
		PROVE(a.is_intersecting(a) && a.x_intersects(a) && a.y_intersects(a));
		REACH();
	}
};
CELLS(Symmetric);

struct Measures {
	static void run() {
		RectC c = any<RectC, 1>();
		Rect r = any<Rect, 2>();
		auto small = [](int32_t v) { return v > -500000000 && v < 500000000; };
		ASSUME(small(c.left) && small(c.right) && small(c.top) && small(c.bottom));
		ASSUME(small(r.left) && small(r.top) && small(r.width) && small(r.height));
		PROVE(c.width() == c.right - c.left);
		PROVE(c.height() == c.bottom - c.top);
		if (c.left <= c.right) {
			PROVE(c.center_x() >= c.left);
			PROVE(c.center_x() <= c.right);
			PROVE(c.center_x() * 2 - (c.left + c.right) >= -1);
			PROVE(c.center_x() * 2 - (c.left + c.right) <= 1);
		}
		if (c.top <= c.bottom) {
			PROVE(c.center_y() >= c.top);
			PROVE(c.center_y() <= c.bottom);
			PROVE(c.center_y() * 2 - (c.top + c.bottom) >= -1);
			PROVE(c.center_y() * 2 - (c.top + c.bottom) <= 1);
		}
		PROVE(r.right() == r.left + r.width);
		PROVE(r.bottom() == r.top + r.height);
		if (r.width >= 0) {
			PROVE(r.center_x() >= r.left);
			PROVE(r.center_x() <= r.right());
		}
		if (r.height >= 0) {
			PROVE(r.center_y() >= r.top);
			PROVE(r.center_y() <= r.bottom());
		}
		REACH();
	}
};
CELLS(Measures);

// a polygon is concave exactly when it turns both ways
struct Pt {
	uint8_t x, y;
};
struct Turns {
	template<size_t N>
	static void run() {
		auto &p = opaque<std::array<Pt, N ? N : 1>>();
		bool got = is_poly_concave(std::span<const Pt>{p.data(), N});
		if constexpr (N < 3) {
			PROVE(!got);
		} else {
			bool left = false, right = false;
			for (size_t i = 0; i < N; i++) {
				auto O = p[i], A = p[(i + 1) % N], B = p[(i + 2) % N];
				int turn = (A.x - O.x) * (B.y - O.y) - (A.y - O.y) * (B.x - O.x);
				left = left || turn < 0;
				right = right || turn > 0;
			}
			PROVE(got == (left && right));
		}
		REACH();
	}
};
CELLS(Turns, 5);
