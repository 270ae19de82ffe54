// Layout guarantees decided from the types themselves: object sizes 1..70 for each alignment; ranges around every power of two.
#include "containers.hh"
#include "util/padded_aligned.hh"
#include "util/smallest_integer.hh"

template<size_t B>
struct Bytes { uint8_t b[B]; };

template<size_t LOG>
struct Pad {
	template<size_t I>
	static void run() {
		constexpr size_t A = size_t(1) << LOG, B = I + 1;
		using P = PaddedAligned<Bytes<B>, A>;
		PROVE(alignof(P) % A == 0 && sizeof(P) % A == 0);
		PROVE(sizeof(P) >= B && sizeof(P) - B < A); // no more than needed
		auto &p = opaque<P>();
		PROVE((const char *)&p.data == (const char *)&p); // the data starts on the boundary
		PROVE((const char *)&p.data + sizeof(p.data) <= (const char *)&p + sizeof(P));
		Bytes<B> &r = p;
		PROVE(&r == &p.data && &p() == &p.data);
		struct Pair { P a, b; };
		PROVE(offsetof(Pair, b) / A > (B - 1) / A); // two neighbours never share an aligned block
		auto &fresh = construct<P>();
		for (auto x : fresh.data.b)
			PROVE(x == 0);
		REACH();
	}
};
using Pad2 = Pad<2>;
CELLS(Pad2, 20);
using Pad4 = Pad<4>;
CELLS(Pad4, 40);
using Pad5 = Pad<5>;
CELLS(Pad5, 40);
using Pad6 = Pad<6>;
CELLS(Pad6, 70);

template<class T, uint64_t MAX>
constexpr bool holds_u = std::is_unsigned_v<T> && MAX <= std::numeric_limits<T>::max();
template<class T>
constexpr uint64_t next_smaller_u() { return sizeof(T) == 1 ? 0 : (uint64_t(1) << (sizeof(T) * 4)) - 1; }

struct Unsigned {
	template<size_t BIT, size_t D>
	static void run() {
		constexpr uint64_t max = BIT == 64 ? ~uint64_t(0) - D : (uint64_t(1) << BIT) - 1 + D;
		using T = typename SmallestUnsignedInt<max>::type;
		PROVE(std::is_unsigned_v<T> && max <= std::numeric_limits<T>::max());
		PROVE(sizeof(T) == 1 || max > next_smaller_u<T>());
		REACH();
	}
};
CELLS(Unsigned, 65, 3);

template<int64_t LO, int64_t HI>
static void smallest() {
	using T = typename SmallestSignedInt<LO, HI>::type;
	PROVE(std::is_signed_v<T>);
	PROVE(LO >= std::numeric_limits<T>::min() && HI <= std::numeric_limits<T>::max());
	if constexpr (sizeof(T) > 1) {
		constexpr int64_t half = int64_t(1) << (sizeof(T) * 4 - 1);
		PROVE(LO < -half || HI >= half);
	}
}
struct Signed {
	template<size_t BIT, size_t D, size_t SIDE>
	static void run() {
		constexpr int64_t p = BIT == 63 ? std::numeric_limits<int64_t>::max() - 1 + (D > 1) : (int64_t(1) << BIT) - 1 + int64_t(D);
		if constexpr (SIDE == 0) smallest<0, p>();
		else if constexpr (SIDE == 1) smallest<-p, 0>();
		else if constexpr (SIDE == 2) smallest<-p, p>();
		else if constexpr (SIDE == 3) smallest<-p, 1>();
		else smallest<-1, p>();
		REACH();
	}
};
CELLS(Signed, 64, 3, 5);
