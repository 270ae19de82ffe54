// VFA: -peel=4
// Combining flags.
#include "vf.hh"
#include "util/bitfield.hh"

enum class Flag8 : uint8_t {};
enum class Flag16 : uint16_t {};
enum class Flag32 : uint32_t {};
enum class FlagS : int16_t {};

template<class E>
struct Combine {
	static void run() {
		using U = std::underlying_type_t<E>;
		E a = any<E, 1>(), b = any<E, 2>(), c = any<E, 3>(), d = any<E, 4>();
		U ua = U(a), ub = U(b), uc = U(c), ud = U(d);
		PROVE(bitfield(a) == ua);
		PROVE(U(bitfield(a, b)) == U(ua | ub));
		PROVE(U(bitfield(a, b, c, d)) == U(ua | ub | uc | ud));
		PROVE(bitfield(ua) == ua);
		PROVE(U(bitfield(ua, ub, uc)) == U(ua | ub | uc));
		PROVE(OR<E>({}) == 0);
		PROVE(OR({a}) == ua);
		PROVE(OR({a, b}) == U(ua | ub));
		PROVE(OR({a, b, c, d}) == U(ua | ub | uc | ud));
		PROVE(val(a) == ua);
		static_assert(std::is_same_v<decltype(bitfield(a)), U> && std::is_same_v<decltype(val(a)), U> && std::is_same_v<decltype(OR({a})), U>);
		REACH();
	}
};
using C8 = Combine<Flag8>;
CELLS(C8);
using C16 = Combine<Flag16>;
CELLS(C16);
using C32 = Combine<Flag32>;
CELLS(C32);
using CS = Combine<FlagS>;
CELLS(CS);
