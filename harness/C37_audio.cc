// Audio frames: integer samples to floats and back.
// VFA: -recurse=40
#include "vf.hh"
#include <array>
#include <cstddef>
#include <cmath>
#include "util/audio_frame.hh"

template<class T, int Bits>
struct Signed {
	using A = AudioFrame<T, Bits>;
	static constexpr int64_t full = int64_t(1) << (Bits - 1);
	template<size_t OP>
	static void run() {
		if constexpr (OP == 0) { // every sample survives the way to float and back
			T v = any<T, 1>();
			ASSUME(v >= -full && v < full);
			float x = A::scaleInput(v);
			PROVE(x >= -1.f && x < 1.f);
			PROVE(A::sign_extend(v) == v);
			PROVE(x * float(full) == float(v));
			PROVE(A::scaleOutput(x) == v);
		} else if constexpr (OP == 1) { // only the low bits count
			if constexpr (Bits < int(sizeof(T) * 8)) {
				T v = any<T, 1>();
				constexpr T high = T(~uint32_t(0) << Bits);
				int64_t low = v & ~high;
				T s = A::sign_extend(v);
				if (low < full) PROVE(s == low);
				else PROVE(s == low - 2 * full);
				PROVE(A::sign_extend(v) >= -full && A::sign_extend(v) < full);
			}
		} else if constexpr (OP == 2) { // saturation
			float x = any<float, 1>();
			ASSUME(x >= 1.f);
			PROVE(A::scaleOutput(x) <= T(full - 1));
			PROVE(A::scaleOutput(x) >= T(full - 1 - full / 8388608));
		} else if constexpr (OP == 3) {
			float x = any<float, 1>();
			ASSUME(x <= -1.f);
			PROVE(A::scaleOutput(x) == T(-full));
		} else {
			auto &f = opaque<A>();
			auto &[c] = f;
			T old[2] = {c[0], c[1]};
			float x = any<float, 1>();
			ASSUME(x >= -1.f && x <= 1.f);
			f.set_scaled_output(1, x);
			PROVE(c[0] == old[0] && c[1] == A::scaleOutput(x));
			ASSUME(old[0] >= -full && old[0] < full);
			float a = f.scale_input_chan(0), b = A::scaleInput(old[0]);
			PROVE(a == b);
			PROVE(f.sign_extend_chan(0) == A::sign_extend(old[0]));
		}
		REACH();
	}
};
using S16 = Signed<int16_t, 16>;
CELLS(S16, 5);
using S24 = Signed<int32_t, 24>;
CELLS(S24, 5);
using S20 = Signed<int32_t, 20>;
CELLS(S20, 5);
using S8 = Signed<int8_t, 8>;
CELLS(S8, 5);
using S12 = Signed<int16_t, 12>;
CELLS(S12, 5);
struct Extend { // sign extension is exact also where a float is not
	template<size_t B>
	static void run() { Signed<int32_t, 25 + B>::template run<1>(); }
};
CELLS(Extend, 7);

// in between, outputs grow with the input, by boxes
template<class T, int Bits>
struct Box {
	using A = AudioFrame<T, Bits>;
	static constexpr double full = double(int64_t(1) << (Bits - 1));
	template<size_t B>
	static void run() {
		float x = any<float, 1>();
		constexpr float lo = -1.f + float(B) / 8, hi = lo + 0.125f;
		ASSUME(x >= lo && x <= hi);
		int64_t v = A::scaleOutput(x);
		if constexpr (std::is_signed_v<T>) {
			PROVE(v >= int64_t(lo * full) - 1);
			PROVE(v <= int64_t(hi * full));
		} else {
			PROVE(v >= int64_t((lo + 1) * (full - 0.5)) - 1);
			PROVE(v <= int64_t((hi + 1) * (full - 0.5)) + 1);
		}
		REACH();
	}
};
using B16 = Box<int16_t, 16>;
CELLS(B16, 16);
using B24 = Box<int32_t, 24>;
CELLS(B24, 16);
using B32 = Box<int32_t, 32>;
CELLS(B32, 16);
using U16 = Box<uint16_t, 16>;
CELLS(U16, 16);
using U24 = Box<uint32_t, 24>;
CELLS(U24, 16);
using S32 = Signed<int32_t, 32>;
struct Wide32 {
	template<size_t OP>
	static void run() { S32::run<OP + 2>(); }
};
CELLS(Wide32, 2);

template<class T, int Bits>
struct Unsigned {
	using A = AudioFrame<T, Bits>;
	static void run() {
		float x = any<float, 1>(), y = any<float, 2>();
		ASSUME(x >= 1.f && y <= -1.f);
		PROVE(A::scaleOutput(x) == T((uint64_t(1) << Bits) - 1));
		PROVE(A::scaleOutput(y) == 0);
		REACH();
	}
};
using V16 = Unsigned<uint16_t, 16>;
CELLS(V16);
using V24 = Unsigned<uint32_t, 24>;
CELLS(V24);
using U32 = Box<uint32_t, 32>;
CELLS(U32, 16);
struct V32 {
	static void run() {
		using A = AudioFrame<uint32_t, 32>;
		float x = any<float, 1>(), y = any<float, 2>();
		ASSUME(x >= 1.f && y <= -1.f);
		PROVE(A::scaleOutput(x) >= 4294967040u);
		PROVE(A::scaleOutput(y) == 0);
		REACH();
	}
};
CELLS(V32);
