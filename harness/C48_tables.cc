// The math tables hold their functions; the functions on top of them follow the true ones.
// VFA: -peel=3
// CXXFLAGS: -fno-math-errno
#include "vf.hh"
#include <array>
#include <cmath>
#include <cstddef>
#include "util/math.hh"
#include "util/math_tables.cc"

static constexpr double pi = 3.14159265358979323846;
static bool near(double got, double want, double tol) { return got - want <= tol && want - got <= tol; }

struct Entries { // 32 entries at a time
	template<size_t T, size_t B>
	static void run() {
		for (unsigned i = B * 32; i < B * 32 + 32; i++) {
			const double x = i / 2047.;
			if constexpr (T == 0) PROVE(near(sinTable[i], std::sin(2 * pi * i / 2048), 1e-6));
			if constexpr (T == 1) {
				if (i == 1024) PROVE(tanTable[i] > 1e7f || tanTable[i] < -1e7f); // the pole
				else {
					const double t = std::tan(pi * i / 2048);
					PROVE(near(tanTable[i], t, 1e-6 + 4e-5 * std::fabs(t)));
				}
			}
			if constexpr (T == 2) PROVE(near(exp5Table[i], std::pow(2., 5 * x), 1e-6 * std::pow(2., 5 * x)));
			if constexpr (T == 3) PROVE(near(exp10Table[i], std::pow(2., 10 * x), 1e-6 * std::pow(2., 10 * x)));
			if constexpr (T == 4) PROVE(near(pow9Table[i], i ? std::pow(x, 8.8) : 0., 1e-5));
			if constexpr (T == 5) PROVE(near(logTable[i], std::log(20 + x * (20000 - 20)), 2e-6));
		}
		REACH();
	}
};
CELLS(Entries, 6, 64);

enum Fn { Sin, Sin01, Cos, CosClose, Tan, TanClose, Pow2, PitchUp, FreqNorm, Faster };
template<Fn F>
static float call(float x) {
	using namespace MathTools;
	if constexpr (F == Sin) return MathTools::sin(x);
	else if constexpr (F == Sin01) return sin01(x);
	else if constexpr (F == Cos) return MathTools::cos(x);
	else if constexpr (F == CosClose) return cos_close(x);
	else if constexpr (F == Tan) return MathTools::tan(x);
	else if constexpr (F == TanClose) return tan_close(x);
	else if constexpr (F == Pow2) return pow2(x);
	else if constexpr (F == PitchUp) return setPitchMultiple(x);
	else if constexpr (F == FreqNorm) return audioFreqToNorm(x);
	else return faster_sine(x);
}
template<Fn F>
static double truth(double x) {
	if constexpr (F == Sin) return std::sin(x);
	else if constexpr (F == Sin01) return std::sin(2 * pi * x);
	else if constexpr (F == Cos || F == CosClose) return std::cos(x);
	else if constexpr (F == Tan || F == TanClose) return std::tan(x);
	else if constexpr (F == Pow2) return std::pow(2., x);
	else if constexpr (F == PitchUp) return std::pow(2., 5. * (x > 1 ? 1 : x < -1 ? -1 : x));
	else if constexpr (F == FreqNorm) return std::log((x < 20 ? 20 : x > 20000 ? 20000 : x) / 20) / std::log(1000.);
	else {
		const double y = 2 * x - 1;
		return 4 * (y - y * std::fabs(y));
	}
}
template<Fn F>
static constexpr double perUnit() { // table entries per unit of the argument
	if (F == Sin || F == Cos || F == CosClose) return 2048 / (2 * pi);
	if (F == Tan || F == TanClose) return 2048 / pi;
	if (F == Sin01 || F == Faster) return 2048;
	if (F == Pow2) return 2047 / 5.;
	if (F == PitchUp) return 2047;
	return 2047 / 19980.;
}
// 256 narrow intervals over [From, To] (in units of 1/16), each between two entries and close to the true function
template<Fn F, int From, int To, int Tol>
struct Follows {
	template<size_t B>
	static void run() {
		constexpr double from = F == FreqNorm ? 20 : 0; // where an entry is
		constexpr double raw = (From / 16. + (B + 0.5) * (To - From) / 16. / 256 - from) * perUnit<F>();
		constexpr double at = from + (double((long)(raw + 1e6) - 1000000l) + 0.1 + 0.04 * (B % 16)) / perUnit<F>(), w = 0.2 / perUnit<F>();
		float x = any<float, 1>();
		ASSUME(x >= float(at) && x <= float(at + w));
		double a = truth<F>(at), b = truth<F>(at + w), tol = Tol / 10000. * (1 + std::fabs(a));
		if constexpr (F == Tan || F == TanClose)
			if (std::fabs(a) > 50) { // near the pole, only that there is an answer
				(void)call<F>(x);
				REACH();
				return;
			}
		if constexpr (F == Tan || F == TanClose) tol *= 1 + a * a;
		float y = call<F>(x);
		PROVE(y >= (a < b ? a : b) - tol);
		PROVE(y <= (a < b ? b : a) + tol);
		REACH();
	}
};
using SinNear = Follows<Sin, -101, 101, 5>; // a turn each way
CELLS(SinNear, 256);
using SinFar = Follows<Sin, -32, 304, 5>; // three turns
CELLS(SinFar, 256);
using Sin01Near = Follows<Sin01, -16, 32, 10>;
CELLS(Sin01Near, 256);
using CosNear = Follows<Cos, -101, 101, 5>;
CELLS(CosNear, 256);
using CosCloseNear = Follows<CosClose, -101, 101, 40>;
CELLS(CosCloseNear, 256);
using TanNear = Follows<Tan, -50, 75, 5>;
CELLS(TanNear, 256);
using TanCloseNear = Follows<TanClose, -50, 75, 40>;
CELLS(TanCloseNear, 256);
using Pow2Near = Follows<Pow2, -256, 256, 5>;
CELLS(Pow2Near, 256);
using Pitch = Follows<PitchUp, -24, 24, 5>;
CELLS(Pitch, 256);
using FreqNormNear = Follows<FreqNorm, 0, 330000, 400>;
CELLS(FreqNormNear, 256);
using FasterSine = Follows<Faster, 0, 16, 5>;
CELLS(FasterSine, 256);
