// VFA: -peel=4
// Every number, by sign and length, into every buffer size.
#include "containers.hh"
#include "decimal.hh"
#include "util/int_to_str.cc"
#include "util/int_to_str.hh"

// OP 0: int_to_str; 1: int_to_str_chop
struct Convert {
	template<size_t OP, size_t NEGI, size_t LENI, size_t CAP>
	static void run() {
		constexpr bool NEG = NEGI;
		constexpr size_t LEN = LENI + 1, full = NEG + LEN + 1;
		uint32_t mag;
		int32_t v = number<NEG, LEN>(mag);
		auto *mem = static_cast<char *>(__vf_buf(CAP));
		char beyond = CAP > full ? mem[full] : 0;
		std::span<char> buf{mem, CAP};
		if constexpr (OP == 0) {
			bool ok = int_to_str(v, buf);
			PROVE(ok == (CAP >= full));
		} else
			int_to_str_chop(v, buf);
		if constexpr (CAP >= full) {
			if (NEG) PROVE(mem[0] == '-');
			prove_digits<LEN>(mem + NEG, mag);
			if (LEN > 1) PROVE(mem[NEG] != '0');
			PROVE(mem[full - 1] == 0);
			if (CAP > full) PROVE(mem[full] == beyond);
		} else if constexpr (OP == 1 && CAP >= 2) { // the most significant digits are dropped, the rest is exact
			constexpr size_t D = CAP - 1 - NEG;
			if (NEG) PROVE(mem[0] == '-');
			prove_digits<D>(mem + NEG, below<LEN, D>(mag));
			PROVE(mem[CAP - 1] == 0);
		}
		REACH();
	}
};
CELLS(Convert, 2, 2, 10, 13);

struct Count {
	template<size_t LENI>
	static void run() {
		constexpr size_t LEN = LENI + 1;
		uint32_t v = magnitude<LEN>();
		PROVE(num_digits(v) == LEN);
		REACH();
	}
};
CELLS(Count, 10);
