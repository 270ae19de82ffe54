// Byte blocks: little-endian, in order, everything before stays.
// VFA: -rounds=8
#include "vf.hh"
#include "util/byte_block.hh"

struct Emit {
	template<size_t PRE, size_t OP>
	static void run() {
		auto &b = construct<ByteBlock>();
		PROVE(b.data.size() == 0);
		uint8_t pre[3] = {any<uint8_t, 1>(), any<uint8_t, 2>(), any<uint8_t, 3>()};
		for (size_t i = 0; i < PRE; i++) b.printU8(pre[i]);
		uint32_t w = any<uint32_t, 4>();
		auto &raw = opaque<std::array<unsigned char, 6>, 5>();
		size_t n = 0;
		if constexpr (OP == 0) b.print(uint8_t(w)), n = 1;
		else if constexpr (OP == 1) b.print(uint16_t(w)), n = 2;
		else if constexpr (OP == 2) b.print(w), n = 4;
		else if constexpr (OP == 3) b.printU8(uint8_t(w)), n = 1;
		else if constexpr (OP == 4) b.printU16LE(uint16_t(w)), n = 2;
		else if constexpr (OP == 5) b.printU32LE(w), n = 4;
		else b.printRaw(raw.data(), OP - 6), n = OP - 6;
		PROVE(b.data.size() == PRE + n);
		const unsigned char *p = b.data.data();
		for (size_t i = 0; i < PRE; i++) PROVE(p[i] == pre[i]);
		for (size_t i = 0; i < n; i++) {
			if constexpr (OP < 6) PROVE(p[PRE + i] == uint8_t(w >> (8 * i)));
			else PROVE(p[PRE + i] == raw[i]);
		}
		REACH();
	}
};
CELLS(Emit, 4, 13);
