// VFA: -peel=4
// Block writes into the power-of-two block ring: every offset, every block length up to the ring size, unknown contents.
#include "containers.hh"
#include "util/circular_buffer_block.hh"

template<class T, size_t N>
struct Write {
	template<size_t OFF, size_t LEN>
	static void run() {
		auto &cb = opaque<CircularBufferBlock<T, N>>();
		auto &[slots] = cb;
		auto old = slots;
		auto &block = opaque<std::array<T, LEN + 1>, 1>();
		const auto src = block;
		unsigned start = any<unsigned, 2>();
		ASSUME((start & (N - 1)) == OFF); // any multiple of the size on top of the offset
		cb.write(std::span<const T>{src.data(), LEN}, start);
		for (size_t i = 0; i < LEN; i++)
			PROVE(slots[(OFF + i) % N] == src[i]);
		for (size_t i = LEN; i < N; i++)
			PROVE(slots[(OFF + i) % N] == old[(OFF + i) % N]);
		PROVE(cb.size() == N);
		REACH();
	}
};
#define ALL(T, N) \
	using VF_CAT(X, __LINE__) = Write<T, N>; \
	CELLS(VF_CAT(X, __LINE__), N, N + 1)
ALL(Ptr, 4);
ALL(Wide, 4);
ALL(uint8_t, 8);
ALL(uint16_t, 1);
#ifdef VF_THOROUGH
ALL(Ptr, 16);
ALL(Wide, 16);
ALL(double, 8);
#endif
struct Init {
	template<size_t>
	static void run() {
		auto &cb = construct<CircularBufferBlock<uint32_t, 8>>(CircularBufferBlock<uint32_t, 8>{});
		auto &[slots] = cb;
		for (auto x : slots)
			PROVE(x == 0);
		REACH();
	}
};
CELLS(Init, 1);
