// VFA: -peel=4
// Ring positions over an external buffer: every position, transfer length and marker, unknown contents.
#include "containers.hh"
#include "util/circular_buffer_ext.hh"

// A sample type that records which value entered the mix with which weight, so the cross-fade can be judged exactly.
struct Sample {
	Ptr id = nullptr, old = nullptr;
	float w = 1.f, wold = 0.f;
	Sample() = default;
	Sample(int) {}
	Sample(Ptr p) : id{p} {}
};
struct Term { Ptr id; float w; };
inline Term operator*(const Sample &s, float w) { return {s.id, w}; }
struct Mix {
	Term a, b;
	operator Sample() const { Sample s; s.id = a.id; s.w = a.w; s.old = b.id; s.wold = b.w; return s; }
};
inline Mix operator+(Term a, Term b) { return {a, b}; }

template<size_t N>
struct Buf {
	using value_type = Sample;
	std::array<Sample, N> s;
	Sample &operator[](size_t i) { return s[i]; }
	size_t size() const { return N; }
};

constexpr size_t fwd(size_t p, size_t n, size_t N) { return (p + n) % N; }
constexpr size_t bwd(size_t p, size_t n, size_t N) { return (p + 2 * N - n) % N; }

template<size_t N>
struct Move {
	template<size_t POS, size_t LEN, size_t OP, size_t marker>
	static void run() {
		if constexpr (marker > 0 && OP != 2 && OP != 3 && OP != 8) return;
		else body<POS, LEN, OP, marker>();
	}
	template<size_t POS, size_t LEN, size_t OP, size_t marker>
	static void body() {
		Buf<N> &b = opaque<Buf<N>>();
		for (size_t i = 0; i < N; i++)
			b.s[i] = Sample{any<std::array<Ptr, N>, 1>()[i]};
		Buf<N> old = b;
		CircularBufferAccess<Buf<N>> acc{b, OP < 4 ? 0 : POS};
		PROVE(acc.rd_pos() == 0 && acc.wr_pos() == (OP < 4 ? 0 : POS) && acc.size() == N);
		constexpr bool reading = OP < 4, reverse = OP & 1;
		constexpr size_t other = (POS + 1) % N;
		if constexpr (reading) { acc.rd_pos(POS); acc.wr_pos(other); }
		else { acc.wr_pos(POS); acc.rd_pos(other); }
		constexpr size_t end = reverse ? bwd(POS, LEN, N) : fwd(POS, LEN, N);
		constexpr bool wraps = reverse ? LEN > POS : POS + LEN >= N && LEN > 0;
		std::array<Sample, LEN + 1> x;
		for (size_t i = 0; i < LEN; i++)
			x[i] = Sample{any<std::array<Ptr, LEN + 1>, 2>()[i]};
		auto x0 = x;
		std::span<Sample> sp{x.data(), LEN};
		float phase = OP == 6 || OP == 7 ? any<float, 3>() : 1.f;
		bool w;
		if constexpr (OP == 0) w = acc.read(sp);
		else if constexpr (OP == 1) w = acc.read_reverse(sp);
		else if constexpr (OP == 2 || OP == 3) { // crossing a marker while reading
			bool crossed = reverse ? acc.read_reverse_check_crossed(sp, marker) : acc.read_check_crossed(sp, marker);
			bool expect = false; // forward: the marked element was read; reverse: the position arrived at the mark
			for (size_t i = 0; i < LEN; i++)
				expect |= marker == (reverse ? bwd(POS, i + 1, N) : fwd(POS, i, N));
			PROVE(crossed == expect);
			w = wraps;
		} else if constexpr (OP == 4) w = acc.write(sp);
		else if constexpr (OP == 5) w = acc.write_reverse(sp);
		else if constexpr (OP == 6) w = acc.write(sp, phase);
		else if constexpr (OP == 7) w = acc.write_reverse(sp, phase);
		else { // crossing a marker while writing: the position arrived at the mark
			bool crossed = acc.write_check_crossed(sp, marker);
			bool expect = false;
			for (size_t i = 0; i < LEN; i++)
				expect |= marker == fwd(POS, i + 1, N);
			PROVE(crossed == expect);
			w = wraps;
		}
		PROVE(w == wraps);
		if constexpr (reading) {
			PROVE(acc.rd_pos() == end && acc.wr_pos() == other);
			for (size_t i = 0; i < LEN; i++)
				PROVE(x[i].id == old.s[reverse ? bwd(POS, i, N) : fwd(POS, i, N)].id);
			for (size_t i = 0; i < N; i++)
				PROVE(b.s[i].id == old.s[i].id);
		} else {
			constexpr bool rev = OP == 5 || OP == 7;
			PROVE(acc.wr_pos() == end && acc.rd_pos() == other);
			for (size_t i = 0; i < LEN; i++) {
				auto &slot = b.s[rev ? bwd(POS, i, N) : fwd(POS, i, N)];
				PROVE(slot.id == x0[i].id && slot.old == old.s[rev ? bwd(POS, i, N) : fwd(POS, i, N)].id);
				PROVE(!(slot.w < phase) && !(slot.w > phase));
				PROVE(!(slot.wold < 1.f - phase) && !(slot.wold > 1.f - phase));
			}
			for (size_t i = LEN; i < N; i++)
				PROVE(b.s[rev ? bwd(POS, i, N) : fwd(POS, i, N)].id == old.s[rev ? bwd(POS, i, N) : fwd(POS, i, N)].id);
		}
		REACH();
	}
};
using M4 = Move<4>;
CELLS(M4, 4, 5, 9, 4);
using M3 = Move<3>;
CELLS(M3, 3, 4, 9, 3);
using M1 = Move<1>;
CELLS(M1, 1, 2, 9, 1);
#ifdef VF_THOROUGH
using M7 = Move<7>;
CELLS(M7, 7, 8, 9, 7);
#endif
template<size_t N>
struct Longer { // blocks that go round more than once: each place is visited in turn, the last writer stays
	template<size_t POS, size_t MORE, size_t OP>
	static void run() {
		constexpr size_t LEN = N + 1 + MORE;
		Buf<N> &b = opaque<Buf<N>>();
		for (size_t i = 0; i < N; i++)
			b.s[i] = Sample{any<std::array<Ptr, N>, 1>()[i]};
		Buf<N> old = b;
		CircularBufferAccess<Buf<N>> acc{b, POS};
		acc.rd_pos(POS);
		std::array<Sample, LEN> x;
		for (size_t i = 0; i < LEN; i++)
			x[i] = Sample{any<std::array<Ptr, LEN>, 2>()[i]};
		auto x0 = x;
		std::span<Sample> sp{x.data(), LEN};
		constexpr bool reverse = OP & 1;
		constexpr size_t end = reverse ? bwd(POS, LEN % N, N) : fwd(POS, LEN, N);
		if constexpr (OP == 0) PROVE(acc.read(sp));
		else if constexpr (OP == 1) PROVE(acc.read_reverse(sp));
		else if constexpr (OP == 2) PROVE(acc.write(sp));
		else PROVE(acc.write_reverse(sp));
		PROVE(acc.rd_pos() == (OP < 2 ? end : POS) && acc.wr_pos() == (OP < 2 ? POS : end));
		for (size_t i = 0; i < LEN; i++) {
			const size_t at = reverse ? bwd(POS, i % N, N) : fwd(POS, i, N);
			if (OP < 2) PROVE(x[i].id == old.s[at].id);
			else if (i + N >= LEN) PROVE(b.s[at].id == x0[i].id);
		}
		REACH();
	}
};
using L3 = Longer<3>;
CELLS(L3, 3, 4, 4);
using L1 = Longer<1>;
CELLS(L1, 1, 2, 4);
struct Clear {
	template<size_t POS>
	static void run() {
		auto &b = opaque<std::array<int32_t, 5>>();
		CircularBufferAccess<std::array<int32_t, 5>> acc{b, POS};
		acc.rd_pos(4 - POS);
		acc.clear();
		for (auto x : b)
			PROVE(x == 0);
		PROVE(acc.wr_pos() == POS && acc.rd_pos() == 4 - POS);
		REACH();
	}
};
CELLS(Clear, 5);
