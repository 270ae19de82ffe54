// The memory test writes and reads back every word of the range, nothing else, and reports any word that differs.
// VFA: -devolatile
#include "vf.hh"

namespace model
{
// a word of memory that may come back different
struct Word {
	uint32_t v;
	static inline uint32_t fault_mask;   // what the faulty cell returns differs in these bits
	static inline const volatile Word *bad; // the faulty cell, or null
	Word() = default;
	Word(const Word &) = default;
	constexpr Word(uint32_t x) : v{x} {}
	static inline bool dropped; // accesses that are not volatile need not reach the memory
	operator uint32_t() const { return this == bad && !dropped ? v ^ fault_mask : v; }
	operator uint32_t() const volatile { return this == bad ? v ^ fault_mask : v; }
	Word &operator=(const Word &) = default;
	void operator=(const Word &o) volatile { v = o.v; }
};
namespace faulty
{
template<class T>
T address(const Word &) { return nullptr; }
#define reinterpret_cast address
#pragma push_macro("uint32_t")
#define uint32_t Word
#include "util/mem_test.hh"
#pragma pop_macro("uint32_t")
#undef reinterpret_cast
} // namespace faulty
} // namespace model
using model::Word;

template<size_t N>
struct Range {
	std::array<uint32_t, 2> before;
	std::array<Word, N + 1> mem;
	std::array<uint32_t, 2> after;
};
struct Good {
	template<size_t N>
	static void run() {
		auto &m = opaque<Range<N>>();
		auto b = m.before, a = m.after;
		auto last = m.mem[N];
		Word::bad = nullptr;
		PROVE(model::faulty::MemTest::check(m.mem.data(), m.mem.data() + N));
		PROVE(m.before[0] == b[0] && m.before[1] == b[1] && m.after[0] == a[0] && m.after[1] == a[1] && m.mem[N].v == last.v);
		REACH();
	}
};
CELLS(Good, 7);
struct Bad {
	template<size_t N, size_t K>
	static void run() {
		if constexpr (K < N) {
			auto &m = opaque<Range<N>>();
			Word::dropped = false;
			Word::bad = &m.mem[K];
			Word::fault_mask = any<uint32_t, 5>();
			ASSUME(Word::fault_mask != 0);
			PROVE(!model::faulty::MemTest::check(m.mem.data(), m.mem.data() + N));
			REACH();
		}
	}
};
CELLS(Bad, 7, 6);
struct Distinct { // neighbouring words, and words up to four apart, get different values: address faults show
	template<size_t N>
	static void run() {
		auto &m = opaque<Range<8>>();
		Word::bad = nullptr;
		model::faulty::MemTest::check(m.mem.data(), m.mem.data() + 8);
		PROVE(m.mem[N].v != m.mem[N + 1].v);
		if constexpr (N + 2 < 8) PROVE(m.mem[N].v != m.mem[N + 2].v);
		if constexpr (N + 4 < 8) PROVE(m.mem[N].v != m.mem[N + 4].v);
		REACH();
	}
};
CELLS(Distinct, 7);
struct Empty {
	static void run() {
		uint32_t a = any<uint32_t, 1>(), b = any<uint32_t, 2>();
		ASSUME(a > b);
		PROVE(!model::faulty::MemTest::check(Word(a), Word(b)));
		REACH();
	}
};
CELLS(Empty);
struct Kept { // the compiler may not drop the accesses
	template<size_t N, size_t K>
	static void run() {
		if constexpr (K < N) {
			auto &m = opaque<Range<N>>();
			Word::dropped = true;
			Word::bad = &m.mem[K];
			Word::fault_mask = any<uint32_t, 5>();
			ASSUME(Word::fault_mask != 0);
			PROVE(!model::faulty::MemTest::check(m.mem.data(), m.mem.data() + N));
			REACH();
		}
	}
};
CELLS(Kept, 7, 6);
