// Every content of a small block (blank / valid / damaged per cell), every position, storage calls that fail or succeed.
// VFA: -peel=12
#include "containers.hh"
#include "util/wear_level.hh"

struct Data {
	Ptr id;
	bool ok;
	bool validate() const { return ok; }
};
enum State : uint8_t { Blank, Valid, Damaged, Unreadable };

template<size_t N>
struct Block {
	std::array<State, N> st;
	std::array<Ptr, N> id;
	bool erase_ok = true, write_ok = true, worn = false;
	size_t erases = 0, writes = 0, last = N;
	bool get(Data &d, size_t c) {
		PROVE(c < N);
		if (c >= N || st[c] == Unreadable) return false;
		d.id = st[c] == Blank ? nullptr : id[c];
		d.ok = st[c] == Valid;
		return true;
	}
	bool put(const Data &d, size_t c) {
		PROVE(c < N);
		if (c >= N) return false;
		PROVE(st[c] == Blank); // flash: only an erased cell can be written
		writes++;
		last = c;
		if (!write_ok) {
			st[c] = Damaged;
			return false;
		}
		st[c] = d.ok ? Valid : Damaged;
		id[c] = d.id;
		return true;
	}
	bool wipe() {
		erases++;
		if (!erase_ok) return false;
		for (auto &s : st)
			s = worn ? Damaged : Blank;
		return true;
	}
	bool writeable(size_t c) { return c < N && st[c] == Blank; }
};
// the block the storage drivers talk to
template<size_t N>
static Block<N> &cur() { return opaque<Block<N>>(); }

template<size_t N>
struct StorageA { // for WearLeveler
	using data_t = Data;
	static constexpr size_t NumCells = N;
	int token;
	StorageA(int &x) : token{x} {}
	bool read(Data *d, size_t c) { return cur<N>().get(*d, c); }
	bool write(const Data *d, size_t c) { return cur<N>().put(*d, c); }
	bool erase() { return cur<N>().wipe(); }
	bool is_writeable(size_t c) { return cur<N>().writeable(c); }
};
template<size_t N>
struct StorageB { // for WearLevel
	using data_t = Data;
	static constexpr size_t cell_nr_ = N;
	static bool read(Data &d, size_t c) { return cur<N>().get(d, c); }
	static bool write(const Data &d, size_t c) { return cur<N>().put(d, c); }
	static bool erase() { return cur<N>().wipe(); }
	static bool is_writeable(size_t c) { return cur<N>().writeable(c); }
};
template<size_t N, bool A>
using Level = std::conditional_t<A, WearLeveler<StorageA<N>>, WearLevel<StorageB<N>>>;

constexpr size_t pow4(size_t n) { return n ? 4 * pow4(n - 1) : 1; }
template<size_t N>
constexpr size_t latest(size_t code) { // highest valid cell, N if none
	size_t r = N;
	for (size_t i = 0; i < N; i++)
		if ((code >> 2 * i & 3) == Valid) r = i;
	return r;
}
template<size_t N, bool A>
struct Wear {
	using L = Level<N, A>;
	// CODE: the block found at start-up; OP what is done with it
	template<size_t CODE, size_t OP>
	static void run() {
		auto &b = opaque<Block<N>>();
		for (size_t i = 0; i < N; i++)
			b.st[i] = State(CODE >> 2 * i & 3);
		auto ids = b.id;
		b.erase_ok = b.write_ok = true;
		b.worn = false;
		b.erases = b.writes = 0;
		int token = 5;
		L &l = *[&] {
			if constexpr (A) return &construct<L>(token);
			else return &construct<L>();
		}();
		PROVE(b.erases == 0 && b.writes == 0); // starting up changes nothing
		constexpr size_t top = latest<N>(CODE);
		Data d{any<Ptr, 1>(), any<bool, 2>()}; // the caller's object may hold anything, even something valid
		if constexpr (OP == 0) { // the latest valid data are found
			bool ok = l.read(d);
			PROVE(ok == (top < N));
			if constexpr (top < N) PROVE(d.id == ids[top] && d.ok);
			PROVE(b.erases == 0 && b.writes == 0);
		} else if constexpr (OP == 1 || OP == 2) { // after a write the new data are found
			Data x{any<Ptr, 3>(), true};
			bool ok = l.write(x);
			constexpr size_t from = top < N ? top + 1 : 0;
			constexpr bool room = [] {
				for (size_t i = from; i < N; i++)
					if ((CODE >> 2 * i & 3) == Blank) return true;
				return false;
			}();
			PROVE(ok && b.writes == 1);
			PROVE(b.erases == (room ? 0 : 1)); // erased only when no later cell is free
			if constexpr (OP == 1) {
				PROVE(l.read(d) && d.id == x.id && d.ok);
				Data y{any<Ptr, 4>(), true}; // and again
				PROVE(l.write(y) && l.read(d) && d.id == y.id);
			} else { // a restart finds them, too
				L &l2 = *[&] {
					if constexpr (A) return &construct<L, 2>(token);
					else return &construct<L, 2>();
				}();
				PROVE(l2.read(d) && d.id == x.id && d.ok);
			}
		} else if constexpr (OP == 3) { // erase fails: reported, and never a cell outside the block
			b.erase_ok = false;
			Data x{any<Ptr, 3>(), true};
			bool ok = l.write(x);
			PROVE(ok == (b.writes == 1) && b.erases == (ok ? 0 : 1));
			if (l.read(d)) PROVE(d.ok);
			ok = l.write(x);
			if (l.read(d)) PROVE(d.ok);
			b.erase_ok = true;
			if constexpr (true) {
				Data y{any<Ptr, 4>(), true};
				PROVE(l.write(y) && l.read(d) && d.id == y.id);
			}
		} else if constexpr (OP == 5) { // erasing reports success but leaves no cell usable
			b.worn = true;
			Data x{any<Ptr, 3>(), true};
			bool ok = l.write(x);
			PROVE(ok == (b.writes == 1));
			bool found = l.read(d);
			if (ok) PROVE(found && d.id == x.id);
			else PROVE(!found); // erased
		} else { // the low-level write fails: reported, what was there is still found
			b.write_ok = false;
			Data x{any<Ptr, 3>(), true};
			PROVE(!l.write(x) && b.writes == 1);
			if (b.erases == 0) {
				bool ok = l.read(d);
				PROVE(ok == (top < N));
				if constexpr (top < N) PROVE(d.id == ids[top] && d.ok);
			}
		}
		REACH();
	}
};
using WA2 = Wear<2, true>;
CELLS(WA2, pow4(2), 6);
using WB2 = Wear<2, false>;
CELLS(WB2, pow4(2), 6);
using WA3 = Wear<3, true>;
CELLS(WA3, pow4(3), 6);
#ifdef VF_THOROUGH
using WB3 = Wear<3, false>;
CELLS(WB3, pow4(3), 6);
using WA4 = Wear<4, true>;
CELLS(WA4, pow4(4), 6);
#endif
