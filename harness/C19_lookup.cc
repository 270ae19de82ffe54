// VFA: -peel=4
// Blobs of three entries, any keys and data, cut off anywhere: what a lookup must find.
#include "containers.hh"
#include "util/compact_binary_parser.hh"

template<class KeyT, class SzT, size_t S0, size_t S1, size_t S2>
struct Blob {
	static constexpr size_t H = sizeof(KeyT) + sizeof(SzT);
	static constexpr std::array<size_t, 3> sz{S0, S1, S2};
	static constexpr size_t total = 3 * H + S0 + S1 + S2;
	static constexpr size_t start(size_t i) { return i == 0 ? 0 : start(i - 1) + H + sz[i - 1]; }
	template<size_t MASK, size_t CUT>
	static void run() {
		auto *mem = static_cast<uint8_t *>(__vf_buf(total));
		KeyT key = any<KeyT>();
		for (size_t i = 0; i < 3; i++) {
			KeyT k;
			std::memcpy(&k, mem + start(i), sizeof k);
			ASSUME((k == key) == bool(MASK >> i & 1));
			SzT n = SzT(sz[i]);
			std::memcpy(mem + start(i) + sizeof k, &n, sizeof n);
		}
		CompactBinaryParser<KeyT, SzT> p{std::span<const uint8_t>{mem, CUT}};
		constexpr size_t m = MASK & 1 ? 0 : MASK & 2 ? 1 : MASK & 4 ? 2 : 3;
		auto node = p.get_node(key);
		auto right = p.template get<std::array<uint8_t, (m < 3 && sz[m % 3]) ? sz[m % 3] : 1>>(key);
		auto wrong = p.template get<std::array<uint8_t, (m < 3 ? sz[m % 3] : 0) + 1>>(key);
		auto big = p.template get<std::array<uint8_t, (m < 3 ? sz[m % 3] : 0) + 256>>(key);
		PROVE(!wrong && !big); // the stored size must match
		if constexpr (m < 3 && sz[m % 3] > 1) {
			auto small = p.template get<std::array<uint8_t, (sz[m % 3] > 1 ? sz[m % 3] - 1 : 1)>>(key);
			PROVE(!small);
		}
		if constexpr (m < 3 && sz[m % 3] > 0 && CUT >= start(m) + H + sz[m % 3]) { // found, and all of it is there
			const uint8_t *d = mem + start(m) + H;
			PROVE(node.data() == d && node.size() == sz[m]);
			PROVE(right.has_value());
			for (size_t i = 0; i < sz[m]; i++)
				PROVE((*right)[i] == d[i]);
			PROVE(p.get_size(key) == sz[m]);
		} else { // absent, empty or cut off
			PROVE(node.empty());
			PROVE(!right);
		}
		if constexpr (m == 3) PROVE(p.get_size(key) == 0);
		REACH();
	}
};
using B16 = Blob<uint16_t, uint16_t, 2, 0, 4>;
CELLS(B16, 8, B16::total + 1);
using B8 = Blob<uint8_t, uint8_t, 1, 3, 5>;
CELLS(B8, 8, B8::total + 1);
using B32 = Blob<uint32_t, uint16_t, 0, 1, 2>;
CELLS(B32, 8, B32::total + 1);

// values of scalar types arrive unchanged, at any alignment
template<class T, size_t PAD>
struct Scalar {
	template<size_t I>
	static void run() {
		auto *mem = static_cast<uint8_t *>(__vf_buf(PAD + 4 + sizeof(T)));
		uint16_t k = any<uint16_t>(), n = sizeof(T);
		std::memcpy(mem + PAD, &k, 2);
		std::memcpy(mem + PAD + 2, &n, 2);
		T v = any<T, 1>();
		std::memcpy(mem + PAD + 4, &v, sizeof v);
		CompactBinaryParser<uint16_t> p{std::span<const uint8_t>{mem + PAD, 4 + sizeof(T)}};
		auto r = p.get<T>(k);
		PROVE(r.has_value());
		PROVE(std::memcmp(&*r, &v, sizeof v) == 0);
		REACH();
	}
};
using S1 = Scalar<uint32_t, 0>;
CELLS(S1, 1);
using S2 = Scalar<uint64_t, 1>;
CELLS(S2, 1);
using S3 = Scalar<float, 3>;
CELLS(S3, 1);
using S4 = Scalar<int8_t, 1>;
CELLS(S4, 1);

// text keys: compared up to and including the terminator
struct Text {
	// LEN, Q: lengths of the stored and the requested key text (3: not terminated); D: first place they differ (3: nowhere)
	template<size_t LEN, size_t Q, size_t D>
	static void run() {
		constexpr bool same = D == 3;
		if constexpr (same ? LEN != Q : LEN == Q ? D >= LEN : D != (LEN < Q ? LEN : Q) && D >= (LEN < Q ? LEN : Q)) return;
		else {
			using P = CompactBinaryParser<const char[3], uint8_t>;
			auto *mem = static_cast<uint8_t *>(__vf_buf(3 + 1 + 2));
			char query[3] = {any<char, 1>(), any<char, 2>(), any<char, 3>()};
			for (size_t i = 0; i < 3; i++) { // what follows a terminator is arbitrary
				if (i < LEN) ASSUME(mem[i] != 0);
				if (i < Q) ASSUME(query[i] != 0);
			}
			if (LEN < 3) mem[LEN] = 0;
			if (Q < 3) query[Q] = 0;
			for (size_t i = 0; i < 3; i++) {
				if (i < LEN && i < Q && i < D) ASSUME(char(mem[i]) == query[i]);
				if (i < LEN && i < Q && i == D) ASSUME(char(mem[i]) != query[i]);
			}
			mem[3] = 2;
			P p{std::span<const uint8_t>{mem, 6}};
			auto node = p.get_node(query);
			if (same) PROVE(node.size() == 2 && node.data() == mem + 4);
			else PROVE(node.empty());
			REACH();
		}
	}
};
CELLS(Text, 4, 4, 4);

// groups: a lookup inside a group sees the group's entries and nothing behind it
struct Nested {
	template<size_t OP>
	static void run() {
		using P = CompactBinaryParser<uint8_t, uint8_t>;
		// [g][n= 3+1] { [a][1][x] [pad] } [a][1][y]
		auto *mem = static_cast<uint8_t *>(__vf_buf(2 + 4 + 3));
		uint8_t g = any<uint8_t>(), a = any<uint8_t, 1>();
		mem[0] = g; mem[1] = 4;
		mem[2] = OP == 0 ? a : uint8_t(a ^ 1); mem[3] = 1;
		mem[6] = a; mem[7] = 1;
		ASSUME(g != a);
		P outer{std::span<const uint8_t>{mem, 9}};
		P inner{outer.get_node(g)};
		auto r = inner.get<uint8_t>(a);
		if (OP == 0) PROVE(r && *r == mem[4]);
		else PROVE(!r);
		auto t = outer.get<uint8_t>(a); // the group's content does not count
		PROVE(t && *t == mem[8]);
		REACH();
	}
};
CELLS(Nested, 2);
