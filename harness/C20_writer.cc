// Everything both encoders can emit, into every buffer size, against the byte format the reader expects.
// VFA: -peel=4
#include "containers.hh"
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"

// the expected bytes, built independently of the code under analysis
template<size_t N>
struct Image {
	uint8_t b[N + 1];
	size_t n = 0;
	template<class T>
	[[gnu::always_inline]] void add(T v) {
		std::memcpy(b + n, &v, sizeof v);
		n += sizeof v;
	}
};
using Raw3 = std::array<uint8_t, 3>;

// shape 0: one field; 1: field, group{raw, field}; 2: group in group, then field; 3: empty group, empty raw
template<size_t SHAPE, class K, class S, class W>
[[gnu::always_inline]] inline void describe_writer(W &w) {
	K k1 = any<K, 1>(), k2 = any<K, 2>(), k3 = any<K, 3>(), k4 = any<K, 4>();
	uint32_t v = any<uint32_t, 5>();
	uint8_t c = any<uint8_t, 6>();
	auto &raw = opaque<Raw3, 7>();
	if constexpr (SHAPE == 0) w.field(k1, v);
	if constexpr (SHAPE == 1) {
		w.field(k1, v);
		w.begin_object(k2);
		w.raw(k3, raw);
		w.field(k4, c);
		w.end_object();
	}
	if constexpr (SHAPE == 2) {
		w.begin_object(k1);
		w.begin_object(k2);
		w.field(k3, c);
		w.end_object();
		w.end_object();
		w.field(k4, v);
	}
	if constexpr (SHAPE == 3) {
		w.begin_object(k1);
		w.end_object();
		w.end_object(); // nothing is open: no effect
		w.raw(k2, {});
	}
}
template<size_t SHAPE, class K, class S>
struct Describe {
	template<class W>
	[[gnu::always_inline]] void operator()(W &w) const {
		K k1 = any<K, 1>(), k2 = any<K, 2>(), k3 = any<K, 3>(), k4 = any<K, 4>();
		uint32_t v = any<uint32_t, 5>();
		uint8_t c = any<uint8_t, 6>();
		auto &raw = opaque<Raw3, 7>();
		if constexpr (SHAPE == 0) w.field(k1, v);
		if constexpr (SHAPE == 1) {
			w.field(k1, v);
			w.object(k2, [&](auto &o) { o.raw(k3, raw); o.field(k4, c); });
		}
		if constexpr (SHAPE == 2) {
			w.object(k1, [&](auto &o) { o.object(k2, [&](auto &o2) { o2.field(k3, c); }); });
			w.field(k4, v);
		}
		if constexpr (SHAPE == 3) {
			w.object(k1, [](auto &) {});
			w.raw(k2, {});
		}
	}
};
template<size_t SHAPE, class K, class S, size_t N>
[[gnu::always_inline]] inline void expected(Image<N> &m) {
	K k1 = any<K, 1>(), k2 = any<K, 2>(), k3 = any<K, 3>(), k4 = any<K, 4>();
	uint32_t v = any<uint32_t, 5>();
	uint8_t c = any<uint8_t, 6>();
	auto &raw = opaque<Raw3, 7>();
	constexpr size_t H = sizeof(K) + sizeof(S);
	if constexpr (SHAPE == 0) { m.add(k1); m.add(S(4)); m.add(v); }
	if constexpr (SHAPE == 1) {
		m.add(k1); m.add(S(4)); m.add(v);
		m.add(k2); m.add(S(2 * H + 4));
		m.add(k3); m.add(S(3)); for (auto x : raw) m.add(x);
		m.add(k4); m.add(S(1)); m.add(c);
	}
	if constexpr (SHAPE == 2) {
		m.add(k1); m.add(S(2 * H + 1));
		m.add(k2); m.add(S(H + 1));
		m.add(k3); m.add(S(1)); m.add(c);
		m.add(k4); m.add(S(4)); m.add(v);
	}
	if constexpr (SHAPE == 3) { m.add(k1); m.add(S(0)); m.add(k2); m.add(S(0)); }
}
template<class K, class S>
constexpr size_t length(size_t shape) {
	size_t h = sizeof(K) + sizeof(S);
	return shape == 0 ? h + 4 : shape == 1 ? 4 * h + 8 : shape == 2 ? 4 * h + 5 : 2 * h;
}

template<class K, class S>
struct Encode {
	// HOW 0: writer, 1: serialize into a buffer, 2: stream into a sink, 3: measure
	template<size_t HOW, size_t SHAPE, size_t CAPI>
	static void run() {
		constexpr size_t L = length<K, S>(SHAPE);
		constexpr size_t cap = CAPI == 0 ? 0 : CAPI <= L ? CAPI : L + 3; // every truncation, and one that has room to spare
		if constexpr (CAPI > L + 1 || HOW >= 2 && CAPI > 0) return;
		else {
			Image<L> want;
			expected<SHAPE, K, S>(want);
			PROVE(want.n == L);
			if constexpr (HOW < 2) {
				auto *mem = static_cast<uint8_t *>(__vf_buf(cap));
				uint8_t beyond = cap > L ? mem[L] : 0;
				size_t n;
				if constexpr (HOW == 0) {
					CompactBinaryWriter<K, S> w{std::span<uint8_t>{mem, cap}};
					describe_writer<SHAPE, K, S>(w);
					n = w.size();
				} else
					n = CompactBinarySerializer<K, S>::serialize(std::span<uint8_t>{mem, cap}, Describe<SHAPE, K, S>{});
				PROVE(n == L); // what is needed, also when it did not fit
				for (size_t i = 0; i < cap && i < L; i++)
					PROVE(mem[i] == want.b[i]);
				if (cap > L) PROVE(mem[L] == beyond);
			} else if constexpr (HOW == 2) {
				Image<L + 8> got;
				bool ok = true;
				auto n = CompactBinarySerializer<K, S>::stream(Describe<SHAPE, K, S>{}, [&](std::span<const uint8_t> b) {
					if (got.n + b.size() > L) { ok = false; return; }
					for (auto x : b) got.b[got.n++] = x;
				});
				PROVE(ok && n == L && got.n == L);
				for (size_t i = 0; i < L; i++)
					PROVE(got.b[i] == want.b[i]);
			} else
				PROVE((CompactBinarySerializer<K, S>::measure(Describe<SHAPE, K, S>{}) == L));
			REACH();
		}
	}
};
using E1 = Encode<uint16_t, uint16_t>;
CELLS(E1, 4, 4, 26);
using E2 = Encode<uint8_t, uint8_t>;
CELLS(E2, 4, 4, 18);
using E3 = Encode<uint32_t, uint16_t>;
CELLS(E3, 4, 3, 34);

// more open groups than the writer keeps track of: inner sizes are lost, but outer ones are right and nothing is overrun
struct Deep {
	template<size_t D>
	static void run() {
		constexpr size_t L = 2 * (D + 1) + 3;
		auto *mem = static_cast<uint8_t *>(__vf_buf(L));
		CompactBinaryWriter<uint8_t, uint8_t, 2> w{std::span<uint8_t>{mem, L}};
		for (size_t i = 0; i <= D; i++)
			w.begin_object(any<uint8_t>());
		w.field(any<uint8_t, 1>(), any<uint8_t, 2>());
		for (size_t i = 0; i <= D; i++)
			w.end_object();
		PROVE(w.size() == L && w.depth == 0);
		for (size_t i = 0; i <= D && i < 2; i++)
			PROVE(mem[2 * i] == any<uint8_t>() && mem[2 * i + 1] == L - 2 * (i + 1));
		PROVE(mem[L - 3] == any<uint8_t, 1>() && mem[L - 2] == 1 && mem[L - 1] == any<uint8_t, 2>());
		w.end_object();
		PROVE(w.size() == L && w.depth == 0);
		REACH();
	}
};
CELLS(Deep, 5);

// text keys: the text, a terminator, zero padding
struct TextKey {
	template<size_t LEN, size_t HOW>
	static void run() {
		auto *mem = static_cast<uint8_t *>(__vf_buf(4 + 1 + 1));
		char key[4] = {any<char, 1>(), any<char, 2>(), any<char, 3>(), any<char, 4>()};
		for (size_t i = 0; i < LEN; i++) ASSUME(key[i] != 0);
		if (LEN < 4) key[LEN] = 0;
		uint8_t v = any<uint8_t, 5>();
		size_t n;
		if constexpr (HOW == 0) {
			CompactBinaryWriter<char[4], uint8_t> w{std::span<uint8_t>{mem, 6}};
			w.field(key, v);
			n = w.size();
		} else
			n = CompactBinarySerializer<char[4], uint8_t>::serialize(std::span<uint8_t>{mem, 6}, [&](auto &w) { w.field(key, v); });
		PROVE(n == 6 && mem[4] == 1 && mem[5] == v);
		for (size_t i = 0; i < 4; i++)
			PROVE(mem[i] == (i < LEN ? uint8_t(key[i]) : 0));
		REACH();
	}
};
CELLS(TextKey, 5, 2);

// what the writer wrote, the reader finds
struct RoundTrip {
	template<size_t OP>
	static void run() {
		auto *mem = static_cast<uint8_t *>(__vf_buf(64));
		uint16_t k1 = any<uint16_t, 1>(), k2 = any<uint16_t, 2>(), k3 = any<uint16_t, 3>();
		ASSUME(k1 != k2 && k2 != k3 && k1 != k3);
		uint32_t v = any<uint32_t, 4>();
		uint16_t u = any<uint16_t, 5>();
		size_t n;
		if constexpr (OP == 0) {
			CompactBinaryWriter<uint16_t> w{std::span<uint8_t>{mem, 64}};
			w.field(k1, v);
			w.begin_object(k2);
			w.field(k3, u);
			w.end_object();
			n = w.size();
		} else
			n = CompactBinarySerializer<uint16_t>::serialize(std::span<uint8_t>{mem, 64}, [&](auto &s) {
				s.field(k1, v);
				s.object(k2, [&](auto &t) { t.field(k3, u); });
			});
		CompactBinaryParser<uint16_t> p{std::span<const uint8_t>{mem, n}};
		auto a = p.get<uint32_t>(k1);
		PROVE(a && *a == v);
		CompactBinaryParser<uint16_t> in{p.get_node(k2)};
		auto b = in.get<uint16_t>(k3);
		PROVE(b && *b == u);
		PROVE(!p.get<uint16_t>(k3));
		REACH();
	}
};
CELLS(RoundTrip, 2);

// groups nested deeper than the writer can follow: those it follows still get their size, nothing else is touched
struct TooDeep {
	template<size_t EXTRA>
	static void run() {
		constexpr size_t E = 2 * (EXTRA + 1), L = 5 + 5 + E + 3 + 3 + 3;
		auto *mem = static_cast<uint8_t *>(__vf_buf(L));
		CompactBinaryWriter<uint8_t, uint8_t, 2> w{std::span<uint8_t>{mem, L}};
		uint8_t k = any<uint8_t>(), v = any<uint8_t, 1>(), q = any<uint8_t, 2>();
		w.begin_object(k); // at 0
		w.field(k, v);	   // 2
		w.begin_object(k); // 5
		w.field(k, v);	   // 7
		for (size_t i = 0; i <= EXTRA; i++) w.begin_object(k); // 10
		for (size_t i = 0; i <= EXTRA; i++) w.end_object();
		w.field(q, v); // 10 + E
		w.end_object();
		w.field(k, q); // 13 + E
		w.end_object();
		w.field(q, v); // 16 + E
		PROVE(w.size() == L);
		auto field = [mem](size_t at, uint8_t key, uint8_t value) { return mem[at] == key && mem[at + 1] == 1 && mem[at + 2] == value; };
		PROVE(mem[0] == k && mem[1] == 14 + E);
		PROVE(field(2, k, v));
		PROVE(mem[5] == k && mem[6] == 6 + E);
		PROVE(field(7, k, v));
		for (size_t i = 0; i <= EXTRA; i++) PROVE(mem[10 + 2 * i] == k);
		PROVE(field(10 + E, q, v));
		PROVE(field(13 + E, k, q));
		PROVE(field(16 + E, q, v));
		REACH();
	}
};
CELLS(TooDeep, 3);
