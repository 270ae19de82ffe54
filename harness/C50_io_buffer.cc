// Input and output buffers: stored in order until full; handed out in order until empty.
#include "containers.hh"
#include "util/input_output_buffer.hh"

template<class T, size_t N>
struct In {
	template<size_t n>
	static void run() {
		auto &b = opaque<InputBuffer<T, N>>();
		auto &[buf, head] = b;
		head = n;
		auto before = buf;
		T x = any<T, 1>();
		PROVE(b.full() == (n >= N));
		PROVE(b.size() == N && b.data() == buf.data() && b.begin() == buf.data() && b.end() == buf.data() + N);
		b.put(x);
		PROVE(head == (n < N ? n + 1 : n));
		for (size_t i = 0; i < N; i++) PROVE(buf[i] == (i == n ? x : before[i]));
		b.reset();
		PROVE(head == 0 && b.full() == (N == 0));
		for (size_t i = 0; i < N; i++) PROVE(buf[i] == (i == n ? x : before[i]));
		auto &f = construct<InputBuffer<T, N>, 9>();
		auto &[fb, fh] = f;
		PROVE(fh == 0);
		for (size_t i = 0; i < N; i++) PROVE(fb[i] == T{});
		REACH();
	}
};
template<class T, size_t N>
struct Out {
	template<size_t n>
	static void run() {
		auto &b = opaque<OutputBuffer<T, N>>();
		auto &[buf, head] = b;
		head = n;
		auto before = buf;
		PROVE(b.full() == (n >= N));
		PROVE(b.size() == N && b.data() == buf.data() && b.begin() == buf.data() && b.end() == buf.data() + N);
		T x = b.get();
		if constexpr (n < N) PROVE(x == before[n] && head == n + 1);
		else PROVE(x == T{} && head == n);
		for (size_t i = 0; i < N; i++) PROVE(buf[i] == before[i]);
		b.reset();
		PROVE(head == 0 && b.full() == (N == 0));
		for (size_t i = 0; i < N; i++) PROVE(buf[i] == before[i]);
		auto &f = construct<OutputBuffer<T, N>, 9>();
		auto &[fb, fh] = f;
		PROVE(fh == 0);
		for (size_t i = 0; i < N; i++) PROVE(fb[i] == T{});
		REACH();
	}
};
using In1 = In<uint8_t, 1>;
CELLS(In1, 2);
using In4 = In<uint32_t, 4>;
CELLS(In4, 5);
using In7 = In<uint64_t, 7>;
CELLS(In7, 8);
using Out1 = Out<uint8_t, 1>;
CELLS(Out1, 2);
using Out4 = Out<uint32_t, 4>;
CELLS(Out4, 5);
using Out7 = Out<uint64_t, 7>;
CELLS(Out7, 8);
