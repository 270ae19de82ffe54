// VFA: -peel=4
// Every control state (idle / which half is in flight, both fill levels), every call and length, unknown data.
#include "containers.hh"
#include "util/doublebuf_stream.hh"

constexpr size_t N = 3;
using T = Ptr;
struct Log {
	size_t calls = 0, n = 0;
	const T *from = nullptr;
	T sent[N + 2];
	bool answer = true;
};
using DB = DoubleBufferStream<T, N>;

// which = 0: idle, 1: half 0 in flight, 2: half 1 in flight
template<size_t WHICH, size_t A, size_t B>
constexpr bool valid() { return WHICH != 0 || (A == 0 && B == 0); }

static std::array<T, N> part(FixedVector<T, N> &v) {
	std::array<T, N> r{};
	for (size_t i = 0; i < v.size(); i++)
		r[i] = v[i];
	return r;
}
template<size_t WHICH, size_t A, size_t B, class F>
static void in_state(Log &log, F f) {
	DB &db = construct<DB>([&log](std::span<T> s) {
		log.calls++;
		log.n = s.size();
		log.from = s.data();
		for (size_t i = 0; i < s.size(); i++)
			log.sent[i] = s[i];
		return log.answer;
	});
	PROVE(!db.in_progress_idx.has_value() && db.tx_buffer[0].size() == 0 && db.tx_buffer[1].size() == 0);
	db.in_progress_idx = WHICH == 0 ? std::nullopt : std::optional<unsigned>(WHICH - 1);
	for (size_t i = 0; i < A; i++)
		db.tx_buffer[0].push_back(any<std::array<T, N>, 1>()[i]);
	for (size_t i = 0; i < B; i++)
		db.tx_buffer[1].push_back(any<std::array<T, N>, 2>()[i]);
	f(db);
}
template<size_t WHICH, size_t A, size_t B>
struct Model {
	static constexpr size_t active = WHICH == 2 ? 1 : 0, queue = WHICH == 0 ? 0 : 1 - active;
	static constexpr size_t nactive = active ? B : A, nqueue = WHICH == 0 ? 0 : active ? A : B;
};
struct Transmit {
	template<size_t WHICH, size_t A, size_t B, size_t LEN>
	static void run() {
		if constexpr (valid<WHICH, A, B>()) {
			using M = Model<WHICH, A, B>;
			Log log;
			in_state<WHICH, A, B>(log, [&](DB &db) {
				auto act = part(db.tx_buffer[M::active]), q = part(db.tx_buffer[M::queue]);
				auto &word = opaque<std::array<T, LEN + 1>, 3>();
				auto w = word;
				bool ok = db.transmit(std::span<T>{word.data(), LEN});
				constexpr bool fits = M::nqueue + LEN <= N;
				PROVE(ok == fits);
				for (size_t i = 0; i < LEN; i++)
					PROVE(word[i] == w[i]);
				if constexpr (WHICH == 0 && fits) { // sent at once, exactly these
					PROVE(log.calls == 1 && log.n == LEN);
					for (size_t i = 0; i < LEN; i++)
						PROVE(log.sent[i] == w[i]);
					PROVE(db.in_progress_idx.has_value());
					auto &b = db.tx_buffer[*db.in_progress_idx];
					PROVE(b.size() == LEN && log.from == b.begin());
					PROVE(db.tx_buffer[1 - *db.in_progress_idx].size() == 0);
				} else {
					PROVE(log.calls == 0);
					PROVE(db.in_progress_idx.has_value() == (WHICH != 0));
					if constexpr (WHICH != 0) { // what is in flight is untouched, the rest is queued behind
						PROVE(*db.in_progress_idx == M::active);
						auto &a = db.tx_buffer[M::active];
						PROVE(a.size() == M::nactive);
						for (size_t i = 0; i < M::nactive; i++)
							PROVE(a[i] == act[i]);
					}
					auto &b = db.tx_buffer[M::queue];
					PROVE(b.size() == M::nqueue + (fits ? LEN : 0));
					for (size_t i = 0; i < M::nqueue; i++)
						PROVE(b[i] == q[i]);
					if constexpr (fits)
						for (size_t i = 0; i < LEN; i++)
							PROVE(b[M::nqueue + i] == w[i]);
				}
			});
			REACH();
		}
	}
};
CELLS(Transmit, 3, N + 1, N + 1, N + 2);

struct Done {
	template<size_t WHICH, size_t A, size_t B>
	static void run() {
		if constexpr (valid<WHICH, A, B>()) {
			using M = Model<WHICH, A, B>;
			Log log;
			in_state<WHICH, A, B>(log, [&](DB &db) {
				auto q = part(db.tx_buffer[M::queue]);
				db.tx_done_callback();
				if constexpr (WHICH == 0) {
					PROVE(log.calls == 0 && !db.in_progress_idx.has_value());
					PROVE(db.tx_buffer[0].size() == 0 && db.tx_buffer[1].size() == 0);
				} else {
					PROVE(db.tx_buffer[M::active].size() == 0);
					PROVE(log.calls == (M::nqueue > 0));
					PROVE(db.in_progress_idx.has_value() == (M::nqueue > 0));
					if constexpr (M::nqueue > 0) { // everything queued goes out next, in order
						PROVE(*db.in_progress_idx == M::queue && log.n == M::nqueue);
						auto &b = db.tx_buffer[M::queue];
						PROVE(b.size() == M::nqueue && log.from == b.begin());
						for (size_t i = 0; i < M::nqueue; i++)
							PROVE(log.sent[i] == q[i] && b[i] == q[i]);
					}
				}
			});
			REACH();
		}
	}
};
CELLS(Done, 3, N + 1, N + 1);

// the transmitter refuses to start
struct Refused {
	template<size_t OP>
	static void run() {
		Log log;
		in_state<0, 0, 0>(log, [&](DB &db) {
			log.answer = false;
			auto &word = opaque<std::array<T, 2>, 3>();
			bool ok = db.transmit(std::span<T>{word.data(), 2});
			PROVE(!ok && log.calls == 1);
			if constexpr (OP == 1) { // nothing is in flight, so a later call must start again
				log.answer = true;
				db.transmit(std::span<T>{word.data(), 1});
				PROVE(log.calls == 2);
			}
		});
		REACH();
	}
};
CELLS(Refused, 2);

// the transmit function hands over more data while a transmission is being started: it is queued behind
struct Nested {
	template<size_t FROM, size_t NQ, size_t LEN>
	static void run() {
		if constexpr (NQ >= 1) {
			static DB *self;
			static size_t calls;
			static bool accepted;
			auto &first = opaque<std::array<T, N>, 1>();
			auto &extra = opaque<std::array<T, N + 1>, 2>();
			const auto f = first;
			const auto x = extra;
			DB &db = construct<DB>([](std::span<T>) {
				if (calls++ == 0) accepted = self->transmit(std::span<T>{opaque<std::array<T, N + 1>, 2>().data(), LEN});
				return true;
			});
			self = &db;
			calls = 0;
			accepted = false;
			if constexpr (FROM == 0)
				db.transmit(std::span<T>{first.data(), NQ});
			else { // half FROM - 1 is in flight, the other waits
				db.in_progress_idx = FROM - 1;
				db.tx_buffer[FROM - 1].push_back(any<T, 3>());
				for (size_t i = 0; i < NQ; i++)
					db.tx_buffer[2 - FROM].push_back(first[i]);
				db.tx_done_callback();
			}
			PROVE(calls == 1 && accepted == (LEN <= N) && db.in_progress_idx.has_value());
			auto &sent = db.tx_buffer[*db.in_progress_idx];
			auto &kept = db.tx_buffer[1 - *db.in_progress_idx];
			PROVE(sent.size() == NQ && kept.size() == (LEN <= N ? LEN : 0));
			for (size_t i = 0; i < NQ; i++)
				PROVE(sent[i] == f[i]);
			if constexpr (LEN <= N)
				for (size_t i = 0; i < LEN; i++)
					PROVE(kept[i] == x[i]);
			REACH();
		}
	}
};
CELLS(Nested, 3, N + 1, N + 2);
