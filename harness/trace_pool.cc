// Claiming and releasing in the shared pool: roots for the event-path rules.
#include "containers.hh"
#include "util/thread_safe_pool.hh"
#define POOL(q, T, N) \
	using Q_##q = cpputil::ThreadSafePool<T, N>; \
	extern "C" [[gnu::used]] const size_t vft_layout__##q[4] = {offsetof(Q_##q, used_flags), N, offsetof(Q_##q, data), sizeof(Q_##q::data)}; \
	extern "C" [[gnu::used]] long vft_claim__##q(Q_##q &p) { \
		auto r = p.create(); \
		return r ? long(*r) : -1L; \
	} \
	extern "C" [[gnu::used]] void vft_clear__##q(Q_##q &p) { p.clear(); } \
	extern "C" [[gnu::used]] long vft_release0__##q(Q_##q &p) { return p.destroy(0) ? 1 : 0; } \
	extern "C" [[gnu::used]] long vft_releaselast__##q(Q_##q &p) { return p.destroy(N - 1) ? 1 : 0; } \
	extern "C" [[gnu::used]] long vft_query__##q(Q_##q &p) { return p.is_used(N - 1) ? 1 : 0; } \
	extern "C" [[gnu::used]] long vft_query0__##q(Q_##q &p) { return p.is_used(0) ? 1 : 0; }
POOL(p1, Ptr, 1)
POOL(p3, Ptr, 3)
POOL(p4, Wide, 4)
POOL(p7, uint8_t, 7)
