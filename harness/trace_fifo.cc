// Every operation of both queues, per role, for element types of several sizes: roots for the event-path rules.
#include "containers.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"
#define OP(role, q, op, T, ...) \
	extern "C" [[gnu::used]] auto vft_##role##__##q##__##op __VA_ARGS__
#define FIXED(q, T, N) \
	using Q_##q = LockFreeFifoSpsc<T, N>; \
	extern "C" [[gnu::used]] const size_t vft_layout__##q[4] = {offsetof(Q_##q, head_), offsetof(Q_##q, tail_), offsetof(Q_##q, buf_), sizeof(Q_##q::buf_)}; \
	OPS(q, T)
#define DYN(q, T) \
	using Q_##q = LockFreeFifoSpscDyn<T>; \
	extern "C" [[gnu::used]] const size_t vft_layout__##q[4] = {offsetof(Q_##q, head_), offsetof(Q_##q, tail_), 0, 0}; \
	OPS(q, T)
#define OPS(q, T) \
	OP(prod, q, put, T, (Q_##q &f, T &x)->bool { return f.put(x); }) \
	OP(prod, q, num_free, T, (Q_##q &f)->size_t { return f.num_free(); }) \
	OP(prod, q, full, T, (Q_##q &f)->bool { return f.full(); }) \
	OP(prod, q, set_write_pos, T, (Q_##q &f, size_t n)->void { f.set_write_pos(n); }) \
	OP(cons, q, get, T, (Q_##q &f, T &x)->bool { \
		auto r = f.get(); \
		if (!r) return false; \
		x = *r; \
		return true; \
	}) \
	OP(cons, q, get_move, T, (Q_##q &f, T &x)->bool { return f.get_move(x); }) \
	OP(cons, q, get_or_default, T, (Q_##q &f, T &x)->void { x = f.get_or_default(); }) \
	OP(cons, q, remove_first, T, (Q_##q &f)->void { f.remove_first(); }) \
	OP(cons, q, num_filled, T, (Q_##q &f)->size_t { return f.num_filled(); }) \
	OP(cons, q, empty, T, (Q_##q &f)->bool { return f.empty(); }) \
	OP(cons, q, set_read_pos, T, (Q_##q &f, size_t n)->void { f.set_read_pos(n); }) \
	OP(cons, q, set_read_offset, T, (Q_##q &f, size_t n)->void { f.set_read_offset(n); }) \
	OP(cons, q, reset, T, (Q_##q &f)->void { f.reset(); })

FIXED(ptr4, Ptr, 4)
FIXED(ptr1, Ptr, 1)
FIXED(wide8, Wide, 8)
FIXED(byte256, uint8_t, 256)
DYN(dptr, Ptr)
DYN(dwide, Wide)
DYN(dbyte, uint8_t)
