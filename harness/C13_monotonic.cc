// VFA: -peel=4
// Any arena, any previous use, any request.
#include "containers.hh"
#include "util/monotonic_allocator.hh"

struct Alloc {
	template<size_t OP>
	static void run() {
		size_t total = any<size_t, 1>(), used = any<size_t, 2>(), req = any<size_t, 3>();
		ASSUME(total < (size_t(1) << 48) && used <= total);
		auto *mem = static_cast<uint8_t *>(__vf_buf(total));
		MonotonicAllocator a{std::span<uint8_t>{mem, total}};
		PROVE(a.free_space() == total && a.total_size() == total);
		auto &[arena, offset] = a;
		offset = used;
		if constexpr (OP == 0) {
			uint8_t *p = a.allocate(req);
			if (p) {
				PROVE(p == mem + used); // right behind everything handed out before
				PROVE(req <= total - used);
				PROVE(a.free_space() == total - used - req);
			} else {
				PROVE(req >= total - used);
				PROVE(a.free_space() == total - used);
			}
			PROVE(a.total_size() == total);
		} else if constexpr (OP == 1) { // two in a row never overlap, and every byte handed out may be written
			size_t req2 = any<size_t, 4>(), i = any<size_t, 5>();
			uint8_t *p = a.allocate(req);
			size_t left = total - used;
			if (req < left) {
				PROVE(p == mem + used);
				uint8_t *q = a.allocate(req2);
				if (req2 < left - req) {
					PROVE(q == p + req);
					if (i < req2) q[i] = 1;
				} else if (req2 > left - req)
					PROVE(!q);
				if (i < req) p[i] = 2;
			} else if (req > left) { // refused: the next one starts where this one would have
				PROVE(!p);
				uint8_t *q = a.allocate(req2);
				if (req2 < left) {
					PROVE(q == mem + used);
					if (i < req2) q[i] = 1;
				}
			}
			PROVE(a.free_space() <= total - used);
		} else {
			a.reset();
			PROVE(a.free_space() == total && a.total_size() == total);
			uint8_t *p = a.allocate(req);
			PROVE(!p || p == mem);
		}
		REACH();
	}
};
CELLS(Alloc, 3);
