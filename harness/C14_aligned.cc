// Any element count, several element sizes and alignments; the C allocator is replaced by its contract.
#include "containers.hh"
#include <cstdlib>
static size_t model_align, model_size, model_calls;
static void *model_result;
// contract: power-of-two alignment, size a multiple of it; returns a block of exactly that many bytes or null
extern "C" void *aligned_alloc(size_t al, size_t sz) noexcept {
	PROVE(al != 0 && (al & (al - 1)) == 0);
	PROVE(sz % al == 0);
	model_align = al;
	model_size = sz;
	model_calls++;
	if (any<bool, 9>()) return model_result = nullptr;
	return model_result = __vf_buf(sz);
}
static void *model_freed;
extern "C" void free(void *p) noexcept { model_freed = p; }
#include "util/aligned_allocator.hh"

template<size_t B>
struct alignas(1) Bytes { uint8_t b[B]; };

template<class T, size_t A>
struct Alloc {
	template<size_t OP>
	static void run() {
		AlignedAllocator<T, A> a;
		model_calls = 0;
		size_t n = any<size_t, 1>();
		if constexpr (OP == 0) {
			T *p = a.allocate(n);
			if (p) {
				PROVE(n > 0 && model_calls == 1 && static_cast<void *>(p) == model_result);
				PROVE(model_align == A);
				PROVE(n <= SIZE_MAX / sizeof(T));
				PROVE(model_size >= n * sizeof(T)); // room for every element that was asked for
			} else if (n > 0 && n <= (SIZE_MAX - A) / sizeof(T)) // refused only when there is no such memory
				PROVE(model_calls == 1 && model_result == nullptr);
		} else if constexpr (OP == 1) {
			ASSUME(n == 0);
			PROVE(a.allocate(n) == nullptr && model_calls == 0);
		} else {
			T *p = &opaque<T, 2>();
			model_freed = nullptr;
			a.deallocate(p, n);
			PROVE(model_freed == p);
			AlignedAllocator<Bytes<3>, A> other{a};
			typename AlignedAllocator<T, A>::template rebind<int>::other r{a};
			PROVE(a == a && !(a != a));
			static_assert(std::is_same_v<decltype(r), AlignedAllocator<int, A>>);
		}
		REACH();
	}
};
using A1 = Alloc<uint8_t, 64>;
CELLS(A1, 3);
using A2 = Alloc<Ptr, 64>;
CELLS(A2, 3);
using A3 = Alloc<Wide, 32>;
CELLS(A3, 3);
using A4 = Alloc<Bytes<64>, 16>;
CELLS(A4, 3);
using A5 = Alloc<Bytes<7>, 4096>;
CELLS(A5, 3);
