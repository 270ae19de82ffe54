// Obligation vocabulary for the harness translation units (see DESIGN.md, "Engine").
#pragma once
#include <array>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <new>
#include <optional>
#include <span>
#include <type_traits>
#include <utility>

extern "C" {
[[noreturn]] void __vf_halt() noexcept;						   // state excluded by an assumption
[[noreturn]] void __vf_fail(const char *what, int line) noexcept; // obligation not met
void __vf_reach(const char *what) noexcept;					   // witness: the end of the obligation is reachable
// a fresh buffer of exactly n bytes with unknown content
__attribute__((alloc_size(1), malloc, nothrow, warn_unused_result)) void *__vf_buf(size_t n) noexcept;
}

#define ASSUME(...) \
	do { \
		if (!(__VA_ARGS__)) \
			__vf_halt(); \
	} while (0)
#define PROVE(...) \
	do { \
		if (!(__VA_ARGS__)) \
			__vf_fail(#__VA_ARGS__, __LINE__); \
	} while (0)
#define REACH() __vf_reach(__func__)

// An object of unknown content, living in memory nobody else aliases.
template<class T, int N = 0>
struct Opaque {
	static T obj;
};
template<class T, int N = 0>
[[gnu::always_inline]] inline T &opaque() {
	return Opaque<T, N>::obj;
}
// An unknown value
template<class T, int N = 0>
[[gnu::always_inline]] inline T any() {
	return Opaque<T, N>::obj;
}
// Raw storage of unknown content, to construct into (a member the constructor forgets stays unknown)
template<class T>
union Raw {
	Raw() {}
	~Raw() {}
	T object;
};
template<class T, int N = 0, class... A>
[[gnu::always_inline]] inline T &construct(A &&...a) {
	return *::new (static_cast<void *>(&Opaque<Raw<T>, N>::obj)) T(std::forward<A>(a)...);
}

// A cell: one element of a finite partition of the control state. F::run<I...>() states the obligations of the cell.
template<class F, size_t... I>
[[gnu::noinline]] void __vf_cell() {
	if constexpr (sizeof...(I) == 0) F::run();
	else F::template run<I...>();
}
namespace vf_detail {
template<class F, class Fixed, size_t... Ns>
struct All;
template<class F, size_t... I>
struct All<F, std::index_sequence<I...>> {
	static constexpr bool go(auto &out, size_t &n) {
		out[n++] = &__vf_cell<F, I...>;
		return true;
	}
};
template<class F, size_t... I, size_t N, size_t... Ns>
struct All<F, std::index_sequence<I...>, N, Ns...> {
	static constexpr bool go(auto &out, size_t &n) {
		return [&]<size_t... J>(std::index_sequence<J...>) {
			return (All<F, std::index_sequence<I..., J>, Ns...>::go(out, n) && ...);
		}(std::make_index_sequence<N>{});
	}
};
template<class F, size_t... Ns>
constexpr auto all_cells() {
	std::array<void (*)(), (Ns * ... * 1)> a{};
	size_t n = 0;
	All<F, std::index_sequence<>, Ns...>::go(a, n);
	return a;
}
} // namespace vf_detail
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
// CELLS(F, N1, N2, ...): instantiate F::run<i1, i2, ...> for all i_k < N_k
#define CELLS(F, ...) [[gnu::used]] auto VF_CAT(vf_cells_, __COUNTER__) = vf_detail::all_cells<F __VA_OPT__(, ) __VA_ARGS__>()
