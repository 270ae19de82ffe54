// Defining equations of the C string functions the headers call, so they are analysed like any other code.
#pragma once
#include <cstddef>
extern "C" {
[[gnu::used]] size_t strlen(const char *s) noexcept {
	size_t n = 0;
	while (s[n])
		n++;
	return n;
}
[[gnu::used]] int memcmp(const void *a, const void *b, size_t n) noexcept {
	auto x = static_cast<const unsigned char *>(a), y = static_cast<const unsigned char *>(b);
	for (size_t i = 0; i < n; i++)
		if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
	return 0;
}
[[gnu::used]] void *vf_memchr(const void *a, int c, size_t n) noexcept asm("memchr");
[[gnu::used]] void *vf_memchr(const void *a, int c, size_t n) noexcept {
	auto x = static_cast<const unsigned char *>(a);
	for (size_t i = 0; i < n; i++)
		if (x[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char *>(x + i);
	return nullptr;
}
[[gnu::used]] int bcmp(const void *a, const void *b, size_t n) noexcept { return memcmp(a, b, n); }
}
