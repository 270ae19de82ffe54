// Defining equations of std::string and std::vector for texts within a fixed capacity: the code under analysis is
// compiled against them by name (its own text is untouched), so what the library does is a closed-form function of
// contents and sizes instead of the standard library's buffer management.
// Every position out of range and every growth beyond the capacity is a failed obligation.
#pragma once
#include "vf.hh"
#include <initializer_list>
#include <iterator>
#include <string>
#include <string_view>
#include <vector>

#ifndef VF_TEXT
#define VF_TEXT 12
#endif

namespace std
{
struct model_string {
	static constexpr size_t npos = size_t(-1), CAP = VF_TEXT;
	using value_type = char;
	using size_type = size_t;
	using iterator = char *;
	using const_iterator = const char *;
	using reference = char &;
	using const_reference = const char &;
	char d[CAP + 1];
	size_t n = 0;

	model_string() { d[0] = 0; }
	model_string(const char *s, size_t m) { put(s, m); }
	model_string(const char *s) {
		size_t m = 0;
		while (s[m]) m++;
		put(s, m);
	}
	model_string(size_t m, char c) { d[0] = 0; append(m, c); }
	explicit model_string(string_view v) { put(v.data(), v.size()); }
	model_string(initializer_list<char> l) { put(l.begin(), l.size()); }
	template<class I>
		requires(!is_integral_v<I>)
	model_string(I a, I b) { d[0] = 0; for (; a != b; ++a) push_back(*a); }
	model_string(const model_string &o, size_t pos, size_t m = npos) { *this = o.substr(pos, m); }
	model_string(const model_string &) = default;
	model_string &operator=(const model_string &) = default;
	model_string &operator=(string_view v) { put(v.data(), v.size()); return *this; }
	model_string &operator=(const char *s) { return *this = model_string(s); }
	void put(const char *s, size_t m) {
		PROVE(m <= CAP);
		for (size_t i = 0; i < CAP; i++)
			if (i < m) d[i] = s[i];
		n = m;
		d[m] = 0;
	}
	operator string_view() const { return {d, n}; }
	size_t size() const { return n; }
	size_t length() const { return n; }
	size_t max_size() const { return npos / 2; }
	size_t capacity() const { return CAP; }
	bool empty() const { return n == 0; }
	void reserve(size_t = 0) {}
	void shrink_to_fit() {}
	void clear() { n = 0; d[0] = 0; }
	char *data() { return d; }
	const char *data() const { return d; }
	const char *c_str() const { return d; }
	char *begin() { return d; }
	char *end() { return d + n; }
	const char *begin() const { return d; }
	const char *end() const { return d + n; }
	const char *cbegin() const { return d; }
	const char *cend() const { return d + n; }
	char &operator[](size_t i) { PROVE(i <= n); return d[i]; }
	const char &operator[](size_t i) const { PROVE(i <= n); return d[i]; }
	char &at(size_t i) { PROVE(i < n); return d[i]; }
	const char &at(size_t i) const { PROVE(i < n); return d[i]; }
	char &front() { PROVE(n); return d[0]; }
	char &back() { PROVE(n); return d[n - 1]; }
	const char &front() const { PROVE(n); return d[0]; }
	const char &back() const { PROVE(n); return d[n - 1]; }
	void push_back(char c) { PROVE(n < CAP); d[n++] = c; d[n] = 0; }
	void pop_back() { PROVE(n); d[--n] = 0; }
	void resize(size_t m, char c = 0) {
		PROVE(m <= CAP);
		for (size_t i = 0; i < CAP; i++)
			if (i >= n && i < m) d[i] = c;
		n = m;
		d[m] = 0;
	}
	model_string &append(string_view v) {
		model_string r = *this;
		PROVE(n + v.size() <= CAP);
		for (size_t i = 0; i < CAP; i++)
			if (i < v.size()) r.d[n + i] = v[i];
		r.n = n + v.size();
		r.d[r.n] = 0;
		return *this = r;
	}
	model_string &append(const char *s, size_t m) { return append(string_view{s, m}); }
	model_string &append(const model_string &o, size_t pos, size_t m = npos) { return append(string_view(o.substr(pos, m))); }
	model_string &append(size_t m, char c) { for (size_t i = 0; i < m; i++) push_back(c); return *this; }
	template<class I>
		requires(!is_integral_v<I> && !is_same_v<I, const char *>)
	model_string &append(I a, I b) { for (; a != b; ++a) push_back(*a); return *this; }
	model_string &operator+=(string_view v) { return append(v); }
	model_string &operator+=(const model_string &v) { return append(string_view(v)); }
	model_string &operator+=(const char *v) { return append(string_view(v)); }
	model_string &operator+=(char c) { push_back(c); return *this; }
	model_string substr(size_t pos = 0, size_t m = npos) const {
		PROVE(pos <= n); // throws otherwise
		if (m > n - pos) m = n - pos;
		model_string r;
		for (size_t i = 0; i < CAP; i++)
			if (i < m) r.d[i] = d[pos + i];
		r.n = m;
		r.d[m] = 0;
		return r;
	}
	model_string &replace(size_t pos, size_t len, string_view v) {
		PROVE(pos <= n);
		if (len > n - pos) len = n - pos;
		model_string r;
		const size_t m = n - len + v.size();
		PROVE(m <= CAP);
		for (size_t i = 0; i < CAP; i++)
			if (i < m) r.d[i] = i < pos ? d[i] : i - pos < v.size() ? v[i - pos] : d[i - v.size() + len];
		r.n = m;
		r.d[m] = 0;
		return *this = r;
	}
	model_string &replace(size_t pos, size_t len, const model_string &v) { return replace(pos, len, string_view(v)); }
	model_string &replace(size_t pos, size_t len, const char *s, size_t m) { return replace(pos, len, string_view(s, m)); }
	model_string &replace(const char *a, const char *b, string_view v) { return replace(a - d, b - a, v); }
	model_string &insert(size_t pos, string_view v) { return replace(pos, 0, v); }
	model_string &insert(size_t pos, const model_string &v) { return replace(pos, 0, string_view(v)); }
	model_string &erase(size_t pos = 0, size_t len = npos) { return replace(pos, len, string_view{}); }
	char *erase(const char *a, const char *b) { replace(a - d, b - a, string_view{}); return d + (a - d); }

	// searches: the least (greatest) position with the property
	static bool has(string_view set, char c) {
		bool h = false;
		for (size_t i = 0; i < CAP; i++) h = h || (i < set.size() && set[i] == c);
		return h;
	}
	template<class P>
	static size_t least(size_t from, size_t bound, P p) {
		size_t r = npos;
		for (size_t i = CAP + 1; i-- > 0;)
			if (i >= from && i < bound && p(i)) r = i;
		return r;
	}
	template<class P>
	static size_t greatest(size_t upto, size_t bound, P p) {
		size_t r = npos;
		for (size_t i = 0; i <= CAP; i++)
			if (i <= upto && i < bound && p(i)) r = i;
		return r;
	}
	static bool here(string_view t, size_t at, string_view v) {
		bool eq = true;
		for (size_t k = 0; k < CAP; k++) eq = eq && (k >= v.size() || t[at + k] == v[k]);
		return eq;
	}
	static size_t find_in(string_view t, string_view v, size_t pos) {
		return t.size() < v.size() ? npos : least(pos, t.size() - v.size() + 1, [&](size_t i) { return here(t, i, v); });
	}
	static size_t rfind_in(string_view t, string_view v, size_t pos) {
		return t.size() < v.size() ? npos : greatest(pos, t.size() - v.size() + 1, [&](size_t i) { return here(t, i, v); });
	}
	size_t find(string_view v, size_t pos = 0) const { return find_in(*this, v, pos); }
	size_t find(const model_string &v, size_t pos = 0) const { return find_in(*this, v, pos); }
	size_t find(const char *v, size_t pos = 0) const { return find_in(*this, v, pos); }
	size_t find(const char *v, size_t pos, size_t m) const { return find_in(*this, {v, m}, pos); }
	size_t find(char c, size_t pos = 0) const { return find_in(*this, {&c, 1}, pos); }
	size_t rfind(string_view v, size_t pos = npos) const { return rfind_in(*this, v, pos); }
	size_t rfind(char c, size_t pos = npos) const { return rfind_in(*this, {&c, 1}, pos); }
	size_t find_first_of(string_view v, size_t pos = 0) const { return least(pos, n, [&](size_t i) { return has(v, d[i]); }); }
	size_t find_first_not_of(string_view v, size_t pos = 0) const { return least(pos, n, [&](size_t i) { return !has(v, d[i]); }); }
	size_t find_last_of(string_view v, size_t pos = npos) const { return greatest(pos, n, [&](size_t i) { return has(v, d[i]); }); }
	size_t find_last_not_of(string_view v, size_t pos = npos) const { return greatest(pos, n, [&](size_t i) { return !has(v, d[i]); }); }
	bool contains(char c) const { return has(*this, c); }
	bool starts_with(string_view v) const { return n >= v.size() && here(*this, 0, v); }
	bool ends_with(string_view v) const { return n >= v.size() && here(*this, n - v.size(), v); }
	int compare(string_view v) const { return string_view(*this).compare(v); }
	int compare(size_t pos, size_t m, string_view v) const { return string_view(substr(pos, m)).compare(v); }
	friend bool operator==(const model_string &a, const model_string &b) { return a.n == b.n && here(a, 0, b); }
	friend bool operator==(const model_string &a, const char *b) { return string_view(a) == b; }
	friend model_string operator+(const model_string &a, const model_string &b) { model_string r = a; return r.append(string_view(b)); }
	friend model_string operator+(const model_string &a, const char *b) { model_string r = a; return r.append(string_view(b)); }
	friend model_string operator+(const char *a, const model_string &b) { model_string r = a; return r.append(string_view(b)); }
	friend model_string operator+(const model_string &a, char b) { model_string r = a; r.push_back(b); return r; }
	friend model_string operator+(char a, const model_string &b) { model_string r(1, a); return r.append(string_view(b)); }
	void swap(model_string &o) { model_string t = o; o = *this; *this = t; }
};
// a view with the same search equations
struct model_string_view : string_view {
	using string_view::string_view;
	constexpr model_string_view(string_view v) : string_view(v) {}
	model_string_view(const model_string &s) : string_view(s) {}
	size_t find(string_view v, size_t pos = 0) const { return model_string::find_in(*this, v, pos); }
	size_t find(char c, size_t pos = 0) const { return model_string::find_in(*this, {&c, 1}, pos); }
	size_t rfind(string_view v, size_t pos = npos) const { return model_string::rfind_in(*this, v, pos); }
	size_t find_first_of(string_view v, size_t pos = 0) const { return model_string::least(pos, size(), [&](size_t i) { return model_string::has(v, data()[i]); }); }
	size_t find_first_not_of(string_view v, size_t pos = 0) const { return model_string::least(pos, size(), [&](size_t i) { return !model_string::has(v, data()[i]); }); }
	size_t find_first_of(char c, size_t pos = 0) const { return find_first_of(string_view{&c, 1}, pos); }
	size_t find_first_not_of(char c, size_t pos = 0) const { return find_first_not_of(string_view{&c, 1}, pos); }
	size_t find_last_of(string_view v, size_t pos = npos) const { return model_string::greatest(pos, size(), [&](size_t i) { return model_string::has(v, data()[i]); }); }
	size_t find_last_not_of(string_view v, size_t pos = npos) const { return model_string::greatest(pos, size(), [&](size_t i) { return !model_string::has(v, data()[i]); }); }
	model_string_view substr(size_t pos = 0, size_t m = npos) const {
		PROVE(pos <= size()); // throws otherwise
		return {data() + pos, m < size() - pos ? m : size() - pos};
	}
};
template<class T>
struct model_vector {
	static constexpr size_t CAP = VF_TEXT / 2;
	using value_type = T;
	using iterator = T *;
	using const_iterator = const T *;
	T d[CAP];
	size_t n = 0;
	size_t size() const { return n; }
	bool empty() const { return n == 0; }
	void reserve(size_t) {}
	void clear() { n = 0; }
	void push_back(const T &t) { PROVE(n < CAP); d[n++] = t; }
	template<class... A>
	T &emplace_back(A &&...a) { PROVE(n < CAP); return d[n++] = T(std::forward<A>(a)...); }
	void pop_back() { PROVE(n); n--; }
	T &operator[](size_t i) { PROVE(i < n); return d[i]; }
	const T &operator[](size_t i) const { PROVE(i < n); return d[i]; }
	T &back() { PROVE(n); return d[n - 1]; }
	T &front() { PROVE(n); return d[0]; }
	T *begin() { return d; }
	T *end() { return d + n; }
	const T *begin() const { return d; }
	const T *end() const { return d + n; }
};
}
