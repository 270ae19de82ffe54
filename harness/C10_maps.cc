// VFA: -peel=4
// The two array maps: every fill level, unknown distinct keys and unknown values, one operation from each state.
#include "containers.hh"
#include "util/seq_map.hh"
#include "util/sequential_map.hh"

using K = uint32_t;
using V = Ptr;

// ---- SeqMap
template<size_t N>
struct Seq {
	using M = SeqMap<K, V, N>;
	static size_t where(const std::array<K, N> &k, size_t n, K key) {
		for (size_t i = 0; i < n; i++)
			if (k[i] == key) return i;
		return N;
	}
	static void same(M &m, const std::array<K, N> &k, const std::array<V, N> &v, size_t n) {
		PROVE(m.size() == n);
		for (size_t i = 0; i < n; i++) {
			V *p = m.get(k[i]);
			PROVE(p && *p == v[i]);
			PROVE(m.key_exists(k[i]));
		}
	}
	template<size_t n, size_t OLD, size_t OP, size_t HIT>
	static void run() {
		if constexpr (HIT > n) return;
		else {
			auto &m = opaque<M>();
			m.sz = n;
			m.oldest = OLD;
			auto k = m.keys;
			auto v = m.vals;
			for (size_t i = 0; i < n; i++)
				for (size_t j = 0; j < i; j++)
					ASSUME(k[i] != k[j]);
			K key = HIT < n ? k[HIT < N ? HIT : 0] : any<K, 1>();
			if constexpr (HIT == n)
				for (size_t i = 0; i < n; i++)
					ASSUME(k[i] != key);
			V x = any<V, 2>();
			same(m, k, v, n);
			if constexpr (OP == 0) { // lookup
				V *p = m.get(key);
				if constexpr (HIT < n) PROVE(p == &m.vals[HIT] && *p == v[HIT]);
				else PROVE(p == nullptr);
				PROVE(m.key_exists(key) == (HIT < n));
				same(m, k, v, n);
			} else if constexpr (OP == 1) { // insert, refused exactly when full
				if constexpr (HIT < n && n < N) return; // duplicate keys are the caller's affair
				bool ok = m.insert(key, x);
				PROVE(ok == (n < N));
				if constexpr (n < N) {
					k[n] = key;
					v[n] = x;
				}
				same(m, k, v, n < N ? n + 1 : n);
				PROVE(m.oldest == OLD);
			} else if constexpr (OP == 2) { // overwrite: replace, append, or evict the oldest
				V *p = m.overwrite(key, x);
				constexpr size_t at = HIT < n ? HIT : n < N ? n : OLD;
				K gone = k[at];
				k[at] = key;
				v[at] = x;
				PROVE(p && *p == x && p == m.get(key));
				same(m, k, v, HIT < n ? n : n < N ? n + 1 : N);
				if constexpr (HIT == n && n == N) {
					PROVE(!m.key_exists(gone) && m.get(gone) == nullptr);
					PROVE(m.oldest == (OLD + 1) % N); // the next eviction takes the next oldest
				} else
					PROVE(m.oldest == OLD);
			} else if constexpr (OP == 3) { // remove
				ASSUME(key != K{});
				bool ok = m.remove(key);
				PROVE(ok == (HIT < n));
				PROVE(!m.key_exists(key) && m.get(key) == nullptr);
				for (size_t i = 0; i < n; i++)
					if (i != HIT && k[i] != K{}) {
						V *p = m.get(k[i]);
						PROVE(p && *p == v[i]);
					}
				PROVE(m.size() == n);
			} else { // remove_last
				m.remove_last();
				constexpr size_t r = n ? n - 1 : 0;
				same(m, k, v, r);
				if constexpr (n > 0) PROVE(!m.key_exists(k[r]));
			}
			REACH();
		}
	}
};
using S4 = Seq<3>;
CELLS(S4, 4, 3, 5, 4);
using S1 = Seq<1>;
CELLS(S1, 2, 1, 5, 2);
#ifdef VF_THOROUGH
using S5 = Seq<5>;
CELLS(S5, 6, 5, 5, 6);
#endif
struct SeqInit {
	template<size_t>
	static void run() {
		auto &m = construct<SeqMap<K, V, 3>>();
		PROVE(m.size() == 0 && m.get(any<K>()) == nullptr && !m.key_exists(any<K>()) && !m.remove(any<K>()));
		PROVE(m.oldest == 0);
		REACH();
	}
};
CELLS(SeqInit, 1);

// ---- SequentialMap
template<size_t N>
struct Sequential {
	using M = SequentialMap<K, V, N>;
	static void same(M &m, const std::array<K, N + 1> &k, const std::array<V, N + 1> &v, size_t n) {
		PROVE(m.size() == n && m.empty() == (n == 0) && m.is_full() == (n == N) && m.max_size() == N);
		const M &c = m;
		PROVE(size_t(m.end() - m.begin()) == n && size_t(c.end() - c.begin()) == n);
		for (size_t i = 0; i < n; i++) {
			PROVE(m.contains(k[i]));
			auto it = m.find(k[i]);
			auto cit = c.find(k[i]);
			PROVE(it == m.begin() + i && it->first == k[i] && it->second == v[i]);
			PROVE(cit == c.begin() + i);
			PROVE(&m[k[i]] == &it->second && &c[k[i]] == &cit->second);
		}
		PROVE(m.size() == n);
	}
	template<size_t n, size_t OP, size_t HIT>
	static void run() {
		if constexpr (HIT > n) return;
		else {
			auto &m = opaque<M>();
			auto &[slots, cnt] = m.data;
			cnt = n;
			std::array<K, N + 1> k{};
			std::array<V, N + 1> v{};
			for (size_t i = 0; i < n; i++) {
				k[i] = slots[i].first;
				v[i] = slots[i].second;
				for (size_t j = 0; j < i; j++)
					ASSUME(k[i] != k[j]);
			}
			K key = HIT < n ? k[HIT] : any<K, 1>();
			if constexpr (HIT == n)
				for (size_t i = 0; i < n; i++)
					ASSUME(k[i] != key);
			V x = any<V, 2>();
			same(m, k, v, n);
			if constexpr (OP == 0) { // lookup
				PROVE(m.contains(key) == (HIT < n));
				const M &c = m;
				if constexpr (HIT == n) {
					PROVE(m.find(key) == m.end() && c.find(key) == c.end());
					PROVE(c[key] == V{});
				}
				same(m, k, v, n);
			} else if constexpr (OP == 1) { // subscript: existing, appended, or the last one reused when full
				V &r = m[key];
				r = x;
				constexpr size_t at = HIT < n ? HIT : n < N ? n : N - 1;
				k[at] = key;
				v[at] = x;
				same(m, k, v, HIT < n ? n : n < N ? n + 1 : N);
			} else if constexpr (OP == 2) { // insert
				auto [it, ok] = m.insert({key, x});
				PROVE(ok == (HIT == n && n < N));
				if constexpr (HIT < n) PROVE(it == m.begin() + HIT);
				else if constexpr (n < N) {
					k[n] = key;
					v[n] = x;
					PROVE(it == m.begin() + n);
				} else
					PROVE(it == m.end());
				same(m, k, v, HIT == n && n < N ? n + 1 : n);
			} else if constexpr (OP == 3) { // erase: the others keep their values
				size_t e = m.erase(key);
				PROVE(e == (HIT < n));
				if constexpr (HIT < n)
					for (size_t i = HIT; i + 1 < n; i++) {
						k[i] = k[i + 1];
						v[i] = v[i + 1];
					}
				PROVE(!m.contains(key));
				same(m, k, v, HIT < n ? n - 1 : n);
			} else {
				m.clear();
				same(m, k, v, 0);
				PROVE(!m.contains(key));
			}
			REACH();
		}
	}
};
using Q3 = Sequential<3>;
CELLS(Q3, 4, 5, 4);
using Q1 = Sequential<1>;
CELLS(Q1, 2, 5, 2);
#ifdef VF_THOROUGH
using Q5 = Sequential<5>;
CELLS(Q5, 6, 5, 6);
#endif
struct SequentialInit {
	template<size_t>
	static void run() {
		auto &m = construct<SequentialMap<K, V, 3>>();
		PROVE(m.size() == 0 && m.empty() && !m.contains(any<K>()) && m.erase(any<K>()) == 0);
		PROVE(m[any<K>()] == V{}); // a fresh map hands out value-initialised entries
		REACH();
	}
};
CELLS(SequentialInit, 1);
