// Partitioning into groups of about equal sums: every element once, largest first to the smallest sum.
// VFA: -peel=6
#include "vf.hh"
#include <algorithm>
#include <array>
#include <functional>
#include "util/partition.hh"

template<size_t N>
static constexpr std::array<unsigned, N> permutation(size_t k) { // the k-th order of N elements
	std::array<unsigned, N> p{};
	bool used[N]{};
	for (size_t i = 0; i < N; i++) {
		size_t f = 1;
		for (size_t j = 2; j < N - i; j++) f *= j;
		size_t r = k / f % (N - i);
		for (size_t j = 0; j < N; j++)
			if (!used[j] && r-- == 0) {
				p[i] = j;
				used[j] = true;
				break;
			}
	}
	return p;
}
static constexpr size_t power(size_t b, size_t e) { return e ? b * power(b, e - 1) : 1; }
template<size_t P, size_t N, size_t INIT>
struct Greedy {
	template<size_t K, size_t CHOICE>
	static void run() {
		constexpr auto order = permutation<N>(K); // largest first
		auto &p = construct<Partition<P, 5>>();
		auto &v = opaque<std::array<unsigned, N>, 1>();
		auto &init = opaque<std::array<const unsigned, P + 1>, 2>();
		for (size_t i = 0; i < N; i++) {
			ASSUME(v[i] >= 1 && v[i] <= 100000);
			if (i > 0) ASSUME(v[order[i - 1]] > v[order[i]]);
		}
		std::array<unsigned, P> sum{};
		for (size_t i = 0; i < P; i++)
			if (i < INIT) {
				ASSUME(init[i] <= 1000000);
				sum[i] = init[i];
			}
		std::array<size_t, P> count{};
		std::array<size_t, N> where{};
		for (size_t i = 0; i < N; i++) { // the choices of this cell
			size_t to = CHOICE / power(P, i) % P;
			if constexpr (INIT == 0) {
				to = i;
				if (i >= P) to = 2 * P - 1 - i;
			} else
				for (size_t k = 0; k < P; k++)
					if (k < to) ASSUME(sum[k] > sum[to]);
					else ASSUME(sum[k] >= sum[to]);
			sum[to] += v[order[i]];
			where[i] = to;
		}
		if constexpr (INIT == 0) p.calc_partitions(v);
		else p.calc_partitions(v, std::span<const unsigned>{init.data(), INIT});
		for (size_t i = 0; i < N; i++) {
			PROVE(p.parts[where[i]].size() > count[where[i]]);
			PROVE(p.parts[where[i]][count[where[i]]] == order[i]);
			count[where[i]]++;
		}
		for (size_t k = 0; k < P; k++) PROVE(p.parts[k].size() == count[k]);
		if constexpr (INIT == 0) { // again, from what is there
			p.calc_partitions(std::span<unsigned>{v.data(), 1});
			PROVE(p.parts[0].size() == 1 && p.parts[0][0] == 0);
			for (size_t k = 1; k < P; k++) PROVE(p.parts[k].size() == 0);
			p.calc_partitions(std::span<unsigned>{});
			for (size_t k = 0; k < P; k++) PROVE(p.parts[k].size() == 0);
		}
		REACH();
	}
};
using Fresh21 = Greedy<2, 1, 0>;
CELLS(Fresh21, 1, 1);
using Fresh23 = Greedy<2, 3, 0>;
CELLS(Fresh23, 6, 1);
using Fresh33 = Greedy<3, 3, 0>;
CELLS(Fresh33, 6, 1);
using Given21 = Greedy<2, 1, 2>;
CELLS(Given21, 1, 2);
using Given22 = Greedy<2, 2, 3>; // more initial values than parts
CELLS(Given22, 2, 4);
using Given23 = Greedy<2, 3, 2>;
CELLS(Given23, 6, 8);
using Given32 = Greedy<3, 2, 3>;
CELLS(Given32, 2, 9);
struct Ties { // equal elements: each once, in either order
	static void run() {
		auto &p = construct<Partition<2, 5>>();
		auto &v = opaque<std::array<unsigned, 2>, 1>();
		ASSUME(v[0] >= 1 && v[0] <= 100000 && v[1] == v[0]);
		p.calc_partitions(v);
		PROVE(p.parts[0].size() == 1 && p.parts[1].size() == 1);
		PROVE(p.parts[0][0] + p.parts[1][0] == 1 && p.parts[0][0] <= 1);
		REACH();
	}
};
CELLS(Ties);
struct Zeros { // elements of no weight leave the sums alone: all go to the same, smallest group
	template<size_t REST>
	static void run() {
		auto &p = construct<Partition<2, 5>>();
		auto &v = opaque<std::array<unsigned, 3>, 1>();
		ASSUME(v[0] == 0 && v[1] == 0 && (REST ? v[2] >= 1 && v[2] <= 100000 : v[2] == 0));
		p.calc_partitions(v);
		PROVE(p.parts[0].size() == (REST ? 1 : 3) && p.parts[1].size() == (REST ? 2 : 0));
		if (REST) PROVE(p.parts[0][0] == 2 && p.parts[1][0] + p.parts[1][1] == 1);
		else PROVE(p.parts[0][0] + p.parts[0][1] + p.parts[0][2] == 3 && p.parts[0][0] != p.parts[0][1]);
		REACH();
	}
};
CELLS(Zeros, 2);
struct TooMany { // only as many as there is room for
	static void run() {
		auto &v = opaque<std::array<unsigned, 3>, 1>();
		ASSUME(v[0] >= 1 && v[0] <= 100000 && v[1] < v[0] && v[1] >= 1 && v[2] <= 100000);
		auto &p = construct<Partition<2, 2>>(std::span<unsigned>{v});
		PROVE(p.parts[0].size() == 1 && p.parts[1].size() == 1);
		PROVE(p.parts[0][0] == 0 && p.parts[1][0] == 1);
		REACH();
	}
};
CELLS(TooMany);
