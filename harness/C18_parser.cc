// VFA: -peel=4
#include "vf.hh"
#include "util/compact_binary_parser.hh"
enum class K16 : uint16_t {A=1};
template<class P, class Key> static void node() {
	size_t n = any<size_t>(); ASSUME(n < (size_t(1)<<40));
	auto *p = (const uint8_t*)__vf_buf(n);
	P parser{std::span<const uint8_t>{p,n}};
	auto s = parser.get_node(any<Key>());
	PROVE(s.size() <= n);
	if (s.size()) { PROVE(size_t(s.data()-p) <= n && s.size() <= n - size_t(s.data()-p));
	   size_t i = any<size_t,1>(); ASSUME(i < s.size()); volatile uint8_t x = s[i]; }
	REACH();
}
struct Node { template<size_t I> static void run() {
	if constexpr (I==0) node<CompactBinaryParser<K16>, K16>();
	if constexpr (I==1) node<CompactBinaryParser<uint8_t,uint8_t>, uint8_t>();
	if constexpr (I==2) node<CompactBinaryParser<uint32_t,uint32_t>, uint32_t>();
	if constexpr (I==3) node<CompactBinaryParser<uint8_t,uint64_t>, uint8_t>();
	if constexpr (I==4) node<CompactBinaryParser<uint8_t,int16_t>, uint8_t>();
	if constexpr (I==5) node<CompactBinaryParser<uint16_t,int64_t>, uint16_t>();
	if constexpr (I==6) node<CompactBinaryParser<uint16_t,int8_t>, uint16_t>();
	if constexpr (I==7) node<CompactBinaryParser<uint8_t,int32_t>, uint8_t>();
}};
CELLS(Node,8);
struct TextNode { template<size_t I> static void run() {
	using P = CompactBinaryParser<const char[4], uint8_t>;
	size_t n = any<size_t>(); ASSUME(n < (size_t(1)<<40));
	auto *p = (const uint8_t*)__vf_buf(n);
	auto *key = (const char*)__vf_buf(4);
	P parser{std::span<const uint8_t>{p,n}};
	const char (&k)[4] = *reinterpret_cast<const char (*)[4]>(key);
	auto s = parser.get_node(k);
	PROVE(s.size() <= n);
	if (s.size()) PROVE(size_t(s.data()-p) <= n && s.size() <= n - size_t(s.data()-p));
	REACH();
}};
CELLS(TextNode,1);
template<class P, class Key, class V> static void get() {
	size_t n = any<size_t>(); ASSUME(n < (size_t(1)<<40));
	auto *p = (const uint8_t*)__vf_buf(n);
	P parser{std::span<const uint8_t>{p,n}};
	auto s = parser.template get<V>(any<Key>());
	opaque<decltype(s),7>() = s;
	REACH();
}
struct Big { uint8_t x[200]; };
struct Get { template<size_t I> static void run() {
	if constexpr (I==0) get<CompactBinaryParser<K16>, K16, uint32_t>();
	if constexpr (I==1) get<CompactBinaryParser<uint8_t,uint8_t>, uint8_t, std::array<uint8_t,5>>();
	if constexpr (I==2) get<CompactBinaryParser<uint8_t,uint64_t>, uint8_t, std::array<uint8_t,5>>();
	if constexpr (I==3) get<CompactBinaryParser<uint8_t,int8_t>, uint8_t, Big>();
	if constexpr (I==4) get<CompactBinaryParser<uint16_t,int16_t>, uint16_t, uint64_t>();
}};
CELLS(Get,5);
