From 9c6b101ea93c5ae1d13c5ce9feec50794d917e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 01/37] fix: CircularBuffer::first() const could not be
 instantiated

---
 util/circular_buffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 45781ae..0500c81 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -45,7 +45,7 @@ public:
 	}
 
 	// Return a reference to the first element
-	T &first() const {
+	const T &first() const {
 		return buf_[tail_];
 	}
 
-- 
2.43.0


From 8b24a48d6ed2bfd264c1b0f7a74ec0459bc3b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 02/37] fix: CircularBufferOpt::fill_buffer filled max_size
 bytes instead of max_size elements

---
 util/circular_buffer.hh     | 1 +
 util/circular_buffer_opt.hh | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/circular_buffer.hh b/util/circular_buffer.hh
index 0500c81..efa762a 100644
--- a/util/circular_buffer.hh
+++ b/util/circular_buffer.hh
@@ -1,6 +1,7 @@
 #pragma once
 #include "util/math.hh"
 #include <array>
+#include <cstring>
 
 template<class T, size_t max_size_>
 class CircularBuffer {
diff --git a/util/circular_buffer_opt.hh b/util/circular_buffer_opt.hh
index 29897e3..0033c0b 100644
--- a/util/circular_buffer_opt.hh
+++ b/util/circular_buffer_opt.hh
@@ -95,11 +95,11 @@ public:
 	}
 
 	void fill_buffer(std::array<T, max_size_> &src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		buf_ = src;
 	}
 
 	void fill_buffer(T val) {
-		memset(buf_.data(), val, max_size_);
+		buf_.fill(val);
 	}
 
 	// Alias for count()
-- 
2.43.0


From 9cec400901e4ba76b7add864d1ec6a2b55aa4641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 03/37] fix: LockFreeFifoSpsc consumer must acquire the head
 index before reading a slot, and release on reset

---
 util/lockfree_fifo_spsc.hh     | 6 +++---
 util/lockfree_fifo_spsc_dyn.hh | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index 2ee6fbc..a74f685 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -66,7 +66,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -80,7 +80,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
@@ -128,7 +128,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
diff --git a/util/lockfree_fifo_spsc_dyn.hh b/util/lockfree_fifo_spsc_dyn.hh
index f68289c..c65acb0 100644
--- a/util/lockfree_fifo_spsc_dyn.hh
+++ b/util/lockfree_fifo_spsc_dyn.hh
@@ -86,7 +86,7 @@ public:
 	std::optional<T> get() {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return std::nullopt;
 		}
 
@@ -100,7 +100,7 @@ public:
 	bool get_move(T &t) {
 		auto tmp_tail = tail_.load(std::memory_order_relaxed);
 
-		if (tmp_tail == head_.load(std::memory_order_relaxed)) {
+		if (tmp_tail == head_.load(std::memory_order_acquire)) {
 			return false;
 		}
 
@@ -148,7 +148,7 @@ public:
 
 	// Reset can be done by consumer or producer
 	void reset() {
-		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+		tail_.store(head_.load(std::memory_order_relaxed), std::memory_order_release);
 	}
 
 	// Maximum number of elements it can hold
-- 
2.43.0


From 7fa3a7218a0e614f271ad8419281652b83b2e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 04/37] fix: LockFreeFifoSpsc(span) copied max_size bytes
 instead of max_size elements

---
 util/lockfree_fifo_spsc.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/lockfree_fifo_spsc.hh b/util/lockfree_fifo_spsc.hh
index a74f685..8b02a06 100644
--- a/util/lockfree_fifo_spsc.hh
+++ b/util/lockfree_fifo_spsc.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include "util/math.hh"
+#include <algorithm>
 #include <array>
 #include <atomic>
 #include <optional>
@@ -17,7 +18,7 @@ public:
 	LockFreeFifoSpsc() = default;
 
 	LockFreeFifoSpsc(std::span<T, max_size_> src) {
-		memcpy(buf_.data(), src.data(), max_size_);
+		std::copy(src.begin(), src.end(), buf_.begin());
 	}
 
 	// Initialize with an offset between get and put
-- 
2.43.0


From 95e232dea01a18d5054883b6250c0c6bad3f63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 05/37] fix: CircularBufferBlock::write copied block.size()
 bytes instead of block.size() elements

---
 util/circular_buffer_block.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/circular_buffer_block.hh b/util/circular_buffer_block.hh
index fb61e29..464c176 100644
--- a/util/circular_buffer_block.hh
+++ b/util/circular_buffer_block.hh
@@ -17,11 +17,11 @@ struct CircularBufferBlock {
 		auto begin = data.begin() + offset;
 
 		if (offset + block.size() <= size()) {
-			std::memcpy(&*begin, block.data(), block.size());
+			std::memcpy(&*begin, block.data(), block.size() * sizeof(T));
 		} else {
 			int space_avail = size() - offset;
-			std::memcpy(&*begin, block.data(), space_avail);
-			std::memcpy(data.data(), block.data() + space_avail, block.size() - space_avail);
+			std::memcpy(&*begin, block.data(), space_avail * sizeof(T));
+			std::memcpy(data.data(), block.data() + space_avail, (block.size() - space_avail) * sizeof(T));
 		}
 	}
 
-- 
2.43.0


From 9e53e6feabd48b3a184ec3c9dd1d6df0bce85605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 06/37] fix: CircularStack(elements...) constructed an empty
 stack

---
 util/circular_stack.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/circular_stack.hh b/util/circular_stack.hh
index ff76d2e..2e8a7c5 100644
--- a/util/circular_stack.hh
+++ b/util/circular_stack.hh
@@ -21,7 +21,9 @@ public:
 
 	template<typename... Ts>
 	CircularStack(const Ts... t)
-		: data{t...} {
+		: data{t...}
+		, top_idx{sizeof...(t) % MaxElements}
+		, full{sizeof...(t) == MaxElements} {
 	}
 
 	void push_back(T el) {
-- 
2.43.0


From 46f2afd1265fbd0b1990e87d7deb78a8c4ff6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 07/37] fix: FixedVector insert/erase indexed one past the
 array when filling or full

---
 util/fixed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/fixed_vector.hh b/util/fixed_vector.hh
index 0379247..f5dca0c 100644
--- a/util/fixed_vector.hh
+++ b/util/fixed_vector.hh
@@ -105,7 +105,7 @@ public:
 			return;
 		}
 
-		std::move_backward(&data[index], &data[back_idx], &data[back_idx + 1]);
+		std::move_backward(begin() + index, begin() + back_idx, begin() + back_idx + 1);
 
 		data[index] = d;
 		back_idx++;
@@ -120,7 +120,7 @@ public:
 			return;
 		}
 
-		std::move(&data[index + 1], &data[back_idx], &data[index]);
+		std::move(begin() + index + 1, begin() + back_idx, begin() + index);
 		back_idx -= 1;
 	}
 
-- 
2.43.0


From 782f670b9330ccf3267d32d4d8f420bd1d4a2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 08/37] fix: SequentialMap::insert did not store the value

---
 util/sequential_map.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index a8bae06..7c133e1 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -49,7 +49,7 @@ public:
 			return {data.end(), false};
 		}
 
-		data[newsize].first = entry.first;
+		data[newsize] = entry;
 		return {data.end() - 1, true};
 	}
 
-- 
2.43.0


From 5e099c5af898f9128975e17c34e4ad7da9f6a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 09/37] fix: SequentialMap const lookup of a missing key
 returned a dangling reference

---
 util/sequential_map.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/sequential_map.hh b/util/sequential_map.hh
index 7c133e1..b54df99 100644
--- a/util/sequential_map.hh
+++ b/util/sequential_map.hh
@@ -17,7 +17,8 @@ public:
 			if (pair.first == key)
 				return pair.second;
 		}
-		return ValT{};
+		static const ValT missing{};
+		return missing;
 	}
 
 	ValT &operator[](const KeyT key) {
-- 
2.43.0


From 434d26eefe87653f6f60ca166584d0ca461c869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 10/37] fix: StaticString<0> wrote past its buffer when copying
 from a string_view

---
 util/static_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/static_string.hh b/util/static_string.hh
index 8b0531f..13d6d6a 100644
--- a/util/static_string.hh
+++ b/util/static_string.hh
@@ -41,9 +41,9 @@ struct StaticString {
 	constexpr void copy(std::string_view s) {
 		size_t i = 0;
 		for (auto c : s) {
-			_data[i++] = c;
 			if (i >= CAPACITY)
 				break;
+			_data[i++] = c;
 		}
 		_data[i] = '\0';
 	}
-- 
2.43.0


From 9491974ad84864e15854eb36f6ac251332b4207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 11/37] fix: ThreadSafePool const operator[] could not be
 instantiated

---
 util/thread_safe_pool.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/thread_safe_pool.hh b/util/thread_safe_pool.hh
index 87b84ac..08b950d 100644
--- a/util/thread_safe_pool.hh
+++ b/util/thread_safe_pool.hh
@@ -62,7 +62,7 @@ public:
 		return data[idx];
 	}
 
-	T &operator[](size_t idx) const {
+	const T &operator[](size_t idx) const {
 		return data[idx];
 	}
 };
-- 
2.43.0


From b53a6dfe4dc8ae453f59c9bd3a966bc2ccaa4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 12/37] fix: AlignedAllocator returned a small block when the
 requested size overflowed

---
 util/aligned_allocator.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/aligned_allocator.hh b/util/aligned_allocator.hh
index b1ebd53..6251f32 100644
--- a/util/aligned_allocator.hh
+++ b/util/aligned_allocator.hh
@@ -16,6 +16,9 @@ public:
 		if (n == 0)
 			return nullptr;
 
+		if (n > (static_cast<std::size_t>(-1) - (Alignment - 1)) / sizeof(T))
+			return nullptr;
+
 		std::size_t size = n * sizeof(T);
 		std::size_t aligned_size = ((size + Alignment - 1) / Alignment) * Alignment;
 
-- 
2.43.0


From 3ce749445568711010bd5b5d623f0444f45374f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 13/37] fix: WearLevel(er)::read took the caller's old data for
 stored data when a cell could not be read

---
 util/wear_level.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index b834b18..9f30a7a 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -43,8 +43,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			storage.read(&data, --c);
-			if (data.validate()) {
+			if (storage.read(&data, --c) && data.validate()) {
 				return true;
 			}
 		}
@@ -98,8 +97,7 @@ public:
 	bool read(data_t &data) {
 		size_t c = cell_;
 		while (c) {
-			Storage::read(data, --c);
-			if (data.validate()) {
+			if (Storage::read(data, --c) && data.validate()) {
 				return true;
 			}
 		}
-- 
2.43.0


From 226141c4b410403a2da307053d528881c6ce4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 14/37] fix: WearLevel ran past the block after a failed erase

---
 util/wear_level.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/wear_level.hh b/util/wear_level.hh
index 9f30a7a..2cb67f0 100644
--- a/util/wear_level.hh
+++ b/util/wear_level.hh
@@ -111,8 +111,10 @@ public:
 			if (cell_ >= Storage::cell_nr_) {
 				if (erased_once)
 					return false;
-				if (!Storage::erase())
+				if (!Storage::erase()) {
+					cell_ = 0;
 					return false;
+				}
 				cell_ = 0;
 				erased_once = true;
 			}
-- 
2.43.0


From 6997e9a201f519469e578fbd8eb91214aafe00e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 15/37] fix: FunctionSized accepted callables that its storage
 cannot align

---
 util/callable.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/callable.hh b/util/callable.hh
index 4723e56..f4f3e00 100644
--- a/util/callable.hh
+++ b/util/callable.hh
@@ -23,7 +23,7 @@ public:
 	FunctionSized() = default;
 
 	template<typename Callable>
-	requires(sizeof(Callable) <= buffer_size && std::is_invocable_v<Callable, Args...>)
+	requires(sizeof(Callable) <= buffer_size && alignof(Callable) <= alignof(uint64_t) && std::is_invocable_v<Callable, Args...>)
 	FunctionSized(Callable callable)
 		: m_callback{invoke<Callable>}
 		, m_destroy{destroy<Callable>} {
-- 
2.43.0


From 553932546fba9147a469c808e54532b408a36689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 16/37] fix: CompactBinaryParser bounds check overflowed for
 64-bit or signed length fields

---
 util/compact_binary_parser.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/compact_binary_parser.hh b/util/compact_binary_parser.hh
index 8abcda3..916deba 100644
--- a/util/compact_binary_parser.hh
+++ b/util/compact_binary_parser.hh
@@ -57,7 +57,7 @@ struct CompactBinaryParser {
 	constexpr std::optional<T> get(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
 		if (sz == sizeof(T)) {
-			if (size_t(offset + sz) <= blob.size()) {
+			if (static_cast<size_t>(sz) <= blob.size() - offset) {
 				auto parsing = blob.subspan(offset);
 				return as<T>(parsing);
 			}
@@ -67,7 +67,7 @@ struct CompactBinaryParser {
 
 	constexpr std::span<const uint8_t> get_node(KeyT key) const {
 		auto [sz, offset] = get_size_and_offset(key);
-		if (size_t(offset + sz) <= blob.size())
+		if (static_cast<size_t>(sz) <= blob.size() - offset)
 			return blob.subspan(offset, sz);
 		else
 			return {};
-- 
2.43.0


From 1a7026f09d7bbb1de897af1c04705922f8e78c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 17/37] fix: int_to_str(_chop) dropped zero digits, mishandled
 powers of ten and INT32_MIN, and overran tiny buffers

---
 util/int_to_str.cc | 64 +++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/util/int_to_str.cc b/util/int_to_str.cc
index 9375605..c550c24 100644
--- a/util/int_to_str.cc
+++ b/util/int_to_str.cc
@@ -19,10 +19,11 @@ constexpr size_t Log10<1>() {
 }
 
 template<unsigned Place>
-char digit(unsigned &value, unsigned avail) {
-	if (value > Place) {
+char digit(unsigned &value, unsigned avail, bool &started) {
+	if (started || value >= Place) {
 		unsigned dig = value / Place;
 		value -= dig * Place;
+		started = true;
 		return avail > Log10<Place>() ? '0' + dig : 0;
 	}
 	return 0;
@@ -40,31 +41,32 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 	}
 
 	unsigned len = 0;
+	unsigned val = value;
 	if (value < 0) {
 		buf[len++] = '-';
-		value = -value;
+		val = 0u - val;
 	}
-	unsigned val = value;
+	bool started = false;
 
-	if (char dig = digit<1000000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100000>(val, buf.size() - len); dig)
+	if (char dig = digit<100000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10000>(val, buf.size() - len); dig)
+	if (char dig = digit<10000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1000>(val, buf.size() - len); dig)
+	if (char dig = digit<1000>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<100>(val, buf.size() - len); dig)
+	if (char dig = digit<100>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<10>(val, buf.size() - len); dig)
+	if (char dig = digit<10>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
-	if (char dig = digit<1>(val, buf.size() - len); dig)
+	if (char dig = digit<1>(val, buf.size() - len, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
@@ -75,10 +77,11 @@ void int_to_str_chop(int32_t value, const std::span<char> buf) {
 namespace
 {
 template<unsigned Place>
-char _digit(unsigned &value) {
-	if (value >= Place) {
+char _digit(unsigned &value, bool &started) {
+	if (started || value >= Place) {
 		unsigned dig = value / Place;
 		value -= dig * Place;
+		started = true;
 		return '0' + dig;
 	}
 	return 0;
@@ -101,43 +104,46 @@ unsigned num_digits(unsigned value) {
 
 bool int_to_str(int32_t value, const std::span<char> buf) {
 	int len = 0;
+	unsigned val = value;
 	if (value < 0) {
 		if (!buf.size())
 			return false;
 		buf[len++] = '-';
-		value = -value;
+		val = 0u - val;
 	}
 	if (value == 0) {
+		if (buf.size() < 2)
+			return false;
 		buf[0] = '0';
 		buf[1] = '\0';
 		return true;
 	}
 
-	auto num_dig = num_digits(value);
+	auto num_dig = num_digits(val);
 	if ((num_dig + len + 1) > buf.size())
 		return false;
 
-	unsigned val = value;
+	bool started = false;
 
-	if (char dig = _digit<1000000000>(val); dig)
+	if (char dig = _digit<1000000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000000>(val); dig)
+	if (char dig = _digit<100000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000000>(val); dig)
+	if (char dig = _digit<10000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000000>(val); dig)
+	if (char dig = _digit<1000000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100000>(val); dig)
+	if (char dig = _digit<100000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10000>(val); dig)
+	if (char dig = _digit<10000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1000>(val); dig)
+	if (char dig = _digit<1000>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<100>(val); dig)
+	if (char dig = _digit<100>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<10>(val); dig)
+	if (char dig = _digit<10>(val, started); dig)
 		buf[len++] = dig;
-	if (char dig = _digit<1>(val); dig)
+	if (char dig = _digit<1>(val, started); dig)
 		buf[len++] = dig;
 
 	buf[len] = '\0';
-- 
2.43.0


From 2f7442d07d9f9b0bedd3bd1a77dd9d901c0c067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 18/37] fix: print read past the end of a string_view and
 negated INT32_MIN

---
 util/print.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/print.hh b/util/print.hh
index e06b0f4..17cce5c 100644
--- a/util/print.hh
+++ b/util/print.hh
@@ -24,7 +24,8 @@ void printone(const unsigned char *str) {
 
 template<putchar_t putc>
 void printone(std::string_view str) {
-	printone<putc>(str.data());
+	for (auto c : str)
+		putc(c);
 }
 
 namespace
@@ -50,7 +51,7 @@ void printone(int32_t val) {
 	unsigned uval;
 	if (val < 0) {
 		putc('-');
-		uval = -val;
+		uval = 0u - static_cast<unsigned>(val);
 	} else
 		uval = val;
 
-- 
2.43.0


From 8256cfea9fe99e0bdccb918f6b8be676effde3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 19/37] fix: is_power_of_2 (and next_power_of_2) judged 64-bit
 values by their low 32 bits

---
 util/math.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index 082f113..cb97c14 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -81,8 +81,9 @@ struct Log2<1> {
 	enum { val = 0 };
 };
 
-constexpr bool is_power_of_2(unsigned int v) {
-	return v && ((v & (v - 1)) == 0);
+template<typename T>
+constexpr bool is_power_of_2(T v) {
+	return v > 0 && ((v & (v - 1)) == 0);
 }
 
 constexpr unsigned int log2_floor(const unsigned int x) {
-- 
2.43.0


From bccd168ca28557ec48173ad6ac97d48a080a4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 20/37] fix: integer interpolate was wrong for negative inputs
 and overflowed for large ones

---
 util/math.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/math.hh b/util/math.hh
index cb97c14..91dc6d2 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -63,7 +63,8 @@ static_assert(interpolate(1.f, 2.f, 0.25f) == interpolate3(1.f, 2.f, 0.25f));
 
 template<uint32_t PhaseMax>
 inline int32_t interpolate(int32_t in1, int32_t in2, int32_t phase) {
-	return ((in2 * phase) + in1 * (PhaseMax - phase)) / PhaseMax;
+	const int64_t sum = int64_t{in2} * phase + int64_t{in1} * (int64_t{PhaseMax} - phase);
+	return static_cast<int32_t>(sum / int64_t{PhaseMax});
 }
 
 template<class T>
-- 
2.43.0


From 7c6e4d768992610c10fedb69ee65db638bb16ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 21/37] fix: hysteresis_gate turned on before the input
 exceeded the turn-on threshold

---
 util/math.hh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/util/math.hh b/util/math.hh
index 91dc6d2..c77e2fe 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -338,11 +338,8 @@ static inline bool is_inf_fastmath(float a) {
 // Returns updated output, which should be passed as old_val the next time the function is called
 static inline constexpr float
 hysteresis_gate(float turn_off_thresh, float turn_on_thresh, float last_output, float new_input) {
-	float feedback_amt = (turn_on_thresh - turn_off_thresh) * 0.5f;
-	float feedback = feedback_amt * last_output;
-	float test_signal = new_input + feedback;
-	float threshold = (turn_on_thresh + turn_off_thresh) * 0.5f;
-	return test_signal > threshold ? 1.f : 0.f;
+	const float threshold = last_output > 0.5f ? turn_off_thresh : turn_on_thresh;
+	return new_input > threshold ? 1.f : 0.f;
 }
 
 // Apply a hysteresis threshold on a gate signal. Assumes 0.0f = off, 1.0f = on
-- 
2.43.0


From 2558c24d183d0c6000fd058923d7adb62d9fb953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 22/37] fix: PollEvent missed a poll that came late across a
 clock overflow

---
 util/poll_event.hh | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/util/poll_event.hh b/util/poll_event.hh
index 6f30ec0..46ab1db 100644
--- a/util/poll_event.hh
+++ b/util/poll_event.hh
@@ -7,16 +7,8 @@ struct PollEvent {
 	}
 
 	void poll(TimeT now, auto action) {
-		bool expired = false;
-
-		// Handle overflow
-		if (now < last_poll) {
-			if (now >= TimeT(last_poll + period)) {
-				expired = true;
-			}
-		} else if ((now - last_poll) >= period) {
-			expired = true;
-		}
+		// Unsigned subtraction handles overflow of the clock
+		const bool expired = static_cast<TimeT>(now - last_poll) >= period;
 
 		if (expired) {
 			last_poll = now;
-- 
2.43.0


From f444517a8a3702550f0f11b5a084899cff7905c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 23/37] fix: RectC::x_intersects missed rectangles that contain
 the other one

---
 util/geometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/geometry.hh b/util/geometry.hh
index 51caf53..9f7aa78 100644
--- a/util/geometry.hh
+++ b/util/geometry.hh
@@ -29,7 +29,7 @@ struct RectC {
 		return (top >= other.top && top <= other.bottom) || (other.top >= top && other.top <= bottom);
 	}
 	constexpr bool x_intersects(const RectC &other) const {
-		return (left >= other.left && left <= other.right) || (right <= other.right && right >= other.left);
+		return (left >= other.left && left <= other.right) || (other.left >= left && other.left <= right);
 	}
 	constexpr bool is_intersecting(const RectC &other) const {
 		return y_intersects(other) && x_intersects(other);
-- 
2.43.0


From 7a7c0539329c150b71c74c806ed26b991ed5e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 24/37] fix: OR() accumulated into an uninitialised value

---
 util/bitfield.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/bitfield.hh b/util/bitfield.hh
index 9545dc9..1a77451 100644
--- a/util/bitfield.hh
+++ b/util/bitfield.hh
@@ -23,7 +23,7 @@ auto constexpr bitfield(const Ts... args) {
 template<typename Enum>
 constexpr std::underlying_type_t<Enum> OR(std::initializer_list<Enum> fields) {
 	using UT = std::underlying_type_t<Enum>;
-	UT val;
+	UT val{};
 	for (auto el : fields) {
 		val |= static_cast<UT>(el);
 	}
-- 
2.43.0


From dff9c8c0a78891ef4f4d149efc75f0fceda0247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 25/37] fix: Partition wrote out of bounds when given more
 initial values than partitions

---
 util/partition.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/partition.hh b/util/partition.hh
index 1ae6808..a781a1b 100644
--- a/util/partition.hh
+++ b/util/partition.hh
@@ -35,6 +35,8 @@ struct Partition {
 		std::array<T, NumPartitions> sums{};
 
 		for (auto i = 0u; auto init_val : initial_vals) {
+			if (i == NumPartitions)
+				break;
 			sums[i++] = init_val;
 		}
 
-- 
2.43.0


From d402724a08dcf82d5a3f44ba978ab0a3dddecb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 26/37] fix: Version read past the end of the text and took
 numbers modulo 2^32

---
 util/version_tools.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/util/version_tools.hh b/util/version_tools.hh
index e1ef236..61f0396 100644
--- a/util/version_tools.hh
+++ b/util/version_tools.hh
@@ -12,9 +12,9 @@ struct Version {
 	uint8_t revision{};
 	bool is_normal{true}; // i.e. not a pre-release
 
-	void set_field(unsigned index, unsigned val) {
+	void set_field(unsigned index, long val) {
 		//sanity check:
-		if (val > 255)
+		if (val < 0 || val > 255)
 			return;
 
 		if (index == 0)
@@ -46,7 +46,11 @@ struct Version {
 				vers = vers.substr(pos + 1);
 			}
 
-			auto num = strtol(token.data(), nullptr, 10);
+			// the token is not null-terminated
+			char digits[16]{};
+			token.copy(digits, sizeof(digits) - 1);
+
+			auto num = strtol(digits, nullptr, 10);
 			set_field(i++, num);
 
 			if (pos == std::string_view::npos) {
-- 
2.43.0


From 345393693bc1c55d09d57cc38f8256f224e941b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 27/37] fix: AudioFrame::scaleOutput saturated to 24 bits
 whatever the width and overflowed for large values

---
 util/audio_frame.hh | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/util/audio_frame.hh b/util/audio_frame.hh
index ad9b394..5fe3ae9 100644
--- a/util/audio_frame.hh
+++ b/util/audio_frame.hh
@@ -32,18 +32,17 @@ public:
 
 	static constexpr SampleType scaleOutput(float val) {
 
-		if constexpr (std::is_signed_v<SampleType>) {
+		// A float has 24 significant bits: with wider samples, full scale would round up and overflow
+		constexpr float kBelowOne = 1.f - 0x1p-24f;
 
-			if constexpr (kSampleTypeBits > UsedBits) {
-				auto v = static_cast<SampleType>(val * kOutScaling);
-				return MathTools::signed_saturate(v, 24);
-			} else {
-				const float v = MathTools::constrain(val, -1.f, (kOutScaling - 1.f) / kOutScaling);
-				return static_cast<SampleType>(v * kOutScaling);
-			}
+		if constexpr (std::is_signed_v<SampleType>) {
+			constexpr float max = UsedBits <= 24 ? (kOutScaling - 1.f) / kOutScaling : kBelowOne;
+			const float v = MathTools::constrain(val, -1.f, max);
+			return static_cast<SampleType>(v * kOutScaling);
 
 		} else {
-			const float v = MathTools::constrain(val * 0.5f + 0.5f, 0.f, 1.0f);
+			constexpr float max = UsedBits <= 24 ? 1.0f : kBelowOne;
+			const float v = MathTools::constrain(val * 0.5f + 0.5f, 0.f, max);
 			return v * (MathTools::ipow(2, UsedBits) - 1);
 		}
 	}
-- 
2.43.0


From cb3dad31b5406c33beed18e6366aefa5927285fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 28/37] fix: RGB565 converted float channels out of range to
 uint16_t before clamping them

---
 util/colors_rgb565.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/colors_rgb565.hh b/util/colors_rgb565.hh
index 51f538a..2b39277 100644
--- a/util/colors_rgb565.hh
+++ b/util/colors_rgb565.hh
@@ -22,9 +22,9 @@ struct RGB565 {
 	}
 
 	constexpr RGB565(float red, float green, float blue)
-		: b(std::clamp<uint16_t>(blue * 32.f, 0, 31))
-		, g(std::clamp<uint16_t>(green * 64.f, 0, 63))
-		, r(std::clamp<uint16_t>(red * 32.f, 0, 31)) {
+		: b(static_cast<uint16_t>(std::clamp(blue * 32.f, 0.f, 31.f)))
+		, g(static_cast<uint16_t>(std::clamp(green * 64.f, 0.f, 63.f)))
+		, r(static_cast<uint16_t>(std::clamp(red * 32.f, 0.f, 31.f))) {
 	}
 
 	constexpr RGB565(uint32_t rgb888)
-- 
2.43.0


From 96b9a7e907c0c238fc5216c3a0f6780f192c810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 29/37] fix: AnalyzedSig and PeakMeter started from the
 smallest positive float instead of the lowest, so the maximum of negative
 signals was wrong

---
 util/analyzed_signal.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/analyzed_signal.hh b/util/analyzed_signal.hh
index 9846cc8..3c5d09d 100644
--- a/util/analyzed_signal.hh
+++ b/util/analyzed_signal.hh
@@ -8,7 +8,7 @@ struct AnalyzedSig {
 	}
 
 	float min = std::numeric_limits<float>::max();
-	float max = std::numeric_limits<float>::min();
+	float max = std::numeric_limits<float>::lowest();
 	float avg = 0.f;
 	float iir = 0.f;
 
@@ -44,7 +44,7 @@ struct PeakMeter {
 	// TODO: attack, decay
 
 	T min = std::numeric_limits<T>::max();
-	T max = std::numeric_limits<T>::min();
+	T max = std::numeric_limits<T>::lowest();
 
 	void update(T newval) {
 		if (newval < min)
@@ -55,6 +55,6 @@ struct PeakMeter {
 
 	void reset() {
 		min = std::numeric_limits<T>::max();
-		max = std::numeric_limits<T>::min();
+		max = std::numeric_limits<T>::lowest();
 	}
 };
-- 
2.43.0


From c1ab69ee0e9cee314bc2c0e70294349755802386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 30/37] fix: interp_wrap and closest_wrap (and sin, cos, tan)
 converted negative phases to unsigned and read out of bounds

---
 util/interp_array.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/util/interp_array.hh b/util/interp_array.hh
index bac2409..536c4df 100644
--- a/util/interp_array.hh
+++ b/util/interp_array.hh
@@ -21,8 +21,15 @@ struct InterpArray {
 		return data[index];
 	}
 
+	// Adds whole turns to a negative index, so that it can be converted to an unsigned int
+	static constexpr PhaseT first_turn(const PhaseT index) {
+		return index + static_cast<PhaseT>(static_cast<unsigned int>(-index / Size) + 1) * Size;
+	}
+
 	// Return an interpolated value where index = 0 and index = Size are the first element
-	constexpr T interp_by_index_wrap(const PhaseT index) const {
+	constexpr T interp_by_index_wrap(PhaseT index) const {
+		if (index < 0)
+			index = first_turn(index);
 		unsigned int idx0 = static_cast<unsigned int>(index);
 		const auto phase = index - static_cast<PhaseT>(idx0);
 		while (idx0 >= Size)
@@ -64,7 +71,10 @@ struct InterpArray {
 	// Todo: this is really "floor" not "closest" (it doesn't round)
 	// phase = 0 and phase = 1, 2, 3.. return first element
 	constexpr T closest_wrap(const PhaseT phase) const {
-		auto idx = static_cast<unsigned int>(phase * Size);
+		PhaseT index = phase * Size;
+		if (index < 0)
+			index = first_turn(index);
+		auto idx = static_cast<unsigned int>(index);
 		while (idx >= Size)
 			idx -= Size;
 		return data[idx];
-- 
2.43.0


From ccfa7af890b97c63fb05e0e36c3898cd75535220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 31/37] fix: LookupTable read out of bounds when asked for NaN

---
 util/lookup_table.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/lookup_table.hh b/util/lookup_table.hh
index d690ebe..5fa2846 100644
--- a/util/lookup_table.hh
+++ b/util/lookup_table.hh
@@ -46,7 +46,7 @@ public:
 	constexpr T lookup(T val) const {
 		T idx = ((val - min) / (max - min)) * (NumPoints - 1);
 
-		if (idx <= 0.f)
+		if (!(idx > 0.f)) // also NaN
 			return points.front();
 		else if (idx >= (NumPoints - 1))
 			return points.back();
-- 
2.43.0


From fddc568395b508f0b1fac4a5bd91e36bd6713f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 32/37] fix: pow2 of a negative number read before the table

---
 util/math.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/math.hh b/util/math.hh
index c77e2fe..fa0fa09 100644
--- a/util/math.hh
+++ b/util/math.hh
@@ -276,6 +276,11 @@ static inline constexpr float audioFreqToNorm(float input) // normalized filter
 static inline constexpr float pow2(float x) {
 	x = x / 5.0f;
 	float res = 1.f;
+	for (; x < 0.f; x += 1.f) {
+		res *= 1.f / 32.f;
+		if (res == 0.f)
+			return 0.f;
+	}
 	for (;;) {
 		if (x < 1.f) {
 			// Note: exp5Table.interp(x) = 2^(x*5), where 0 <= x <= 1
-- 
2.43.0


From 15a71c39980dbf3ac453d13bc38a7cae5aae3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 33/37] fix: TriangleOscillator::set_period_ms divided by zero
 below one second and dropped the milliseconds above

---
 util/oscs.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index 4d70707..a632649 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -55,7 +55,7 @@ struct TriangleOscillator {
 	}
 
 	void set_period_ms(uint32_t period_ms) {
-		increment_ = freq_units / (period_ms / 1000);
+		increment_ = static_cast<uint32_t>(uint64_t{freq_units} * 1000 / period_ms);
 	}
 	void set_period_sec(uint32_t period_sec) {
 		increment_ = freq_units / period_sec;
-- 
2.43.0


From 65361211486dbf7a2570ac7f2479e83e6d1164ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 34/37] fix: DownCounter::set_period_ms converted out-of-range
 floats for periods of zero or shorter than an update

---
 util/oscs.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/oscs.hh b/util/oscs.hh
index a632649..e7db264 100644
--- a/util/oscs.hh
+++ b/util/oscs.hh
@@ -197,7 +197,8 @@ struct DownCounter {
 		increment_ = freq * freq_units;
 	}
 	void set_period_ms(uint32_t ms) {
-		increment_ = (float)freq_units / (ms / 1000.f);
+		const uint64_t steps = ms ? uint64_t{freq_units} * 1000 / ms : max_;
+		increment_ = steps < max_ ? static_cast<uint32_t>(steps) : max_;
 	}
 	void set_phase(uint32_t phase) {
 		phase_ = phase;
-- 
2.43.0


From 95531cc42d04855b9ef79bc9e1182dc63c1deece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:33 +0000
Subject: [PATCH 35/37] fix: contains_word: self-contained header, no negative
 values to tolower

---
 util/contains_word.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/contains_word.hh b/util/contains_word.hh
index 0dc9983..7447a9a 100644
--- a/util/contains_word.hh
+++ b/util/contains_word.hh
@@ -1,12 +1,14 @@
+#pragma once
 #include <algorithm>
+#include <cctype>
 #include <string>
 
 inline bool contains_word(std::string const &name, std::string const &word) {
 	// Case-insensitive:
 	std::string lname = name;
-	std::transform(lname.begin(), lname.end(), lname.begin(), [](char c) { return std::tolower(c); });
+	std::transform(lname.begin(), lname.end(), lname.begin(), [](unsigned char c) { return std::tolower(c); });
 	std::string lword = word;
-	std::transform(lword.begin(), lword.end(), lword.begin(), [](char c) { return std::tolower(c); });
+	std::transform(lword.begin(), lword.end(), lword.begin(), [](unsigned char c) { return std::tolower(c); });
 
 	std::string space_lword = " " + lword;
 	std::string lword_space = lword + " ";
-- 
2.43.0


From d9fd026829653414d6f83eaf46a80dea0824122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 36/37] fix: replace_all continues after the replacement and
 ends on an empty search text

---
 util/string_util.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/string_util.hh b/util/string_util.hh
index 3cdfbce..c041e5e 100644
--- a/util/string_util.hh
+++ b/util/string_util.hh
@@ -1,5 +1,6 @@
 #pragma once
 #include <string>
+#include <string_view>
 #include <vector>
 
 struct ReplaceString {
@@ -10,6 +11,8 @@ struct ReplaceString {
 	}
 
 	ReplaceString &replace_all(const std::string str_find, const std::string str_replace) {
+		if (str_find.empty())
+			return *this;
 		size_t index = 0;
 		while (true) {
 			index = str.find(str_find, index);
@@ -17,7 +20,7 @@ struct ReplaceString {
 				break;
 			}
 			str.replace(index, str_find.length(), str_replace);
-			index += str_find.length();
+			index += str_replace.length();
 		}
 		return *this;
 	}
-- 
2.43.0


From a921249c4f7eec240e30a17145b9c9295ca195f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 37/37] fix: MixedRgbLed flashes last the requested time

---
 util/rgbled.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/rgbled.hh b/util/rgbled.hh
index aa7302a..e400db3 100644
--- a/util/rgbled.hh
+++ b/util/rgbled.hh
@@ -31,8 +31,7 @@ struct MixedRgbLed {
 	void flash_once_ms(Color const &c, float ms) {
 		flash_color_ = c;
 		flasher_.reset();
-		flasher_.set_frequency(1000.f / ms);
-		// flasher_.set_period_ms(ms);
+		flasher_.set_period_ms(static_cast<uint32_t>(ms));
 		do_smooth_fade_ = false;
 	}
 
-- 
2.43.0

