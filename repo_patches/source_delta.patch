From 41b0272d8636db0fbfdfbf21c64662497ebf697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 01/41] fix: uniform_reservoir picks a replacement index one
 past its array

---
 cxxmetrics/uniform_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index fda6148..1742589 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -110,7 +110,7 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
     // so we don't run out of count
     count_.store(TSize);
 
-    std::uniform_int_distribution<> d(0, TSize);
+    std::uniform_int_distribution<> d(0, TSize - 1);
     elems_[d(gen_)] = value;
 }
 
-- 
2.43.0


From da38afadfbe76862e47ae2e7527a278a529a74f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 02/41] fix: uniform_reservoir copy overruns its array once
 full and its assignment does not compile

---
 cxxmetrics/uniform_reservoir.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index 1742589..a24d466 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -82,17 +82,21 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &other) noexcept :
         gen_(generate_seed()),
-        count_(other.count_.load())
+        count_(0)
 {
-    for (std::size_t i = 0; i < count_; i++)
-        elems_[i] = other.elems_[i];
+    *this = other;
 }
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(const uniform_reservoir &other) noexcept
 {
-    elems_ = other.elems_;
-    count_ = other.count_;
+    if (this == &other)
+        return *this;
+
+    auto count = std::min(other.count_.load(), static_cast<decltype(other.count_.load())>(TSize));
+    for (std::size_t i = 0; i < count; i++)
+        elems_[i] = other.elems_[i];
+    count_ = count;
     return *this;
 }
 
-- 
2.43.0


From 47e5080f4ed3b0620da15db46e0ef9a317222713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 03/41] fix: ringbuf and sliding_window_reservoir assignment
 operators return nothing

---
 cxxmetrics/ringbuf.hpp        | 1 +
 cxxmetrics/sliding_window.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index a954d79..1a18e39 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -216,6 +216,7 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
         data_[i] = *it;
 
     tail_ = i;
+    return *this;
 }
 
 template<typename TElemType, size_t TSize>
diff --git a/cxxmetrics/sliding_window.hpp b/cxxmetrics/sliding_window.hpp
index daf46f1..b10c5e0 100644
--- a/cxxmetrics/sliding_window.hpp
+++ b/cxxmetrics/sliding_window.hpp
@@ -250,6 +250,7 @@ sliding_window_reservoir<TElem, TMaxSize, TClockGet>::operator=(const sliding_wi
     data_ = other.data_;
     clock_ = other.clock_;
     window_ = other.window_;
+    return *this;
 }
 
 template<typename TElem, size_t TMaxSize, typename TClockGet>
-- 
2.43.0


From 424726bab76967df8ee7ac992be11937c53af7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 04/41] fix: a copied ringbuf reports itself empty

---
 cxxmetrics/ringbuf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index 1a18e39..b53fcab 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -195,6 +195,7 @@ ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &e
         data_[i] = *start;
 
     tail_ = i;
+    size_ = i;
 }
 
 
@@ -216,6 +217,7 @@ ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &o
         data_[i] = *it;
 
     tail_ = i;
+    size_ = i;
     return *this;
 }
 
-- 
2.43.0


From 26dd2ed6b466275201f9c3552b79444501348f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 05/41] fix: ringbuf exposes elements whose push has not
 written them yet

---
 cxxmetrics/ringbuf.hpp | 61 +++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/cxxmetrics/ringbuf.hpp b/cxxmetrics/ringbuf.hpp
index b53fcab..105e244 100644
--- a/cxxmetrics/ringbuf.hpp
+++ b/cxxmetrics/ringbuf.hpp
@@ -1,6 +1,7 @@
 #ifndef CXXMETRICS_RINGBUF_HPP
 #define CXXMETRICS_RINGBUF_HPP
 
+#include <array>
 #include <atomic>
 #include <thread>
 
@@ -25,6 +26,9 @@ class ringbuf
 {
     std::array<std::atomic<TElemType>, TSize> data_;
 
+    // whether each element of data_ was written yet
+    std::array<std::atomic<bool>, TSize> written_;
+
     // where the end of the list is.
     std::atomic_uint_fast64_t tail_;
 
@@ -38,6 +42,9 @@ public:
         std::size_t remaining_;
         TElemType current_;
         const ringbuf *buf_;
+
+        // load the element at the offset, skipping those that weren't written yet
+        void load() noexcept;
     public:
         using value_type = TElemType;
 
@@ -135,9 +142,21 @@ ringbuf<TElemType, TSize>::iterator::iterator(const ringbuf *rb, int64_t offset)
         current_{},
         buf_(rb)
 {
-    remaining_ = buf_->size_.load();
-    if (remaining_ && buf_)
-        current_ = buf_->data_[offset_++];
+    remaining_ = TSize;
+    load();
+}
+
+template<typename TElemType, size_t TSize>
+void ringbuf<TElemType, TSize>::iterator::load() noexcept
+{
+    for (; remaining_; ++offset_, --remaining_)
+    {
+        if (!buf_->written_[offset_ % TSize])
+            continue;
+
+        current_ = buf_->data_[offset_ % TSize];
+        return;
+    }
 }
 
 template<typename TElemType, size_t TSize>
@@ -164,8 +183,9 @@ typename ringbuf<TElemType, TSize>::iterator &ringbuf<TElemType, TSize>::iterato
     if (!remaining_)
         return *this;
 
-    current_ = buf_->data_[(offset_++) % TSize];
-    remaining_--;
+    ++offset_;
+    --remaining_;
+    load();
 
     return *this;
 }
@@ -181,18 +201,22 @@ ringbuf<TElemType, TSize>::ringbuf() noexcept :
         tail_(0),
         size_(0)
 {
+    for (auto &written : written_)
+        written = false;
     static_assert(TSize > 1, "The ringbuffer must have a size of at least 2");
 }
 
 template<typename TElemType, size_t TSize>
 template<typename TInputIterator>
 ringbuf<TElemType, TSize>::ringbuf(TInputIterator start, const TInputIterator &end) noexcept :
-        tail_(0),
-        size_(0)
+        ringbuf()
 {
     std::size_t i = 0;
     for (; start != end && i < TSize; ++i, ++start)
+    {
         data_[i] = *start;
+        written_[i] = true;
+    }
 
     tail_ = i;
     size_ = i;
@@ -208,13 +232,21 @@ ringbuf<TElemType, TSize>::ringbuf(const ringbuf &other) noexcept :
 template<typename TElemType, size_t TSize>
 ringbuf<TElemType, TSize> &ringbuf<TElemType, TSize>::operator=(const ringbuf &other) noexcept
 {
+    if (this == &other)
+        return *this;
+
     tail_ = 0;
     size_ = 0;
+    for (auto &written : written_)
+        written = false;
 
     auto it = other.begin();
     std::size_t i = 0;
     for (; it != other.end() && i < TSize; ++i, ++it)
+    {
         data_[i] = *it;
+        written_[i] = true;
+    }
 
     tail_ = i;
     size_ = i;
@@ -243,18 +275,9 @@ void ringbuf<TElemType, TSize>::push(const TElemType &elem) noexcept
     auto writeloc = tail_.fetch_add(1);
     data_[writeloc % TSize] = elem;
 
-    if (++writeloc > TSize)
-        writeloc = TSize;
-
-    auto csize = size_.load(std::memory_order_acquire);
-    while (true)
-    {
-        if (writeloc <= csize || csize >= TSize)
-            return;
-
-        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))
-            return;
-    }
+    // another thread may hold an earlier location that it has not written yet
+    if (!written_[writeloc % TSize].exchange(true))
+        ++size_;
 }
 
 template<typename TElemType, size_t TSize>
-- 
2.43.0


From 656f9af91e885a3d2cca30378f081e53bd4df84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 06/41] fix: uniform_reservoir exposes unwritten elements and
 shares unsynchronised state between threads

---
 cxxmetrics/uniform_reservoir.hpp | 49 +++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/uniform_reservoir.hpp b/cxxmetrics/uniform_reservoir.hpp
index a24d466..a7a741e 100644
--- a/cxxmetrics/uniform_reservoir.hpp
+++ b/cxxmetrics/uniform_reservoir.hpp
@@ -2,9 +2,11 @@
 #define CXXMETRICS_UNIFORM_RESERVOIR_HPP
 
 #include "snapshots.hpp"
+#include <array>
 #include <atomic>
 #include <chrono>
 #include <random>
+#include <vector>
 
 namespace cxxmetrics
 {
@@ -18,10 +20,18 @@ namespace cxxmetrics
 template<typename TElem, std::size_t TSize>
 class uniform_reservoir
 {
-    std::default_random_engine gen_;
-    TElem elems_[TSize];
+    std::atomic_uint_fast64_t gen_;
+    std::array<std::atomic<TElem>, TSize> elems_;
+    // whether each element was written yet
+    std::array<std::atomic<bool>, TSize> written_;
     std::atomic_uint_fast64_t count_;
 
+    void set(std::size_t i, const TElem &value) noexcept
+    {
+        elems_[i] = value;
+        written_[i] = true;
+    }
+
     static unsigned generate_seed() noexcept
     {
         auto full = std::chrono::system_clock::now().time_since_epoch();
@@ -68,7 +78,16 @@ public:
      */
     reservoir_snapshot snapshot() const noexcept
     {
-        return reservoir_snapshot(&elems_[0], std::min(count_.load(), static_cast<decltype(count_.load())>(TSize)));
+        std::vector<TElem> values;
+        auto count = std::min(count_.load(), static_cast<decltype(count_.load())>(TSize));
+        values.reserve(count);
+        for (std::size_t i = 0; i < count; i++)
+        {
+            if (written_[i])
+                values.push_back(elems_[i]);
+        }
+
+        return reservoir_snapshot(values.begin(), values.end(), values.size());
     }
 };
 
@@ -77,12 +96,13 @@ uniform_reservoir<TElem, TSize>::uniform_reservoir() noexcept :
         gen_(generate_seed()),
         count_(0)
 {
+    for (auto &written : written_)
+        written = false;
 }
 
 template<typename TElem, std::size_t TSize>
 uniform_reservoir<TElem, TSize>::uniform_reservoir(const uniform_reservoir &other) noexcept :
-        gen_(generate_seed()),
-        count_(0)
+        uniform_reservoir()
 {
     *this = other;
 }
@@ -94,9 +114,15 @@ uniform_reservoir<TElem, TSize> &uniform_reservoir<TElem, TSize>::operator=(cons
         return *this;
 
     auto count = std::min(other.count_.load(), static_cast<decltype(other.count_.load())>(TSize));
+    std::size_t filled = 0;
     for (std::size_t i = 0; i < count; i++)
-        elems_[i] = other.elems_[i];
-    count_ = count;
+    {
+        if (other.written_[i])
+            set(filled++, other.elems_[i]);
+    }
+    count_ = filled;
+    for (std::size_t i = filled; i < TSize; i++)
+        written_[i] = false;
     return *this;
 }
 
@@ -107,15 +133,18 @@ void uniform_reservoir<TElem, TSize>::update(const TElem &value) noexcept
 
     if (c < TSize)
     {
-        elems_[c] = value;
+        set(c, value);
         return;
     }
 
     // so we don't run out of count
     count_.store(TSize);
 
-    std::uniform_int_distribution<> d(0, TSize - 1);
-    elems_[d(gen_)] = value;
+    // each update seeds its own engine, so that threads don't share the state of one
+    std::default_random_engine gen(static_cast<unsigned>(gen_.fetch_add(1)));
+    gen.discard(2);
+    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
+    set(d(gen), value);
 }
 
 }
-- 
2.43.0


From d2798972e9eeb09254a6023944dc6f8f0f9c60d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 07/41] fix: comparing integral metric values truncates their
 difference

---
 cxxmetrics/metric_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 55271e1..c7dbdfd 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -155,7 +155,7 @@ public:
             return val_ < fv ? -1 : val_ == fv ? 0 : 1;
         }
 
-        return val_ - lv;
+        return val_ < lv ? -1 : val_ == lv ? 0 : 1;
     }
 };
 
-- 
2.43.0


From b603972f6b24eecccc55ce796f2ee5af07f5a3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 08/41] fix: timer::time does not compile before C++17

---
 cxxmetrics/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric.hpp b/cxxmetrics/metric.hpp
index 4fbfa07..4145d46 100644
--- a/cxxmetrics/metric.hpp
+++ b/cxxmetrics/metric.hpp
@@ -5,8 +5,8 @@
 
 #if __cplusplus < 201700L
 namespace std {
-template<typename T>
-using invoke_result = result_of<T>;
+template<typename T, typename... TArgs>
+using invoke_result = result_of<T(TArgs...)>;
 }
 #endif
 
-- 
2.43.0


From 045cdc5aca690c6b8ae427e5585709dd91ecf395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 09/41] fix: timer constructor taking a clock forwards it as a
 reservoir

---
 cxxmetrics/timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/timer.hpp b/cxxmetrics/timer.hpp
index 56573b1..ce5c242 100644
--- a/cxxmetrics/timer.hpp
+++ b/cxxmetrics/timer.hpp
@@ -38,7 +38,7 @@ public:
      */
     timer(TReservoir &&reservoir, TClock &&clock) :
             histogram_(std::forward<TReservoir>(reservoir)),
-            clock_(std::forward<TReservoir>(clock))
+            clock_(std::forward<TClock>(clock))
     { }
 
 
-- 
2.43.0


From 5b79d3f0b96a60a0f53e93c5f4c6034df0e1d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 10/41] fix: ewma assignment forgets whether the source had
 ticked and writes a shared static

---
 cxxmetrics/ewma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 0127f15..6927f56 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -252,10 +252,10 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
 ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval, TValue>::operator=(const ewma &c) noexcept
 {
-    alpha_ = c.alpha_;
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
     last_ = c.last_;
+    ticked_.store(c.ticked_.load());
     return *this;
 }
 
-- 
2.43.0


From 20780a968e1db2a9cc362cc08947945f7f7af217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 11/41] fix: idle ewma drops to zero after one window and rises
 again after two

---
 cxxmetrics/ewma.hpp | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 6927f56..7e6a779 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -173,7 +173,6 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 template<bool TWrite>
 TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
 {
-    int missed_intervals;
     clock_point last;
 
     last = last_;
@@ -211,26 +210,10 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at)
     // if someone else already snagged the pending value, start over
     auto rate = nrate + (alpha_ * (pending - nrate));
 
-    // figure out how many intervals we've missed
-    missed_intervals = ((at - last) / period(TInterval)) - 1;
-    if (missed_intervals > 0)
-    {
-        // we missed some intervals - we'll average in zeros
-        if ((TWindow > TInterval) && (at - last) > period(TWindow))
-        {
-            constexpr auto intervals_per_window = TWindow / TInterval;
-            period::value missed_windows = missed_intervals / intervals_per_window;
-            rate = pow(rate, 1/pow(missed_windows, 2));
-
-            // figure out the missed intervals now
-            missed_intervals -= (missed_windows * intervals_per_window);
-        }
-
-        // this is the fastest way to do this - the alternative is a standard repeated integral
-        // but this is faster
-        for (int i = 0; i < missed_intervals; i++)
-            rate = rate + (alpha_ * -rate);
-    }
+    // if we missed some intervals - we'll average in zeros
+    auto intervals = (at - last) / period(TInterval);
+    if (intervals > 1)
+        rate *= std::pow(1 - alpha_, static_cast<long double>(intervals - 1));
 
     if (std::isnan(rate) || std::isinf(rate))
         rate = TValue{};
-- 
2.43.0


From 2e4950be00e07b4cf9e8fc1a8903c7a8b55d160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 12/41] fix: ewma loses marks that race with a tick, ticks
 itself on const reads and shares its timestamp unsynchronised

---
 cxxmetrics/ewma.hpp | 93 ++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 52 deletions(-)

diff --git a/cxxmetrics/ewma.hpp b/cxxmetrics/ewma.hpp
index 7e6a779..7c48197 100644
--- a/cxxmetrics/ewma.hpp
+++ b/cxxmetrics/ewma.hpp
@@ -80,7 +80,7 @@ private:
 
     TClockGet clk_;
     std::atomic<TValue> rate_;
-    clock_point last_;
+    std::atomic<clock_point> last_;
     std::atomic<TValue> pending_;
     std::atomic<bool> ticked_;
 
@@ -89,6 +89,9 @@ private:
         return 1 - exp((TInterval * -1.0l) / (TWindow * 2.0l));
     }
 
+    // the rate after averaging in the pending value and the zeros of any intervals missed
+    static long double average(long double rate, long double pending, const clock_diff &elapsed) noexcept;
+
     template<bool TWrite = true>
     TValue tick(const clock_point &at) noexcept;
 
@@ -127,7 +130,7 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 ewma<TClockGet, TWindow, TInterval, TValue>::ewma(const ewma &c) noexcept :
     clk_(c.clk_),
     rate_(c.rate_.load()),
-    last_(c.last_),
+    last_(c.last_.load()),
     pending_(c.pending_.load()),
     ticked_(c.ticked_.load())
 {
@@ -138,10 +141,12 @@ template<typename TClockGet, period::value TWindow, period::value TInterval, typ
 template<typename TMark>
 void ewma<TClockGet, TWindow, TInterval, TValue>::mark(TMark amount) noexcept
 {
+    // another thread may move this forward as soon as we read the clock
+    auto last = last_.load();
     auto now = clk_();
 
     // our clock went backwards
-    if (now < last_)
+    if (now < last)
         return;
 
     tick(now);
@@ -170,66 +175,50 @@ TValue ewma<TClockGet, TWindow, TInterval, TValue>::rate() const noexcept
 }
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
-template<bool TWrite>
-TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
+long double ewma<TClockGet, TWindow, TInterval, TValue>::average(long double rate, long double pending, const clock_diff &elapsed) noexcept
 {
-    clock_point last;
+    // apply the pending value to the current rate
+    rate = rate + (alpha_ * (pending - rate));
 
-    last = last_;
+    // the first interval brought the pending value, if we missed any others - we'll average in zeros
+    auto intervals = elapsed / period(TInterval);
+    if (intervals > 1)
+        rate *= std::pow(1 - alpha_, static_cast<long double>(intervals - 1));
+
+    if (std::isnan(rate) || std::isinf(rate))
+        return 0;
 
+    return rate;
+}
+
+template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
+template<bool TWrite>
+TValue ewma<TClockGet, TWindow, TInterval, TValue>::tick(const clock_point &at) noexcept
+{
+    auto last = last_.load();
     auto pending = pending_.load();
     auto nrate = rate_.load();
 
     if (at < last)
         return nrate;
 
-    if (nrate == TValue{} && !ticked_.load())
-    {
-        if ((at - last) < period(TInterval))
-            return pending;
-
-        bool ticked = false;
-        if (ticked_.compare_exchange_weak(ticked, true))
-        {
-            // use constexpr if with 17
-            if (TWrite)
-            {
-                // one thread sets the last timestamp
-                if (!pending_.compare_exchange_weak(pending, 0))
-                    return pending; // someone else ticked from under us
-
-                if (rate_.compare_exchange_weak(nrate, pending))
-                    last_ = at;
-            }
-
-            return pending;
-        }
-    }
+    // nothing was averaged yet
+    bool first = nrate == TValue{} && !ticked_.load();
+    TValue result = first ? pending : static_cast<TValue>(average(nrate, pending, at - last));
 
-    // apply the pending value to our current rate
-    // if someone else already snagged the pending value, start over
-    auto rate = nrate + (alpha_ * (pending - nrate));
-
-    // if we missed some intervals - we'll average in zeros
-    auto intervals = (at - last) / period(TInterval);
-    if (intervals > 1)
-        rate *= std::pow(1 - alpha_, static_cast<long double>(intervals - 1));
+    // only one thread gets to move the time forward, and only that thread folds the pending value into the rate
+    if (!TWrite || (at - last) < period(TInterval) || !last_.compare_exchange_strong(last, at))
+        return result;
 
-    if (std::isnan(rate) || std::isinf(rate))
-        rate = TValue{};
-
-    // make sure that last_ didn't catch up with us
-    if (!TWrite || (at - last) < period(TInterval))
-        return rate;
-
-    if (!pending_.compare_exchange_weak(pending, 0))
-        return rate; // someone else already either ticked or added a pending value
-
-    rate_.store(rate);
-    if (last_ < at)
-        last_ = at;
+    first = !ticked_.exchange(true);
+    pending = pending_.exchange(TValue{});
+    nrate = rate_.load();
+    do
+    {
+        result = first ? static_cast<TValue>(nrate + pending) : static_cast<TValue>(average(nrate, pending, at - last));
+    } while (!rate_.compare_exchange_weak(nrate, result));
 
-    return rate;
+    return result;
 }
 
 template<typename TClockGet, period::value TWindow, period::value TInterval, typename TValue>
@@ -237,7 +226,7 @@ ewma<TClockGet, TWindow, TInterval, TValue> &ewma<TClockGet, TWindow, TInterval,
 {
     rate_.store(c.rate_.load());
     pending_.store(c.pending_.load());
-    last_ = c.last_;
+    last_.store(c.last_.load());
     ticked_.store(c.ticked_.load());
     return *this;
 }
-- 
2.43.0


From 802cda3bd89d8e404757c94e91b6ea8a4d90c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 13/41] fix: meter start time is read and written by several
 threads without synchronisation

---
 cxxmetrics/meter.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cxxmetrics/meter.hpp b/cxxmetrics/meter.hpp
index 3cd3f8a..49250e2 100644
--- a/cxxmetrics/meter.hpp
+++ b/cxxmetrics/meter.hpp
@@ -246,18 +246,18 @@ template<typename TClockGet, period::value TInterval, period::value ...TWindows>
 class _meter_impl : public _meter_impl_base<TClockGet, TInterval, TWindows...>
 {
     using clock_point = typename clock_traits<TClockGet>::clock_point;
-    clock_point start_;
+    std::atomic<clock_point> start_;
     std::atomic_int_fast64_t total_;
 public:
     explicit _meter_impl(const TClockGet &clkget) noexcept :
             _meter_impl_base<TClockGet, TInterval, TWindows...>(clkget),
-            start_{},
+            start_(clock_point{}),
             total_(0)
     { }
 
     _meter_impl(const _meter_impl &c) noexcept :
             _meter_impl_base<TClockGet, TInterval, TWindows...>(c),
-            start_(c.start_),
+            start_(c.start_.load()),
             total_(c.total_.load())
     {
 
@@ -266,7 +266,7 @@ public:
     _meter_impl &operator=(const _meter_impl &c) noexcept
     {
         _meter_impl_base<TClockGet, TInterval, TWindows...>::operator=(c);
-        start_ = c.start_;
+        start_.store(c.start_.load());
         total_.store(c.total_.load());
 
         return *this;
@@ -274,9 +274,10 @@ public:
 
     inline double mean() const noexcept
     {
-        auto since = this->now() - start_;
+        auto start = start_.load();
+        auto since = this->now() - start;
         auto units = (since * 1.0l) / this->interval();
-        if (start_ == clock_point{})
+        if (start == clock_point{})
             units = 1;
         if (!units)
             return (total_ * 1.0l);
@@ -285,9 +286,10 @@ public:
 
     void mark(int64_t by = 1)
     {
-        // this will be imperfect but it should be close enough
-        if (start_ == clock_point{})
-            start_ = this->now();
+        // the first thread to get here sets the start
+        auto unset = clock_point{};
+        if (start_.load() == unset)
+            start_.compare_exchange_strong(unset, this->now());
 
         _meter_impl_base<TClockGet, TInterval, TWindows...>::mark(by);
         total_ += by;
-- 
2.43.0


From 1df57dbac96acb7c42376bbc2f65a22b77e11a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 14/41] fix: sliding window of a clock near zero wraps around
 and drops recent samples

---
 cxxmetrics/sliding_window.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/cxxmetrics/sliding_window.hpp b/cxxmetrics/sliding_window.hpp
index b10c5e0..8936b4f 100644
--- a/cxxmetrics/sliding_window.hpp
+++ b/cxxmetrics/sliding_window.hpp
@@ -152,22 +152,32 @@ private:
     {
         using clock_point = typename internal::clock_traits<TClockGet>::clock_point;
 
-        clock_point min_;
+        clock_point now_;
+        window_type window_;
         typename internal::ringbuf<internal::timed_data<TElem, TClockGet>, TMaxSize>::iterator it_;
         typename internal::ringbuf<internal::timed_data<TElem, TClockGet>, TMaxSize>::iterator end_;
+
+        // skip the elements older than the window. The elements pushed since now was taken are never old, and
+        // subtracting the window from now could wrap around in clocks that can't go below zero
+        void skip() noexcept
+        {
+            while (it_ != end_ && it_->time() < now_ && (now_ - it_->time()) > window_)
+                ++it_;
+        }
     public:
-        transform_and_filter_iterator() : min_{} { }
+        transform_and_filter_iterator() : now_{}, window_{} { }
 
         transform_and_filter_iterator(
-                const clock_point& min,
+                const clock_point& now,
+                const window_type& window,
                 const typename internal::ringbuf<internal::timed_data<TElem, TClockGet>, TMaxSize>::iterator &real,
                 const typename internal::ringbuf<internal::timed_data<TElem, TClockGet>, TMaxSize>::iterator &end) noexcept :
-                min_(min),
+                now_(now),
+                window_(window),
                 it_(real),
                 end_(end)
         {
-            while (it_ != end_ && it_->time() < min_)
-                ++it_;
+            skip();
         }
 
         bool operator==(const transform_and_filter_iterator &other) const noexcept { return it_ == other.it_; }
@@ -180,8 +190,7 @@ private:
                 return *this;
 
             ++it_;
-            while (it_ != end_ && it_->time() < min_)
-                ++it_;
+            skip();
             return *this;
         }
 
@@ -264,14 +273,13 @@ template<typename TElem, size_t TMaxSize, typename TClockGet>
 reservoir_snapshot sliding_window_reservoir<TElem, TMaxSize, TClockGet>::snapshot() const noexcept
 {
     auto now = clock_();
-    auto min = now - window_;
 
     auto start = data_.begin();
     auto end = data_.end();
 
     return reservoir_snapshot(
-            transform_and_filter_iterator(min, start, end),
-            transform_and_filter_iterator(min, end, end),
+            transform_and_filter_iterator(now, window_, start, end),
+            transform_and_filter_iterator(now, window_, end, end),
             TMaxSize);
 }
 
-- 
2.43.0


From b078b8b9d3df96c9b5c71bb79409a4f2dc831dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 15/41] fix: hash of a tag collection depends on the order its
 tags were inserted in

---
 cxxmetrics/tag_collection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/tag_collection.hpp b/cxxmetrics/tag_collection.hpp
index bc5f4ce..5a7bbd1 100644
--- a/cxxmetrics/tag_collection.hpp
+++ b/cxxmetrics/tag_collection.hpp
@@ -69,8 +69,9 @@ struct hash<cxxmetrics::tag_collection>
         std::size_t result = 0;
         std::hash<std::string> h;
         std::hash<cxxmetrics::metric_value> v;
+        // equal collections may iterate in different orders, so the combination has to be commutative
         for (const auto& p : collection)
-            result = (result * 397) ^ (h(p.first) ^ v(p.second));
+            result += (h(p.first) * 397) ^ v(p.second);
 
         return result;
     }
-- 
2.43.0


From 790fd9518449c17265acb59f2b933aa84c0e0438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 16/41] fix: merging histogram snapshots drops and duplicates
 samples

---
 cxxmetrics/snapshots.hpp | 119 ++-------------------------------------
 1 file changed, 4 insertions(+), 115 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 89eca9e..7319c74 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -425,119 +425,6 @@ inline reservoir_snapshot& reservoir_snapshot::operator=(reservoir_snapshot&& ot
 class histogram_snapshot : public reservoir_snapshot
 {
     uint64_t count_;
-
-    template<typename TContainer1, typename TContainer2>
-    class alternating_iterator : public std::iterator<std::forward_iterator_tag, metric_value>
-    {
-        using iterator1 = typename TContainer1::const_iterator;
-        using iterator2 = typename TContainer2::const_iterator;
-
-        const TContainer1& srca_;
-        const TContainer2& srcb_;
-
-        iterator1 a_;
-        iterator2 b_;
-
-        bool ata_;
-
-        metric_value current_;
-        void set_current()
-        {
-            if ((ata_ || b_ == srcb_.end()) && a_ != srca_.end())
-                current_ = metric_value(*a_);
-            else if (b_ != srcb_.end())
-                current_ = metric_value(*b_);
-        }
-    public:
-
-        alternating_iterator(const TContainer1& first, const TContainer2& second, iterator1&& a, iterator2&& b) :
-                srca_(first),
-                srcb_(second),
-                a_(std::forward<iterator1>(a)),
-                b_(std::forward<iterator2>(b)),
-                ata_(false),
-                current_(0)
-        {
-            if (a_ != srca_.end() && b_ != srcb_.end())
-                set_current();
-        }
-        alternating_iterator(const TContainer1& first, const TContainer2& second) :
-                alternating_iterator(first, second, first.begin(), second.begin())
-        { }
-
-        alternating_iterator begin() const
-        {
-            return alternating_iterator(srca_, srcb_);
-        }
-
-        alternating_iterator end()
-        {
-            return alternating_iterator(srca_, srcb_, srca_.end(), srcb_.end());
-        }
-
-        alternating_iterator& operator++()
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            ata_ = !ata_;
-            if (ata_ && a_ != srca_.end())
-            {
-                while (a_ != srca_.end() && *a_ <= current_)
-                    ++a_;
-
-                if (a_ == srca_.end() && b_ != srcb_.end())
-                    ++b_;
-            }
-            else
-            {
-                while (b_ != srcb_.end() && *b_ <= current_)
-                    ++b_;
-
-                if (b_ == srcb_.end() && a_ != srca_.end())
-                    ++a_;
-            }
-
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return *this;
-
-            set_current();
-            return *this;
-        }
-
-        void operator++(int)
-        {
-            this->operator++();
-        }
-
-        const metric_value* operator->() const
-        {
-            return &current_;
-        }
-
-        const metric_value& operator*() const
-        {
-            return current_;
-        }
-
-        bool operator==(const alternating_iterator& other) const
-        {
-            if (a_ == srca_.end() && b_ == srcb_.end())
-                return other.a_ == other.srca_.end() && other.b_ == other.srcb_.end();
-            return a_ == other.a_ && b_ == other.b_;
-        }
-
-        bool operator!=(const alternating_iterator& other) const
-        {
-            return !operator==(other);
-        }
-    };
-
-    template<typename TContainer1, typename TContainer2>
-    static constexpr alternating_iterator<TContainer1, TContainer2> make_alternating_iterator(const TContainer1& a, const TContainer2& b)
-    {
-        return alternating_iterator<TContainer1, TContainer2>(a, b);
-    }
 public:
     histogram_snapshot(reservoir_snapshot&& q, uint64_t count) :
             reservoir_snapshot(std::move(q)),
@@ -558,8 +445,10 @@ public:
 
     void merge(const histogram_snapshot& other)
     {
-        auto b = make_alternating_iterator(values_, other.values_);
-        reservoir_snapshot::operator=(reservoir_snapshot(b, b.end(), std::max(count_, other.count_)));
+        values_.reserve(values_.size() + other.values_.size());
+        for (const auto& value : other.values_)
+            values_.emplace_back(value);
+        std::sort(values_.begin(), values_.end());
         count_ += other.count_;
     }
 
-- 
2.43.0


From d351b84e5c98fc1ea18fe96c0e3cb158ecfdafb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 17/41] fix: inequality of value snapshots returns their
 equality

---
 cxxmetrics/snapshots.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 7319c74..efffda6 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -67,12 +67,12 @@ inline bool value_snapshot::operator==(const metric_value &value) const noexcept
 
 inline bool value_snapshot::operator!=(const value_snapshot &other) const noexcept
 {
-    return value_ == other.value_;
+    return value_ != other.value_;
 }
 
 inline bool value_snapshot::operator!=(const metric_value &value) const noexcept
 {
-    return value_ == value;
+    return value_ != value;
 }
 
 class cumulative_value_snapshot : public value_snapshot
-- 
2.43.0


From b4d2c96c5e726c034eb0e9d459296f686f612f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 18/41] fix: timer publish options lose their scale, their
 rates setting on assignment, and do not compile with quantiles

---
 cxxmetrics/publisher.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/publisher.hpp b/cxxmetrics/publisher.hpp
index 0cc6918..f7de02e 100644
--- a/cxxmetrics/publisher.hpp
+++ b/cxxmetrics/publisher.hpp
@@ -275,24 +275,28 @@ class timer_publish_options : public histogram_publish_options, public meter_pub
     bool rates_;
 public:
     timer_publish_options(timer_publish_options&& other) noexcept :
+            value_publish_options(other),
             histogram_publish_options(std::move(other)),
             meter_publish_options(std::move(other)),
             rates_(other.rates_)
     { }
 
     timer_publish_options(bool rates = true, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
 
     timer_publish_options(bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) noexcept :
+            value_publish_options(sf),
             histogram_publish_options(publish_count, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
@@ -300,7 +304,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count = true, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(sf),
             rates_(rates)
     { }
@@ -308,7 +313,8 @@ public:
 
     template<typename TQuantileOptions, typename = typename std::enable_if<std::is_base_of<basic_quantile_options, TQuantileOptions>::value, void>::type>
     timer_publish_options(TQuantileOptions&& quantile_options, bool rates, bool publish_count, bool publish_mean, const scale_factor& sf = scale_factor()) :
-            histogram_publish_options(quantile_options, publish_count, sf),
+            value_publish_options(sf),
+            histogram_publish_options(std::forward<TQuantileOptions>(quantile_options), publish_count, false, sf),
             meter_publish_options(publish_mean, sf),
             rates_(rates)
     { }
@@ -317,6 +323,7 @@ public:
     {
         histogram_publish_options::operator=(std::move(other));
         meter_publish_options::operator=(std::move(other));
+        rates_ = other.rates_;
         return *this;
     }
 
-- 
2.43.0


From f31b78274320202d4ecd5c7a39712d5f21e65356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 19/41] fix: gauges ignore their aggregation and share one
 metric type across aggregations and pointers

---
 cxxmetrics/gauge.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index 2e4f767..f2bfc5a 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -146,7 +146,7 @@ typename functional_gauge<TFn, TAggregation>::gauge_type functional_gauge<TFn, T
 }
 
 template<typename TRefType, gauge_aggregation_type TAggregation = aggregation_average>
-class referential_gauge : public gauge<TRefType>
+class referential_gauge : public gauge<TRefType, TAggregation>
 {
     std::reference_wrapper<TRefType> value_;
 public:
@@ -212,7 +212,7 @@ TRefType referential_gauge<TRefType, TAggregation>::get() const noexcept
  * \tparam TGaugeType The type of data for the gauge
  */
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation = gauges::aggregation_average>
-class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType>>
+class gauge : public gauges::primitive_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType, TAggregation>>
 {
 public:
     explicit gauge(const TGaugeType& value = TGaugeType()) noexcept :
@@ -225,7 +225,7 @@ public:
 
     gauge& operator=(const TGaugeType& value) noexcept
     {
-        gauges::primitive_gauge<TGaugeType>::operator=(value);
+        gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);
         return *this;
     }
     gauge& operator=(const gauge& other) = default;
@@ -233,14 +233,14 @@ public:
 };
 
 template<typename T, gauges::gauge_aggregation_type TAggregation>
-class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>>, public metric<gauge<std::function<T()>>>
+class gauge<std::function<T()>, TAggregation> : public gauges::functional_gauge<std::function<T()>, TAggregation>, public metric<gauge<std::function<T()>, TAggregation>>
 {
 public:
     explicit gauge(const std::function<T()> &fn) :
-            gauges::functional_gauge<std::function<T()>>(fn)
+            gauges::functional_gauge<std::function<T()>, TAggregation>(fn)
     { }
     explicit gauge(std::function<T()> &&fn) noexcept :
-            gauges::functional_gauge<std::function<T()>>(std::move(fn))
+            gauges::functional_gauge<std::function<T()>, TAggregation>(std::move(fn))
     { }
     gauge(const gauge& copy) = default;
     gauge(gauge&& mv) = default;
@@ -251,11 +251,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType*, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType*, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType* ptr) noexcept :
-            gauges::referential_gauge<TGaugeType>(*ptr)
+            gauges::referential_gauge<TGaugeType, TAggregation>(*ptr)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
@@ -264,11 +264,11 @@ public:
 };
 
 template<typename TGaugeType, gauges::gauge_aggregation_type TAggregation>
-class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType>, public metric<gauge<TGaugeType &>>
+class gauge<TGaugeType &, TAggregation> : public gauges::referential_gauge<TGaugeType, TAggregation>, public metric<gauge<TGaugeType &, TAggregation>>
 {
 public:
     inline explicit gauge(TGaugeType& ref) noexcept :
-            gauges::referential_gauge<TGaugeType>(ref)
+            gauges::referential_gauge<TGaugeType, TAggregation>(ref)
     { }
     gauge(const gauge& copy) = default;
     ~gauge() = default;
-- 
2.43.0


From 0e08ac5b52e141c85d7fb40278dde19c673edba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 20/41] fix: atomic_lifo::pop reads a node without
 synchronising with the push that wrote it

---
 cxxmetrics/internal/atomic_lifo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index bf31d2c..1340f2c 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -289,13 +289,13 @@ namespace cxxmetrics {
 
             pointer_type pop()
             {
-                auto h = head_.load(std::memory_order_relaxed);
+                auto h = head_.load(std::memory_order_acquire);
                 head_t next;
                 while (h.nodev)
                 {
                     next.aba = h.aba + 1;
                     next.nodev = list_node_traits<node>::next_of(*h.nodev);
-                    if (head_.compare_exchange_weak(h, next, std::memory_order_release, std::memory_order_relaxed)) {
+                    if (head_.compare_exchange_weak(h, next, std::memory_order_acquire, std::memory_order_acquire)) {
                         break;
                     }
                 }
-- 
2.43.0


From 935f11ff9f0bdc3e9d0fae82df740d89763f5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 21/41] fix: atomic_lifo leaks a node whose construction throws
 and frees leftovers with another allocator

---
 cxxmetrics/internal/atomic_lifo.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/internal/atomic_lifo.hpp b/cxxmetrics/internal/atomic_lifo.hpp
index 1340f2c..b831fad 100644
--- a/cxxmetrics/internal/atomic_lifo.hpp
+++ b/cxxmetrics/internal/atomic_lifo.hpp
@@ -235,7 +235,7 @@ namespace cxxmetrics {
 
             virtual ~atomic_lifo()
             {
-                deallocator a;
+                deallocator a(alloc_);
                 auto oh = head_.exchange(head_t()).nodev;
                 while (oh)
                 {
@@ -276,7 +276,15 @@ namespace cxxmetrics {
             pointer_type make_pointer(Args&&... args)
             {
                 auto n = std::allocator_traits<allocator_type>::allocate(alloc_, 1);
-                std::allocator_traits<allocator_type>::construct(alloc_, n, std::forward<Args>(args)...);
+                try
+                {
+                    std::allocator_traits<allocator_type>::construct(alloc_, n, std::forward<Args>(args)...);
+                }
+                catch (...)
+                {
+                    std::allocator_traits<allocator_type>::deallocate(alloc_, n, 1);
+                    throw;
+                }
 
                 return pointer_type(n, alloc_);
             }
-- 
2.43.0


From dae58a33c9e3c967429f5c481e25ccec7124653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 22/41] fix: setting a gauge races with reading it

---
 cxxmetrics/gauge.hpp | 64 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/cxxmetrics/gauge.hpp b/cxxmetrics/gauge.hpp
index f2bfc5a..db67a68 100644
--- a/cxxmetrics/gauge.hpp
+++ b/cxxmetrics/gauge.hpp
@@ -2,6 +2,9 @@
 #define CXXMETRICS_GAUGE_HPP
 
 #include "metric.hpp"
+#include <atomic>
+#include <functional>
+#include <mutex>
 #include <type_traits>
 
 namespace cxxmetrics
@@ -35,15 +38,62 @@ public:
     }
 };
 
+/**
+ * \brief the value of a gauge that's set and published by different threads
+ */
+template<typename T, bool = std::is_trivially_copyable<T>::value && sizeof(T) <= sizeof(void*) && !(sizeof(T) & (sizeof(T) - 1))>
+class gauge_value
+{
+    std::atomic<T> value_;
+public:
+    gauge_value(T value) noexcept : value_(value) { }
+    gauge_value(const gauge_value& other) noexcept : value_(other.load()) { }
+    gauge_value& operator=(const gauge_value& other) noexcept
+    {
+        store(other.load());
+        return *this;
+    }
+
+    T load() const noexcept { return value_.load(std::memory_order_acquire); }
+    void store(T value) noexcept { value_.store(value, std::memory_order_release); }
+};
+
+template<typename T>
+class gauge_value<T, false>
+{
+    mutable std::mutex lock_;
+    T value_;
+public:
+    gauge_value(const T& value) : value_(value) { }
+    gauge_value(const gauge_value& other) : value_(other.load()) { }
+    gauge_value& operator=(const gauge_value& other)
+    {
+        store(other.load());
+        return *this;
+    }
+
+    T load() const
+    {
+        std::lock_guard<std::mutex> lock(lock_);
+        return value_;
+    }
+
+    void store(T value)
+    {
+        std::lock_guard<std::mutex> lock(lock_);
+        value_ = std::move(value);
+    }
+};
+
 template<typename TGaugeType, gauge_aggregation_type TAggregation = aggregation_average>
 class primitive_gauge : gauge<TGaugeType, TAggregation>
 {
-    TGaugeType value_;
+    gauge_value<TGaugeType> value_;
 public:
     primitive_gauge(const TGaugeType& initial_value = TGaugeType()) noexcept;
     primitive_gauge(const primitive_gauge& copy) = default;
     primitive_gauge(primitive_gauge&& mv) :
-            value_(std::forward<TGaugeType>(mv.value_))
+            value_(mv.value_)
     { }
     ~primitive_gauge() = default;
 
@@ -51,7 +101,7 @@ public:
     primitive_gauge& operator=(const primitive_gauge& other) = default;
 
     primitive_gauge& operator=(primitive_gauge&& other) {
-        value_ = std::move(other.value_);
+        value_ = other.value_;
         return *this;
     }
 
@@ -71,26 +121,26 @@ primitive_gauge<TGaugeType, TAggregation>::primitive_gauge(const TGaugeType& ini
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 primitive_gauge<TGaugeType, TAggregation> &primitive_gauge<TGaugeType, TAggregation>::operator=(const TGaugeType& value) noexcept
 {
-    value_ = value;
+    value_.store(value);
     return *this;
 }
 
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 void primitive_gauge<TGaugeType, TAggregation>::set(TGaugeType value) noexcept
 {
-    value_ = value;
+    value_.store(std::move(value));
 }
 
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 TGaugeType primitive_gauge<TGaugeType, TAggregation>::get() noexcept
 {
-    return value_;
+    return value_.load();
 }
 
 template<typename TGaugeType, gauge_aggregation_type TAggregation>
 TGaugeType primitive_gauge<TGaugeType, TAggregation>::get() const noexcept
 {
-    return value_;
+    return value_.load();
 }
 
 template<typename TFn>
-- 
2.43.0


From 9943c6014b4bd307ebc65482ae351cd2caafb8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 23/41] fix: converting string metric values writes a static
 from every thread

---
 cxxmetrics/metric_value.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index c7dbdfd..bf6c69f 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -271,7 +271,7 @@ public:
 
     long long to_integral(bool* valid) const override
     {
-        static bool ign;
+        bool ign;
         if (valid == nullptr)
             valid = &ign;
         if (!val_.length())
@@ -306,7 +306,7 @@ public:
 
     long double to_float(bool *valid) const override
     {
-        static bool ign;
+        bool ign;
         if (valid == nullptr)
             valid = &ign;
         if (!val_.length())
-- 
2.43.0


From cfc55ad72abeb1549223f684372057a58f58b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 24/41] fix: prometheus label values, label names and help text
 are not escaped

---
 cxxmetrics_prometheus/prometheus_timer.hpp |  2 +-
 cxxmetrics_prometheus/snapshot_writer.hpp  | 36 +++++++++++++++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics_prometheus/prometheus_timer.hpp b/cxxmetrics_prometheus/prometheus_timer.hpp
index b5ae3ac..9d18051 100644
--- a/cxxmetrics_prometheus/prometheus_timer.hpp
+++ b/cxxmetrics_prometheus/prometheus_timer.hpp
@@ -11,7 +11,7 @@ class snapshot_writer<cxxmetrics::timer_snapshot>
 {
     void write_header() const
     {
-        stream << "# HELP " << internal::name(path) << " " << path.join("/") << " in microseconds\n";
+        stream << "# HELP " << internal::name(path) << " " << internal::format_help(path.join("/")) << " in microseconds\n";
         stream << "# TYPE " << internal::name(path) << " summary\n";
     }
 
diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index 6708ff6..e25347c 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -24,7 +24,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
     for (std::size_t i = 0; i < element.size(); i++)
     {
         char c = element[i];
-        if (!isalnum(c))
+        if (!std::isalnum(static_cast<unsigned char>(c)))
             into << '_';
         else
             into << c;
@@ -36,7 +36,7 @@ inline std::ostream& format_name_element(std::ostream&into, const std::string& e
 inline std::ostream& format_name(std::ostream& into, const cxxmetrics::metric_path& path)
 {
     auto elem = path.begin();
-    if (std::isdigit((*elem)[0]))
+    if (std::isdigit(static_cast<unsigned char>((*elem)[0])))
         into << '_';
 
     format_name_element(into, *elem);
@@ -49,12 +49,40 @@ inline std::ostream& format_name(std::ostream& into, const cxxmetrics::metric_pa
     return into;
 }
 
+inline std::ostream& format_tag_name(std::ostream& into, const std::string& name)
+{
+    if (name.empty() || std::isdigit(static_cast<unsigned char>(name[0])))
+        into << '_';
+
+    return format_name_element(into, name);
+}
+
+inline std::string format_help(const std::string& text)
+{
+    std::string result;
+    for (auto c : text)
+    {
+        if (c == '\\')
+            result += "\\\\";
+        else if (c == '\n')
+            result += "\\n";
+        else
+            result += c;
+    }
+
+    return result;
+}
+
 inline std::ostream& format_tag_value(std::ostream& into, const std::string& value)
 {
     for (auto c : value)
     {
         if (c == '"')
             into << "\\\"";
+        else if (c == '\\')
+            into << "\\\\";
+        else if (c == '\n')
+            into << "\\n";
         else
             into << c;
     }
@@ -68,13 +96,13 @@ inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_colle
     if (tag == tags.end())
         return into;
 
-    format_name_element(into, tag->first);
+    format_tag_name(into, tag->first);
     into << "=\"";
     format_tag_value(into, tag->second) << "\"";
     for (++tag; tag != tags.end(); ++tag)
     {
         into << ",";
-        format_name_element(into, tag->first) << "=\"";
+        format_tag_name(into, tag->first) << "=\"";
         format_tag_value(into, tag->second) << "\"";
     }
 
-- 
2.43.0


From 98a64e81b07b34f23ed44e78759e525dc4915e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 25/41] fix: histogram snapshots can hold more samples than
 their count

---
 cxxmetrics/histogram.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/histogram.hpp b/cxxmetrics/histogram.hpp
index 6290180..0dcf614 100644
--- a/cxxmetrics/histogram.hpp
+++ b/cxxmetrics/histogram.hpp
@@ -61,8 +61,9 @@ public:
      */
     histogram_snapshot snapshot() const noexcept
     {
-        auto c = count_.value();
-        return histogram_snapshot(reservoir_.snapshot(), c);
+        // updates count before they add their value, so a count read last covers all of the values
+        auto values = reservoir_.snapshot();
+        return histogram_snapshot(std::move(values), count_.value());
     }
 };
 
-- 
2.43.0


From e56ef5f13823e29113d6eb7aabf98ca90c4d5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 26/41] fix: registering a pointer or reference gauge binds a
 reference to null

---
 cxxmetrics/metrics_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index 259ecf2..e6ce0bd 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -701,7 +701,7 @@ template<typename TRepository>
 template<typename TMetricType>
 registered_metric<TMetricType>& metrics_registry<TRepository>::get(const metric_path& path)
 {
-    static const std::string mtype = internal::metric_default_value<TMetricType>().metric_type();
+    static const std::string mtype = TMetricType::type_name();
     auto& l = repo_.get_or_add(path, [tn = mtype]() { return std::make_unique<registered_metric<TMetricType>>(tn); });
 
     if (l.type() != mtype)
-- 
2.43.0


From b588111b8d8b842f91631f30f91e4b40e144eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 27/41] fix: running out of memory while reading a metric's
 type terminates the process

---
 cxxmetrics/metric.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cxxmetrics/metric.hpp b/cxxmetrics/metric.hpp
index 4145d46..9af0aef 100644
--- a/cxxmetrics/metric.hpp
+++ b/cxxmetrics/metric.hpp
@@ -18,7 +18,7 @@ namespace internal
 class metric
 {
 public:
-    virtual std::string metric_type() const noexcept = 0;
+    virtual std::string metric_type() const = 0;
     virtual ~metric() = default;
 };
 
@@ -66,11 +66,11 @@ public:
      *
      * \return the metric type that the metric implements - taken from TMetricType
      */
-    std::string metric_type() const noexcept override;
+    std::string metric_type() const override;
 };
 
 template<typename TMetricType>
-std::string metric<TMetricType>::metric_type() const noexcept
+std::string metric<TMetricType>::metric_type() const
 {
     return typeid(TMetricType).name();
 }
-- 
2.43.0


From 8af08a923d7d1d6061394afc5387f60e5fa8748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:26 +0000
Subject: [PATCH 28/41] fix: durations of clocks coarser than nanoseconds were
 averaged and interpolated as nanoseconds

---
 cxxmetrics/snapshots.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index efffda6..9dd08c6 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -227,6 +227,19 @@ public:
  */
 class reservoir_snapshot
 {
+    template<typename TElem>
+    static const TElem& as_value(const TElem& elem) noexcept
+    {
+        return elem;
+    }
+
+    // quantiles and means mix durations with plain numbers, which are always read back as nanoseconds
+    template<typename TRep, typename TPeriod>
+    static std::chrono::nanoseconds as_value(const std::chrono::duration<TRep, TPeriod>& elem) noexcept
+    {
+        return std::chrono::duration_cast<std::chrono::nanoseconds>(elem);
+    }
+
 protected:
     std::vector<metric_value> values_;
 public:
@@ -395,7 +408,7 @@ reservoir_snapshot::reservoir_snapshot(TInputIterator begin, const TInputIterato
 
     std::size_t at = 0;
     for (; begin != end && at < size; ++begin, ++at)
-        values_.emplace_back(*begin);
+        values_.emplace_back(as_value(*begin));
 
     std::sort(values_.begin(), values_.end());
 }
@@ -407,7 +420,7 @@ reservoir_snapshot::reservoir_snapshot(const TElem *a, std::size_t count) noexce
 
     std::size_t at = 0;
     for (; at < count; ++at)
-        values_.emplace_back(a[at]);
+        values_.emplace_back(as_value(a[at]));
 
     std::sort(values_.begin(), values_.end());
 }
-- 
2.43.0


From bbb5ca0ad5216ebd16c932d089474274b28a01d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 29/41] fix: meter windows of less than a whole larger unit
 were published under the same label

---
 cxxmetrics_prometheus/snapshot_writer.hpp | 42 +++++++++--------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/cxxmetrics_prometheus/snapshot_writer.hpp b/cxxmetrics_prometheus/snapshot_writer.hpp
index e25347c..7d5e12b 100644
--- a/cxxmetrics_prometheus/snapshot_writer.hpp
+++ b/cxxmetrics_prometheus/snapshot_writer.hpp
@@ -109,35 +109,27 @@ inline std::ostream& format_tags(std::ostream& into, const cxxmetrics::tag_colle
     return into;
 }
 
+// writes the time in the given unit, unless that would cut something off and make different windows look the same
+template<typename TUnit, typename TRep, typename TPer>
+bool format_window_in(std::ostream& into, const std::chrono::duration<TRep, TPer>& time, const char* unit)
+{
+    auto count = std::chrono::duration_cast<TUnit>(time);
+    if (count < TUnit(1) || count != time)
+        return false;
+
+    into << count.count() << unit;
+    return true;
+}
+
 template<typename TRep, typename TPer>
 std::ostream& format_window(std::ostream& into, const std::chrono::duration<TRep, TPer>& time)
 {
-    using namespace std::chrono_literals;
-    if (time >= 1h)
-    {
-        into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
-        return into;
-    }
-    if (time >= 1min)
-    {
-        into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
-        return into;
-    }
-    if (time >= 1s)
-    {
-        into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
-        return into;
-    }
-    if (time >= 1ms)
-    {
-        into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
+    if (format_window_in<std::chrono::hours>(into, time, "hr") ||
+            format_window_in<std::chrono::minutes>(into, time, "min") ||
+            format_window_in<std::chrono::seconds>(into, time, "sec") ||
+            format_window_in<std::chrono::milliseconds>(into, time, "msec") ||
+            format_window_in<std::chrono::microseconds>(into, time, "usec"))
         return into;
-    }
-    if (time >= 1us)
-    {
-        into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
-        return into;
-    }
 
     into << std::chrono::duration_cast<std::chrono::nanoseconds>(time).count() << "nsec";
     return into;
-- 
2.43.0


From 6ac8a57a21f20017bc97187a7eb41827dcc31295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:08 +0000
Subject: [PATCH 30/41] fix: a negative NaN was published as -nan, which is not
 a number in the Prometheus format

---
 cxxmetrics/metric_value.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index bf6c69f..fec4621 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -171,6 +171,9 @@ public:
 
     virtual std::string to_string() const override
     {
+        // a NaN's sign means nothing, and formats like Prometheus' know none
+        if (std::isnan(val_))
+            return "nan";
         return std::to_string(val_);
     }
 
-- 
2.43.0


From 6545d8fff9e621ad758f1294ef9f40a479c96267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 31/41] fix: sampling a snapshot of one value divided by zero
 and delivered it at an infinite quantile

---
 cxxmetrics/snapshots.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 9dd08c6..339c15d 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -316,6 +316,14 @@ public:
     template <typename Handler>
     void sample(std::size_t max_to_visit, Handler hnd) const
     {
+        if (values_.size() < 2)
+        {
+            // there are no values to interpolate between, and a lone value is the median
+            if (max_to_visit > 0 && !values_.empty())
+                hnd(values_[0], 50.0L);
+            return;
+        }
+
         long double q_proportion = 1.0L / std::min(
             static_cast<long double>(max_to_visit + 1),
             static_cast<long double>(values_.size() - 1));
-- 
2.43.0


From bef84515f8096a387ab7ec1703366a2dfa744e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 32/41] fix: a pool could hand out storage in use when its free
 list changed under an allocation

---
 cxxmetrics/pool.hpp | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/cxxmetrics/pool.hpp b/cxxmetrics/pool.hpp
index 4c936e0..0151731 100644
--- a/cxxmetrics/pool.hpp
+++ b/cxxmetrics/pool.hpp
@@ -229,6 +229,22 @@ class pool
 #endif
     }
 
+    // put a whole list of unused data back into the pool
+    void recycle(data_type *list) noexcept
+    {
+        data_type *head = nullptr;
+        if (v_.compare_exchange_strong(head, list))
+            return;
+
+        data_type *last = list;
+        while (data_type *next = last->next)
+            last = next;
+
+        do
+            last->next = head;
+        while (!v_.compare_exchange_strong(head, list));
+    }
+
     friend class pool_ptr<TValue, TAlloc>;
 public:
     /**
@@ -260,23 +276,22 @@ public:
      */
     pool_ptr<TValue, TAlloc> allocate(const TValue &value = TValue()) noexcept
     {
-        data_type *head = v_.load();
-
-        while (true)
-        {
 #ifndef CXXMETRICS_DISABLE_POOLING
-            if (head == nullptr)
-#endif
-                return pool_ptr<TValue, TAlloc>(allocnew(value));
+        // The recycled data is taken as a whole and what isn't needed is put back. With only the head taken, its successor
+        // could be in use by the time the head is replaced: the head may have been taken and recycled by other threads
+        data_type *head = v_.exchange(nullptr);
+        if (head != nullptr)
+        {
+            data_type *rest = head->next;
+            if (rest != nullptr)
+                recycle(rest);
 
-            data_type *next = head->next;
-            if (v_.compare_exchange_strong(head, next))
-            {
-                head->next = reinterpret_cast<data_type *>(0x11);
-                new (&head->value()) TValue(value);
-                return pool_ptr<TValue, TAlloc>(head);
-            }
+            head->next = reinterpret_cast<data_type *>(0x11);
+            new (&head->value()) TValue(value);
+            return pool_ptr<TValue, TAlloc>(head);
         }
+#endif
+        return pool_ptr<TValue, TAlloc>(allocnew(value));
     }
 };
 
-- 
2.43.0


From 01c33427b20b8713ac9d0febeae987a5c646b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 33/41] fix: copying or exchanging a shared pool pointer could
 deliver null or an object it never held

---
 cxxmetrics/pool.hpp | 73 ++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/cxxmetrics/pool.hpp b/cxxmetrics/pool.hpp
index 0151731..7088593 100644
--- a/cxxmetrics/pool.hpp
+++ b/cxxmetrics/pool.hpp
@@ -2,6 +2,7 @@
 #define CXXMETRICS_POOL_HPP
 
 #include <atomic>
+#include <utility>
 
 namespace cxxmetrics
 {
@@ -88,6 +89,10 @@ class pool_ptr
 
     pool_ptr(pool_data *data) noexcept;
     friend class pool<TValue, TAlloc>;
+
+    // adds a reference to what the pointer refers to. Until the reference is ours, the data may be let go of by another
+    // thread and recycled for another object: what was referenced only counts if the pointer still refers to it
+    pool_data *acquire() const noexcept;
 public:
     /**
      * \brief Construct a null pool pointer
@@ -306,13 +311,28 @@ pool_ptr<TValue, TAlloc>::pool_ptr(pool_data *data) noexcept :
     }
 }
 
+template<typename TValue, template<typename ...> class TAlloc>
+typename pool_ptr<TValue, TAlloc>::pool_data *pool_ptr<TValue, TAlloc>::acquire() const noexcept
+{
+    while (true)
+    {
+        auto dat = dat_.load();
+        if (!dat)
+            return nullptr;
+
+        if (dat->add_reference())
+        {
+            if (dat_.load() == dat)
+                return dat;
+            dat->remove_reference();
+        }
+    }
+}
+
 template<typename TValue, template<typename ...> class TAlloc>
 pool_ptr<TValue, TAlloc>::pool_ptr(const pool_ptr &copy) noexcept :
-    dat_(nullptr)
+    dat_(copy.acquire())
 {
-    auto newdat = copy.dat_.load();
-    if (newdat && newdat->add_reference())
-        dat_ = newdat;
 };
 
 template<typename TValue, template<typename ...> class TAlloc>
@@ -334,9 +354,7 @@ pool_ptr<TValue, TAlloc>::~pool_ptr()
 template<typename TValue, template<typename ...> class TAlloc>
 pool_ptr<TValue, TAlloc> &pool_ptr<TValue, TAlloc>::operator=(const pool_ptr &cp) noexcept
 {
-    auto ndat = cp.dat_.load();
-    if (ndat && !ndat->add_reference())
-        ndat = nullptr;
+    auto ndat = cp.acquire();
 
     auto odat = dat_.exchange(ndat);
     if (odat)
@@ -407,43 +425,36 @@ template<typename TValue, template<typename ...> class TAlloc>
 bool pool_ptr<TValue, TAlloc>::compare_exchange_strong(pool_ptr &ptr, const pool_ptr &other, std::memory_order order) noexcept
 {
     auto origvalue = ptr.dat_.load();
-    auto oldvalue = origvalue;
-    auto newvalue = other.dat_.load();
+    auto newvalue = other.acquire();
 
-    if (newvalue && !newvalue->add_reference())
-        newvalue = nullptr;
-
-    if (dat_.compare_exchange_strong(oldvalue, newvalue, order))
+    while (true)
     {
-        if (newvalue == oldvalue)
+        auto oldvalue = origvalue;
+        if (dat_.compare_exchange_strong(oldvalue, newvalue, order))
         {
-            if (newvalue)
-                newvalue->remove_reference();
+            // the reference that was held here is gone
+            if (oldvalue)
+                oldvalue->remove_reference();
             return true;
         }
 
-        if (oldvalue)
-            oldvalue->remove_reference();
-
-        return true;
-    }
+        // take a reference to the value that's there instead, unless the expected value is back by then
+        pool_ptr current(*this);
+        if (current.dat_.load() == origvalue)
+            continue;
 
-    // oldvalue isn't the same value it was before
-    if (oldvalue && oldvalue != origvalue)
-        oldvalue->add_reference();
-    if (newvalue)
-        newvalue->remove_reference();
+        if (newvalue)
+            newvalue->remove_reference();
 
-    ptr = pool_ptr(oldvalue);
-    return false;
+        ptr = std::move(current);
+        return false;
+    }
 }
 
 template<typename TValue, template<typename ...> class TAlloc>
 pool_ptr<TValue, TAlloc> pool_ptr<TValue, TAlloc>::exchange(const pool_ptr &nptr, std::memory_order order) noexcept
 {
-    auto newvalue = nptr.dat_.load();
-    if (newvalue && !newvalue->add_reference())
-        newvalue = nullptr;
+    auto newvalue = nptr.acquire();
     auto oldvalue = dat_.exchange(newvalue, order);
     return pool_ptr(oldvalue);
 }
-- 
2.43.0


From fe798dd08181bae3a19ede8266281d5b2e7758b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 34/41] fix: visiting a path took stack for every tag set it
 has, and overflowed it with many

---
 cxxmetrics/metrics_registry.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cxxmetrics/metrics_registry.hpp b/cxxmetrics/metrics_registry.hpp
index e6ce0bd..5e96041 100644
--- a/cxxmetrics/metrics_registry.hpp
+++ b/cxxmetrics/metrics_registry.hpp
@@ -272,13 +272,15 @@ template<typename TMetricType>
 void registered_metric<TMetricType>::visit_each(cxxmetrics::internal::registered_snapshot_visitor_builder &builder)
 {
     std::lock_guard<std::mutex> lock(lock_);
+
+    // what alloca provides lasts until the function returns, so all of the visitors use the same space
+    auto sz = builder.visitor_size() + sizeof(std::max_align_t);
+    void* ptr = alloca(sz);
+
+    std::align(sizeof(std::max_align_t), sz, ptr, sz);
+    auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
     for (auto& p : metrics_)
     {
-        auto sz = builder.visitor_size() + sizeof(std::max_align_t);
-        void* ptr = alloca(sz);
-
-        std::align(sizeof(std::max_align_t), sz, ptr, sz);
-        auto loc = reinterpret_cast<snapshot_visitor*>(ptr);
         builder.construct(loc, p.first);
         try
         {
-- 
2.43.0


From 4d7dad5678b8dcee577d6fb65e29eab96ea66743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 35/41] fix: quantiles between samples far apart overflow the
 type of the samples

---
 cxxmetrics/snapshots.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index 339c15d..bb99f25 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -240,6 +240,12 @@ class reservoir_snapshot
         return std::chrono::duration_cast<std::chrono::nanoseconds>(elem);
     }
 
+    // how far the value at the index is from the one before it, which the type of the values may be too small for
+    long double distance(std::size_t index) const noexcept
+    {
+        return static_cast<long double>(values_[index]) - static_cast<long double>(values_[index - 1]);
+    }
+
 protected:
     std::vector<metric_value> values_;
 public:
@@ -299,7 +305,7 @@ public:
         if (static_cast<std::size_t>(index) >= values_.size())
             return max();
 
-        return values_[index - 1] + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));
+        return values_[index - 1] + metric_value((pos - index) * distance(index));
     }
 
     /**
@@ -349,7 +355,7 @@ public:
             hnd(values_[index - 1] +
                     metric_value(
                         (pos - static_cast<double>(index)) *
-                        static_cast<long double>(values_[index] - values_[index - 1])),
+                        distance(index)),
                 pos * 100 / static_cast<long double>(values_.size() + 1));
         }
     }
-- 
2.43.0


From 8d8707e019c39c3b04bd147836e297f0c537f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 36/41] fix: the aggregate of narrow counters and summed gauges
 overflows their type

---
 cxxmetrics/snapshots.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxxmetrics/snapshots.hpp b/cxxmetrics/snapshots.hpp
index bb99f25..4edbf38 100644
--- a/cxxmetrics/snapshots.hpp
+++ b/cxxmetrics/snapshots.hpp
@@ -82,6 +82,12 @@ public:
             value_snapshot(std::move(value))
     { }
 
+    // what several values add up to may be more than their own type can hold
+    template<typename TInt, typename = typename std::enable_if<std::is_integral<TInt>::value>::type>
+    cumulative_value_snapshot(TInt value) noexcept :
+            value_snapshot(static_cast<typename std::conditional<std::is_signed<TInt>::value, int64_t, uint64_t>::type>(value))
+    { }
+
     void merge(const cumulative_value_snapshot& other) noexcept
     {
         value_ += other.value_;
-- 
2.43.0


From 47d4cb88c99e53d19109e528b383ef8617bfd64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 37/41] fix: copying or comparing a long tag value terminates
 the process when memory runs out

---
 cxxmetrics/metric_value.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index fec4621..e233f09 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -23,14 +23,14 @@ public:
     virtual std::chrono::nanoseconds to_nanos(bool* valid) const = 0;
     virtual int type_score() const = 0;
     virtual std::size_t hash_value() const = 0;
-    virtual void copy(void* into) const noexcept = 0;
+    virtual void copy(void* into) const = 0;
     virtual void move(void* into) noexcept { return copy(into); }
     virtual void add(const variant_data& other) noexcept = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
     virtual void divide(const variant_data& other) noexcept = 0;
     virtual void negate() noexcept = 0;
     virtual void bitwise_negate() noexcept = 0;
-    virtual int compare(const variant_data& other) const noexcept = 0;
+    virtual int compare(const variant_data& other) const = 0;
 };
 
 template<typename T>
@@ -344,7 +344,7 @@ public:
         return std::hash<std::string>()(val_);
     }
 
-    void copy(void* into) const noexcept override
+    void copy(void* into) const override
     {
         new (reinterpret_cast<string_variant_data*>(into)) string_variant_data(val_);
     }
@@ -398,7 +398,7 @@ public:
         }
     }
 
-    int compare(const variant_data& other) const noexcept override
+    int compare(const variant_data& other) const override
     {
         return val_.compare(other.to_string());
     }
-- 
2.43.0


From a2e118993f5187830e0758f8792925dbbd4604dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 38/41] fix: equal metric values of different number types
 compare by who asks, and hash differently

---
 cxxmetrics/metric_value.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index e233f09..56a34f4 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -69,7 +69,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<T>()(val_);
+        // numbers of different types that are equal have to hash alike
+        return std::hash<long double>()(val_);
     }
 
     void copy(void* into) const noexcept override
@@ -144,18 +145,13 @@ public:
 
     int compare(const variant_data& other) const noexcept override
     {
+        // the other number may be one that this type can't hold
         bool valid;
-        auto lv = static_cast<T>(other.to_integral(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
-        {
-            auto fv = other.to_float(&valid);
-            if (!valid)
-                return -1;
-
-            return val_ < fv ? -1 : val_ == fv ? 0 : 1;
-        }
+            return -1;
 
-        return val_ < lv ? -1 : val_ == lv ? 0 : 1;
+        return val_ < fv ? -1 : val_ == fv ? 0 : 1;
     }
 };
 
@@ -200,7 +196,8 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<T>()(val_);
+        // numbers of different types that are equal have to hash alike
+        return std::hash<long double>()(val_);
     }
 
     void copy(void* into) const noexcept override
@@ -251,7 +248,7 @@ public:
     int compare(const variant_data& other) const noexcept override
     {
         bool valid;
-        auto fv = static_cast<T>(other.to_float(&valid));
+        auto fv = other.to_float(&valid);
         if (!valid)
             return -1;
 
@@ -441,7 +438,7 @@ public:
 
     std::size_t hash_value() const override
     {
-        return std::hash<std::chrono::duration<TRep, TPeriod>>()(dur_);
+        return std::hash<long long>()(to_nanos(nullptr).count());
     }
 
     void copy(void* into) const noexcept override
-- 
2.43.0


From cead5676422eca0dc3ee142d03e3462715fea470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 39/41] fix: subtracting and dividing metric values of
 different number types uses the wrong type or swaps the operands

---
 cxxmetrics/metric_value.hpp | 51 ++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 56a34f4..633b504 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -25,6 +25,7 @@ public:
     virtual std::size_t hash_value() const = 0;
     virtual void copy(void* into) const = 0;
     virtual void move(void* into) noexcept { return copy(into); }
+    virtual void assign(const variant_data& other) = 0;
     virtual void add(const variant_data& other) noexcept = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
     virtual void divide(const variant_data& other) noexcept = 0;
@@ -83,6 +84,16 @@ public:
         return (sizeof(T) * 10) + (std::is_signed<T>::value ? 0 : 1);
     }
 
+    void assign(const variant_data& other) override
+    {
+        bool valid;
+        auto lv = other.to_integral(&valid);
+        if (valid)
+            val_ = lv;
+        else
+            val_ = other.to_float(nullptr);
+    }
+
     void add(const variant_data& other) noexcept override
     {
         bool valid;
@@ -207,7 +218,12 @@ public:
 
     int type_score() const override
     {
-        return (sizeof(T) * 20);
+        return (sizeof(T) * 20) + 5; // more than any integer
+    }
+
+    void assign(const variant_data& other) override
+    {
+        val_ = other.to_float(nullptr);
     }
 
     void add(const variant_data& other) noexcept override
@@ -356,6 +372,11 @@ public:
         return 1;
     }
 
+    void assign(const variant_data& other) override
+    {
+        val_ = other.to_string();
+    }
+
     void add(const variant_data& other) noexcept override
     {
         val_ += other.to_string();
@@ -454,6 +475,11 @@ public:
             return (sizeof(TRep) * 10) + 2;
     }
 
+    void assign(const variant_data& other) override
+    {
+        dur_ = std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
+    }
+
     void add(const variant_data& other) noexcept override
     {
         dur_ += std::chrono::duration_cast<std::chrono::duration<TRep, TPeriod>>(other.to_nanos(nullptr));
@@ -551,6 +577,15 @@ class variant_data_holder
         return result;
     }
 
+    // the other value as one of this value's type
+    variant_data_holder converted(const variant_data_holder& other) const
+    {
+        variant_data_holder result(as<variant_data>());
+        result.as<variant_data>()->assign(*other.as<variant_data>());
+
+        return result;
+    }
+
     variant_data_holder uc_mult(const variant_data_holder& other) const
     {
         variant_data_holder result(as<variant_data>());
@@ -682,6 +717,14 @@ public:
         return uc_add(other);
     }
 
+    variant_data_holder subtract(const variant_data_holder& other) const
+    {
+        // a number can't be negated in a type that is narrower than the result's
+        if (other.as<variant_data>()->type_score() < as<variant_data>()->type_score())
+            return uc_add(converted(other).negate());
+        return add(other.negate());
+    }
+
     variant_data_holder multiply(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
@@ -692,7 +735,7 @@ public:
     variant_data_holder divide(const variant_data_holder& other) const
     {
         if (other.as<variant_data>()->type_score() > as<variant_data>()->type_score())
-            return other.uc_div(*this);
+            return other.converted(*this).uc_div(other);
         return uc_div(other);
     }
 
@@ -753,7 +796,7 @@ public:
 
     metric_value& operator-=(const metric_value& other)
     {
-        value_ = (value_.add(other.value_.negate()));
+        value_ = (value_.subtract(other.value_));
         return *this;
     }
 
@@ -776,7 +819,7 @@ public:
 
     metric_value operator-(const metric_value& other) const
     {
-        return metric_value(value_.add(other.value_.negate()));
+        return metric_value(value_.subtract(other.value_));
     }
 
     metric_value operator/(const metric_value& other) const
-- 
2.43.0


From 6efff0c015e9fd1090f07ff7506b3cf3b7135fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 40/41] fix: adding text metric values terminates the process
 when memory runs out

---
 cxxmetrics/metric_value.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index 633b504..e95ba3c 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -26,11 +26,11 @@ public:
     virtual void copy(void* into) const = 0;
     virtual void move(void* into) noexcept { return copy(into); }
     virtual void assign(const variant_data& other) = 0;
-    virtual void add(const variant_data& other) noexcept = 0;
+    virtual void add(const variant_data& other) = 0;
     virtual void multiply(const variant_data& other) noexcept = 0;
     virtual void divide(const variant_data& other) noexcept = 0;
-    virtual void negate() noexcept = 0;
-    virtual void bitwise_negate() noexcept = 0;
+    virtual void negate() = 0;
+    virtual void bitwise_negate() = 0;
     virtual int compare(const variant_data& other) const = 0;
 };
 
@@ -377,7 +377,7 @@ public:
         val_ = other.to_string();
     }
 
-    void add(const variant_data& other) noexcept override
+    void add(const variant_data& other) override
     {
         val_ += other.to_string();
     }
@@ -390,7 +390,7 @@ public:
     {
     }
 
-    void negate() noexcept override
+    void negate() override
     {
         bool valid;
         auto lv = to_integral(&valid);
@@ -405,7 +405,7 @@ public:
             val_ = std::to_string(-fv);
     }
 
-    void bitwise_negate() noexcept override
+    void bitwise_negate() override
     {
         bool valid;
         auto lv = to_integral(&valid);
-- 
2.43.0


From e8ca03e64f1d007fb4d417baa05313032550ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:28 +0000
Subject: [PATCH 41/41] fix: duration_cast of a metric value ignores the unit
 of the duration it holds

---
 cxxmetrics/metric_value.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cxxmetrics/metric_value.hpp b/cxxmetrics/metric_value.hpp
index e95ba3c..3dc0186 100644
--- a/cxxmetrics/metric_value.hpp
+++ b/cxxmetrics/metric_value.hpp
@@ -936,7 +936,9 @@ namespace chrono
 template<typename _ToDur>
 constexpr _ToDur duration_cast(const cxxmetrics::metric_value &v)
 {
-    return duration_cast<_ToDur>(static_cast<std::chrono::nanoseconds>(v));
+    // a cast would construct the duration from the value's number, whatever its unit
+    std::chrono::nanoseconds nanos = v;
+    return duration_cast<_ToDur>(nanos);
 }
 
 }
-- 
2.43.0

