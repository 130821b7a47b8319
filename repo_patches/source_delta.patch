From 8006526a4f5070432631ce857403e0a26d3b15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 01/28] fix: Slice::sub bound check must not wrap around

---
 rpp/slice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/slice.h b/rpp/slice.h
index f2f2058..ff1c062 100644
--- a/rpp/slice.h
+++ b/rpp/slice.h
@@ -114,7 +114,7 @@ struct Slice {
     }
 
     [[nodiscard]] constexpr Slice sub(u64 start, u64 length) const noexcept {
-        assert(start + length <= length_);
+        assert(start <= length_ && length <= length_ - start);
         return Slice{data_ + start, length};
     }
 
-- 
2.43.0


From c36f17fa6fb1cdd8caf02da56e070935e14fafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 02/28] fix: Queue::clone must copy every element and none of
 an empty queue

---
 rpp/queue.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index d036f02..2534086 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -77,17 +77,15 @@ struct Queue {
         if constexpr(Trivially_Copyable<T>) {
             Libc::memcpy(ret.data_, data_, capacity_ * sizeof(T));
         } else if constexpr(Clone<T>) {
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
-                new(&ret.data_[i]) T{data_[i].clone()};
+            for(u64 i = 0; i < length_; i++) {
+                u64 idx = idx_at(i);
+                new(&ret.data_[idx]) T{data_[idx].clone()};
             }
         } else {
             static_assert(Copy_Constructable<T>);
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
-                new(&ret.data_[i]) T{data_[i]};
+            for(u64 i = 0; i < length_; i++) {
+                u64 idx = idx_at(i);
+                new(&ret.data_[idx]) T{data_[idx]};
             }
         }
         return ret;
-- 
2.43.0


From 97514cedb6078e53c21ee0deb079704a2e13d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 03/28] fix: Queue::erase_first must close the gap by moving
 later elements forward

---
 rpp/queue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index 2534086..6ba74be 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -240,15 +240,16 @@ struct Queue {
     {
         bool found = false;
         u64 idx = start_idx();
+        u64 prev = idx;
         u64 consumed = 0;
         while(consumed < length_) {
             u64 next = idx == capacity_ - 1 ? 0 : idx + 1;
             if(found) {
                 if constexpr(Trivially_Movable<T>) {
-                    Libc::memcpy(&data_[next], &data_[idx], sizeof(T));
+                    Libc::memcpy(&data_[prev], &data_[idx], sizeof(T));
                 } else {
                     static_assert(Move_Constructable<T>);
-                    new(&data_[next]) T{rpp::move(data_[idx])};
+                    new(&data_[prev]) T{rpp::move(data_[idx])};
                 }
             } else if(data_[idx] == value) {
                 if constexpr(Must_Destruct<T>) {
@@ -256,6 +257,7 @@ struct Queue {
                 }
                 found = true;
             }
+            prev = idx;
             idx = next;
             consumed++;
         }
-- 
2.43.0


From b1cc801d90070e3a0044877b2a2bae183d2ffeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:21 +0000
Subject: [PATCH 04/28] fix: Math::pow no longer squares the base after the
 last exponent bit

---
 rpp/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/math.h b/rpp/math.h
index 24f550f..2eff486 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -68,7 +68,7 @@ template<Int I>
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if(exp) base *= base;
     }
     return result;
 }
-- 
2.43.0


From 9cac85f9cf4c194495c7bed41e4d1bd829cf1f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 05/28] fix: scalar minus and scalar divided by Vec4 used
 reversed operands

---
 rpp/vmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index e3d5f3e..c0a293c 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -900,7 +900,7 @@ constexpr Math::Vect<T, N> operator+(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator-(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::sub(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::sub(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s - v.data[i];
@@ -922,7 +922,7 @@ constexpr Math::Vect<T, N> operator*(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator/(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::div(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::div(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s / v.data[i];
-- 
2.43.0


From 2f0c4199268c507fcab8cc4c4342a4895d870cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 06/28] fix: unary minus of a vector no longer modifies its
 operand

---
 rpp/vmath.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index c0a293c..ab02ef1 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -242,14 +242,15 @@ struct Vect : Vect_Base<T, N> {
             for(u64 i = 0; i < N; i++) r.data[i] = Math::abs(this->data[i]);
         return r;
     }
-    constexpr Vect operator-() noexcept
+    constexpr Vect operator-() const noexcept
         requires is_float || Signed_Int<T>
     {
+        Vect r;
         if constexpr(is_simd)
-            this->pack = F32x4::sub(F32x4::zero(), this->pack);
+            r.pack = F32x4::sub(F32x4::zero(), this->pack);
         else
-            for(u64 i = 0; i < N; i++) this->data[i] = -this->data[i];
-        return *this;
+            for(u64 i = 0; i < N; i++) r.data[i] = -this->data[i];
+        return r;
     }
 
     constexpr Vect normalize() noexcept
-- 
2.43.0


From f0123d208face7b0e7410fc56b37865869a311cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 07/28] fix: Quat::inverse of a quaternion that is not of unit
 length

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index ab02ef1..8066114 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -698,7 +698,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(-x, -y, -z, w);
     }
     Quat inverse() const noexcept {
-        return conjugate().unit();
+        return conjugate() * (1.0f / norm2());
     }
     constexpr Vec3 complex() const noexcept {
         return Vec3(x, y, z);
-- 
2.43.0


From 3cb55dcbbc7b8d5372a3ef5834aef3a662e12b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 08/28] fix: Quat::euler of a half turn about x is not the half
 turn about z

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index 8066114..2b02e58 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -672,7 +672,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(x, y, z, w).unit();
     }
     static Quat euler(Vec3 angles) noexcept {
-        if(angles == Vec3{0.0f, 0.0f, 180.0f} || angles == Vec3{180.0f, 0.0f, 0.0f})
+        if(angles == Vec3{0.0f, 0.0f, 180.0f})
             return Quat{0.0f, 0.0f, -1.0f, 0.0f};
         f32 c1 = Math::cos(Math::radians(angles[2] * 0.5f));
         f32 c2 = Math::cos(Math::radians(angles[1] * 0.5f));
-- 
2.43.0


From a80b7d81066ac6e7c6d5046be9b89558db56ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 09/28] fix: Mat4::ortho maps the near and far planes to depths
 0 and 1

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index 585bceb..d267218 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -228,7 +228,7 @@ Mat4 Mat4::ortho(f32 l, f32 r, f32 b, f32 t, f32 n, f32 f) noexcept {
     Mat4 ret;
     ret[0][0] = 2.0f / (r - l);
     ret[1][1] = 2.0f / (t - b);
-    ret[2][2] = 2.0f / (n - f);
+    ret[2][2] = 1.0f / (n - f);
     ret[3][0] = (-l - r) / (r - l);
     ret[3][1] = (-b - t) / (t - b);
     ret[3][2] = -n / (f - n);
-- 
2.43.0


From e5943ff02a06d12250873b532beb7c5d738fd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 10/28] fix: Mat4::rotate_y_to straight down is a rotation and
 not a reflection

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index d267218..e4de53d 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -255,7 +255,7 @@ Mat4 Mat4::rotate_y_to(Vec3 dir) noexcept {
         return Mat4::I;
     else if(Math::abs(dir.y + 1.0f) < Math::EPS_F)
         return Mat4{Vec4{1.0f, 0.0f, 0.0f, 0.0f}, Vec4{0.0f, -1.0f, 0.0f, 0.0f},
-                    Vec4{0.0f, 0.0f, 1.0f, 0.0f}, Vec4{0.0f, 0.0f, 0.0f, 1.0f}};
+                    Vec4{0.0f, 0.0f, -1.0f, 0.0f}, Vec4{0.0f, 0.0f, 0.0f, 1.0f}};
     else {
         Vec3 x = cross(dir, Vec3{0.0f, 1.0f, 0.0f}).unit();
         Vec3 z = cross(x, dir).unit();
-- 
2.43.0


From 0694005be32cbdcf0ce8aed137d946e39afe1b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 11/28] fix: RNG unit samples cover [0,1) instead of [0,2e-17)

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 7a3a5f1..00324f0 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -29,11 +29,11 @@ struct Stream {
     [[nodiscard]] constexpr F unit() noexcept {
         if constexpr(Same<F, f32>) {
             u64 r = operator()() >> 40;
-            return r * 1e-24f;
+            return r * 0x1p-24f;
         } else {
             static_assert(Same<F, f64>);
             u64 r = operator()() >> 11;
-            return r * 1e-53;
+            return r * 0x1p-53;
         }
     }
 
-- 
2.43.0


From 6b2113430902c53b4c272c1aef0127c84fa03031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 12/28] fix: RNG::range over signed integers stays in the range

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 00324f0..8967b76 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -57,8 +57,8 @@ struct Stream {
 
     template<Int I>
     [[nodiscard]] constexpr I range(I min, I max) noexcept {
-        I r = max - min;
-        return min + static_cast<I>(operator()()) % r;
+        u64 r = static_cast<u64>(max) - static_cast<u64>(min);
+        return static_cast<I>(static_cast<u64>(min) + operator()() % r);
     }
 
 private:
-- 
2.43.0


From af9ff9c9e57e47ce8d6421e6b88f84c9da6a5464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 13/28] fix: RNG::shuffle of an empty array

---
 rpp/rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 8967b76..a2d7d3a 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -44,7 +44,7 @@ struct Stream {
 
     template<Allocator A, Move_Constructable T>
     constexpr void shuffle(Vec<T, A>& vec) noexcept {
-        for(u64 i = 0; i < vec.length() - 1; i++) {
+        for(u64 i = 0; i + 1 < vec.length(); i++) {
             u64 j = range(i, vec.length());
             swap(vec[i], vec[j]);
         }
-- 
2.43.0


From 07b6dfef8a87dc1a472024ea0704a52c6c58342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 14/28] fix: string equality compares zero bytes and everything
 after them

---
 rpp/string0.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rpp/string0.h b/rpp/string0.h
index d692e42..d0679b9 100644
--- a/rpp/string0.h
+++ b/rpp/string0.h
@@ -198,8 +198,7 @@ template<Allocator A>
 
 [[nodiscard]] constexpr bool operator==(String_View l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 [[nodiscard]] constexpr bool operator<(String_View l, String_View r) noexcept {
@@ -214,22 +213,19 @@ template<Allocator A>
 template<Allocator A>
 [[nodiscard]] bool operator==(const String<A>& l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator B>
 [[nodiscard]] bool operator==(String_View l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
 [[nodiscard]] bool operator==(const String<A>& l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
-- 
2.43.0


From 7442d5d454eb861e637733e13713adb8e69f8100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:39 +0000
Subject: [PATCH 15/28] fix: String::write rejects positions whose end wraps
 around

---
 rpp/string1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index bdf9b9c..71ebbb8 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -120,14 +120,14 @@ template<Allocator A>
 template<Allocator A>
 template<Allocator B>
 [[nodiscard]] u64 String<A>::write(u64 i, const String<B>& text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
 
 template<Allocator A>
 [[nodiscard]] u64 String<A>::write(u64 i, String_View text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
-- 
2.43.0


From 0f6e5e4b1aeafc488e44b8da42f0b67762ca6936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:46 +0000
Subject: [PATCH 16/28] fix: path helpers see a separator that is the first
 character

---
 rpp/string1.h | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index 71ebbb8..984378c 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -64,50 +64,32 @@ template<Allocator RA>
 
 [[nodiscard]] constexpr String_View String_View::file_suffix() const noexcept {
 
-    if(length_ == 0) return String_View{};
-
-    u64 i = length_ - 1;
-    u64 offset = 0;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::file_extension() const noexcept {
 
-    if(length_ == 0) return String_View{};
-
-    u64 i = length_ - 1;
-    u64 offset = 0;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '.' || data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
+        if(data_[i - 1] == '.' || data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::remove_file_suffix() const noexcept {
 
-    if(length_ == 0) return String_View{};
-
-    bool found = 0;
-    u64 i = length_ - 1;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            found = 1;
-            break;
-        }
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_, i + found};
+    return String_View{data_, i};
 }
 
 template<Allocator A>
-- 
2.43.0


From b1949705750647dd9abc7ff1a80bc7ae2eaa3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:51 +0000
Subject: [PATCH 17/28] fix: parse_string at the end of the text

---
 rpp/format1.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rpp/format1.h b/rpp/format1.h
index 3b8215f..46e35e7 100644
--- a/rpp/format1.h
+++ b/rpp/format1.h
@@ -59,16 +59,14 @@ template<Enum E>
     while(start < s.length() && ascii::is_whitespace(s[start])) {
         start++;
     }
-    for(u64 i = start; i < s.length(); i++) {
-        if((i + 1 == s.length() && start < i)) {
-            return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, i + 1), String_View{}}};
-        }
-        if(ascii::is_whitespace(s[i])) {
-            return Opt<Pair<String_View, String_View>>{
-                Pair{s.sub(start, i), s.sub(i + 1, s.length())}};
-        }
+    u64 end = start;
+    while(end < s.length() && !ascii::is_whitespace(s[end])) {
+        end++;
     }
-    return {};
+    if(start == end) return {};
+    u64 rest = end < s.length() ? end + 1 : end;
+    return Opt<Pair<String_View, String_View>>{
+        Pair{s.sub(start, end), s.sub(rest, s.length())}};
 }
 
 template<Enum E>
-- 
2.43.0


From 115ed56cc7c2cff9d00772b0b09c8694335a2197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:38 +0000
Subject: [PATCH 18/28] fix: Files::read closes the file on failure and returns
 only complete contents

---
 rpp/pos/files_pos.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 1a9af7f..6224411 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -21,16 +21,26 @@ namespace rpp::Files {
     }
 
     off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
+    if(full_size == -1 || lseek(fd, 0, SEEK_SET) == -1) {
+        warn("Failed to read file %: %", path_, Log::sys_error());
+        close(fd);
+        return {};
+    }
 
     assert(full_size <= RPP_UINT32_MAX);
 
     Vec<u8, Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        return {};
+    u64 done = 0;
+    while(done < data.length()) {
+        i64 ret = ::read(fd, data.data() + done, data.length() - done);
+        if(ret <= 0) {
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            return {};
+        }
+        done += static_cast<u64>(ret);
     }
 
     close(fd);
-- 
2.43.0


From 2ec49e573cac4866145545b1d310c072f8d8f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:40 +0000
Subject: [PATCH 19/28] fix: Files::write opens the file for writing, writes
 all of it and closes it on failure

---
 rpp/pos/files_pos.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 6224411..1db259c 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -52,7 +52,7 @@ namespace rpp::Files {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC, 0666);
     }
 
     if(fd == -1) {
@@ -60,9 +60,15 @@ namespace rpp::Files {
         return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        return false;
+    u64 done = 0;
+    while(done < data.length()) {
+        i64 ret = ::write(fd, data.data() + done, data.length() - done);
+        if(ret <= 0) {
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            return false;
+        }
+        done += static_cast<u64>(ret);
     }
 
     close(fd);
-- 
2.43.0


From 4299569168ee607f68ba87fac886e3b3be376ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:42 +0000
Subject: [PATCH 20/28] fix: Async::read and write report and release files
 like Files::read and write

---
 rpp/pos/asyncio_pos.cpp | 46 ++---------------------------------------
 1 file changed, 2 insertions(+), 44 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 8748b85..489108a 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -14,54 +14,12 @@ namespace rpp::Async {
 
 [[nodiscard]] Task<Opt<Vec<u8, Files::Alloc>>> read(Pool<>& pool, String_View path_) noexcept {
 
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
-    }
-
-    if(fd == -1) {
-        warn("Failed to open file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
-
-    assert(full_size <= UINT32_MAX);
-
-    Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
-    data.resize(static_cast<u64>(full_size));
-
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    close(fd);
-    co_return Opt{rpp::move(data)};
+    co_return Files::read(path_);
 }
 
 [[nodiscard]] Task<bool> write(Pool<>& pool, String_View path_, Slice<u8> data) noexcept {
 
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC);
-    }
-
-    if(fd == -1) {
-        warn("Failed to create file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    close(fd);
-    co_return true;
+    co_return Files::write(path_, Slice<const u8>{data.data(), data.length()});
 }
 
 [[nodiscard]] Task<void> wait(Pool<>& pool, u64 ms) noexcept {
-- 
2.43.0


From f98b9cdbeb2c93accad05f8121d2a72fc03d72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:45 +0000
Subject: [PATCH 21/28] fix: Udp move assignment closes the socket it replaces

---
 rpp/pos/net_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 5da2d9b..72420b3 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -44,6 +44,7 @@ Udp::Udp(Udp&& src) noexcept {
 }
 
 Udp& Udp::operator=(Udp&& src) noexcept {
+    this->~Udp();
     fd = src.fd;
     src.fd = -1;
     return *this;
-- 
2.43.0


From 448199849021796ed74f78c297cd6058737178a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 22/28] fix: Net::Address reads only the given text

---
 rpp/pos/net_pos.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 72420b3..8899a3e 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -12,9 +12,12 @@ Address::Address(String_View address, u16 port) noexcept {
     sockaddr_.sin_family = AF_INET;
     sockaddr_.sin_port = htons(port);
 
-    if(inet_pton(AF_INET, reinterpret_cast<const char*>(address.data()),
-                 &sockaddr_.sin_addr.s_addr) != 1) {
-        die("Failed to create address: %", Log::sys_error());
+    Region(R) {
+        auto term = address.terminate<Mregion<R>>();
+        if(inet_pton(AF_INET, reinterpret_cast<const char*>(term.data()),
+                     &sockaddr_.sin_addr.s_addr) != 1) {
+            die("Failed to create address: %", Log::sys_error());
+        }
     }
 }
 
-- 
2.43.0


From 6767ef7ad52942410b5af5b2b574be8e0080b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:49 +0000
Subject: [PATCH 23/28] fix: Udp reports failing receives and sends only bytes
 of the packet

---
 rpp/pos/net_pos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 8899a3e..0d3bf84 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -70,12 +70,16 @@ void Udp::bind(Address address) noexcept {
     if(ret == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
         return Opt<Data>{};
     }
+    if(ret == -1) {
+        die("Failed to receive packet: %", Log::sys_error());
+    }
 
     return Opt{Data{static_cast<u64>(ret), rpp::move(src)}};
 }
 
 [[nodiscard]] u64 Udp::send(Address address, const Packet& out, u64 length) noexcept {
 
+    assert(length <= out.capacity);
     i64 ret = ::sendto(fd, out.data(), length, 0,
                        reinterpret_cast<const sockaddr*>(&address.sockaddr_), sizeof(sockaddr_in));
     if(ret == -1) {
-- 
2.43.0


From 3556bf7fdc77d33725218f90ee909bd4d3ba8223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 24/28] fix: storing under an existing key does not change the
 length of a Map

---
 rpp/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index d3ddf09..8e5bf58 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -163,6 +163,7 @@ struct Map {
         Libc::memset(data_, 0, capacity_ * sizeof(Slot));
         usable_ = (capacity_ / 4) * 3;
         shift_ = Math::ctlz(capacity_) + 1;
+        length_ = 0;
 
         for(u64 i = 0; i < old_capacity; i++) {
             if(old_data[i].hash != Slot::EMPTY)
@@ -219,7 +220,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), rpp::move(value)};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -229,7 +229,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), V{rpp::forward<Args>(args)...}};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -411,6 +410,7 @@ private:
         for(;;) {
             u64 hash = data_[idx].hash;
             if(hash == Slot::EMPTY) {
+                length_ += 1;
                 data_[idx] = rpp::move(slot);
                 return placement ? *placement : data_[idx];
             }
-- 
2.43.0


From 6fbd7519e14fb9123c7fbe551d208eab835572fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 25/28] fix: Map tables have a power of two of at least four
 slots

---
 rpp/map.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 8e5bf58..cec5d11 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -78,12 +78,7 @@ struct Map {
     Map() noexcept = default;
 
     explicit Map(u64 capacity) noexcept {
-        capacity_ = Math::next_pow2(capacity);
-        shift_ = Math::ctlz(capacity_) + 1;
-        usable_ = (capacity_ / 4) * 3;
-        length_ = 0;
-        data_ = reinterpret_cast<Slot*>(A::alloc(capacity_ * sizeof(Slot)));
-        Libc::memset(data_, 0, capacity_ * sizeof(Slot));
+        reserve(capacity);
     }
 
     template<typename... Ss>
@@ -155,6 +150,9 @@ struct Map {
     void reserve(u64 new_capacity) noexcept {
         if(new_capacity <= capacity_) return;
 
+        // home slots need a power of two, and a load limit below it at least four slots
+        new_capacity = Math::max(Math::next_pow2(new_capacity), static_cast<u64>(4));
+
         Slot* old_data = data_;
         u64 old_capacity = capacity_;
 
-- 
2.43.0


From 06180fd4fbb5c9feac58db294481ea3f219233f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 26/28] fix: Map::get_or_insert of a movable key compiles

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index cec5d11..737e255 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -327,7 +327,7 @@ struct Map {
         requires Default_Constructable<V>
     {
         Opt<Ref<V>> entry = try_get(key);
-        if(entry) {
+        if(entry.ok()) {
             return **entry;
         }
         return insert(rpp::move(key), V{});
-- 
2.43.0


From 2d014baf493a073a90eb8385decf8359b5d12903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 27/28] fix: Map::get of a string view does not look into an
 empty table

---
 rpp/map.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 737e255..e6e68a0 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -287,10 +287,9 @@ struct Map {
     [[nodiscard]] V& get(String_View key) noexcept
         requires(Any_String<K>)
     {
-        if(auto idx = try_get_<String_View>(key); idx.ok()) {
-            return data_[*idx].data->second;
-        }
-        die("Failed to find key %!", key);
+        Opt<Ref<V>> value = try_get(key);
+        if(!value.ok()) die("Failed to find key %!", key);
+        return **value;
     }
 
     [[nodiscard]] bool contains(const K& key) const noexcept {
-- 
2.43.0


From 61611fdd253b3fa1b52bcba6f57638f0a3bbb2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:49 +0000
Subject: [PATCH 28/28] fix: re-entering a known profile scope restarted and
 counted its parent

---
 rpp/impl/profile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index f1b40a3..6ae6fe3 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -134,8 +134,9 @@ void Profile::Frame_Profile::enter(Log::Location loc) noexcept {
         nodes.push(Timing_Node::make(rpp::move(loc), current_node));
         current_node = child_idx;
     } else {
-        node.begin = timestamp();
-        node.calls++;
+        Timing_Node& child = nodes[current_node];
+        child.begin = timestamp();
+        child.calls++;
     }
 }
 
-- 
2.43.0

