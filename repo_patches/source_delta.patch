From 4a1e728b2b50743f7ebccb016c3dac13740537cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 01/14] fix: dictionary::find matched the reserved nil slot for
 a zero key

---
 lib/h/ce/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index cb5abd4..e457358 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -50,8 +50,8 @@ namespace ce
                 if (names[i] == n)
                     return ptr_t(i);
 
-            // linear scan
-            for (size_t i = heap; i < size; ++i)
+            // linear scan (slot 0 is nil and never bound, its name is not a match)
+            for (size_t i = heap + !heap; i < size; ++i)
                 if (names[i] == n)
                     return ptr_t(i);
 
-- 
2.43.0


From 1736c0cb24909ed4da2da34d55988b002f453727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 02/14] fix: next_unbiased rejection threshold was always 0
 (precedence)

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index d17d53f..138db34 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -837,7 +837,7 @@ namespace ce
             auto p = uint32_t(m);
             if (p < n)
             {
-                auto k = 0u - n % n;
+                auto k = (0u - n) % n;
                 while (p < k)
                 {
                     m = uint64_t(n) * read(q);
-- 
2.43.0


From 2ab5a722d500871446e9cff69e4cb7fb117af84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 03/14] fix: bulk::back() did not compile (reinterpret_cast of
 nullptr)

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 138db34..b1665de 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1364,8 +1364,8 @@ namespace ce
         T const* begin() const { return &data[0]; }
         T const* end() const { return &data[size]; }
 
-        T const& back() const { return size > 0 ? data[size - 1] : *reinterpret_cast<T const*>(nullptr); }
-        T& back() { return size > 0 ? data[size - 1] : *reinterpret_cast<T*>(nullptr); }
+        T const& back() const { return size > 0 ? data[size - 1] : *static_cast<T const*>(nullptr); }
+        T& back() { return size > 0 ? data[size - 1] : *static_cast<T*>(nullptr); }
 
         T& operator[](size_t i) { return data[i]; }
         T const& operator[](size_t i) const { return data[i]; }
-- 
2.43.0


From 0fa117cba4c0aedb0b8fe46d9a18b868eb53f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 04/14] fix: ce::get<N> on a tuple did not compile (detail::get
 hidden by the member)

---
 lib/h/ce/ce.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index b1665de..5d2b246 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -419,10 +419,10 @@ namespace ce
         template<size_t N, class T, class...Ts> auto get(items<size_t, N>, T, Ts...ts) { return get(items<size_t, N - 1>{}, ts...); }
 
         template<class T, size_t N, size_t = arrity_count<T>::value> struct crack { static detail::any get(T) = delete; };
-        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return get(items<size_t, N>{}, _0); } };
-        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return get(items<size_t, N>{}, _0, _1); } };
-        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return get(items<size_t, N>{}, _0, _1, _2); } };
-        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return get(items<size_t, N>{}, _0, _1, _2, _3); } };
+        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return detail::get(items<size_t, N>{}, _0); } };
+        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return detail::get(items<size_t, N>{}, _0, _1); } };
+        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return detail::get(items<size_t, N>{}, _0, _1, _2); } };
+        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return detail::get(items<size_t, N>{}, _0, _1, _2, _3); } };
 #else
         template<class T, size_t N> struct crack { static detail::any get(T) = delete; };
         template<class T> struct crack<T, 0> { static auto get(T t) { return t._0; } };
-- 
2.43.0


From 7c558d2feeb6dc5cda98d841d5bd2e8e63aeef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 05/14] fix: z_query overflowed its work stack on deeply split
 boxes

---
 lib/h/ce/zorder.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index 389aa89..90a5834 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -116,7 +116,7 @@ namespace ce
         //data = z_lower_bound(data, last, lo);
         last = z_lower_bound(data, last, hi + 0x0ffff);
 
-        uint64_t spans[32 * 2];
+        uint64_t spans[64 * 2]; // splits nest at most once per bit
         auto next = &spans[0];
 
         while (data < last)
@@ -154,7 +154,7 @@ namespace ce
                 }
                 else
                 {
-                    //CE_ASSERT(next < &spans[32 * 2]);
+                    //CE_ASSERT(next < &spans[64 * 2]);
                     // push
                     next[0] = mi;
                     next[1] = hi;
-- 
2.43.0


From 73514bf92e82d43c9c8572e3ecc751f56b7d97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 06/14] fix: cdt::incircle overflowed int64_t on large
 triangles

---
 lib/h/ce/cdt.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index b640cae..3fbad89 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -333,11 +333,12 @@ namespace ce
             auto ca = cx * ay - cy * ax;
             auto ab = ax * by - ay * bx;
 
-            auto aabc = aa * bc;
-            auto bbca = bb * ca;
-            auto ccab = cc * ab;
+            // the sum always fits in 64 bits but the products may not, so let them wrap
+            auto aabc = uint64_t(aa) * uint64_t(bc);
+            auto bbca = uint64_t(bb) * uint64_t(ca);
+            auto ccab = uint64_t(cc) * uint64_t(ab);
 
-            return aabc + bbca + ccab < 0;
+            return int64_t(aabc + bbca + ccab) < 0;
         }
 
         template<bool More>
-- 
2.43.0


From 41771046dea86b219300bfc948b56a9326c533c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 07/14] fix: pcg32 read() shifted by 32 when the rotation is 0

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 5d2b246..9f29495 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -792,7 +792,7 @@ namespace ce
             // also it is really annoying that some processors only have ror or rol, but not both, and there is no particular reason for which one they have!
             // I guess they want some programs to be slightly slower on their processors to save 1 op code
             // RANT OFF
-            return b >> a | b << (32 - a);
+            return b >> a | b << (31 & (32 - a));
         }
 
         inline pcg32_64_t step(pcg32_64_t g)
-- 
2.43.0


From bb21e89bb865033147e440328cb2d0c284c47b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 08/14] fix: as_string read past unterminated char arrays and
 through null strings

---
 lib/h/ce/ce.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 9f29495..a211ccc 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1046,6 +1046,9 @@ namespace ce
         using U = ce::remove_cvref_t<T>;
         if constexpr (ce::is_same<U, char const*>::value || ce::is_same<U, char*>::value)
         {
+            if (from == nullptr)
+                return to_text(text, nullptr);
+
             return to_text_s(text, measure<T>::value, from);
         }
         else
@@ -1054,6 +1057,9 @@ namespace ce
         }
     }
 
+    // arrays may not be terminated
+    template<size_t N> inline char* to_text_m(char* text, char const (&from)[N]) { return to_text_s(text, N, &from[0]); }
+
     template<class...Ts> struct as_string
     {
         char as[measure<Ts...>::value + 1];
-- 
2.43.0


From ce1a352406bfc37dc56a5475c3c44d249521bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 09/14] fix: dictionary with capacity 1 bound a name outside
 its arrays

---
 lib/h/ce/dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index e457358..ed64f07 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -64,7 +64,7 @@ namespace ce
             auto i = size_t(find(n));
             if (i == 0)
             {
-                if (size >= N)
+                if (size + !size >= N)
                     return ptr_t::nil;
 
                 i = size + !size; // add 1 if size == 0 so we don't allocate 0
-- 
2.43.0


From e11c802c298ca1b6d89776c49f891a76be4fb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 10/14] fix: is_constructible_with never detected copy
 construction, bulk copies assigned into raw storage

The overload chosen when U{ args... } is well-formed returned false, so
construct_copy never copy constructed: for an item type without a default
constructor it assigned to storage holding no object.
---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index a211ccc..ca69952 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1274,7 +1274,7 @@ namespace ce
     template<class T, class...Ts> struct is_constructible_with
     {
         template<class U, class...Us> static constexpr bool test(...) { return false; };
-        template<class U, class...Us> static constexpr bool test(decltype(U{ (*(Us*)0)... }, 0)) { return false; }
+        template<class U, class...Us> static constexpr bool test(decltype(U{ (*(Us*)0)... }, 0)) { return true; }
         static constexpr bool value = test<T, Ts...>(0);
     };
 
-- 
2.43.0


From 98bbb471200716e588a63eaf8c687f8077346659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 11/14] fix: io: a bound member name may be followed by a space
 before its comma

---
 lib/h/ce/io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index ce2584b..5f44be2 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -46,6 +46,9 @@ namespace ce
                 while (s[k] > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
+                while (s[k] != '\0' && s[k] <= ' ')
+                    ++k;
+
                 if (s[k] == ',')
                     ++k;
 
-- 
2.43.0


From 00666df21655b2604c64f88a75ff9bdc2661f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 12/14] fix: nameof: an enumeration value of 2^32 or more is
 not the value of its low 32 bits

---
 lib/h/ce/nameof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 5779a00..9c87780 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -89,11 +89,11 @@ namespace ce
             if constexpr (H - L > 64)
             {
                 constexpr auto M = L + (H - L) / 2;
-                return unsigned(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
+                return uint64_t(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
             }
             else if constexpr (L < H)
             {
-                if (unsigned(n) == L)
+                if (uint64_t(n) == L)
                 {
                     using N = nameof<T, static_cast<T>(L)>;
                     if constexpr (N::is_known)
-- 
2.43.0


From 42e945b6539d7569ea392782535481d060ad0c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 13/14] fix: nameof: the name of an enumerator is unqualified
 however deeply its scope is nested

---
 lib/h/ce/nameof.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 9c87780..780c2c9 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -45,6 +45,14 @@ namespace ce
             return 0;
         };
 
+        static constexpr unsigned skip_all(char what, char const text[])
+        {
+            unsigned n = 0;
+            for (unsigned i = skip(what, text); i != 0; i = skip(what, text + n))
+                n += i;
+            return n;
+        };
+
         template<unsigned N> struct const_text
         {
             static constexpr unsigned size = N;
@@ -74,7 +82,7 @@ namespace ce
         template<class T, T N> struct nameof<T, N>
         {
             static constexpr bool is_known = name_item<N>.data[0] != '(';
-            static constexpr auto _skip = skip(':', name_item<N>.data);
+            static constexpr auto _skip = skip_all(':', name_item<N>.data);
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
 
-- 
2.43.0


From 7111d747aa5887add52ec02153f52b50213b303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:07 +0000
Subject: [PATCH 14/14] fix: scaling a vector by one of its own components used
 the changed component for the later ones

---
 lib/h/ce/ce.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index ca69952..ed82241 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -646,8 +646,8 @@ namespace ce
         template<class...U> constexpr vec2<U...> operator/(const vec2<U...>& a, car_t<U...> const& b) { return { a.x / b, a.y / b }; }
         template<class...U> inline vec2<U...>& operator+=(vec2<U...>& a, const vec2<U...>& b) { a.x += b.x; a.y += b.y; return a; }
         template<class...U> inline vec2<U...>& operator-=(vec2<U...>& a, const vec2<U...>& b) { a.x -= b.x; a.y -= b.y; return a; }
-        template<class...U> inline vec2<U...>& operator*=(vec2<U...>& a, car_t<U...> const& b) { a.x *= b; a.y *= b; return a; }
-        template<class...U> inline vec2<U...>& operator/=(vec2<U...>& a, car_t<U...> const& b) { a.x /= b; a.y /= b; return a; }
+        template<class...U> inline vec2<U...>& operator*=(vec2<U...>& a, car_t<U...> b) { a.x *= b; a.y *= b; return a; }
+        template<class...U> inline vec2<U...>& operator/=(vec2<U...>& a, car_t<U...> b) { a.x /= b; a.y /= b; return a; }
 
         template<class...U> constexpr bool operator==(vec3<U...> const& a, vec3<U...> const& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
         template<class...U> constexpr bool operator==(vec3<U...> const& a, car_t<U...> const& b) { return a.x == b && a.y == b && a.z == b; }
@@ -659,8 +659,8 @@ namespace ce
         template<class...U> constexpr vec3<U...> operator/(const vec3<U...>& a, car_t<U...> const& b) { return { a.x / b, a.y / b, a.z / b }; }
         template<class...U> inline vec3<U...>& operator+=(vec3<U...>& a, const vec3<U...>& b) { a.x += b.x; a.y += b.y; a.z += b.z; return a; }
         template<class...U> inline vec3<U...>& operator-=(vec3<U...>& a, const vec3<U...>& b) { a.x -= b.x; a.y -= b.y; a.z -= b.z; return a; }
-        template<class...U> inline vec3<U...>& operator*=(vec3<U...>& a, car_t<U...> const& b) { a.x *= b; a.y *= b; a.z *= b; return a; }
-        template<class...U> inline vec3<U...>& operator/=(vec3<U...>& a, car_t<U...> const& b) { a.x /= b; a.y /= b; a.z /= b; return a; }
+        template<class...U> inline vec3<U...>& operator*=(vec3<U...>& a, car_t<U...> b) { a.x *= b; a.y *= b; a.z *= b; return a; }
+        template<class...U> inline vec3<U...>& operator/=(vec3<U...>& a, car_t<U...> b) { a.x /= b; a.y /= b; a.z /= b; return a; }
 
         template<class T, class U> size_t in_polygon_xy(T x, T y, size_t n, U const ps[])
         {
-- 
2.43.0

