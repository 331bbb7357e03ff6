From 55115084194dbfa6f19cb006d50dc56549ed6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 01/22] fix: dictionary never matches the unused slot 0 (key 0
 could be bound but not found)

---
 lib/h/ce/dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index cb5abd4..f71757e 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -51,7 +51,7 @@ namespace ce
                     return ptr_t(i);
 
             // linear scan
-            for (size_t i = heap; i < size; ++i)
+            for (size_t i = heap + !heap; i < size; ++i) // slot 0 is nil, never a match
                 if (names[i] == n)
                     return ptr_t(i);
 
-- 
2.43.0


From 737e79811d74a8c49a9574c6a4023ae72390a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 02/22] fix: dictionary with one slot has no room, bind wrote
 past its end

---
 lib/h/ce/dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index f71757e..9ac7071 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -64,10 +64,10 @@ namespace ce
             auto i = size_t(find(n));
             if (i == 0)
             {
-                if (size >= N)
+                i = size + !size; // add 1 if size == 0 so we don't allocate 0
+                if (i >= N)
                     return ptr_t::nil;
 
-                i = size + !size; // add 1 if size == 0 so we don't allocate 0
                 size = i + 1;
 
                 names[i] = n;
-- 
2.43.0


From 2736718d255eecfdcf83810817c58d81c90745b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 03/22] fix: next_unbiased rejects the incomplete interval (0u
 - n % n is always 0)

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index d17d53f..138db34 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -837,7 +837,7 @@ namespace ce
             auto p = uint32_t(m);
             if (p < n)
             {
-                auto k = 0u - n % n;
+                auto k = (0u - n) % n;
                 while (p < k)
                 {
                     m = uint64_t(n) * read(q);
-- 
2.43.0


From 335ec07e30ad9ab2f4001b0e62af788d17aed8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 04/22] fix: z_query span stack is deep enough for one span per
 z bit

---
 lib/h/ce/zorder.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index 389aa89..d35f5e3 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -116,7 +116,7 @@ namespace ce
         //data = z_lower_bound(data, last, lo);
         last = z_lower_bound(data, last, hi + 0x0ffff);
 
-        uint64_t spans[32 * 2];
+        uint64_t spans[64 * 2]; // at most one pending span per split bit
         auto next = &spans[0];
 
         while (data < last)
@@ -154,7 +154,7 @@ namespace ce
                 }
                 else
                 {
-                    //CE_ASSERT(next < &spans[32 * 2]);
+                    //CE_ASSERT(next < &spans[64 * 2]);
                     // push
                     next[0] = mi;
                     next[1] = hi;
-- 
2.43.0


From 71f5e7f815b02671426a674a565745aab112acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 05/22] fix: z_query of a box that reaches the top of the plane
 (hi + 0xffff wrapped)

---
 lib/h/ce/zorder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index d35f5e3..0821ffc 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -114,7 +114,8 @@ namespace ce
         size = 0;
 
         //data = z_lower_bound(data, last, lo);
-        last = z_lower_bound(data, last, hi + 0x0ffff);
+        if (hi <= ~uint64_t{ 0x0ffff })
+            last = z_lower_bound(data, last, hi + 0x0ffff);
 
         uint64_t spans[64 * 2]; // at most one pending span per split bit
         auto next = &spans[0];
@@ -123,7 +124,7 @@ namespace ce
         {
             uint64_t zn = *data++;
 
-            while (zn > hi + 0x0ffff)
+            while (zn > hi && zn - hi > 0x0ffff)
             {
                 // pop
                 if (next <= &spans[0])
-- 
2.43.0


From 3624e40a7a01e3700a3be3ef69304e090ddc6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 06/22] fix: io names with a space before the comma or with
 utf8 names shifted every later name

---
 lib/h/ce/io.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index ce2584b..29df64e 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -40,12 +40,16 @@ namespace ce
             {
                 names[i] = &text[j];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && uint8_t(s[k]) <= ' ')
                     ++k;
 
-                while (s[k] > ' ' && s[k] != ',')
+                while (uint8_t(s[k]) > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
+                // skip spaces between the name and the comma
+                while (s[k] != '\0' && uint8_t(s[k]) <= ' ')
+                    ++k;
+
                 if (s[k] == ',')
                     ++k;
 
-- 
2.43.0


From 29983fd1c8c8e9633b3e1195762374dee8c45cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 07/22] fix: log key names lost leading and trailing utf8 bytes

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 138db34..b8ae29d 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1123,7 +1123,7 @@ namespace ce
                 name = &text[i];
 
                 // skip leading spaces
-                while (*src <= ' ' && *src != '\0')
+                while (uint8_t(*src) <= ' ' && *src != '\0')
                     ++src;
 
                 // if we are at the last data item, start unbalanced so we copy the whole string (
@@ -1153,7 +1153,7 @@ namespace ce
                     else if (*src == quote)
                         quote = 0;
 
-                    if ((text[i++] = *src++) > ' ')
+                    if (uint8_t(text[i++] = *src++) > ' ')
                         trim = i;
                 }
 
-- 
2.43.0


From adc915d86c1c428cff80df9f78e32fcc64ac06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 08/22] fix: in_range_rr_edge accepted points whose projection
 is past the end of the edge

---
 lib/h/ce/math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e478e5d..e7cbc48 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -151,14 +151,14 @@ namespace ce
             if (dp < 0)
                 return false;
 
-            auto pp = int64_t(px) * px + int64_t(py) * py;
-            if (pp < rr)
-                return true;
-
             auto dd = int64_t(dx) * dx + int64_t(dy) * dy;
             if (dp > dd)
                 return false;
 
+            auto pp = int64_t(px) * px + int64_t(py) * py;
+            if (pp < rr)
+                return true;
+
             return ab_less_cd(dd, pp - rr, dp, dp);
         };
 
-- 
2.43.0


From 92a24f350a4f15891ecfbca13d553db7e19bd758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 09/22] fix: seeding xoroshiro64ss never leaves it in the all
 zero (dead) state

---
 lib/h/ce/ce.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index b8ae29d..87cb722 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -719,6 +719,10 @@ namespace ce
 
                 g.a = uint32_t(a);
                 g.b = uint32_t(b);
+
+                // the all zero state only ever generates zeros
+                if ((g.a | g.b) == 0)
+                    g.b = 1;
             }
 
             friend uint32_t next(xoroshiro64ss& g)
-- 
2.43.0


From 20fa42dbca7c90841ffc7276bba30aeaf327a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 10/22] fix: construct_copy copy constructs (types without a
 default constructor were assigned over raw memory)

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 87cb722..42c3f57 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1272,7 +1272,7 @@ namespace ce
     template<class T, class...Ts> struct is_constructible_with
     {
         template<class U, class...Us> static constexpr bool test(...) { return false; };
-        template<class U, class...Us> static constexpr bool test(decltype(U{ (*(Us*)0)... }, 0)) { return false; }
+        template<class U, class...Us> static constexpr bool test(decltype(U{ (*(Us*)0)... }, 0)) { return true; }
         static constexpr bool value = test<T, Ts...>(0);
     };
 
-- 
2.43.0


From 0058a7e7bfd43a1ef9d6b2d63f247d8e78291fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 11/22] fix: as_string read (and wrote) past the end of char
 arrays that are not null terminated

---
 lib/h/ce/ce.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 42c3f57..4fe51fa 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1058,6 +1058,9 @@ namespace ce
         }
     }
 
+    // arrays do not have to be null terminated, never read past the end
+    template<size_t N> inline char* to_text_m(char* text, char const (&from)[N]) { return to_text_s(text, N, from); }
+
     template<class...Ts> struct as_string
     {
         char as[measure<Ts...>::value + 1];
-- 
2.43.0


From e299a13982d939541143d04187e79871e763c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 12/22] fix: bulk back() does not compile (reinterpret_cast of
 nullptr is ill-formed)

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 4fe51fa..9fd52b9 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1371,8 +1371,8 @@ namespace ce
         T const* begin() const { return &data[0]; }
         T const* end() const { return &data[size]; }
 
-        T const& back() const { return size > 0 ? data[size - 1] : *reinterpret_cast<T const*>(nullptr); }
-        T& back() { return size > 0 ? data[size - 1] : *reinterpret_cast<T*>(nullptr); }
+        T const& back() const { return size > 0 ? data[size - 1] : *static_cast<T const*>(nullptr); }
+        T& back() { return size > 0 ? data[size - 1] : *static_cast<T*>(nullptr); }
 
         T& operator[](size_t i) { return data[i]; }
         T const& operator[](size_t i) const { return data[i]; }
-- 
2.43.0


From 795348c1e56e101a742867f376b02860a7e9b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 13/22] fix: nameof of an enumerator nested in two or more
 scopes kept part of the qualification

---
 lib/h/ce/nameof.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 5779a00..3d7536d 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -45,6 +45,16 @@ namespace ce
             return 0;
         };
 
+        // an enumerator's own name is after the last of its scopes
+        static constexpr unsigned skip_all(char what, char const text[])
+        {
+            unsigned skipped = 0;
+            for (unsigned n = 0; text[n] != 0; ++n)
+                if (text[n] == what)
+                    skipped = n + 1;
+            return skipped;
+        };
+
         template<unsigned N> struct const_text
         {
             static constexpr unsigned size = N;
@@ -74,7 +84,7 @@ namespace ce
         template<class T, T N> struct nameof<T, N>
         {
             static constexpr bool is_known = name_item<N>.data[0] != '(';
-            static constexpr auto _skip = skip(':', name_item<N>.data);
+            static constexpr auto _skip = skip_all(':', name_item<N>.data);
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
 
-- 
2.43.0


From 9e28225f5ea282ae15b3ed0a698768ab27409cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 14/22] fix: nameof and as_enum did not know enumerators of
 enums in an anonymous namespace

---
 lib/h/ce/nameof.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 3d7536d..b15826e 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -83,7 +83,9 @@ namespace ce
 
         template<class T, T N> struct nameof<T, N>
         {
-            static constexpr bool is_known = name_item<N>.data[0] != '(';
+            // a value without an enumerator is a cast of a number: (type)number
+            static constexpr char _item = name_item<N>.data[skip_all(')', name_item<N>.data)];
+            static constexpr bool is_known = _item != '-' && !(_item >= '0' && _item <= '9');
             static constexpr auto _skip = skip_all(':', name_item<N>.data);
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
-- 
2.43.0


From 9482507bfc429bec37e1e33a564fda4895b59a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 15/22] fix: nameof took 64 bit enum values modulo 2^32

---
 lib/h/ce/nameof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index b15826e..c1e8837 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -101,11 +101,11 @@ namespace ce
             if constexpr (H - L > 64)
             {
                 constexpr auto M = L + (H - L) / 2;
-                return unsigned(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
+                return uint64_t(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
             }
             else if constexpr (L < H)
             {
-                if (unsigned(n) == L)
+                if (uint64_t(n) == L)
                 {
                     using N = nameof<T, static_cast<T>(L)>;
                     if constexpr (N::is_known)
-- 
2.43.0


From 3c65b321bf06dfa4ba8d4ca51d4532f73fe5638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 16/22] fix: as_string read through a null C string

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 9fd52b9..4b6c89f 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1050,7 +1050,7 @@ namespace ce
         using U = ce::remove_cvref_t<T>;
         if constexpr (ce::is_same<U, char const*>::value || ce::is_same<U, char*>::value)
         {
-            return to_text_s(text, measure<T>::value, from);
+            return from == nullptr ? to_text(text, nullptr) : to_text_s(text, measure<T>::value, from);
         }
         else
         {
-- 
2.43.0


From 493c4de6a2186ce6b6d4a52a10587f8000ee8406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 17/22] fix: bind fields called io, IO or _n: the macro's own
 names hid them and the visitor visited itself

---
 lib/h/ce/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index 29df64e..b732201 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -129,5 +129,5 @@ namespace ce
 
 }
 
-#define CE_IO_BIND(TYPE, ...) template<> struct ce::reflection<TYPE> : TYPE { template<class IO> void io_self(IO& io) { static constexpr ce::names_t<sizeof(# __VA_ARGS__), CE_COUNTOF_ARGS(__VA_ARGS__)> _n{ #__VA_ARGS__}; io.items(_n.names, __VA_ARGS__); } }
+#define CE_IO_BIND(TYPE, ...) template<> struct ce::reflection<TYPE> : TYPE { template<class CE_IO_T> void io_self(CE_IO_T& ce_io_bind_io) { static constexpr ce::names_t<sizeof(# __VA_ARGS__), CE_COUNTOF_ARGS(__VA_ARGS__)> ce_io_bind_names{ #__VA_ARGS__}; ce_io_bind_io.items(ce_io_bind_names.names, __VA_ARGS__); } }
 #define CE_IO_AS(T, U) template<> struct ce::reflection<T> : T { template<class IO> void io_self(IO& io) { io.item(*(ce::identity_t<U>*)this); } };
-- 
2.43.0


From 8b7ae36039c584e00c7c43a10bf6316788257878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 18/22] fix: insert_edge from a corner of the world never finds
 its way around the corner

The faces around a corner of the world do not surround it, so turning around it
walked off the mesh (face 0) and never came back.
---
 lib/h/ce/cdt.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index b640cae..ea02159 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -510,6 +510,20 @@ namespace ce
             return e % 4 == 3 ? e & ~3 : e;
         }
 
+        // the next face around a vert, leaving by edge `e`...a corner of the world is not surrounded by faces so start over from its other side
+        index_t spin(size_t e) const
+        {
+            if (es[e].e != 0)
+                return es[e].e;
+
+            for (;; e = es[e].e)
+            {
+                e = e % 4 > 0 ? e - 1 : e + 2;
+                if (es[e].e == 0)
+                    return index_t(e);
+            }
+        }
+
         size_t locate_insertion_node(int64_t px, int64_t py, size_t hint) const
         {
 #if 0
@@ -893,7 +907,7 @@ namespace ce
                         pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
                     }
                     else
-                        pn = es[n + 2].e;
+                        pn = spin(n + 2);
                 }
                 else if (ps[1] == 0)
                 {
@@ -914,7 +928,7 @@ namespace ce
                         pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
                     }
                     else
-                        pn = es[n + 0].e;
+                        pn = spin(n + 0);
                 }
                 else
                 {
@@ -937,7 +951,7 @@ namespace ce
                         pn = locate_insertion_node(px, py, pn); // re-locate...flips may have changed things
                     }
                     else
-                        pn = es[n + 1].e;
+                        pn = spin(n + 1);
                 }
             }
         }
-- 
2.43.0


From d603612834838cee046cd0f60f27235c3c55221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 19/22] fix: a face with two sides on the boundary of the world
 fails its own validation

Both of those sides have no twin (0), as have those of the faces reset starts with.
---
 lib/h/ce/cdt.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index ea02159..51627a4 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -289,9 +289,9 @@ namespace ce
             CE_ASSERT(f.p1 != f.p2);
             CE_ASSERT(f.p2 != f.p0);
 
-            CE_ASSERT(f.e0 != f.e1);
-            CE_ASSERT(f.e1 != f.e2);
-            CE_ASSERT(f.e2 != f.e0);
+            CE_ASSERT(f.e0 != f.e1 || f.e0 == 0);
+            CE_ASSERT(f.e1 != f.e2 || f.e1 == 0);
+            CE_ASSERT(f.e2 != f.e0 || f.e2 == 0);
 
             CE_ASSERT(es[es[f.e0].e].e == f.e0);
             CE_ASSERT(es[es[f.e1].e].e == f.e1);
-- 
2.43.0


From 5c61d368fdae17079482cef792d4f750f26b68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 20/22] fix: muldiv with 64 bit factors keeps all of their
 bits, so intersect is right for small segments too

---
 lib/h/ce/math.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e7cbc48..a052bc4 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -81,15 +81,16 @@ namespace ce
 #endif
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int64_t n, int64_t d)
         {
-            int64_t d16 = d >> 16;
-
-            if (d16 == 0)
+            if (d == 0)
                 return b;
 
-            int64_t t = (n << 16) / d16;
-
-            //int64_t t = msvc::xdiv(msvc::xmul(n, 0x0000000100000000), d);
-            return { int32_t((b.x * t) >> 32), int32_t((b.y * t) >> 32) };
+#ifdef _MSC_VER
+            // |r| < |d|, so both 128 by 64 bit quotients fit
+            int64_t q = n / d, r = n % d;
+            return { int32_t(b.x * q + msvc::xdiv(msvc::xmul(b.x, r), d)), int32_t(b.y * q + msvc::xdiv(msvc::xmul(b.y, r), d)) };
+#else
+            return { int32_t(__int128(b.x) * n / d), int32_t(__int128(b.y) * n / d) };
+#endif
         }
 
         inline vec2<int32_t> muldiv(vec2<int32_t> const& b, int32_t n, int32_t d)
-- 
2.43.0


From f4f9b0c4cf16882a4002c8e1d7d7588f73c0cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 21/22] fix: get<N> of an aggregate finds the helper instead of
 itself

---
 lib/h/ce/ce.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 4b6c89f..7d5d19b 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -419,10 +419,10 @@ namespace ce
         template<size_t N, class T, class...Ts> auto get(items<size_t, N>, T, Ts...ts) { return get(items<size_t, N - 1>{}, ts...); }
 
         template<class T, size_t N, size_t = arrity_count<T>::value> struct crack { static detail::any get(T) = delete; };
-        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return get(items<size_t, N>{}, _0); } };
-        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return get(items<size_t, N>{}, _0, _1); } };
-        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return get(items<size_t, N>{}, _0, _1, _2); } };
-        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return get(items<size_t, N>{}, _0, _1, _2, _3); } };
+        template<class T, size_t N> struct crack<T, N, 1> { static auto get(T t) { auto [_0] = t; return detail::get(items<size_t, N>{}, _0); } };
+        template<class T, size_t N> struct crack<T, N, 2> { static auto get(T t) { auto [_0, _1] = t; return detail::get(items<size_t, N>{}, _0, _1); } };
+        template<class T, size_t N> struct crack<T, N, 3> { static auto get(T t) { auto [_0, _1, _2] = t; return detail::get(items<size_t, N>{}, _0, _1, _2); } };
+        template<class T, size_t N> struct crack<T, N, 4> { static auto get(T t) { auto [_0, _1, _2, _3] = t; return detail::get(items<size_t, N>{}, _0, _1, _2, _3); } };
 #else
         template<class T, size_t N> struct crack { static detail::any get(T) = delete; };
         template<class T> struct crack<T, 0> { static auto get(T t) { return t._0; } };
-- 
2.43.0


From bd54237277b2cb5e2e8174a9bb053ec9a2f234d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 22/22] fix: text of arrays of arrays and of vecs (was their
 address)

---
 lib/h/ce/ce.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 7d5d19b..c6ae91e 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -990,6 +990,10 @@ namespace ce
         }
     }
 
+    // to_text_n needs to see these for nested arrays and vecs
+    template<size_t N, class T> char* to_text(char text[], T const (&values)[N]);
+    template<size_t N, class...U> char* to_text(char text[], vec<N, U...> const& value);
+
     template<class T> char* to_text_n(char text[], size_t n, T const values[])
     {
         text = to_text(text, '[');
-- 
2.43.0

