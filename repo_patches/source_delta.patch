From 147dbed3f29ae6439503d5909749b3f4937a761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 01/53] fix: refuse JSON numbers out of the range of the target
 type on every input path

---
 src/cxon/lang/common/cio/numeric.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 720670d..eb27023 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -232,8 +232,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::integral_invalid;
                         default: {
-                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::integral_invalid);
                         }
                     }
             }
@@ -246,8 +246,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::integral_invalid;
                 if (i - b == 1)
                     return t = *b - '0', true;
-                auto const r = charconv::from_chars(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = charconv::from_chars(b, i, t);
+                return r.ec == std::errc() || (i = b, cx/X::read_error::integral_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
@@ -312,8 +312,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::floating_point_invalid;
                         default: {
-                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::floating_point_invalid);
                         }
                     }
             }
@@ -326,8 +326,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::floating_point_invalid;
                 if (i - b == 1)
                     return t = T(*b - '0'), true;
-                auto const r = from_chars_<X>(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = from_chars_<X>(b, i, t);
+                return r.ec == std::errc() || (i = b, cx/X::read_error::floating_point_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
-- 
2.43.0


From b660ed77b46a6ca6bd8ed049bb98dd74ae73b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 02/53] fix: keep the fall-back number conversion inside its
 range, as <charconv> does

---
 src/cxon/lang/common/charconv.hxx | 37 +++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/cxon/lang/common/charconv.hxx b/src/cxon/lang/common/charconv.hxx
index 85a2999..2066fd7 100644
--- a/src/cxon/lang/common/charconv.hxx
+++ b/src/cxon/lang/common/charconv.hxx
@@ -11,9 +11,11 @@
 #include <cstdlib>
 #include <cstdio>
 #include <cerrno>
+#include <cmath> // isinf
 
 #include <algorithm> // reverse
 #include <limits>
+#include <string>
 #include <type_traits>
 
 #ifdef CXON_USE_BOOST_CHARCONV
@@ -71,20 +73,37 @@ namespace cxon { namespace charconv { namespace imp {
                 return c == '+' || c == '-';
             }
 
+        // strto* need null-terminated input and, unlike std::from_chars, skip white-spaces and accept hexadecimal floats
+        inline std::string token_(const char* first, const char* last) {
+            auto const b = first;
+            for ( ; first != last; ++first) {
+                char const c = *first;
+                if (!(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'z' && c != 'x') && !(c >= 'A' && c <= 'Z' && c != 'X') && c != '+' && c != '-' && c != '.')
+                    break;
+            }
+            return { b, first };
+        }
+
         template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, int base) noexcept {
+            inline from_chars_result number_from_chars_(const char* first, const char* last, Cv convert, T& value, int base) noexcept {
                 CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
+                    if (first == last || is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
+                auto const s = token_(first, last);
                 char* end;
-                errno = 0; auto const v = clamp_<T>(convert(first, &end, base));
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+                errno = 0; auto const v = clamp_<T>(convert(s.c_str(), &end, base));
+                auto const p = first + (end - s.c_str());
+                return { p, p != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
             }
         template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, chars_format) noexcept {
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
+            inline from_chars_result number_from_chars_(const char* first, const char* last, Cv convert, T& value, chars_format) noexcept {
+                    if (first == last || is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
+                auto const s = token_(first, last);
                 char* end;
-                errno = 0; auto const v = convert(first, &end);
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+                errno = 0; auto const v = convert(s.c_str(), &end);
+                auto const p = first + (end - s.c_str());
+                    if (p == first) return { first, std::errc::invalid_argument };
+                    if (errno == ERANGE && (v == 0 || std::isinf(v))) return { p, std::errc::result_out_of_range };
+                return { p, (value = v, std::errc{}) };
             }
 
     }
@@ -132,7 +151,7 @@ namespace cxon { namespace charconv { namespace imp {
             inline auto itoa_(char* b, T t, int base) noexcept -> typename std::enable_if<std::is_signed<T>::value, unsigned>::type {
                 using U = typename std::make_unsigned<T>::type;
                 return t < 0 ?
-                    *b = '-', itoa_<U>(++b, -t, base) + 1 :
+                    *b = '-', itoa_<U>(++b, U(0) - U(t), base) + 1 :
                               itoa_<U>(  b,  t, base)
                 ;
             }
-- 
2.43.0


From 12ad991af78310dc994dcc7dc344c34afb7d0f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 03/53] fix: refuse unpaired low surrogate escapes in JSON
 strings

---
 src/cxon/lang/common/cio/char.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index a38592c..8831836 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -140,8 +140,9 @@ namespace cxon { namespace cio { namespace chr {
         inline char32_t esc_to_utf32(II& i, II e, Cx& cx) {
             char32_t const c32 = imp::esc_to_utf32_<X>(i, e);
                 if (c32 == bad_utf32) return cx/X::read_error::escape_invalid, bad_utf32;
-            if (c32 < 0xD800 || c32 > 0xDBFF) return c32;
+            if (c32 < 0xD800 || c32 > 0xDFFF) return c32;
             // surrogate
+                if (c32 > 0xDBFF) return cx/X::read_error::surrogate_invalid, bad_utf32;
                 if (peek(i, e) != '\\') return cx/X::read_error::surrogate_invalid, bad_utf32;
             char32_t const s32 = (++i, imp::esc_to_utf32_<X>(i, e));
                 if (s32 < 0xDC00 || s32 > 0xDFFF)
-- 
2.43.0


From e9f28c9bcde29f2a9778f87eae58d4c6f6edbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 04/53] fix: do not read past the end of the input when
 decoding truncated UTF-8

---
 src/cxon/lang/common/cio/char.hxx   | 8 ++------
 src/cxon/lang/common/cio/string.hxx | 2 +-
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 8831836..751efc5 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -153,13 +153,9 @@ namespace cxon { namespace cio { namespace chr {
     namespace imp {
 
         template <typename II>
-            inline auto head_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return next(i, e); }
+            inline unsigned char head_(II& i, II e) { return next(i, e); }
         template <typename II>
-            inline auto head_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
-        template <typename II>
-            inline auto tail_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return i != e ? peek(++i, e) : '\xFF'; }
-        template <typename II>
-            inline auto tail_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
+            inline unsigned char tail_(II& i, II e) { return i != e ? peek(++i, e) : '\xFF'; }
 
 #       define CXON_EXPECT(c) if (!(c)) return cx/X::read_error::character_invalid, bad_utf32
 
diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 50e37cc..88ebf60 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -137,7 +137,7 @@ namespace cxon { namespace cio { namespace str {
                                         auto bs = chr::utf8_check(i, e);
                                         if (bs == 0)
                                             return cx/X::read_error::character_invalid;
-                                        while ((bs = chr::utf8_check(i += bs, e)))
+                                        while ((i += bs) != e && (bs = chr::utf8_check(i, e)))
                                             ;
                                         --i;
                                     }
-- 
2.43.0


From 126630c015a34f396cb914022dacfcbc6167083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 05/53] fix: refuse trailing separators in JSON objects read
 into classes unless allowed

---
 src/cxon/lang/common/cio/class.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 396079c..08ace53 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -313,11 +313,13 @@ namespace cxon { namespace cio { namespace cls {
                 int st[sizeof...(Fs)];
                     CXON_IF_CONSTEXPR (X::assume_unique_object_keys)
                         std::fill_n(st, sizeof...(Fs), 0);
+                bool first = true;
                 for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; ; ) {
                     if (!consume<X>(i, e, cx))
                         return false;
-                    if (peek(i, e) == X::map::end)
+                    if (peek(i, e) == X::map::end && (first || X::allow_trailing_separators))
                         return ++i, true;
+                    first = false;
                     II const o = i;
                         if (!read_map_key<X>(id, i, e, cx))
                             return rewind(i, o), false;
-- 
2.43.0


From e0899897e69bcdeaf7434e59b27c9fa9fcdc053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 06/53] fix: read only JSON numbers into dynamic values

---
 src/cxon/lib/node.json.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.json.hxx b/src/cxon/lib/node.json.hxx
index 4346189..9b98d3a 100644
--- a/src/cxon/lib/node.json.hxx
+++ b/src/cxon/lib/node.json.hxx
@@ -152,7 +152,7 @@ namespace cxon {
                                 CXON_STORE(c);
                             }
                     }
-                    else if (c == 'I' || c == 'N') {
+                    else if (X::allow_javascript_nans && (c == 'I' || c == 'N')) {
                         return read_value<X>(v, i, e, cx) && (!s || (v = -v, true));
                     }
                     else
@@ -169,6 +169,8 @@ namespace cxon {
                     if (c == '.') {
                         CXON_STORE('.');
                         r = 1; c = cio::next(i, e);
+                        if (c < '0' || c > '9')
+                            return cx/X::read_error::floating_point_invalid;
                         for ( ; c >= '0' && c <= '9'; c = cio::next(i, e)) {
                             CXON_STORE(c);
                         }
@@ -181,6 +183,8 @@ namespace cxon {
                             CXON_STORE(c);
                             c = cio::next(i, e);
                         }
+                        if (c < '0' || c > '9')
+                            return cx/X::read_error::floating_point_invalid;
                         for ( ; c >= '0' && c <= '9'; c = cio::next(i, e)) {
                             CXON_STORE(c);
                         }
-- 
2.43.0


From 6ab8ea6a879e241ad22871e96ede797372d81e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 07/53] fix: a JSON character must be a string of exactly one
 character

---
 src/cxon/lang/json/fundamental.hxx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 9869777..2460cd5 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -91,13 +91,22 @@ namespace cxon { // bool
 
 namespace cxon { // character
 
+    namespace imp {
+        template <typename X, typename II, typename Cx>
+            inline char32_t char_read_(II& i, II e, Cx& cx) {
+                if (i == e || (!cio::is_key_context<X>::value && *i == X::string::del) || (X::validate_string_escapes && cio::chr::is<X>::ctrl(*i)))
+                    return cx/json::read_error::unexpected, cio::chr::bad_utf32;
+                return cio::chr::utf8_to_utf32<X>(i, e, cx);
+            }
+    }
+
     template <typename X, typename T>
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_8<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = char(c32), true);
@@ -109,7 +118,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
@@ -121,7 +130,7 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                     return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
                 }
-- 
2.43.0


From 82ae6231f82cc334a7f2622a99317444861d79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 08/53] fix: read JSON strings through forward iterators that
 are not random-access

---
 src/cxon/lang/common/cio/string.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 88ebf60..cb9ebc6 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -73,7 +73,7 @@ namespace cxon { namespace cio { namespace str {
 
         template <typename X, typename C, typename II, typename Cx, typename T = typename C::value_type>
             inline auto string_read_tail_(C& c, II& i, II e, Cx& cx)
-                -> enable_if_t<!chr::is_char_8<T>::value || !is_forward_iterator<II>::value, bool>
+                -> enable_if_t<!chr::is_char_8<T>::value || !is_random_access_iterator<II>::value, bool>
             {
                 constexpr bool HANDLE_ESCAPES = is_unquoted_key_context<X>::value || !X::assume_no_escapes;
                 while (i != e) {
@@ -171,7 +171,7 @@ namespace cxon { namespace cio { namespace str {
         }
         template <typename X, typename C, typename II, typename Cx, typename T = typename C::value_type>
             inline auto string_read_tail_(C& c, II& i, II e, Cx& cx)
-                -> enable_if_t< chr::is_char_8<T>::value &&  is_forward_iterator<II>::value, bool>
+                -> enable_if_t< chr::is_char_8<T>::value &&  is_random_access_iterator<II>::value, bool>
             {
                 return imp::string_read_tail_<X>(c, i, e, cx);
             }
-- 
2.43.0


From 519761b5ca9225bf3a6778067f122a77685f9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 09/53] fix: reading null into a character pointer makes it
 null

---
 src/cxon/lang/common/cio/string.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index cb9ebc6..c2acaf6 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -207,7 +207,7 @@ namespace cxon { namespace cio { namespace str {
             if (!consume<X>(i, e, cx))
                 return false;
             if (peek(i, e) == *X::id::nil && consume<X>(X::id::nil, i, e))
-                return true;
+                return t = nullptr, true;
             auto c = cxon::cnt::make_pointer_container<X, T>(cx);
             return string_read<X>(c, i, e, cx) && (c.push_back({}), t = c.release(), true);
         }
-- 
2.43.0


From 766a907d357eb5bf7e210917617adfc55339c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 10/53] fix: refuse to write UTF-16 text that ends in or
 contains an unpaired high surrogate

---
 src/cxon/lang/common/cio/char.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 751efc5..2ee2c7f 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -586,8 +586,9 @@ namespace cxon { namespace cio { namespace chr {
                         static bool value_(O& o, const char16_t*& i, const char16_t* e, Cx& cx) {
                             char32_t c32 = *i;
                                 if (c32 >= 0xD800 && c32 <= 0xDBFF) { // surrogate
-                                    ++i;                        CXON_ASSERT(i != e, "invalid surrogate");
-                                    char32_t const s32 = *i;    CXON_ASSERT(s32 >= 0xDC00 && s32 <= 0xDFFF, "invalid surrogate");
+                                    if (e - i < 2 || i[1] < 0xDC00 || i[1] > 0xDFFF)
+                                        return cx/X::write_error::argument_invalid;
+                                    char32_t const s32 = *++i;
                                     c32 = char32_t(0x10000 + (((c32 - 0xD800) << 10) | (s32 - 0xDC00)));
                                 }
                             return encode_<X, char32_t>::value(o, c32, cx);
-- 
2.43.0


From acc35188e0e3ed4ccde2a9dcf210108ea09a2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 11/53] fix: strict integers from contiguous buffers do not
 read past the end or accept leading zeros after a sign

---
 src/cxon/lang/common/cio/numeric.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index eb27023..1a2d6a0 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -60,7 +60,7 @@ namespace cxon { namespace cio { namespace num { // read
             inline auto number_consume_(const char*& i, const char* e)
                 -> enable_if_t<std::is_integral<T>::value, int>
             {
-                char c = *i;
+                char c = peek(i, e);
                     if (is_sign_<T>(c)) goto trap_neg;
                 // trap_pos
                     if (c == '0') return ++i, 1;
@@ -69,6 +69,7 @@ namespace cxon { namespace cio { namespace num { // read
                     goto trap_end;
                 trap_neg:
                     c = next(i, e);
+                    if (c == '0') return ++i, 1;
                        if (!chr::is<X>::digit10(c)) return 0;
                     while ( chr::is<X>::digit10(c)) c = next(i, e);
                 trap_end:
-- 
2.43.0


From 97e96130847bee58f98c6ce277ea52188c08ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:51 +0000
Subject: [PATCH 12/53] fix: no white space inside the quotes of a JSON
 character

---
 src/cxon/lang/json/fundamental.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 2460cd5..2bc7c55 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -109,7 +109,7 @@ namespace cxon { // character
                             char32_t const c32 = imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = char(c32), true);
+                    return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = char(c32), true);
                 }
             };
     template <typename X, typename T>
@@ -121,7 +121,7 @@ namespace cxon { // character
                             char32_t const c32 = imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = T(c32), true);
                 }
         };
     template <typename X, typename T>
@@ -132,7 +132,7 @@ namespace cxon { // character
                         II const o = i;
                             char32_t const c32 = imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    return (cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected) && (t = T(c32), true);
                 }
         };
 
-- 
2.43.0


From c4bc853125d826c0a8482929e780f4da74870b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:21 +0000
Subject: [PATCH 13/53] fix: no white space between the last bit and the quote
 of a JSON bitset

---
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx | 2 +-
 src/cxon/lang/json/lib/std/bitset.hxx           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index 275d243..4a3d333 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -45,7 +45,7 @@ namespace cxon {
                 static bool value(boost::dynamic_bitset<B, A>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/bitset.hxx b/src/cxon/lang/json/lib/std/bitset.hxx
index 1e0938c..cf401eb 100644
--- a/src/cxon/lang/json/lib/std/bitset.hxx
+++ b/src/cxon/lang/json/lib/std/bitset.hxx
@@ -45,7 +45,7 @@ namespace cxon {
                 static bool value(std::bitset<N>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
-- 
2.43.0


From 3cc8c7638987288d0f0b052e917cf16869e46eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 14/53] fix: JSON bit strings of more than 128 bits and
 non-empty targets for boost::dynamic_bitset

---
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index 4a3d333..3d2ce41 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -17,10 +17,10 @@ namespace cxon { namespace json { namespace imp {
             using st = typename BS::size_type;
             constexpr st u = sizeof(typename BS::block_type) * 8;
             st p = u;
-            t.resize(t.size() + u);
+            t.clear(), t.resize(u);
             for ( ; i != e && (*i == '1' || *i == '0'); ++i) {
                 if (p == 0)
-                    t.resize(t.size() * 2), t <<= u, p = u;
+                    p = t.size(), t.resize(p * 2), t <<= p;
                 --p;
                 if (*i == '1') t.set(p);
             }
-- 
2.43.0


From f96cb349091bf8ad36f3175e61ab9bd040bf41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH 15/53] fix: only JSON white space between the tokens read into
 typed targets, as for dynamic values

---
 src/cxon/lang/common/cio/chcls.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/chcls.hxx b/src/cxon/lang/common/cio/chcls.hxx
index b327420..f24f6ec 100644
--- a/src/cxon/lang/common/cio/chcls.hxx
+++ b/src/cxon/lang/common/cio/chcls.hxx
@@ -62,7 +62,7 @@ namespace cxon { namespace cio { namespace chr { // character classes
         struct is {
             static bool ctrl   (char c) noexcept { return (unsigned char)c < 0x20; }
             static bool real   (char c) noexcept { return (unsigned char)c > 0x1F; }
-            static bool space  (char c) noexcept { return CXSP & is_x_[(unsigned char)c]; }
+            static bool space  (char c) noexcept { return JSSP & is_x_[(unsigned char)c]; }
             static bool digit8 (char c) noexcept { return DGOC & is_x_[(unsigned char)c]; }
             static bool digit10(char c) noexcept { return DGDC & is_x_[(unsigned char)c]; }
             static bool digit16(char c) noexcept { return DGHX & is_x_[(unsigned char)c]; }
-- 
2.43.0


From 23a0afd00dfeccb11b64668f62d0266dc2a31ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:52 +0000
Subject: [PATCH 16/53] fix: a null-like prefix does not make a JSON string
 acceptable for a character pointer

---
 src/cxon/lang/common/cio/string.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index c2acaf6..53e26a4 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -206,8 +206,10 @@ namespace cxon { namespace cio { namespace str {
         {
             if (!consume<X>(i, e, cx))
                 return false;
-            if (peek(i, e) == *X::id::nil && consume<X>(X::id::nil, i, e))
-                return t = nullptr, true;
+            if (peek(i, e) == *X::id::nil)
+                return  (consume<X>(X::id::nil, i, e) && (t = nullptr, true)) ||
+                        cx/X::read_error::unexpected
+                ;
             auto c = cxon::cnt::make_pointer_container<X, T>(cx);
             return string_read<X>(c, i, e, cx) && (c.push_back({}), t = c.release(), true);
         }
-- 
2.43.0


From 3848418036eeec0a1b6a83dcd0d5e938fe8d8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:52 +0000
Subject: [PATCH 17/53] fix: object keys and enumerator names match class
 members by their full length

---
 src/cxon/lang/common/cio/class.hxx | 52 +++++++++++++++---------------
 src/cxon/lang/common/cio/enum.hxx  |  6 ++--
 src/cxon/lang/common/cio/key.hxx   | 27 +++++++++++++++-
 3 files changed, 55 insertions(+), 30 deletions(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 08ace53..522c292 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -244,20 +244,20 @@ namespace cxon { namespace cio { namespace cls {
 
                 template <typename X, std::size_t N, std::size_t L>
                     struct read_ {
-                        template <typename T, typename Fs, typename II, typename Cx, typename Y = X>
-                            static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
+                        template <typename T, typename N_, typename Fs, typename II, typename Cx, typename Y = X>
+                            static auto field(T& t, const N_& name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t< Y::assume_unique_object_keys, bool>
                             {
-                                return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return st[N] == 0 && name.is(std::get<N>(fs).name, std::get<N>(fs).nale) ?
                                     (st[N] = 1, read_field_<Y>(t, std::get<N>(fs), i, e, cx)) :
                                     read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
                                 ;
                             }
-                        template <typename T, typename Fs, typename II, typename Cx, typename Y = X>
-                            static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
+                        template <typename T, typename N_, typename Fs, typename II, typename Cx, typename Y = X>
+                            static auto field(T& t, const N_& name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t<!Y::assume_unique_object_keys, bool>
                             {
-                                return std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return name.is(std::get<N>(fs).name, std::get<N>(fs).nale) ?
                                     read_field_<Y>(t, std::get<N>(fs), i, e, cx) :
                                     read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
                                 ;
@@ -265,41 +265,41 @@ namespace cxon { namespace cio { namespace cls {
                     };
                 template <typename X, std::size_t N>
                     struct read_<X, N, N> {
-                        template <typename T, typename Fs, typename II, typename Cx>
-                            static constexpr bool field(T&, const char*, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
+                        template <typename T, typename N_, typename Fs, typename II, typename Cx>
+                            static constexpr bool field(T&, const N_&, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
                                 return false;
                             }
                     };
 
             }
-            template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N>
-                inline bool read_field_(option<0>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+            template <typename X, typename T, std::size_t L, typename Fs, typename II, typename Cx, std::size_t N>
+                inline bool read_field_(option<0>, T& t, const key::name<L>& name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
                     //CXON_IF_CONSTEXPR (has_traits<X, ordered_keys_traits>::value && N > 8)
                     //    return imp::read_ordered_<X, 0, N - 1>::field(t, name, fs, st, i, e, cx);
                     return imp::read_<X, 0, N>::field(t, name, fs, st, i, e, cx);
                 }
 
-            template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N> // read_field in cxon namespace
-                inline auto read_field_(option<1>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
-                    -> decltype(read_field<X>(name, 0, i, e, cx), bool())
+            template <typename X, typename T, std::size_t L, typename Fs, typename II, typename Cx, std::size_t N> // read_field in cxon namespace
+                inline auto read_field_(option<1>, T& t, const key::name<L>& name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
+                    -> decltype(read_field<X>(name.data, 0, i, e, cx), bool())
                 {   CXON_ASSERT(!X::assume_unique_object_keys, "not supported");
-                    return read_field<X>(name, std::char_traits<char>::length(name), i, e, cx);
+                    return read_field<X>(name.data, name.size, i, e, cx);
                 }
-            template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N> // read_field static method of T
-                inline auto read_field_(option<2>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
-                    -> decltype(T::template read_field<X>(t, name, 0, i, e, cx), bool())
+            template <typename X, typename T, std::size_t L, typename Fs, typename II, typename Cx, std::size_t N> // read_field static method of T
+                inline auto read_field_(option<2>, T& t, const key::name<L>& name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
+                    -> decltype(T::template read_field<X>(t, name.data, 0, i, e, cx), bool())
                 {   CXON_ASSERT(!X::assume_unique_object_keys, "not supported");
-                    return T::template read_field<X>(t, name, std::char_traits<char>::length(name), i, e, cx);
+                    return T::template read_field<X>(t, name.data, name.size, i, e, cx);
                 }
-            template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N> // read_field method of T
-                inline auto read_field_(option<3>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
-                    -> decltype(t.template read_field<X>(name, 0, i, e, cx), bool())
+            template <typename X, typename T, std::size_t L, typename Fs, typename II, typename Cx, std::size_t N> // read_field method of T
+                inline auto read_field_(option<3>, T& t, const key::name<L>& name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
+                    -> decltype(t.template read_field<X>(name.data, 0, i, e, cx), bool())
                 {   CXON_ASSERT(!X::assume_unique_object_keys, "not supported");
-                    return t.template read_field<X>(name, std::char_traits<char>::length(name), i, e, cx);
+                    return t.template read_field<X>(name.data, name.size, i, e, cx);
                 }
         }
-        template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N>
-            inline bool read_field_(T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+        template <typename X, typename T, std::size_t L, typename Fs, typename II, typename Cx, std::size_t N>
+            inline bool read_field_(T& t, const key::name<L>& name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
                 using Y = unbind_traits_t<X, cio::key::simple_traits>;
                 return imp::read_field_<Y>(option<3>(), t, name, fs, st, i, e, cx);
             }
@@ -314,7 +314,7 @@ namespace cxon { namespace cio { namespace cls {
                     CXON_IF_CONSTEXPR (X::assume_unique_object_keys)
                         std::fill_n(st, sizeof...(Fs), 0);
                 bool first = true;
-                for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; ; ) {
+                for (key::name<ids_len_max::constant<napa_type<Cx>>(64)> id; ; ) {
                     if (!consume<X>(i, e, cx))
                         return false;
                     if (peek(i, e) == X::map::end && (first || X::allow_trailing_separators))
@@ -340,7 +340,7 @@ namespace cxon { namespace cio { namespace cls {
                 int st[sizeof...(Fs)];
                     CXON_IF_CONSTEXPR (X::assume_unique_object_keys)
                         std::fill_n(st, sizeof...(Fs), 0);
-                for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; i != e && *i; ) {
+                for (key::name<ids_len_max::constant<napa_type<Cx>>(64)> id; i != e && *i; ) {
                     II const o = i;
                         if (!read_map_key<X>(id, i, e, cx))
                             return false;
diff --git a/src/cxon/lang/common/cio/enum.hxx b/src/cxon/lang/common/cio/enum.hxx
index cad694f..481675a 100644
--- a/src/cxon/lang/common/cio/enum.hxx
+++ b/src/cxon/lang/common/cio/enum.hxx
@@ -6,7 +6,7 @@
 #ifndef CXON_CIO_ENUM_HXX_
 #define CXON_CIO_ENUM_HXX_
 
-#include "cio.hxx"
+#include "key.hxx"
 
 // interface ///////////////////////////////////////////////////////////////////
 
@@ -49,10 +49,10 @@ namespace cxon { namespace cio { namespace enm {
             if (!consume<X>(i, e, cx))
                 return false;
             II const o = i;
-            char id[ids_len_max::constant<napa_type<Cx>>(64)];
+            key::name<ids_len_max::constant<napa_type<Cx>>(64)> id;
                 if (!cxon::read_value<X>(id, i, e, cx))
                     return false;
-            for ( ; f != l && std::char_traits<char>::compare(f->name, id, f->nale + 1) != 0; ++f)
+            for ( ; f != l && !id.is(f->name, f->nale); ++f)
                 ;
             return  (f != l && (t = f->value, true)) ||
                     (rewind(i, o), cx/X::read_error::unexpected);
diff --git a/src/cxon/lang/common/cio/key.hxx b/src/cxon/lang/common/cio/key.hxx
index 4aa6cec..b1a6c2e 100644
--- a/src/cxon/lang/common/cio/key.hxx
+++ b/src/cxon/lang/common/cio/key.hxx
@@ -6,7 +6,7 @@
 #ifndef CXON_CIO_KEY_HXX_
 #define CXON_CIO_KEY_HXX_
 
-#include "cio.hxx"
+#include "string.hxx"
 
 // interface ///////////////////////////////////////////////////////////////////
 
@@ -28,6 +28,17 @@ namespace cxon { namespace cio { // key read/write helpers: <key>:
 
 }}
 
+namespace cxon { namespace cio { namespace key { // registered names: <key>
+
+    template <std::size_t N>
+        struct name;
+
+}}
+
+namespace cio { // type traits
+    template <std::size_t N> struct is_string<key::name<N>> : std::true_type {};
+}}
+
 namespace cxon { namespace cio { namespace key { // key read/write extension points: <key>
 
     template <typename X, typename T>
@@ -85,6 +96,20 @@ namespace cxon { namespace cio {
 
 namespace cxon { namespace cio { namespace key {
 
+    template <std::size_t N>
+        struct name { // a key of at most N characters, zero-terminated
+            char        data[N + 1];
+            std::size_t size;
+            bool is(const char* s, std::size_t n) const noexcept {
+                return n == size && std::char_traits<char>::compare(s, data, n) == 0;
+            }
+            template <typename X, typename II, typename Cx>
+                bool read_value(II& i, II e, Cx& cx) {
+                    auto c = cxon::cnt::make_range_container(data, data + N);
+                    return str::string_read<X>(c, i, e, cx) && (data[size = c.size()] = '\0', true);
+                }
+        };
+
     namespace imp {
         template <typename X, typename T>
             struct needs_quotes : bool_constant<!is_unquoted_key_context<X>::value && !is_string<T>::value && X::quote_unquoted_keys && !X::unquote_quoted_keys> {};
-- 
2.43.0


From 92842130aa059fee66d40e4a2ccc75b4cf1f2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:05 +0000
Subject: [PATCH 18/53] fix: skipping an ignored value stops at the end of the
 input, at any separator and honours comments

---
 src/cxon/lang/common/cio/value.hxx | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 037578c..24f0411 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -31,10 +31,27 @@ namespace cxon { namespace cio { namespace val {
 
     namespace imp {
 
+        template <typename X>
+            struct comment_ { // is the next character part of a comment?
+                bool operator ()(char c) noexcept {
+                    if (s != '\0') {
+                        if (s == '/' ? c == '\n' : (p == '*' && c == '/')) s = p = '\0';
+                        else                                              p = c;
+                        return true;
+                    }
+                    if (X::allow_comments && p == '/' && (c == '/' || c == '*'))
+                        return s = c, p = '\0', true;
+                    return p = c, false;
+                }
+            private:
+                char s = '\0', p = '\0'; // kind, previous character
+            };
+
         template <typename X>
             struct value_ {
                 template <typename O, typename II>
                     static bool skip(O& o, II& i, II e) {
+                        if (i == e)                 return false;
                         if (*i == X::map::end)      return false;
                         CXON_IF_CONSTEXPR (X::list::end != X::map::end)
                             if (*i == X::list::end) return false;
@@ -53,7 +70,12 @@ namespace cxon { namespace cio { namespace val {
                         static bool skip_cnt_(O& o, II& i, II e) {
                             if (!poke(o, *i)) return false;
                             unsigned r = 0;
+                            comment_<X> comment;
                             for (++i; i != e; ++i) {
+                                if (comment(*i)) {
+                                    CXON_POKE(o, *i);
+                                    continue;
+                                }
                                 switch (*i) {
                                     case CB:                CXON_POKE(o, *i);
                                                             ++r; break;
@@ -94,9 +116,13 @@ namespace cxon { namespace cio { namespace val {
                                 if (*i == X::map::sep)      return true;
                                 CXON_IF_CONSTEXPR (X::list::sep != X::map::sep)
                                     if (*i == X::list::sep) return true;
+                                CXON_IF_CONSTEXPR (X::map::sep == ' ')
+                                    if (chr::is<X>::space(*i)) return true;
+                                CXON_IF_CONSTEXPR (X::allow_comments)
+                                    if (*i == '/')          return true;
                                 CXON_POKE(o, *i);
                             }
-                            return false;
+                            return true;
                         }
 #               undef CXON_POKE
             };
-- 
2.43.0


From 7dd5dd28d130c6efaecc5a23fd5b74727c598e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:53 +0000
Subject: [PATCH 19/53] fix: escapes in the keys of classes are read however
 the input is delivered

---
 src/cxon/lang/common/cio/string.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 53e26a4..e12cbbf 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -165,6 +165,11 @@ namespace cxon { namespace cio { namespace str {
                                     return delim_en_read<X>(i, e);
                                 return rewind(i, l), cx/X::read_error::overflow;
                             }
+                            if (*i == '\\') {
+                                if (l != i && !cxon::cnt::append(c, l, i))
+                                    return rewind(i, l), cx/X::read_error::overflow;
+                                return string_read_tail_<unbind_traits_t<X, str::raw_traits>>(c, i, e, cx);
+                            }
                         }
                     return cx/X::read_error::unexpected;
                 }
-- 
2.43.0


From 85c690d7f8c13d1f8328cfc22d75eb20037e3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:46 +0000
Subject: [PATCH 20/53] fix: room for floating-point texts of more than the
 default precision

---
 src/cxon/lang/common/cio/numeric.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 1a2d6a0..0a7aac4 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -380,8 +380,9 @@ namespace cxon { namespace cio { namespace num { // write
         template <typename X, typename T, typename O, typename Cx>
             inline auto number_write_(O& o, T t, Cx& cx) -> enable_if_t<std::is_floating_point<T>::value, bool> {
                 if (std::isfinite(t)) {
-                    char s[max_size_<T>::value + 1]; // +1 because of the fall-back implementation (snprintf)
-                        constexpr auto fpp = fp_precision::constant<napa_type<Cx>>(std::numeric_limits<T>::max_digits10);
+                    constexpr auto fpp = fp_precision::constant<napa_type<Cx>>(std::numeric_limits<T>::max_digits10);
+                    constexpr auto xpp = fpp > std::numeric_limits<T>::max_digits10 ? fpp - std::numeric_limits<T>::max_digits10 : 0;
+                    char s[max_size_<T>::value + xpp + 1]; // +1 because of the fall-back implementation (snprintf)
                         auto const r = charconv::to_chars(std::begin(s), std::end(s), t, fpp); CXON_ASSERT(r.ec == std::errc(), "unexpected");
                     return poke<X>(o, s, r.ptr, cx);
                 }
-- 
2.43.0


From 754cc069a47a3aae4aaa8ad75a3833bf7073511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:38 +0000
Subject: [PATCH 21/53] fix: non-finite map keys are read back

---
 src/cxon/lang/common/cio/numeric.hxx | 30 +++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 0a7aac4..54b241e 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -87,7 +87,7 @@ namespace cxon { namespace cio { namespace num { // read
 #                       pragma GCC diagnostic ignored "-Warray-bounds"
 #                       pragma GCC diagnostic ignored "-Wstringop-overflow"
 #                   endif
-                        CXON_IF_CONSTEXPR(!X::allow_javascript_nans) {
+                        CXON_IF_CONSTEXPR(!X::allow_javascript_nans && !is_unquoted_key_context<X>::value) {
                             if (c == '"') {
                                 ;                               CXON_READ()
                                 if (is_sign_<T>(c))             CXON_NEXT()
@@ -105,6 +105,18 @@ namespace cxon { namespace cio { namespace num { // read
                             }
                         }
                         if (is_sign_<T>(c))                     CXON_READ()
+                        CXON_IF_CONSTEXPR(!X::allow_javascript_nans && is_unquoted_key_context<X>::value) {
+                            if (c == 'i') {
+                                CXON_NEXT() if (c != 'n')       return 0;
+                                CXON_NEXT() if (c != 'f')       return 0;
+                                CXON_NEXT()                     goto trap_end;
+                            }
+                            if (c == 'n') {
+                                CXON_NEXT() if (c != 'a')       return 0;
+                                CXON_NEXT() if (c != 'n')       return 0;
+                                CXON_NEXT()                     goto trap_end;
+                            }
+                        }
                         CXON_IF_CONSTEXPR( X::allow_javascript_nans) {
                             if (c == 'I') {
                                 CXON_NEXT() if (c != 'n')       return 0;
@@ -157,7 +169,7 @@ namespace cxon { namespace cio { namespace num { // read
                 -> enable_if_t<std::is_floating_point<T>::value, int>
             {   // as in RFC7159
                 char c = peek(i, e);
-                    CXON_IF_CONSTEXPR(!X::allow_javascript_nans) {
+                    CXON_IF_CONSTEXPR(!X::allow_javascript_nans && !is_unquoted_key_context<X>::value) {
                         if (c == '"') {
                             ;                           c = next(i, e);
                             if (is_sign_<T>(c))         c = next(i, e);
@@ -175,6 +187,18 @@ namespace cxon { namespace cio { namespace num { // read
                         }
                     }
                     if (is_sign_<T>(c))                 c = next(i, e);
+                    CXON_IF_CONSTEXPR(!X::allow_javascript_nans && is_unquoted_key_context<X>::value) {
+                        if (c == 'i') {
+                            if (next(i, e) != 'n')      return 0;
+                            if (next(i, e) != 'f')      return 0;
+                            return ++i, 1;
+                        }
+                        if (c == 'n') {
+                            if (next(i, e) != 'a')      return 0;
+                            if (next(i, e) != 'n')      return 0;
+                            return ++i, 1;
+                        }
+                    }
                     CXON_IF_CONSTEXPR( X::allow_javascript_nans) {
                         if (c == 'I') {
                             if (next(i, e) != 'n')      return 0;
@@ -262,7 +286,7 @@ namespace cxon { namespace cio { namespace num { // read
         template <typename X, typename T>
             inline charconv::imp::from_chars_result from_chars_(const char* b, const char* e, T& t) noexcept {
                 if (e - b >= 3) {
-                    CXON_IF_CONSTEXPR (!X::allow_javascript_nans) {
+                    CXON_IF_CONSTEXPR (!X::allow_javascript_nans && !is_unquoted_key_context<X>::value) {
                         if (b[0] == '"') {
                             auto s = b[1] == '-' ? ++b + 1 : ++b;
                             switch (s[0]) {
-- 
2.43.0


From 930b21928ad07ee4783a85bab97cd8be804b7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:18 +0000
Subject: [PATCH 22/53] fix: unquoted keys escape '}' and, where comments are
 allowed, '/', so that they read back

---
 src/cxon/lang/common/cio/char.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 2ee2c7f..6d14cc1 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -381,9 +381,9 @@ namespace cxon { namespace cio { namespace chr {
             }
         static constexpr char should_escape_quoted_key_context_[] = {
             1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1, 1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
-            1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,1,0,0,1,0,0,
+            1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1, 0,0,0,0,0,0,0,0,0,0,1,0,0,1,0,0,
             0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,
-            0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
+            0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,
             0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
             0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
             0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
@@ -440,6 +440,14 @@ namespace cxon { namespace cio { namespace chr {
                                 CXON_IF_CONSTEXPR (is_quoted_key_context<X>::value && X::map::div == '=')
                                         return poke<X>(o, "\\=", 2, cx);
                                 else    return poke<X>(o, '=', cx);
+                            case '/' :
+                                CXON_IF_CONSTEXPR (is_quoted_key_context<X>::value && X::allow_comments)
+                                        return poke<X>(o, "\\/", 2, cx);
+                                else    return poke<X>(o, '/', cx);
+                            case '}' :
+                                CXON_IF_CONSTEXPR (is_quoted_key_context<X>::value)
+                                        return poke<X>(o, "\\u007d", 6, cx);
+                                else    return poke<X>(o, '}', cx);
                             case '\\':  return poke<X>(o, "\\\\", 2, cx);
                             default  :  return poke<X>(o, c, cx);
                         }
-- 
2.43.0


From 20814d20d05c216ea9293ca144c06e02f4c26bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:18 +0000
Subject: [PATCH 23/53] fix: trailing separators are accepted after lists and
 maps of fixed arity

---
 src/cxon/lang/common/cio/cio.hxx          | 10 ++++++++++
 src/cxon/lang/json/lib/boost/variant.hxx  |  2 +-
 src/cxon/lang/json/lib/boost/variant2.hxx |  2 +-
 src/cxon/lang/json/lib/std/complex.hxx    |  2 +-
 src/cxon/lang/json/lib/std/tuple.hxx      |  2 +-
 src/cxon/lang/json/lib/std/utility.hxx    |  2 +-
 src/cxon/lang/json/lib/std/variant.hxx    |  2 +-
 7 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/cio/cio.hxx b/src/cxon/lang/common/cio/cio.hxx
index e535e37..94e7da7 100644
--- a/src/cxon/lang/common/cio/cio.hxx
+++ b/src/cxon/lang/common/cio/cio.hxx
@@ -188,6 +188,16 @@ namespace cxon { namespace cio { namespace cnt {
             return consume<X>(i, e, cx) && peek(i, e) != Cr::end;
         }
 
+    template <typename X, typename Cr, typename II, typename Cx>
+        inline bool consume_end(II& i, II e, Cx& cx) { // closes a list/map of fixed number of elements
+            CXON_IF_CONSTEXPR (X::allow_trailing_separators && Cr::sep != ' ') {
+                if (!consume<X>(i, e, cx))
+                    return false;
+                consume<X>(Cr::sep, i, e);
+            }
+            return consume<X>(Cr::end, i, e, cx);
+        }
+
 }}}
 
 #endif // CXON_CIO_HXX_
diff --git a/src/cxon/lang/json/lib/boost/variant.hxx b/src/cxon/lang/json/lib/boost/variant.hxx
index ce19040..8b11d5b 100644
--- a/src/cxon/lang/json/lib/boost/variant.hxx
+++ b/src/cxon/lang/json/lib/boost/variant.hxx
@@ -60,7 +60,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, II, Cx, T...>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename II, typename Cx, typename ...T>
diff --git a/src/cxon/lang/json/lib/boost/variant2.hxx b/src/cxon/lang/json/lib/boost/variant2.hxx
index 26cae2d..6a8f06f 100644
--- a/src/cxon/lang/json/lib/boost/variant2.hxx
+++ b/src/cxon/lang/json/lib/boost/variant2.hxx
@@ -57,7 +57,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, V, II, Cx>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
diff --git a/src/cxon/lang/json/lib/std/complex.hxx b/src/cxon/lang/json/lib/std/complex.hxx
index a9a404e..93e9476 100644
--- a/src/cxon/lang/json/lib/std/complex.hxx
+++ b/src/cxon/lang/json/lib/std/complex.hxx
@@ -21,7 +21,7 @@ namespace cxon {
                                 read_value<Y>(rl, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx) &&
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx) &&
                         (t.real(rl), t.imag(mg), true)
                     ;
                 }
diff --git a/src/cxon/lang/json/lib/std/tuple.hxx b/src/cxon/lang/json/lib/std/tuple.hxx
index 239b4a9..036072c 100644
--- a/src/cxon/lang/json/lib/std/tuple.hxx
+++ b/src/cxon/lang/json/lib/std/tuple.hxx
@@ -78,7 +78,7 @@ namespace cxon {
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(Y::list::beg, i, e, cx) &&
                                 cio::cnt::read_tuple<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/utility.hxx b/src/cxon/lang/json/lib/std/utility.hxx
index 151fa27..0b7215d 100644
--- a/src/cxon/lang/json/lib/std/utility.hxx
+++ b/src/cxon/lang/json/lib/std/utility.hxx
@@ -20,7 +20,7 @@ namespace cxon {
                                 read_value<Y>(t.first, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/variant.hxx b/src/cxon/lang/json/lib/std/variant.hxx
index f5898b5..8ede4b1 100644
--- a/src/cxon/lang/json/lib/std/variant.hxx
+++ b/src/cxon/lang/json/lib/std/variant.hxx
@@ -54,7 +54,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             variant_<X, V, II, Cx>::read(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
-- 
2.43.0


From 6e60a35bdb4d5542688ea5cd6dc3bb098d84b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 24/53] fix: CBOR integers are checked against the range of the
 target when read

---
 src/cxon/lang/cbor/fundamental.hxx | 55 +++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/cxon/lang/cbor/fundamental.hxx b/src/cxon/lang/cbor/fundamental.hxx
index 3e5ff39..cabdbdf 100644
--- a/src/cxon/lang/cbor/fundamental.hxx
+++ b/src/cxon/lang/cbor/fundamental.hxx
@@ -8,6 +8,8 @@
 
 #include "cxon/lang/common/bio/bio.hxx"
 #include "cxon/lang/cbor/common/tag.hxx"
+#include <cstdint>
+#include <limits>
 
 namespace cxon { // nullptr_t
 
@@ -60,14 +62,24 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
-        template <typename X, typename T, typename II, typename Cx>
-            inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
+        // the greatest argument that fits in (with the sign from the major type) - characters are unsigned bytes (codes)
+        template <typename T>
+            struct is_character_ : bool_constant<std::is_same<T, char>::value || std::is_same<T, signed char>::value || std::is_same<T, wchar_t>::value> {};
+        template <typename T>
+            constexpr auto unsigned_max_() noexcept -> enable_if_t< is_character_<T>::value, std::uint64_t>
+            { return std::numeric_limits<typename std::make_unsigned<T>::type>::max(); }
+        template <typename T>
+            constexpr auto unsigned_max_() noexcept -> enable_if_t<!is_character_<T>::value, std::uint64_t>
+            { return std::numeric_limits<T>::max(); }
+
+        template <typename X, typename II, typename Cx>
+            inline bool read_argument_(std::uint64_t& t, II& i, II e, Cx& cx) {
                 II const o = i;
                 switch (auto const b = bio::get(i, e) & X::mnr) {
                     case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
                     case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
                     case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                        return  (t = T(b), true);
+                        return  (t = b, true);
                     case 0x18: case 0x19: case 0x1A: case 0x1B:
                         return  (bio::get(t, 1 << (b - 0x18), i, e)) ||
                                 (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
@@ -79,9 +91,24 @@ namespace cxon { // numeric|character/read
                 }
             }
 
+        template <typename X, typename T, typename II, typename Cx>
+            inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
+                II const o = i; std::uint64_t u;
+                return  read_argument_<X>(u, i, e, cx) && (
+                            (u <= unsigned_max_<T>() && (t = T(u), true)) ||
+                            (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
+                        )
+                ;
+            }
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_signed_(T& t, II& i, II e, Cx& cx) {
-                return read_unsigned_<X>(t, i, e, cx) && (t = -1 - t, true);
+                II const o = i; std::uint64_t u;
+                return  read_argument_<X>(u, i, e, cx) && (
+                            (std::is_signed<T>::value && u <= std::uint64_t(std::numeric_limits<T>::max()) && (t = T(-1 - T(u)), true)) ||
+                            (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
+                        )
+                ;
             }
 
         template <typename X, typename T, typename II, typename Cx>
@@ -107,18 +134,6 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
-        template <typename T>   struct unsigned_;
-        template <>             struct unsigned_<float>     { using type = unsigned long; };
-        template <>             struct unsigned_<double>    { using type = unsigned long long; };
-        template <typename T>
-            using unsigned_type_ = typename unsigned_<T>::type;
-
-        template <typename T>   struct signed_;
-        template <>             struct signed_<float>       { using type = long; };
-        template <>             struct signed_<double>      { using type = long long; };
-        template <typename T>
-            using signed_type_ = typename signed_<T>::type;
-
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_floating_point_(T& t, II& i, II e, Cx& cx) {
                 switch (bio::peek(i, e) & X::mjr) {
@@ -144,12 +159,12 @@ namespace cxon { // numeric|character/read
                     }
                     // from integral
                     case X::pint: {
-                        unsigned_type_<T> u;
-                        return read_unsigned_<X>(u, i, e, cx) && (t = T(u), true);
+                        std::uint64_t u;
+                        return read_argument_<X>(u, i, e, cx) && (t = T(u), true);
                     }
                     case X::nint: {
-                        signed_type_<T> u;
-                        return read_signed_<X>(u, i, e, cx) && (t = T(u), true);
+                        std::uint64_t u; // the value is -1 - u
+                        return read_argument_<X>(u, i, e, cx) && (t = u + 1 ? -T(u + 1) : -T(18446744073709551616.), true);
                     }
                     default:
                         return cx/cbor::read_error::floating_point_invalid;
-- 
2.43.0


From bda3b36551f57686c09095715e81190aabdb1bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 25/53] fix: a definite CBOR length does not make the reader
 reserve more than the input can hold

---
 src/cxon/lang/cbor/common/container.hxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index dda1b6c..701f55e 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -99,6 +99,16 @@ namespace cxon { namespace cbor { namespace cnt {
                 return size_(option<1>(), c);
             }
 
+        // the size is not to be trusted until the elements are read, reserve no more than the input can hold
+        template <typename II>
+            inline auto reserve_size_(std::size_t n, II f, II l) -> enable_if_t< is_random_access_iterator<II>::value, std::size_t> {
+                return std::min(n, static_cast<std::size_t>(std::distance(f, l)));
+            }
+        template <typename II>
+            inline auto reserve_size_(std::size_t n, II, II) -> enable_if_t<!is_random_access_iterator<II>::value, std::size_t> {
+                return std::min(n, std::size_t(32));
+            }
+
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
                 -> enable_if_t< is_forward_iterator<II>::value, bool>
@@ -127,7 +137,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_b_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, size_(t) + n) &&
+                        cxon::cnt::reserve(t, size_(t) + reserve_size_(n, i, e)) &&
                         read_bytes_<X>(t, n, i, e, cx)
                 ;
             }
@@ -167,7 +177,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_w_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, n) &&
+                        cxon::cnt::reserve(t, reserve_size_(n, i, e)) &&
                         read_elements_<X>(t, n, i, e, cx)
                 ;
             }
-- 
2.43.0


From 1912a968b9db94ee9738fc3df55ac1a03a8b8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 26/53] fix: tags in a json node read from CBOR count towards
 the recursion depth

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index e6e0eae..3035b20 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -217,7 +217,7 @@ namespace cxon {
                                 case X::tstr            :                       return read_value<Y>(CXON_IMBUE(string),        i, e, cx);
                                 case X::arr             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(array),         i, e, cx); }
                                 case X::map             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(object),        i, e, cx); }
-                                case X::tag             :                       return cbor::tag::read<Y>(i, e, cx) && value(t, i, e, cx);
+                                case X::tag             : { CXON_NODE_RG();     return cbor::tag::read<Y>(i, e, cx) && value(t, i, e, cx); }
                                 case X::svn:
                                     switch (b) {
                                         case X::neg: case X::pos
-- 
2.43.0


From 596e57dbef80923369ee96540e8936fca84b3f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 27/53] fix: CBOR simple value 24 is not written, its two-byte
 form is refused

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index 3035b20..97c0d51 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -176,7 +176,7 @@ namespace cxon {
                             CXON_ASSERT(t <= 255, "invalid simple value");
                             return  bio::poke<Y>(o, bio::byte(X::svn + 0x18), cx) && bio::poke<Y>(o, t.value, 1, cx);
                         case 0x14: case 0x15: case 0x16: case 0x17:
-                        case 0x19: case 0x1A: case 0x1B: case 0x1C: case 0x1D: case 0x1E: case 0x1F:
+                        case 0x18: case 0x19: case 0x1A: case 0x1B: case 0x1C: case 0x1D: case 0x1E: case 0x1F:
                             return  cx/cbor::write_error::argument_invalid;
                     }
                 }
-- 
2.43.0


From 34df049dd3fc0521b50548a5c401892585c3b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 28/53] fix: std::bitset read from CBOR does not keep bits of
 its previous value

---
 src/cxon/lang/cbor/lib/std/bitset.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index c995f8c..e1685d7 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -26,7 +26,7 @@ namespace cxon {
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
                         if (N % 8)
-                            t |= std::bitset<N> {*i++};
+                            t = std::bitset<N> {bio::byte(*i++)};
                         std::size_t n = N / 8;
                             for ( ; n != 0 && i != e; --n, ++i) {
                                 bio::byte const b = *i; t <<= 8;
@@ -52,7 +52,7 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
-                        return t |= std::bitset<N> {*i}, ++i, true;
+                        return t = std::bitset<N> {bio::byte(*i)}, ++i, true;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
-- 
2.43.0


From 3165add421c4b8d2080b595787eae44af96d2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 29/53] fix: CBOR byte strings are read into wider elements as
 unsigned bytes

---
 src/cxon/lang/cbor/common/container.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 701f55e..783622c 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -109,9 +109,13 @@ namespace cxon { namespace cbor { namespace cnt {
                 return std::min(n, std::size_t(32));
             }
 
+        // bytes are unsigned, whatever the type the input is made of
+        template <typename C, typename II>
+            using is_bytes_ = bool_constant<is_forward_iterator<II>::value && sizeof(typename C::value_type) == 1>;
+
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t< is_forward_iterator<II>::value, bool>
+                -> enable_if_t< is_bytes_<C, II>::value, bool>
             {
                 auto const m = std::min(n, static_cast<std::size_t>(std::distance(f, l)));
                 II e = f; std::advance(e, m);
@@ -119,10 +123,10 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t<!is_forward_iterator<II>::value, bool>
+                -> enable_if_t<!is_bytes_<C, II>::value, bool>
             {
                 for ( ; n != 0 && f != l; --n, ++f)
-                    cxon::cnt::append(c, *f);
+                    cxon::cnt::append(c, bio::byte(*f));
                 return n == 0;
             }
 
-- 
2.43.0


From cb82f6d1ab56f8ec84bf4ad3c66e6605d4040598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 30/53] fix: a CBOR map is not read into a sequence, nor an
 array into a map

---
 src/cxon/lang/cbor/common/container.hxx | 15 ++++++++++++++-
 src/cxon/lang/cbor/lib/std/imp/map.hxx  |  2 +-
 src/cxon/lib/node.ordered.hxx           |  2 +-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 783622c..54eb715 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -29,6 +29,8 @@ namespace cxon { namespace cbor { namespace cnt {
 
     template <typename X, typename T, typename II, typename Cx>
         inline bool read_array(T& t, II& i, II e, Cx& cx);
+    template <typename X, typename T, typename II, typename Cx>
+        inline bool read_map(T& t, II& i, II e, Cx& cx);
     template <typename X, typename FI, typename II, typename Cx>
         inline bool read_array(FI f, FI l, II& i, II e, Cx& cx);
 
@@ -226,7 +228,7 @@ namespace cxon { namespace cbor { namespace cnt {
             {
                 auto const m = bio::peek(i, e);
                 switch (m & X::mjr) {
-                    case X::arr: case X::map:   return imp::read_array_w_<X>(t, m, i, e, cx);
+                    case X::arr:                return imp::read_array_w_<X>(t, m, i, e, cx);
                     default:                    return cx/cbor::read_error::array_invalid;
                 }
             }
@@ -245,6 +247,17 @@ namespace cxon { namespace cbor { namespace cnt {
             return imp::read_array_<X>(t, i, e, cx);
         }
 
+    template <typename X, typename T, typename II, typename Cx>
+        inline bool read_map(T& t, II& i, II e, Cx& cx) {
+            if (!tag::read<X>(i, e, cx))
+                return false;
+            auto const m = bio::peek(i, e);
+            switch (m & X::mjr) {
+                case X::map:    return imp::read_array_w_<X>(t, m, i, e, cx);
+                default:        return cx/cbor::read_error::array_invalid;
+            }
+        }
+
     template <typename X, typename FI, typename II, typename Cx>
         inline bool read_array(FI f, FI l, II& i, II e, Cx& cx) {
             typename X::tag_type tag;
diff --git a/src/cxon/lang/cbor/lib/std/imp/map.hxx b/src/cxon/lang/cbor/lib/std/imp/map.hxx
index fb290f0..f48449a 100644
--- a/src/cxon/lang/cbor/lib/std/imp/map.hxx
+++ b/src/cxon/lang/cbor/lib/std/imp/map.hxx
@@ -38,7 +38,7 @@ namespace cxon { namespace cbor { namespace imp {
         struct map_reader_ {
             template <typename II, typename Cx>
                 static bool value(M& m, II& i, II e, Cx& cx) {
-                    return cbor::cnt::read_array<X>(m, i, e, cx);
+                    return cbor::cnt::read_map<X>(m, i, e, cx);
                 }
         };
 
diff --git a/src/cxon/lib/node.ordered.hxx b/src/cxon/lib/node.ordered.hxx
index ce5ee25..ebf3177 100644
--- a/src/cxon/lib/node.ordered.hxx
+++ b/src/cxon/lib/node.ordered.hxx
@@ -152,7 +152,7 @@ namespace cxon { // hash
             struct read<CBOR<X>, ordered::object<K, V, Al>> {
                 template <typename II, typename Cx, typename Y = CBOR<X>>
                     static bool value(ordered::object<K, V, Al>& t, II& i, II e, Cx& cx) {
-                        return cbor::cnt::read_array<Y>(t, i, e, cx);
+                        return cbor::cnt::read_map<Y>(t, i, e, cx);
                     }
             };
         template <typename X, typename K, typename V, typename Al>
-- 
2.43.0


From 752d9ca3090ac1cb938ed40adabcf7aec7e0c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 31/53] fix: fixed-arity CBOR readers check the major type of
 the header

---
 src/cxon/lang/cbor/common/container.hxx   | 6 +++---
 src/cxon/lang/cbor/lib/boost/variant.hxx  | 2 +-
 src/cxon/lang/cbor/lib/boost/variant2.hxx | 2 +-
 src/cxon/lang/cbor/lib/std/bitset.hxx     | 4 ++--
 src/cxon/lang/cbor/lib/std/complex.hxx    | 2 +-
 src/cxon/lang/cbor/lib/std/tuple.hxx      | 4 ++--
 src/cxon/lang/cbor/lib/std/utility.hxx    | 2 +-
 src/cxon/lang/cbor/lib/std/variant.hxx    | 2 +-
 8 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 54eb715..d203969 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -18,7 +18,7 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename II, typename Cx>
         inline bool read_size_le(std::size_t& s, std::size_t n, II& i, II e, Cx& cx);
     template <typename X, typename II, typename Cx>
-        inline bool read_size_eq(std::size_t n, II& i, II e, Cx& cx);
+        inline bool read_size_eq(bio::byte m, std::size_t n, II& i, II e, Cx& cx);
 
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx);
@@ -66,9 +66,9 @@ namespace cxon { namespace cbor { namespace cnt {
             ;
         }
     template <typename X, typename II, typename Cx>
-        inline bool read_size_eq(std::size_t n, II& i, II e, Cx& cx) {
+        inline bool read_size_eq(bio::byte m, std::size_t n, II& i, II e, Cx& cx) {
             II const o = i; std::size_t s;
-            return  (read_size<X>(s, i, e, cx) && s == n) ||
+            return  ((bio::peek(i, e) & X::mjr) == m && read_size<X>(s, i, e, cx) && s == n) ||
                     (bio::rewind(i, o), cx/cbor::read_error::size_invalid)
             ;
         }
diff --git a/src/cxon/lang/cbor/lib/boost/variant.hxx b/src/cxon/lang/cbor/lib/boost/variant.hxx
index efd8fc6..4efc107 100644
--- a/src/cxon/lang/cbor/lib/boost/variant.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant.hxx
@@ -91,7 +91,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::boost::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/boost/variant2.hxx b/src/cxon/lang/cbor/lib/boost/variant2.hxx
index 303b666..102feb3 100644
--- a/src/cxon/lang/cbor/lib/boost/variant2.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant2.hxx
@@ -98,7 +98,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant2::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::boost::variant2::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index e1685d7..cc35bbc 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -17,7 +17,7 @@ namespace cxon {
                 switch (bio::peek(i, e) & X::mjr) {
                     case X::bstr: {
                         auto const M = N / 8 + std::size_t(!!(N % 8));
-                        if (!cbor::cnt::read_size_eq<X>(M + 1, i, e, cx))
+                        if (!cbor::cnt::read_size_eq<X>(X::bstr, M + 1, i, e, cx))
                             return false;
                         if (i == e)
                             return cx/cbor::read_error::unexpected;
@@ -44,7 +44,7 @@ namespace cxon {
                 switch (bio::peek(i, e) & X::mjr) {
                     case X::bstr: {
                         auto const M = N / 8 + std::size_t(!!(N % 8));
-                        if (!cbor::cnt::read_size_eq<X>(M + 1, i, e, cx))
+                        if (!cbor::cnt::read_size_eq<X>(X::bstr, M + 1, i, e, cx))
                             return false;
                         if (i == e)
                             return cx/cbor::read_error::unexpected;
diff --git a/src/cxon/lang/cbor/lib/std/complex.hxx b/src/cxon/lang/cbor/lib/std/complex.hxx
index b43faf5..2b6641a 100644
--- a/src/cxon/lang/cbor/lib/std/complex.hxx
+++ b/src/cxon/lang/cbor/lib/std/complex.hxx
@@ -16,7 +16,7 @@ namespace cxon {
                 static bool value(std::complex<T>& t, II& i, II e, Cx& cx) {
                     T rl, mg;
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                                 read_value<Y>(rl, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
                             (t.real(rl), t.imag(mg), true)
diff --git a/src/cxon/lang/cbor/lib/std/tuple.hxx b/src/cxon/lang/cbor/lib/std/tuple.hxx
index 3a6bcf1..09f9e8a 100644
--- a/src/cxon/lang/cbor/lib/std/tuple.hxx
+++ b/src/cxon/lang/cbor/lib/std/tuple.hxx
@@ -65,7 +65,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<>&, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(0, i, e, cx)
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 0, i, e, cx)
                     ;
                 }
         };
@@ -75,7 +75,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(sizeof...(T), i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, sizeof...(T), i, e, cx) &&
                             cbor::cnt::read_tuple<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/utility.hxx b/src/cxon/lang/cbor/lib/std/utility.hxx
index b416550..35c1e69 100644
--- a/src/cxon/lang/cbor/lib/std/utility.hxx
+++ b/src/cxon/lang/cbor/lib/std/utility.hxx
@@ -15,7 +15,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::pair<F, S>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                                 read_value<Y>(t.first, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx)
                     ;
diff --git a/src/cxon/lang/cbor/lib/std/variant.hxx b/src/cxon/lang/cbor/lib/std/variant.hxx
index cdc63cb..fb018f8 100644
--- a/src/cxon/lang/cbor/lib/std/variant.hxx
+++ b/src/cxon/lang/cbor/lib/std/variant.hxx
@@ -69,7 +69,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
-- 
2.43.0


From d008f0977f67178c33a4f09a6ce1598ae6b4644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 32/53] fix: CBOR class keys are compared with their length;
 indefinite maps are read into classes

---
 src/cxon/lang/cbor/class.hxx | 44 +++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index fc07df6..d40c1a2 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -121,40 +121,52 @@ namespace cxon { namespace cbor { namespace cls {
         template <typename X, std::size_t N, std::size_t L>
             struct read_ {
                 template <typename T, typename Fs, typename II, typename Cx>
-                    static bool field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
-                        return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                    static bool field(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
+                        return st[N] == 0 && std::get<N>(fs).nale == nale && std::char_traits<char>::compare(std::get<N>(fs).name, name, nale) == 0 ?
                             (st[N] = 1, read_field<X>(t, std::get<N>(fs), i, e, cx)) :
-                            read_<X, N + 1, L>::field(t, name, fs, st, i, e, cx)
+                            read_<X, N + 1, L>::field(t, name, nale, fs, st, i, e, cx)
                         ;
                     }
             };
         template <typename X, std::size_t N>
             struct read_<X, N, N> {
                 template <typename T, typename Fs, typename II, typename Cx>
-                    static constexpr bool field(T&, const char*, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
+                    static constexpr bool field(T&, const char*, std::size_t, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
                         return false;
                     }
             };
 
         template <typename X, std::size_t N, typename T, typename Fs, typename II, typename Cx>
-            constexpr bool read_field_(T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
-                return read_<X, 0, N>::field(t, name, fs, st, i, e, cx);
+            inline bool read_field_(T& t, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+                char id[bio::ids_len_max::constant<napa_type<Cx>>(64)];
+                auto c = cxon::cnt::make_range_container(std::begin(id), std::end(id));
+                II const o = i;
+                    if (!cbor::cnt::read_array<X>(c, i, e, cx))
+                        return false;
+                auto const l = c.size() && id[c.size() - 1] == '\0' ? c.size() - 1 : c.size(); // written with '\0' at the end
+                return  read_<X, 0, N>::field(t, id, l, fs, st, i, e, cx) ||
+                        (cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected))
+                ;
             }
 
     }
     template <typename X, typename T, typename ...Fs, typename II, typename Cx>
         inline bool read_fields(T& t, const fields<Fs...>& fs, II& i, II e, Cx& cx) {
-            std::size_t n;
-            if (cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx)) {
-                int st[sizeof...(Fs)] = {0};
-                for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; n; --n) {
-                    II const o = i;
-                        if (!read_value<X>(id, i, e, cx))
-                            return false;
-                        if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
-                            return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                }
+            auto const m = bio::peek(i, e);
+            if ((m & X::mjr) != X::map)
+                return cx/cbor::read_error::size_invalid;
+            int st[sizeof...(Fs)] = {0};
+            if ((m & X::mnr) == 0x1F) {
+                for (bio::get(i, e); bio::peek(i, e, 0) != X::brk; )
+                    if (!imp::read_field_<X>(t, fs, st, i, e, cx))
+                        return false;
+                return bio::get(i, e), true;
             }
+            std::size_t n;
+            if (!cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx))
+                return false;
+            for ( ; n != 0 && imp::read_field_<X>(t, fs, st, i, e, cx); --n)
+                ;
             return n == 0;
         }
 
-- 
2.43.0


From f3eaa8b566512a91077c8bfd30b43b7970b2528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 33/53] fix: std::priority_queue keeps its heap order when read
 from CBOR

---
 src/cxon/lang/cbor/lib/std/queue.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/queue.hxx b/src/cxon/lang/cbor/lib/std/queue.hxx
index 67686fc..c28a6cc 100644
--- a/src/cxon/lang/cbor/lib/std/queue.hxx
+++ b/src/cxon/lang/cbor/lib/std/queue.hxx
@@ -32,8 +32,13 @@ namespace cxon {
         struct read<CBOR<X>, std::priority_queue<T, R...>> {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::priority_queue<T, R...>& t, II& i, II e, Cx& cx) {
-                    auto& c = cnt::container(t);
-                    return cbor::cnt::read_array<Y>(c, i, e, cx);
+                    using C = typename std::priority_queue<T, R...>::container_type;
+                    C c = alc::create_using_allocator_of<C>(cnt::container(t));
+                        if (!cbor::cnt::read_array<Y>(c, i, e, cx))
+                            return false;
+                    for (auto f = c.begin(), l = c.end(); f != l; ++f)
+                        t.push(std::move(*f));
+                    return true;
                 }
         };
 
-- 
2.43.0


From 3e2516f64a3a13c00feca5a0e394d181cd74b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 34/53] fix: ignored CBOR values are skipped iteratively

---
 src/cxon/lang/cbor/common/sink.hxx | 164 +++++++++++++----------------
 1 file changed, 72 insertions(+), 92 deletions(-)

diff --git a/src/cxon/lang/cbor/common/sink.hxx b/src/cxon/lang/cbor/common/sink.hxx
index 55e209e..212c6f8 100644
--- a/src/cxon/lang/cbor/common/sink.hxx
+++ b/src/cxon/lang/cbor/common/sink.hxx
@@ -6,6 +6,10 @@
 #ifndef CXON_CBOR_SINK_HXX_
 #define CXON_CBOR_SINK_HXX_
 
+#include <iterator>
+#include <limits>
+#include <vector>
+
 // interface ///////////////////////////////////////////////////////////////////
 
 namespace cxon { namespace cbor {
@@ -94,106 +98,82 @@ namespace cxon { namespace cbor { namespace imp {
     
     template <typename X, typename S>
         struct sink_reader_<CBOR<X>, S> {
-            template<typename II, typename Cx, typename Y = CBOR<X>>
+            template<typename II, typename Cx>
                 static bool read(S& s, II& i, II e, Cx& cx) {
-                    auto t = std::back_inserter(s);
-                    auto const b = bio::peek(i, e);
-                    unsigned const mjr = b & Y::mjr;
-                    unsigned const mnr = b & Y::mnr;
-                    switch (mjr) {
-                        case Y::pint: case Y::nint: case Y::tag: case Y::svn: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e));
-                                case 0x18: case 0x19: case 0x1A: case 0x1B:
-                                    return  (bio::get(t, i, e, 1 + (1 << (mnr - 0x18)))) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x1C: case 0x1D: case 0x1E: case 0x1F:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                    II const o = i;
+                    return  read_item(s, i, e) ||
+                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
+                    ;
+                }
+            private:
+                struct level {
+                    bool        var; // indefinite, until 'break'
+                    bool        map;
+                    std::size_t cnt; // items left or, if indefinite, items read
+                };
+
+                // the depth of the nesting is up to the input, hence no recursion
+                template<typename II, typename Y = CBOR<X>>
+                    static bool read_item(S& s, II& i, II e) {
+                        auto t = std::back_inserter(s);
+                        std::vector<level> ls;
+                        for (level l = {false, false, 1}; ; ) {
+                            if (l.var && bio::peek(i, e, 0) == Y::brk) {
+                                if ((l.map && l.cnt % 2 != 0) || !bio::get(t, i, e))
+                                    return false;
+                                l = ls.back(), ls.pop_back();
+                                continue;
                             }
-                        }
-                        case Y::bstr: case Y::tstr: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e, 1 + mnr)) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    return  (
-                                                bio::get(t, i, e) &&
-                                                bio::get(n, 1U << (mnr - 0x18), i, e) &&
-                                                bio::poke(t, n, 1U << (mnr - 0x18)) &&
-                                                bio::get(t, i, e, n)
-                                            )   ||
-                                            (   bio::rewind(i, o), cx/cbor::read_error::unexpected
-                                            )
-                                    ;
-                                }
-                                case 0x1F:
-                                    do      (bio::get(t, i, e)); // should not fail
-                                    while   (bio::peek(i, e) != Y::brk);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
-                                case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                            if (!l.var && l.cnt == 0) {
+                                if (ls.empty())
+                                    return true;
+                                l = ls.back(), ls.pop_back();
+                                continue;
                             }
-                        }
-                        case Y::arr: case Y::map: {
-                            II const o = i;
+                            l.cnt = l.var ? l.cnt + 1 : l.cnt - 1;
+
+                            auto const b = bio::peek(i, e);
+                            unsigned const mjr = b & Y::mjr;
+                            unsigned const mnr = b & Y::mnr;
+                            if (!bio::get(t, i, e))
+                                return false;
+                            std::size_t n = mnr;
                             switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    bio::get(t, i, e); // should not fail
-                                    for (unsigned j = 0; j != mnr; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    if (!bio::get(t, i, e) || !bio::get(n, 1U << (mnr - 0x18), i, e) || !bio::poke(t, n, 1U << (mnr - 0x18)))
-                                        return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    for (unsigned j = 0; j != n; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
-                                }
-                                case 0x1F:
-                                    bio::get(t, i, e); // should not fail
-                                    while (bio::peek(i, e) != Y::brk)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
+                                case 0x18: case 0x19: case 0x1A: case 0x1B:
+                                    if (!bio::get(n, 1U << (mnr - 0x18), i, e) || !bio::poke(t, n, 1U << (mnr - 0x18)))
+                                        return false;
+                                    break;
                                 case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                                    return false;
+                            }
+                            switch (mjr) {
+                                case Y::bstr: case Y::tstr:
+                                    if (mnr != 0x1F) {
+                                        if (!bio::get(t, i, e, n))
+                                            return false;
+                                    }
+                                    else {
+                                        while (bio::peek(i, e) != Y::brk)
+                                            bio::get(t, i, e); // should not fail
+                                        if (!bio::get(t, i, e))
+                                            return false;
+                                    }
+                                    break;
+                                case Y::arr: case Y::map:
+                                    if (mjr == Y::map && mnr != 0x1F) {
+                                        if (n > std::numeric_limits<std::size_t>::max() / 2)
+                                            return false;
+                                        n *= 2;
+                                    }
+                                    ls.push_back(l);
+                                    l = level {mnr == 0x1F, mjr == Y::map, mnr == 0x1F ? 0 : n};
+                                    break;
+                                default:
+                                    if (mnr == 0x1F)
+                                        return false;
                             }
                         }
-                        default:                                        // LCOV_EXCL_LINE
-                            return CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
                     }
-                }
-            template<typename II, typename Cx, typename Y = CBOR<X>>
-                static bool read_element(S& s, bio::byte m, II& i, II e, Cx& cx) {
-                    switch (m) {
-                        case Y::map:    return  sink_read<Y>(s, i, e, cx) &&
-                                                sink_read<Y>(s, i, e, cx);
-                        case Y::arr:    return  sink_read<Y>(s, i, e, cx);
-                        default:        return  CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
-                    }
-                }
         };
 
 }}}
-- 
2.43.0


From 98f1b143ee77af95705c4f524809eb6664d64ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 35/53] fix: CBOR class keys of the longest allowed size read
 back as written

---
 src/cxon/lang/cbor/class.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index d40c1a2..34b6d78 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -138,7 +138,7 @@ namespace cxon { namespace cbor { namespace cls {
 
         template <typename X, std::size_t N, typename T, typename Fs, typename II, typename Cx>
             inline bool read_field_(T& t, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
-                char id[bio::ids_len_max::constant<napa_type<Cx>>(64)];
+                char id[bio::ids_len_max::constant<napa_type<Cx>>(64) + 1];
                 auto c = cxon::cnt::make_range_container(std::begin(id), std::end(id));
                 II const o = i;
                     if (!cbor::cnt::read_array<X>(c, i, e, cx))
-- 
2.43.0


From 4f68bfd8abf9f8a4a4f70276d7d2d38611e72271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 36/53] fix: a CBOR item other than a string or an array is not
 read into a character pointer

---
 src/cxon/lang/cbor/compound.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index dd3c38c..369cf45 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -41,7 +41,13 @@ namespace cxon { // pointer/read
     namespace cbor { namespace imp {
 
         template <typename X, typename T, typename II, typename Cx>
-            inline bool read_pointer_t_(T*& t, II& i, II e, Cx& cx) {
+            inline auto read_pointer_t_(T*& t, II& i, II e, Cx& cx) -> enable_if_t< is_char<T>::value, bool> {
+                if (bio::peek(i, e) == X::nil)
+                    return bio::get(i, e), t = nullptr, true;
+                return cx/cbor::read_error::integer_invalid; // a single character is not a string
+            }
+        template <typename X, typename T, typename II, typename Cx>
+            inline auto read_pointer_t_(T*& t, II& i, II e, Cx& cx) -> enable_if_t<!is_char<T>::value, bool> {
                 if (bio::peek(i, e) == X::nil)
                     return bio::get(i, e), t = nullptr, true;
                 auto al = alc::make_context_allocator<T>(cx);
-- 
2.43.0


From ec4b791795bfa7cc434b618f09f00be87c12f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 37/53] fix: std::bitset<0> reads back from CBOR as written

---
 src/cxon/lang/cbor/lib/std/bitset.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index cc35bbc..ad5efd1 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -50,7 +50,9 @@ namespace cxon {
                             return cx/cbor::read_error::unexpected;
                         if (M * 8 - bio::byte(*i) != N)
                             return cx/cbor::read_error::size_invalid;
-                        if (++i == e)
+                        if (++i, N == 0)
+                            return true;
+                        if (i == e)
                             return cx/cbor::read_error::unexpected;
                         return t = std::bitset<N> {bio::byte(*i)}, ++i, true;
                     }
-- 
2.43.0


From 02e60ba3f1437c2c837426663c9ae4f0cd9e5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:34 +0000
Subject: [PATCH 38/53] fix: a CBOR array is not read into a pointer to a
 single value

Pointers (also std::unique_ptr and std::shared_ptr) to anything but characters
took the elements of an array or of a string for an array of values, which was
then released as a single one, and could not read back a pointer to a list.
---
 src/cxon/lang/cbor/compound.hxx | 47 ++++++++++++---------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index 369cf45..86601e6 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -40,52 +40,39 @@ namespace cxon { // pointer/read
 
     namespace cbor { namespace imp {
 
-        template <typename X, typename T, typename II, typename Cx>
-            inline auto read_pointer_t_(T*& t, II& i, II e, Cx& cx) -> enable_if_t< is_char<T>::value, bool> {
-                if (bio::peek(i, e) == X::nil)
-                    return bio::get(i, e), t = nullptr, true;
-                return cx/cbor::read_error::integer_invalid; // a single character is not a string
-            }
-        template <typename X, typename T, typename II, typename Cx>
-            inline auto read_pointer_t_(T*& t, II& i, II e, Cx& cx) -> enable_if_t<!is_char<T>::value, bool> {
-                if (bio::peek(i, e) == X::nil)
-                    return bio::get(i, e), t = nullptr, true;
-                auto al = alc::make_context_allocator<T>(cx);
-                T *const v = al.create();
-                    if (!v || !read_value<X>(*v, i, e, cx))
-                        return al.release(v), false;
-                return t = v, true;
-            }
-
+        // a pointer to characters is a string
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
-                -> enable_if_t< std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
+                -> enable_if_t< is_char<T>::value, bool>
             {
                 typename X::tag_type tag;
                 if (!tag::read<X>(tag, i, e, cx))
                     return false;
-                switch (bio::peek(i, e) & X::mjr) {
+                auto const b = bio::peek(i, e);
+                if (b == X::nil)
+                    return bio::get(i, e), t = nullptr, true;
+                switch (b & X::mjr) {
                     case X::bstr: case X::tstr: case X::arr: {
                                 auto c = cxon::cnt::make_pointer_container<X, T>(cx);
                                 return cbor::cnt::read_array<X>(c, tag, i, e, cx) && (c.push_back({}), t = c.release());
                     }
-                    default:    return read_pointer_t_<X>(t, i, e, cx);
+                    default:    return cx/cbor::read_error::integer_invalid;
                 }
             }
+        // and to anything else - a single value
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
-                -> enable_if_t<!std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
+                -> enable_if_t<!is_char<T>::value, bool>
             {
-                typename X::tag_type tag;
-                if (!tag::read<X>(tag, i, e, cx))
+                if (!tag::read<X>(i, e, cx))
                     return false;
-                switch (bio::peek(i, e) & X::mjr) {
-                    case X::arr: {
-                                auto c = cxon::cnt::make_pointer_container<X, T>(cx);
-                                return cbor::cnt::read_array<X>(c, tag, i, e, cx) && (c.push_back({}), t = c.release());
-                    }
-                    default:    return read_pointer_t_<X>(t, i, e, cx);
-                }
+                if (bio::peek(i, e) == X::nil)
+                    return bio::get(i, e), t = nullptr, true;
+                auto al = alc::make_context_allocator<T>(cx);
+                T *const v = al.create();
+                    if (!v || !read_value<X>(*v, i, e, cx))
+                        return al.release(v), false;
+                return t = v, true;
             }
 
     }}
-- 
2.43.0


From b06d222e67c1e64100086f52c07645a19de0fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:48 +0000
Subject: [PATCH 39/53] fix: a tag is written as a tag

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index 97c0d51..ab4406f 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -194,7 +194,7 @@ namespace cxon {
         struct write<CBOR<X>, cbor::taggle<N, T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const cbor::taggle<N, T>& t, Cx& cx) {
-                    return write_value<Y>(o, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
+                    return cbor::cnt::write_size<Y>(o, Y::tag, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
                 }
         };
 
-- 
2.43.0


From 8585924e0f49ce5fc1a79c27aa6e710f83acaffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:36 +0000
Subject: [PATCH 40/53] fix: bytes of another type, or from a list, are not
 written past the end of a bounded output

---
 src/cxon/lang/common/container.hxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 49f8018..9066374 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -343,7 +343,7 @@ namespace cxon { namespace cnt {
 
             template <typename II>
                 auto append(II f, II l) noexcept
-                    -> enable_if_t<is_random_access_iterator<II>::value, bool>
+                    -> enable_if_t<is_forward_iterator<II>::value, bool>
                 {
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
 #                       pragma GCC diagnostic push
@@ -351,14 +351,17 @@ namespace cxon { namespace cnt {
 #                       pragma GCC diagnostic ignored "-Wstringop-overflow"
 #                   endif
                         auto const s = std::distance(f, l);
-                        return s <= std::distance(e_, l_) && (std::copy(f, l, e_), e_ += s, true);
+                        return s <= std::distance(e_, l_) && (e_ = std::copy(f, l, e_), true);
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
 #                       pragma GCC diagnostic pop
 #                   endif
                 }
-            bool append(const value_type* t, std::size_t n) noexcept {
-                return append(t, t + n);
-            }
+            template <typename II>
+                auto append(II t, std::size_t n) noexcept
+                    -> enable_if_t<is_random_access_iterator<II>::value, bool>
+                {
+                    return append(t, t + n);
+                }
 
             bool append(unsigned n, const value_type& t) noexcept {
                 return  n <= static_cast<std::size_t>(std::distance(e_, l_)) &&
-- 
2.43.0


From d7d8b35f957fe9e22e34029b176e5456bd164fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:16 +0000
Subject: [PATCH 41/53] fix: an empty CBOR list or map that does not fit is not
 taken for written

---
 src/cxon/lang/cbor/common/container.hxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index d203969..fe19276 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -298,8 +298,9 @@ namespace cxon { namespace cbor { namespace cnt {
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
                 -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
             {
-                if (write_size<X>(o, X::arr, std::distance(f, l), cx))
-                    for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
+                if (!write_size<X>(o, X::arr, std::distance(f, l), cx))
+                    return false;
+                for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
                 return f == l;
             }
 
@@ -316,8 +317,9 @@ namespace cxon { namespace cbor { namespace cnt {
                 -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
             {
                 auto f = std::begin(t), l = std::end(t);
-                if (write_size<X>(o, X::arr, std::distance(f, l), cx))
-                    for ( ; f != l && cxon::cnt::element_write<X, C>(o, *f, cx); ++f) ;
+                if (!write_size<X>(o, X::arr, std::distance(f, l), cx))
+                    return false;
+                for ( ; f != l && cxon::cnt::element_write<X, C>(o, *f, cx); ++f) ;
                 return f == l;
             }
         template <typename X, typename C, typename O, typename Cx, typename T = typename C::value_type>
@@ -337,8 +339,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename T, typename O, typename Cx>
         inline bool write_map(O& o, const T& t, Cx& cx) {
             auto f = std::begin(t), l = std::end(t);
-            if (write_size<X>(o, X::map, std::distance(f, l), cx))
-                for ( ; f != l && cxon::cnt::element_write<X, T>(o, *f, cx); ++f) ;
+            if (!write_size<X>(o, X::map, std::distance(f, l), cx))
+                return false;
+            for ( ; f != l && cxon::cnt::element_write<X, T>(o, *f, cx); ++f) ;
             return f == l;
         }
 
-- 
2.43.0


From 635ed99d296f6aa8ffd389b0fdfd113874963e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:13 +0000
Subject: [PATCH 42/53] fix: storage of a dynamic value is not taken over by
 another allocator

---
 src/cxon/lang/cbor/node/node.hxx    | 1 -
 src/cxon/lang/common/node-value.hxx | 7 +++++--
 src/cxon/lang/json/node/node.hxx    | 1 -
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 91b4d8a..7e66b86 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -195,7 +195,6 @@ namespace cxon { namespace cbor { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index 2ab8016..bdce7b1 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -111,10 +111,13 @@ namespace cxon { namespace value {
                         get<T>(n) = get<T>(o);
                     }
                 template <typename T>
-                    static auto move_construct(N& n, N&& o) noexcept
+                    static auto move_construct(N& n, N&& o)
                         -> enable_if_t< is_dynamic_type<T>::value>
                     {
-                        get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
+                        if (n.alloc_ == o.alloc_) // TODO: likely
+                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
+                        else
+                            construct<T>(n, std::move(get<T>(o)));
                     }
             // move assign
                 template <typename T>
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 5fca298..9069560 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -160,7 +160,6 @@ namespace cxon { namespace json { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
-- 
2.43.0


From 0cf963e0b81c3f8652fea8e341bea6dd0a1d9c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:13 +0000
Subject: [PATCH 43/53] fix: a dynamic value may be assigned itself or
 something it contains

---
 src/cxon/lang/cbor/node/node.hxx    |   6 +-
 src/cxon/lang/common/node-value.hxx | 140 +++++-----------------------
 src/cxon/lang/json/node/node.hxx    |   6 +-
 3 files changed, 31 insertions(+), 121 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 7e66b86..2a5b8c7 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -307,13 +307,13 @@ namespace cxon { namespace cbor { // node
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
                     basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { return imbue<T>() = std::move(v), *this; } \
+                                                                        { return *this = basic_node(std::move(v), alloc_); } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
                     basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { return imbue<T>() = v, *this; }
+                                                                        { return *this = basic_node(v, alloc_); }
                 CXON_CBOR_TYPE_DEF(map);
                 CXON_CBOR_TYPE_DEF(array);
                 CXON_CBOR_TYPE_DEF(tag);
@@ -413,7 +413,7 @@ namespace cxon { namespace cbor { // node
                     value::construct<text>(*this, s);
                 }
                 basic_node& operator =(const typename text::value_type* s) {
-                    return imbue<text>() = s, *this;
+                    return *this = basic_node(s, alloc_);
                 }
 
             void reset() noexcept {
diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index bdce7b1..6a89b85 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -119,74 +119,32 @@ namespace cxon { namespace value {
                         else
                             construct<T>(n, std::move(get<T>(o)));
                     }
-            // move assign
-                template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            destruct<T>(n), n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
+            // assign, common
+                private:
+                    template <typename T>
+                        static void replace_(N& n, N&& t) {
+                            n.reset(), n.kind_ = t.kind_;
+                            move_construct<T>(n, std::move(t));
                         }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        noexcept(std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
+                    template <typename T, typename P, typename M>
+                        static auto assign_(N& n, M&& o) -> enable_if_t< P::value> {
+                            N t(std::forward<M>(o), allocator_type(o.alloc_));
+                            n.reset(), n.alloc_ = t.alloc_;
+                            replace_<T>(n, std::move(t));
                         }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
+                    template <typename T, typename P, typename M>
+                        static auto assign_(N& n, M&& o) -> enable_if_t<!P::value> {
+                            N t(std::forward<M>(o), n.alloc_);
+                            replace_<T>(n, std::move(t));
                         }
-                        return n;
-                    }
+                public:
+            // move assign
                 template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
+                    static N& move_assign(N& n, N&& o)
+                        noexcept(!is_dynamic_type<T>::value && std::is_nothrow_move_constructible<T>::value)
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                construct<T>(n, std::move(get<T>(o)));
-                            else
-                                construct<T>(n, get<T>(o));
-                        }
+                        if (&n != &o) // n may contain o
+                            assign_<T, propagate_on_container_move_assignment>(n, std::move(o));
                         return n;
                     }
             // copy construct
@@ -210,59 +168,11 @@ namespace cxon { namespace value {
                     }
             // copy assign
                 template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            construct<T>(n, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
+                    static N& copy_assign(N& n, const N& o)
+                        noexcept(!is_dynamic_type<T>::value && std::is_nothrow_copy_constructible<T>::value)
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            construct<T>(n, get<T>(o));
-                        }
+                        if (&n != &o) // n may contain o
+                            assign_<T, propagate_on_container_copy_assignment>(n, o);
                         return n;
                     }
             // construct
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 9069560..31b219e 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -251,13 +251,13 @@ namespace cxon { namespace json { // node
                     basic_node(T&& v, const allocator_type& al)         noexcept(value::is_nothrow_constructible<basic_node, T, T&&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, std::move(v)); } \
                     basic_node& operator =(T&& v)                       noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = std::move(v))) \
-                                                                        { return imbue<T>() = std::move(v), *this; } \
+                                                                        { return *this = basic_node(std::move(v), alloc_); } \
                     basic_node(const T& v)                              noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T)               { value::construct<T>(*this, v); } \
                     basic_node(const T& v, const allocator_type& al)    noexcept(value::is_nothrow_constructible<basic_node, T, T&>::value) \
                                                                         : kind_(node_kind::T), alloc_(al)   { value::construct<T>(*this, v); } \
                     basic_node& operator =(const T& v)                  noexcept(noexcept(std::declval<basic_node&>().template imbue<T>() = v)) \
-                                                                        { return imbue<T>() = v, *this; }
+                                                                        { return *this = basic_node(v, alloc_); }
                 CXON_JSON_TYPE_DEF(object)
                 CXON_JSON_TYPE_DEF(array)
                 CXON_JSON_TYPE_DEF(string)
@@ -353,7 +353,7 @@ namespace cxon { namespace json { // node
                     value::construct<string>(*this, s);
                 }
                 basic_node& operator =(const typename string::value_type* s) {
-                    return imbue<string>() = s, *this;
+                    return *this = basic_node(s, alloc_);
                 }
 
             void reset() noexcept {
-- 
2.43.0


From d14d5ada3c03c13a60484d800eeaa83afad6cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:13 +0000
Subject: [PATCH 44/53] fix: assigning a list to a dynamic value replaces the
 object it holds

---
 src/cxon/lang/cbor/node/node.hxx | 1 +
 src/cxon/lang/json/node/node.hxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 2a5b8c7..d7515e8 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -345,6 +345,7 @@ namespace cxon { namespace cbor { // node
                     });
                     if (obj) {
                         auto& o = imbue<map>();
+                        o.clear();
                         for (auto& e : l) {
                             auto& a = e.template get<array>();
                             cxon::cnt::append(o, {a[0], a[1]});
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 31b219e..a7ca4a9 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -285,6 +285,7 @@ namespace cxon { namespace json { // node
                     });
                     if (obj) {
                         auto& o = imbue<object>();
+                        o.clear();
                         for (auto& e : l) {
                             auto& a = e.template get<array>();
                             cxon::cnt::append(o, { a[0], a[1] });
-- 
2.43.0


From 2ab39a2da7a0c4ddf3ef22fb1ed6e6119ee3e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:13 +0000
Subject: [PATCH 45/53] fix: dynamic values compare with null and with
 characters as they were built from them

---
 src/cxon/lang/cbor/node/node.hxx | 18 ++++++++++--------
 src/cxon/lang/json/node/node.hxx | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index d7515e8..d293138 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -588,42 +588,44 @@ namespace cxon { namespace cbor { // node
                     //CXON_JSON_DEF(sint)
                     template <typename U = sint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     template <typename U = sint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     //CXON_JSON_DEF(uint)
                     template <typename U = uint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     template <typename U = uint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     CXON_JSON_DEF(simple)
                     CXON_JSON_DEF(boolean)
                     //CXON_JSON_DEF(null)
                     friend bool operator ==(const basic_node& n, null) noexcept { return  n.is<null>(); }
                     friend bool operator ==(null, const basic_node& n) noexcept { return  n.is<null>(); }
+                    friend bool operator !=(const basic_node& n, null) noexcept { return !n.is<null>(); }
+                    friend bool operator !=(null, const basic_node& n) noexcept { return !n.is<null>(); }
                     //CXON_JSON_DEF(undefined)
                     friend bool operator ==(const basic_node& n, undefined) noexcept { return  n.is<undefined>(); }
                     friend bool operator ==(undefined, const basic_node& n) noexcept { return  n.is<undefined>(); }
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index a7ca4a9..9d82ed1 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -510,40 +510,42 @@ namespace cxon { namespace json { // node
                     //CXON_JSON_DEF(sint)
                     template <typename U = sint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return n.is<sint>() && n.get<sint>() == v; }
                     template <typename U = sint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     template <typename U = sint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value, bool>
+                            -> enable_if_t<std::is_signed<U>::value && !std::is_floating_point<U>::value && !is_char<U>::value, bool>
                         { return !n.is<sint>() || n.get<sint>() != v; }
                     //CXON_JSON_DEF(uint)
                     template <typename U = uint>
                         friend auto operator ==(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator ==(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return n.is<uint>() && n.get<uint>() == v; }
                     template <typename U = uint>
                         friend auto operator !=(const basic_node& n, U v) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     template <typename U = uint>
                         friend auto operator !=(U v, const basic_node& n) noexcept
-                            -> enable_if_t<std::is_unsigned<U>::value, bool>
+                            -> enable_if_t<std::is_unsigned<U>::value || is_char<U>::value, bool>
                         { return !n.is<uint>() || n.get<uint>() != v; }
                     CXON_JSON_DEF(boolean)
                     friend bool operator ==(const basic_node& n, null) noexcept { return  n.is<null>(); }
                     friend bool operator ==(null, const basic_node& n) noexcept { return  n.is<null>(); }
+                    friend bool operator !=(const basic_node& n, null) noexcept { return !n.is<null>(); }
+                    friend bool operator !=(null, const basic_node& n) noexcept { return !n.is<null>(); }
 #               undef CXON_JSON_DEF
         };
 
-- 
2.43.0


From 913765f7b42a229307f8722111255b20e019a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:05 +0000
Subject: [PATCH 46/53] fix: a NaN written with a sign is extracted again

---
 src/cxon/lib/node.json.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cxon/lib/node.json.hxx b/src/cxon/lib/node.json.hxx
index 9b98d3a..1d307a0 100644
--- a/src/cxon/lib/node.json.hxx
+++ b/src/cxon/lib/node.json.hxx
@@ -209,6 +209,7 @@ namespace cxon {
                 static constexpr char const*        pinf =  "inf";
                 static constexpr char const*        ninf = "-inf";
                 static constexpr char const*        nan =   "nan";
+                static constexpr char const*        nnan = "-nan";
             };
 #       if defined(__cpp_char8_t)
             template <>
@@ -216,6 +217,7 @@ namespace cxon {
                     static constexpr char8_t const* pinf =  u8"inf";
                     static constexpr char8_t const* ninf = u8"-inf";
                     static constexpr char8_t const* nan =   u8"nan";
+                    static constexpr char8_t const* nnan = u8"-nan";
                 };
 #       endif
         template <>
@@ -223,18 +225,21 @@ namespace cxon {
                 static constexpr char16_t const*    pinf =  u"inf";
                 static constexpr char16_t const*    ninf = u"-inf";
                 static constexpr char16_t const*    nan =   u"nan";
+                static constexpr char16_t const*    nnan = u"-nan";
             };
         template <>
             struct nmst_<char32_t> {
                 static constexpr char32_t const*    pinf =  U"inf";
                 static constexpr char32_t const*    ninf = U"-inf";
                 static constexpr char32_t const*    nan =   U"nan";
+                static constexpr char32_t const*    nnan = U"-nan";
             };
         template <>
             struct nmst_<wchar_t> {
                 static constexpr wchar_t const*     pinf =  L"inf";
                 static constexpr wchar_t const*     ninf = L"-inf";
                 static constexpr wchar_t const*     nan =   L"nan";
+                static constexpr wchar_t const*     nnan = L"-nan";
             };
 
         template <typename X, typename N, typename S, typename II, typename Cx>
@@ -245,6 +250,7 @@ namespace cxon {
                          if (s == nmst_<symbol>::pinf) n.template imbue<real>() =  std::numeric_limits<real>::infinity();
                     else if (s == nmst_<symbol>::ninf) n.template imbue<real>() = -std::numeric_limits<real>::infinity();
                     else if (s == nmst_<symbol>::nan ) n.template imbue<real>() =  std::numeric_limits<real>::quiet_NaN();
+                    else if (s == nmst_<symbol>::nnan) n.template imbue<real>() = -std::numeric_limits<real>::quiet_NaN();
                     return true;
                 }
                 return false;
-- 
2.43.0


From 4bc4fd3ae188c39e59db5bc49db4f428c3e1d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:05 +0000
Subject: [PATCH 47/53] fix: a tagged key is written to JSON as the key it tags

---
 src/cxon/lib/node.json.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.json.hxx b/src/cxon/lib/node.json.hxx
index 1d307a0..ea763ec 100644
--- a/src/cxon/lib/node.json.hxx
+++ b/src/cxon/lib/node.json.hxx
@@ -509,7 +509,7 @@ namespace cxon {
 #                               define CXON_GET(T) t.template get<typename cbor::basic_node<Tr>::T>()
                                     case node_kind::map         : { CXON_NODE_RG();     return write_key_(o, CXON_GET(map),         cx); }
                                     case node_kind::array       : { CXON_NODE_RG();     return write_key_(o, CXON_GET(array),       cx); }
-                                    case node_kind::tag         : { CXON_NODE_RG();     return write_key_(o, CXON_GET(tag),         cx); }
+                                    case node_kind::tag         : { CXON_NODE_RG();     return key(o, CXON_GET(tag).value,          cx); }
                                     case node_kind::bytes       :                       return write_key_(o, CXON_GET(bytes),       cx);
                                     case node_kind::text        :                       return write_key_(o, CXON_GET(text),        cx);
                                     case node_kind::real        :                       return write_key_(o, CXON_GET(real),        cx);
-- 
2.43.0


From 8b91e9095343d9b42c2673526e0e1c9152f2a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:41 +0000
Subject: [PATCH 48/53] fix: pretty-printing does not depend on how its input
 is split

---
 src/cxon/lang/json/tidy.hxx | 40 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index c006265..e6f97e9 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -188,43 +188,23 @@ namespace cxon { namespace json {
                 ;
             }
 
-            template <typename A>
-                bool append(A append) {
-                    using cio::poke;
-                    switch (cur()) {
-                        case stt::lst:
-                            return  (mut(stt::scl),     poke(o_, '\n') && poke(o_, lvl_ += tab_, pad_)   && append(o_));
-                        case stt::qst: case stt::ast:
-                            return  (                                                                       append(o_));
-                        case stt::com:
-                            return  (mut(stt::grn),     poke(o_, '\n') && poke(o_, lvl_, pad_)           && append(o_));
-                        default:
-                            return pre() == stt::scl ?
-                                    (mut(stt::scl),     poke(o_, '\n') && poke(o_, lvl_, pad_)           && append(o_)) :
-                                    (mut(stt::scl),                                                         append(o_))
-                            ;
-                    }
-                }
-
             bool append(const char* f, const char* l) {
-                return append([&](out_type o) {
-                    return cio::poke(o, f, l);
-                });
+                for ( ; f != l && append(*f); ++f)
+                    ;
+                return f == l;
             }
             bool append(const char* s, std::size_t n) {
-                return append([&](out_type o) {
-                    return cio::poke(o, s, n);
-                });
+                return append(s, s + n);
             }
             bool append(const char* s) {
-                return append([&](out_type o) {
-                    return cio::poke(o, s);
-                });
+                for ( ; *s && append(*s); ++s)
+                    ;
+                return !*s;
             }
             bool append(unsigned n, char c) {
-                return append([&](out_type o) {
-                    return cio::poke(o, n, c);
-                });
+                for ( ; n && append(c); --n)
+                    ;
+                return !n;
             }
 
             private:
-- 
2.43.0


From 8dc005681bfe8c5c6f800b16da066a758b684ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:41 +0000
Subject: [PATCH 49/53] fix: an indentation that does not fit the output is
 reported

---
 src/cxon/lang/json/tidy.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index e6f97e9..70aa1ad 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -157,7 +157,9 @@ namespace cxon { namespace json {
                             case '}': case ']':
                                 break;
                             default:
-                                mut(stt::grn),   poke(o_, '\n') && poke(o_, lvl_, pad_);
+                                mut(stt::grn);
+                                if (!poke(o_, '\n') || !poke(o_, lvl_, pad_))
+                                    return false;
                         }
                         break;
                 }
-- 
2.43.0


From 97ac8dc4203fe4b84c1a37a6dc8f075605ca9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:44 +0000
Subject: [PATCH 50/53] fix: any allocator may be supplied for pointers, as
 documented

---
 src/cxon/lang/common/allocator.hxx | 30 +++++++++++++++++++++++++++++-
 src/cxon/utility.hxx               | 11 +++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index 78269e1..f474160 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -14,7 +14,17 @@
 
 namespace cxon {
 
-    CXON_PARAMETER(allocator, std::allocator<char>);
+    struct allocator : napa::parameter<allocator, std::allocator<char>> { // of any type, rebound as needed
+
+        template <typename Al>
+            static constexpr napa::imp::var<allocator, decay_t<Al>> set(Al&& al);
+
+        template <typename Pk, typename T>
+            static constexpr auto value(const Pk& p, const T&)      -> enable_if_t< napa::imp::has_tag<allocator, Pk>::value, decltype(napa::imp::find<allocator>(p).value)>;
+        template <typename Pk, typename T>
+            static constexpr auto value(const Pk&, const T& dflt)   -> enable_if_t<!napa::imp::has_tag<allocator, Pk>::value, T>;
+
+    };
 
 }
 
@@ -46,6 +56,24 @@ namespace cxon { namespace alc {
 
 // implementation //////////////////////////////////////////////////////////////
 
+namespace cxon {
+
+    template <typename Al>
+        constexpr napa::imp::var<allocator, decay_t<Al>> allocator::set(Al&& al) {
+            return napa::imp::var<allocator, decay_t<Al>>(std::forward<Al>(al));
+        }
+
+    template <typename Pk, typename T>
+        constexpr auto allocator::value(const Pk& p, const T&)      -> enable_if_t< napa::imp::has_tag<allocator, Pk>::value, decltype(napa::imp::find<allocator>(p).value)> {
+            return napa::imp::find<allocator>(p).value;
+        }
+    template <typename Pk, typename T>
+        constexpr auto allocator::value(const Pk&, const T& dflt)   -> enable_if_t<!napa::imp::has_tag<allocator, Pk>::value, T> {
+            return dflt;
+        }
+
+}
+
 namespace cxon { namespace alc {
 
     namespace imp {
diff --git a/src/cxon/utility.hxx b/src/cxon/utility.hxx
index 0168f63..913efa0 100644
--- a/src/cxon/utility.hxx
+++ b/src/cxon/utility.hxx
@@ -383,6 +383,17 @@ namespace cxon { namespace napa {
         template <typename Tg, typename Pk>
             struct has_tag<Tg, Pk, 0>   : std::false_type {};
 
+        // the parameter itself, the type of its value may be other than the type of the tag
+        template <typename Tg, typename Pk, std::size_t Sz = std::tuple_size<Pk>::value>
+            struct index_of                 : std::conditional<is_same_tag<Tg, Pk, Sz - 1>::value, std::integral_constant<std::size_t, Sz - 1>, index_of<Tg, Pk, Sz - 1>>::type {};
+        template <typename Tg, typename Pk>
+            struct index_of<Tg, Pk, 0>      {};
+
+        template <typename Tg, typename Pk>
+            constexpr auto find(const Pk& p) -> const tuple_element_t<index_of<Tg, Pk>::value, Pk>& {
+                return std::get<index_of<Tg, Pk>::value>(p);
+            }
+
         template <typename Tg, typename Pk, std::size_t Sz = std::tuple_size<Pk>::value>
             struct pack {
                 static constexpr tag_type<Tg>& get(Pk& p)   { return get_(p); }
-- 
2.43.0


From c83ba76f2886afcd46e47aed3ffa824c0e33095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:23 +0000
Subject: [PATCH 51/53] fix: exceptions while a pointer is read do not leak
 what it would point to

---
 src/cxon/lang/cbor/compound.hxx    |  6 ++----
 src/cxon/lang/common/allocator.hxx | 13 +++++++++++--
 src/cxon/lang/json/compound.hxx    |  6 ++----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index 86601e6..4e0f5de 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -69,10 +69,8 @@ namespace cxon { // pointer/read
                 if (bio::peek(i, e) == X::nil)
                     return bio::get(i, e), t = nullptr, true;
                 auto al = alc::make_context_allocator<T>(cx);
-                T *const v = al.create();
-                    if (!v || !read_value<X>(*v, i, e, cx))
-                        return al.release(v), false;
-                return t = v, true;
+                auto v = al.make();
+                return v && read_value<X>(*v, i, e, cx) && (t = v.release(), true);
             }
 
     }}
diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index f474160..eb035b4 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -231,12 +231,16 @@ namespace cxon { namespace alc {
         struct basic_allocator {
             using type = rebind_t<Al, T>;
 
+            struct releaser     { basic_allocator& al; void operator ()(T* t) { al.release(t); } };
+            using owner = std::unique_ptr<T, releaser>;
+
             basic_allocator(const type& al) : al_(al) {}
 
             template <typename ...A>
                 T* create(A&&... as) {
-                    auto t = tr::allocate(al_, 1);
-                    return t ? construct(t, std::forward<A>(as)...), t : t;
+                    storage t(tr::allocate(al_, 1), deallocator {*this}); // constructors may throw
+                    if (t) construct(t.get(), std::forward<A>(as)...);
+                    return t.release();
                 }
             T* create(std::size_t n) {
                 auto p = tr::allocate(al_, n);
@@ -245,6 +249,9 @@ namespace cxon { namespace alc {
                 return p;
             }
 
+            template <typename ...A> // owned until released
+                owner make(A&&... as) { return owner(create(std::forward<A>(as)...), releaser {*this}); }
+
             void release(T* t) {
                 if (t) destroy(t), tr::deallocate(al_, t, 1);
             }
@@ -268,6 +275,8 @@ namespace cxon { namespace alc {
 
             private:
                 using tr = std::allocator_traits<type>;
+                struct deallocator  { basic_allocator& al; void operator ()(T* t) { tr::deallocate(al.al_, t, 1); } };
+                using storage = std::unique_ptr<T, deallocator>;
                 type al_;
         };
 
diff --git a/src/cxon/lang/json/compound.hxx b/src/cxon/lang/json/compound.hxx
index 460a832..fe66ab8 100644
--- a/src/cxon/lang/json/compound.hxx
+++ b/src/cxon/lang/json/compound.hxx
@@ -31,10 +31,8 @@ namespace cxon { // pointer
                         ;
                     }
                     auto al = alc::make_context_allocator<T>(cx);
-                    T *const n = al.create();
-                        if (!read_value<Y>(*n, i, e, cx))
-                            return al.release(n), false;
-                    return t = n, true;
+                    auto n = al.make();
+                    return read_value<Y>(*n, i, e, cx) && (t = n.release(), true);
                 }
         };
     template <typename X, typename T>
-- 
2.43.0


From 74efe441e63253129edfed9bea5aa47c1cab0938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:13 +0000
Subject: [PATCH 52/53] fix: strings held by shared pointers are released with
 their size

---
 src/cxon/lang/cbor/compound.hxx       | 15 +++++++++++----
 src/cxon/lang/cbor/lib/std/memory.hxx | 14 ++++++++++++--
 src/cxon/lang/common/cio/string.hxx   | 13 +++++++++++--
 src/cxon/lang/json/lib/std/memory.hxx | 14 ++++++++++++--
 4 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index 4e0f5de..eee75c8 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -41,8 +41,8 @@ namespace cxon { // pointer/read
     namespace cbor { namespace imp {
 
         // a pointer to characters is a string
-        template <typename X, typename T, typename II, typename Cx>
-            inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
+        template <typename X, typename T, typename II, typename Cx> // s: the size of the storage
+            inline auto read_pointer_(T*& t, std::size_t& s, II& i, II e, Cx& cx)
                 -> enable_if_t< is_char<T>::value, bool>
             {
                 typename X::tag_type tag;
@@ -50,15 +50,22 @@ namespace cxon { // pointer/read
                     return false;
                 auto const b = bio::peek(i, e);
                 if (b == X::nil)
-                    return bio::get(i, e), t = nullptr, true;
+                    return bio::get(i, e), t = nullptr, s = 0, true;
                 switch (b & X::mjr) {
                     case X::bstr: case X::tstr: case X::arr: {
                                 auto c = cxon::cnt::make_pointer_container<X, T>(cx);
-                                return cbor::cnt::read_array<X>(c, tag, i, e, cx) && (c.push_back({}), t = c.release());
+                                return cbor::cnt::read_array<X>(c, tag, i, e, cx) && (c.push_back({}), s = c.size(), t = c.release());
                     }
                     default:    return cx/cbor::read_error::integer_invalid;
                 }
             }
+        template <typename X, typename T, typename II, typename Cx>
+            inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t< is_char<T>::value, bool>
+            {
+                std::size_t s;
+                return read_pointer_<X>(t, s, i, e, cx);
+            }
         // and to anything else - a single value
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
diff --git a/src/cxon/lang/cbor/lib/std/memory.hxx b/src/cxon/lang/cbor/lib/std/memory.hxx
index 687964f..58531fa 100644
--- a/src/cxon/lang/cbor/lib/std/memory.hxx
+++ b/src/cxon/lang/cbor/lib/std/memory.hxx
@@ -29,8 +29,18 @@ namespace cxon {
 
     template <typename X, typename T>
         struct read<CBOR<X>, std::shared_ptr<T>, enable_if_t<!std::is_array<T>::value>> {
-            template <typename II, typename Cx, typename Y = CBOR<X>>
-                static bool value(std::shared_ptr<T>& t, II& i, II e, Cx& cx) {
+            template <typename II, typename Cx, typename U = T, typename Y = CBOR<X>>
+                static auto value(std::shared_ptr<T>& t, II& i, II e, Cx& cx)
+                    -> enable_if_t< is_char<U>::value, bool>
+                { // a string
+                    auto al = alc::make_context_allocator<U>(cx);
+                        U* p; std::size_t s;
+                    return cbor::imp::read_pointer_<Y>(p, s, i, e, cx) && (t.reset(p, [al, s](T* p) mutable { al.release(p, s); }), true);
+                }
+            template <typename II, typename Cx, typename U = T, typename Y = CBOR<X>>
+                static auto value(std::shared_ptr<T>& t, II& i, II e, Cx& cx)
+                    -> enable_if_t<!is_char<U>::value, bool>
+                {
                     auto al = alc::make_context_allocator<T>(cx);
                         T* p;
 #                   if __cplusplus < 201402L
diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index e12cbbf..eaa0760 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -24,6 +24,8 @@ namespace cxon { namespace cio { namespace str { // char arrays: read
 
     template <typename X, typename T, typename II, typename Cx>
         inline auto pointer_read(T*& t, II& i, II e, Cx& cx)    -> enable_if_t<is_char<T>::value, bool>;
+    template <typename X, typename T, typename II, typename Cx> // s: the size of the storage
+        inline auto pointer_read(T*& t, std::size_t& s, II& i, II e, Cx& cx) -> enable_if_t<is_char<T>::value, bool>;
 
 }}}
 
@@ -208,15 +210,22 @@ namespace cxon { namespace cio { namespace str {
     template <typename X, typename T, typename II, typename Cx>
         inline auto pointer_read(T*& t, II& i, II e, Cx& cx)
             -> enable_if_t<is_char<T>::value, bool>
+        {
+            std::size_t s;
+            return pointer_read<X>(t, s, i, e, cx);
+        }
+    template <typename X, typename T, typename II, typename Cx>
+        inline auto pointer_read(T*& t, std::size_t& s, II& i, II e, Cx& cx)
+            -> enable_if_t<is_char<T>::value, bool>
         {
             if (!consume<X>(i, e, cx))
                 return false;
             if (peek(i, e) == *X::id::nil)
-                return  (consume<X>(X::id::nil, i, e) && (t = nullptr, true)) ||
+                return  (consume<X>(X::id::nil, i, e) && (t = nullptr, s = 0, true)) ||
                         cx/X::read_error::unexpected
                 ;
             auto c = cxon::cnt::make_pointer_container<X, T>(cx);
-            return string_read<X>(c, i, e, cx) && (c.push_back({}), t = c.release(), true);
+            return string_read<X>(c, i, e, cx) && (c.push_back({}), s = c.size(), t = c.release(), true);
         }
 
 }}}
diff --git a/src/cxon/lang/json/lib/std/memory.hxx b/src/cxon/lang/json/lib/std/memory.hxx
index 08e9e62..66780f2 100644
--- a/src/cxon/lang/json/lib/std/memory.hxx
+++ b/src/cxon/lang/json/lib/std/memory.hxx
@@ -45,8 +45,18 @@ namespace cxon {
 
     template <typename X, typename T>
         struct read<JSON<X>, std::shared_ptr<T>, enable_if_t<!std::is_array<T>::value>> {
-            template <typename II, typename Cx, typename Y = JSON<X>>
-                static bool value(std::shared_ptr<T>& t, II& i, II e, Cx& cx) {
+            template <typename II, typename Cx, typename U = T, typename Y = JSON<X>>
+                static auto value(std::shared_ptr<T>& t, II& i, II e, Cx& cx)
+                    -> enable_if_t< is_char<U>::value, bool>
+                { // a string
+                    auto al = alc::make_context_allocator<U>(cx);
+                        U* p; std::size_t s;
+                    return cio::str::pointer_read<Y>(p, s, i, e, cx) && (t.reset(p, [al, s](T* p) mutable { al.release(p, s); }), true);
+                }
+            template <typename II, typename Cx, typename U = T, typename Y = JSON<X>>
+                static auto value(std::shared_ptr<T>& t, II& i, II e, Cx& cx)
+                    -> enable_if_t<!is_char<U>::value, bool>
+                {
                     auto al = alc::make_context_allocator<T>(cx);
                         T* p;
 #                   if __cplusplus < 201402L
-- 
2.43.0


From caf682ccfc1083c141adbe38dcdc3792bf22870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:48 +0000
Subject: [PATCH 53/53] fix: exceptions thrown by the input do not terminate
 the program

---
 src/cxon/lang/common/container.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 9066374..5ba470a 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -342,7 +342,7 @@ namespace cxon { namespace cnt {
             }
 
             template <typename II>
-                auto append(II f, II l) noexcept
+                auto append(II f, II l)
                     -> enable_if_t<is_forward_iterator<II>::value, bool>
                 {
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
@@ -357,7 +357,7 @@ namespace cxon { namespace cnt {
 #                   endif
                 }
             template <typename II>
-                auto append(II t, std::size_t n) noexcept
+                auto append(II t, std::size_t n)
                     -> enable_if_t<is_random_access_iterator<II>::value, bool>
                 {
                     return append(t, t + n);
-- 
2.43.0

