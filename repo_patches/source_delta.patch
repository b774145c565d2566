From e294898e4d8783c0680a6c08e6ae544e994dbd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 001/136] fix: CSS highlighter hangs or reads past the end on
 ill-formed UTF-8

A byte which cannot begin a UTF-8 sequence has sequence length zero, so that
the highlighter never advanced past it, and a truncated sequence at the end of
the source made it advance out of range.
---
 src/main/cpp/lang/css.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 1a895b2..7ba277b 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -98,7 +98,7 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         }
         return length;
     }
-    return std::size_t(utf8::sequence_length(str[0]));
+    return std::size_t(utf8::decode_and_length_or_replacement(str).length);
 }
 
 std::size_t match_ident_sequence(std::u8string_view str)
@@ -398,7 +398,7 @@ public:
                     consume_ident_like_token(contextual_highlight_type);
                 }
                 else {
-                    advance(std::size_t(utf8::sequence_length(c)));
+                    advance(std::size_t(utf8::decode_and_length_or_replacement(remainder).length));
                 }
                 break;
             }
-- 
2.43.0


From c6740f8400ca7d014c6f03b947a043e7b8cba5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 002/136] fix: CSS url( is never recognized

match_ident_like_token compared the text after the identifier with "url".
---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 7ba277b..ec38fd3 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -127,7 +127,7 @@ Ident_Result match_ident_like_token(std::u8string_view str)
     // parenthesis or the following URL, just the identifier.
 
     const std::size_t length = match_ident_sequence(str);
-    const std::u8string_view result = str.substr(length);
+    const std::u8string_view result = str.substr(0, length);
 
     if (length == str.length() || str[length] != u8'(') {
         return { .length = length, .type = Ident_Type::ident };
-- 
2.43.0


From 6f8650d0f4fbcc990c45df6a699d0d6f86c440fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 003/136] fix: Lua highlighter emits empty tokens for empty
 comments and long strings

---
 src/main/cpp/lang/lua.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 9c048ad..c0aa6af 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -528,6 +528,10 @@ bool highlight_lua(
 )
 {
     const auto emit = [&](std::size_t begin, std::size_t length, Highlight_Type type) {
+        if (length == 0) {
+            // For example, the content of an empty comment or of an empty long string.
+            return;
+        }
         const bool coalesce = options.coalescing //
             && !out.empty() //
             && Highlight_Type(out.back().type) == type //
-- 
2.43.0


From 6560c1a29607bd66161109dd5a4aeb5740e6513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 004/136] fix: Lua highlighter splits non-ASCII symbols into
 one token per code unit

---
 src/main/cpp/lang/lua.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index c0aa6af..c114baa 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -684,8 +684,10 @@ bool highlight_lua(
             continue;
         }
 
-        emit(index, 1, Highlight_Type::symbol);
-        index++;
+        const auto symbol_length
+            = std::size_t(utf8::decode_and_length_or_replacement(remainder).length);
+        emit(index, symbol_length, Highlight_Type::symbol);
+        index += symbol_length;
     }
 
     return true;
-- 
2.43.0


From aa09518495ab30e32a873526cd456f947bc380f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 005/136] fix: C and C++ string literals ending in a truncated
 UTF-8 sequence exceed the source

---
 src/main/cpp/lang/cpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e50a9c4..e8fce26 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -811,7 +811,8 @@ public:
                 fresh_line = true;
                 return;
             }
-            const auto code_units = std::size_t(utf8::sequence_length(source[index], 1));
+            const auto code_units
+                = std::size_t(utf8::decode_and_length_or_replacement(remainder()).length);
             chars_length += code_units;
             advance(code_units);
         }
-- 
2.43.0


From e00cf0ca846b405d4145ae2424a7152d19a50ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 006/136] fix: Rust highlighter fails an assertion on 'ab'

A LIFETIME_TOKEN must not be immediately followed by an apostrophe.
Such text is not always a character literal, so an assertion is inappropriate.
---
 src/main/cpp/lang/rust.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 4dedc55..b112988 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -577,6 +577,10 @@ private:
             if (!id_length) {
                 return false;
             }
+            if (remainder.substr(raw_prefix.length() + id_length).starts_with(u8'\'')) {
+                // Lifetimes must not be immediately followed by an apostrophe.
+                return false;
+            }
             const std::u8string_view id = remainder.substr(raw_prefix.length(), id_length);
             if (is_illegal_raw_identifier(id)) {
                 emit_and_advance(raw_prefix.length() + id_length, Highlight_Type::error);
@@ -584,17 +588,16 @@ private:
             else {
                 emit_result(raw_prefix.length(), id_length);
             }
-            // There should not be a closing apostrophe here because any such case would have
-            // been interpreted as a character literal already.
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         else {
             const std::size_t id_length = match_identifier(remainder.substr(1));
             if (!id_length) {
                 return false;
             }
+            if (remainder.substr(1 + id_length).starts_with(u8'\'')) {
+                return false;
+            }
             emit_result(1, id_length);
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         return true;
     }
-- 
2.43.0


From 500def116b5c61326c6ed943b663ea859a432cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 007/136] fix: Rust raw lifetimes begin with 'r#, not '#r

---
 src/main/cpp/lang/rust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index b112988..9b42cc8 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -555,7 +555,7 @@ private:
     bool expect_lifetime_token()
     {
         // https://doc.rust-lang.org/reference/tokens.html#lifetimes-and-loop-labels
-        constexpr std::u8string_view raw_prefix = u8"'#r";
+        constexpr std::u8string_view raw_prefix = u8"'r#";
 
         if (!remainder.starts_with(u8'\'')) {
             return false;
-- 
2.43.0


From 6daab31cefb85a7f7650e4ca22e3d22c252adbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 008/136] fix: JSX braces may consume tokens past the matched
 closing brace

Matching and highlighting braced JSX code could disagree about the position
of the closing brace, resulting in failed assertions and tokens that exceed
the bounds of the source.
---
 src/main/cpp/lang/js.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 7449ea1..0c89de1 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1178,9 +1178,19 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_brace);
         const std::size_t js_length = braced.length - (braced.is_terminated ? 2 : 1);
 
-        if (js_length != 0) {
+        // The matching of braces is much more superficial than the highlighting of JS code,
+        // so the two may disagree on which closing brace is the last one.
+        // We have to make sure that only the previously matched code gets consumed.
+        const std::u8string_view after = remainder.substr(js_length);
+        remainder = remainder.substr(0, js_length);
+        while (!remainder.empty()) {
             consume_js_before_closing_brace();
+            if (!remainder.empty()) {
+                // Stray "}".
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+            }
         }
+        remainder = after;
         if (braced.is_terminated) {
             emit_and_advance(1, Highlight_Type::symbol_brace);
         }
-- 
2.43.0


From cda6419a6732631384e87582663a39e04c23a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 009/136] fix: JS escape sequences may exceed the string
 literal that contains them

---
 src/main/cpp/lang/js.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 0c89de1..ab07182 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1294,7 +1294,8 @@ private:
         std::size_t remaining = content_length;
         while (remaining > 0) {
             if (remainder.starts_with(u8'\\')) {
-                if (const Escape_Result esc = match_escape_sequence(remainder)) {
+                if (const Escape_Result esc
+                    = match_escape_sequence(remainder.substr(0, remaining))) {
                     flush_chars();
                     emit_and_advance(
                         esc.length,
-- 
2.43.0


From 8762f7cfe068d3881aae5ba12f5f78fbcc9120d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 010/136] fix: Markdown emits an empty token for an
 unterminated, empty HTML comment

---
 src/main/cpp/lang/markdown.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 5e1f766..84e315b 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -830,7 +830,11 @@ private:
             return true;
         }
 
-        emit_and_advance(comment.length - html_comment_prefix.length(), Highlight_Type::comment);
+        if (comment.length > html_comment_prefix.length()) {
+            emit_and_advance(
+                comment.length - html_comment_prefix.length(), Highlight_Type::comment
+            );
+        }
         in_html_comment = true;
         return true;
     }
-- 
2.43.0


From 0d6ad65e42775f04205dfd0b8c0b21833e47e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 011/136] fix: tokens may begin or end in the middle of a UTF-8
 code point

Errors and escape sequences were often assumed to consist of single code
units, which resulted in HTML output that is not valid UTF-8.
---
 include/ulight/impl/escapes.hpp     | 38 +++++++++++++++++++++++++----
 include/ulight/impl/highlighter.hpp | 13 ++++++++++
 src/main/cpp/lang/bash.cpp          |  5 +++-
 src/main/cpp/lang/cowel.cpp         |  4 +--
 src/main/cpp/lang/cpp.cpp           |  8 ++++--
 src/main/cpp/lang/java.cpp          |  2 +-
 src/main/cpp/lang/js.cpp            |  5 ++--
 src/main/cpp/lang/kotlin.cpp        |  2 +-
 src/main/cpp/lang/nasm.cpp          |  3 ++-
 src/main/cpp/lang/tex.cpp           |  5 +++-
 src/main/cpp/lang/xml.cpp           |  2 +-
 11 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 649b296..70e5323 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -9,6 +9,7 @@
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
 #include "ulight/impl/platform.h"
+#include "ulight/impl/unicode.hpp"
 
 namespace ulight {
 
@@ -103,6 +104,17 @@ constexpr std::size_t escape_type_max_length(Common_Escape type)
 
 namespace detail {
 
+/// @brief Returns the position of the first code unit in `str`, starting at `index`,
+/// which is not a UTF-8 continuation unit.
+[[nodiscard]]
+constexpr std::size_t next_code_point_boundary(std::u8string_view str, std::size_t index)
+{
+    while (index < str.length() && (str[index] & 0xC0) == 0x80) {
+        ++index;
+    }
+    return index;
+}
+
 template <typename Predicate>
 constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predicate p)
 {
@@ -159,12 +171,16 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
-        str = str.substr(0, min(min_length, str.length()));
-        if (str.length() < min_length) {
-            return { .length = str.length(), .erroneous = true };
+        const std::u8string_view digits = str.substr(0, min(min_length, str.length()));
+        if (digits.length() < min_length) {
+            return { .length = digits.length(), .erroneous = true };
         }
-        const bool all_hex = all_of(str, hex_digit_lambda);
-        return { .length = str.length(), .erroneous = !all_hex };
+        if (all_of(digits, hex_digit_lambda)) {
+            return { .length = digits.length() };
+        }
+        // The erroneous part of the escape sequence must not end in the middle of a code point.
+        return { .length = detail::next_code_point_boundary(str, digits.length()),
+                 .erroneous = true };
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
@@ -194,6 +210,18 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     }
 }
 
+/// @brief Returns the length of the first code unit in `str`,
+/// which is typically a backslash,
+/// plus the length of the code point that follows it, if any.
+[[nodiscard]]
+constexpr std::size_t length_with_escaped_code_point(std::u8string_view str)
+{
+    if (str.empty()) {
+        return 0;
+    }
+    return 1 + std::size_t(utf8::decode_and_length_or_replacement(str.substr(1)).length);
+}
+
 /// @brief Like the primary overload,
 /// but matches within a `str.substr(prefix_length)` and adds `prefix_length`
 /// onto the length of the result.
diff --git a/include/ulight/impl/highlighter.hpp b/include/ulight/impl/highlighter.hpp
index da6b980..cb14901 100644
--- a/include/ulight/impl/highlighter.hpp
+++ b/include/ulight/impl/highlighter.hpp
@@ -9,6 +9,7 @@
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/numbers.hpp"
 #include "ulight/impl/parse_utils.hpp"
+#include "ulight/impl/unicode.hpp"
 
 namespace ulight {
 
@@ -119,6 +120,18 @@ protected:
         advance(length);
     }
 
+    /// @brief Emits and advances past a single code point,
+    /// or past a single ill-formed code unit sequence.
+    void emit_and_advance_code_point(
+        Highlight_Type type,
+        Coalescing coalescing = Coalescing::normal
+    )
+    {
+        ULIGHT_DEBUG_ASSERT(!eof());
+        const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+        emit_and_advance(std::size_t(length), type, coalescing);
+    }
+
     /// @brief Consumes a span of code in a language of choice,
     /// and appends the resulting tokens to this highlighter.
     /// @param lang The nested language to highlight.
diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 7c58241..237eb54 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -5,6 +5,7 @@
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/ulight.hpp"
 
+#include "ulight/impl/escapes.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
 
@@ -319,7 +320,9 @@ private:
             advance(1);
         }
         else {
-            emit_and_advance(std::min(2uz, remainder.length()), Highlight_Type::string_escape);
+            emit_and_advance(
+                length_with_escaped_code_point(remainder), Highlight_Type::string_escape
+            );
         }
     }
 
diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index b578562..4cd1653 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -469,7 +469,7 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance_code_point(Highlight_Type::error);
             }
         }
 
@@ -553,7 +553,7 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance_code_point(Highlight_Type::error);
             }
         }
 
diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e8fce26..763f14b 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -448,7 +448,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     }
 
     default: {
-        return { .length = 2,
+        return { .length = length_with_escaped_code_point(str),
                  .type = Escape_Type::conditional,
                  .erroneous = !is_cpp_basic(str[1]) };
     }
@@ -838,7 +838,11 @@ public:
             return;
         }
         if (rem[d_char_sequence_length + 1] != u8'(') {
-            emit_and_advance(d_char_sequence_length + 2, Highlight_Type::error);
+            const auto [_, error_length]
+                = utf8::decode_and_length_or_replacement(rem.substr(d_char_sequence_length + 1));
+            emit_and_advance(
+                d_char_sequence_length + 1 + std::size_t(error_length), Highlight_Type::error
+            );
             return;
         }
         rem.remove_prefix(d_char_sequence_length + 2);
diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index fc1b436..3d9b22a 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -341,7 +341,7 @@ private:
         }
         else if (!remainder.empty() && remainder[0] != u8'\'' //
                  && remainder[0] != u8'\r' && remainder[0] != u8'\n') {
-            emit_and_advance(1, Highlight_Type::string);
+            emit_and_advance_code_point(Highlight_Type::string);
         }
         else if (!remainder.empty()) {
             emit_and_advance(1, Highlight_Type::error);
diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index ab07182..6463132 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -10,6 +10,7 @@
 
 #include "ulight/impl/assert.hpp"
 #include "ulight/impl/buffer.hpp"
+#include "ulight/impl/escapes.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
 #include "ulight/impl/unicode.hpp"
@@ -287,7 +288,7 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
     }
     default: {
         // https://262.ecma-international.org/15.0/index.html#prod-CharacterEscapeSequence
-        return { .length = 2 };
+        return { .length = length_with_escaped_code_point(str) };
     }
     }
 }
@@ -997,7 +998,7 @@ private:
 
     void consume_error()
     {
-        emit_and_advance(1, Highlight_Type::error);
+        emit_and_advance_code_point(Highlight_Type::error);
         input_element = Input_Element::regex;
     }
 
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 9d24fda..c410215 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -497,7 +497,7 @@ private:
                 consume_dotted_annotation_name();
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance_code_point(Highlight_Type::error);
             }
         }
         if (!remainder.empty() && remainder[0] == u8']') {
diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 3f28f46..470bc96 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -2,6 +2,7 @@
 #include <string_view>
 
 #include "ulight/impl/ascii_algorithm.hpp"
+#include "ulight/impl/escapes.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
 #include "ulight/impl/numbers.hpp"
@@ -55,7 +56,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
         return match_common_escape<Common_Escape::hex_8>(str, 2);
     }
     default: {
-        return { .length = 2uz, .erroneous = true };
+        return { .length = length_with_escaped_code_point(str), .erroneous = true };
     }
     }
 }
diff --git a/src/main/cpp/lang/tex.cpp b/src/main/cpp/lang/tex.cpp
index 55ed495..e3bd047 100644
--- a/src/main/cpp/lang/tex.cpp
+++ b/src/main/cpp/lang/tex.cpp
@@ -6,6 +6,7 @@
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/buffer.hpp"
+#include "ulight/impl/escapes.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
 
@@ -65,7 +66,9 @@ struct Highlighter : Highlighter_Base {
                     // While TeX doesn't really distinguish between '\{' and '\abc'
                     // as being escape sequences or commands,
                     // it is helpful for highlighting if we do that.
-                    emit_and_advance(2, Highlight_Type::string_escape);
+                    emit_and_advance(
+                        length_with_escaped_code_point(remainder), Highlight_Type::string_escape
+                    );
                     break;
                 }
                 emit_and_advance(name_length, Highlight_Type::markup_tag);
diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 9dec07c..6db64ef 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -748,7 +748,7 @@ private:
                 if (piece_length) {
                     emit_and_advance(piece_length, type);
                 }
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance_code_point(Highlight_Type::error);
 
                 piece_length = 0;
                 total_length += 1;
-- 
2.43.0


From 943d2d706524bca79bad5f0f1d60098e3e1c3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 012/136] fix: HTML end tags with trailing whitespace do not
 include the closing >

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 3705701..08a8b4c 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -252,7 +252,7 @@ End_Tag_Result match_end_tag_permissive(const std::u8string_view str)
         return {};
     }
 
-    return { .length = end_pos, .name_length = name_length };
+    return { .length = end_pos + 1, .name_length = name_length };
 }
 
 namespace {
-- 
2.43.0


From b59b654d42b052179dfa0073451bbb662e43e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 013/136] fix: YAML tags and directive parameters split
 multi-byte code points

---
 src/main/cpp/lang/yaml.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 7297ae8..6718378 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -436,7 +436,7 @@ private:
                 advance(1);
             }
             else {
-                emit_and_advance(1, Highlight_Type::string);
+                emit_and_advance_code_point(Highlight_Type::string);
             }
         }
         skip_line();
@@ -841,7 +841,7 @@ private:
             emit_and_advance(2, Highlight_Type::name_attr_delim);
             while (!remainder.empty() && remainder[0] != u8'>' && remainder[0] != u8'\r'
                    && remainder[0] != u8'\n') {
-                emit_and_advance(1, Highlight_Type::name_attr);
+                emit_and_advance_code_point(Highlight_Type::name_attr);
             }
             if (!remainder.empty() && remainder[0] == u8'>') {
                 emit_and_advance(1, Highlight_Type::name_attr_delim);
@@ -880,7 +880,7 @@ private:
     void consume_tag_suffix()
     {
         while (!remainder.empty() && !is_yaml_word_terminator(remainder[0])) {
-            emit_and_advance(1, Highlight_Type::name_attr);
+            emit_and_advance_code_point(Highlight_Type::name_attr);
         }
     }
 
-- 
2.43.0


From dd05ca7f4dc20dc768bf74b6d442faa3441ed20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 014/136] fix: HTML raw text is mismeasured when a longer tag
 name resembles the closing tag

match_raw_text could remove more code units from the string than it contains,
and match_escapable_raw_text_piece did not count the code units it skipped.
---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 08a8b4c..58974a5 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -104,8 +104,7 @@ std::size_t match_raw_text(std::u8string_view str, std::u8string_view closing_na
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return length;
         }
-        length += 2;
-        str.remove_prefix(2);
+        length = new_length;
     }
     return length;
 }
@@ -153,6 +152,7 @@ match_escapable_raw_text_piece(std::u8string_view str, std::u8string_view closin
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return { .raw_length = length, .ref_length = 0 };
         }
+        length = new_length;
     }
     return { .raw_length = length, .ref_length = 0 };
 }
-- 
2.43.0


From 2f12b8cc0c8f4d8d7a55cb2f6bd2546df89ec904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 015/136] fix: Tokens are not coalesced across the start of
 nested languages

---
 include/ulight/impl/highlighter.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/highlighter.hpp b/include/ulight/impl/highlighter.hpp
index cb14901..56c2f50 100644
--- a/include/ulight/impl/highlighter.hpp
+++ b/include/ulight/impl/highlighter.hpp
@@ -169,7 +169,16 @@ protected:
             for (std::size_t i = 0; i < amount; ++i) {
                 tokens[i].begin += self.index;
             }
-            self.out.append_range(std::span<const Token> { tokens, amount });
+            std::span<const Token> nested { tokens, amount };
+            // With coalescing enabled, no two adjacent tokens can have the same type,
+            // including at the boundary between the enclosing and the nested language.
+            if (self.options.coalescing && !nested.empty() && !self.out.empty()
+                && self.out.back().type == nested.front().type
+                && self.out.back().begin + self.out.back().length == nested.front().begin) {
+                self.out.back().length += nested.front().length;
+                nested = nested.subspan(1);
+            }
+            self.out.append_range(nested);
         };
         return { data.data(), data.size(), this, flush };
     }
-- 
2.43.0


From 5134d8a8d636495b06a9d29e1bc883868908c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 016/136] fix: YAML sources with more than 64 mapping keys fail
 to be highlighted

---
 src/main/cpp/lang/yaml.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 6718378..81b9719 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <memory_resource>
 #include <string_view>
+#include <vector>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
@@ -212,37 +213,38 @@ struct Highlighter : Highlighter_Base {
     /// @brief Stack of indentation levels for block structures.
     /// Used to detect when a block collection ends (de-dent).
     struct Indent_Stack {
-        static constexpr std::size_t capacity = 64;
-        std::size_t data[capacity];
-        std::size_t size = 0;
+        std::pmr::vector<std::size_t> data;
 
         void push(std::size_t n)
         {
-            ULIGHT_ASSERT(size < capacity);
-            data[size++] = n;
+            // Every entry of a block collection is pushed,
+            // but we only need to remember each level once.
+            if (data.empty() || data.back() != n) {
+                data.push_back(n);
+            }
         }
 
         [[nodiscard]]
         std::size_t top() const
         {
-            return size == 0 ? 0 : data[size - 1];
+            return data.empty() ? 0 : data.back();
         }
 
         void pop()
         {
-            ULIGHT_ASSERT(size > 0);
-            --size;
+            ULIGHT_ASSERT(!data.empty());
+            data.pop_back();
         }
 
         [[nodiscard]]
         bool empty() const
         {
-            return size == 0;
+            return data.empty();
         }
 
         void reset()
         {
-            size = 0;
+            data.clear();
         }
     };
 
@@ -256,6 +258,7 @@ public:
         const Highlight_Options& options
     )
         : Highlighter_Base { out, source, memory, options }
+        , indent_stack { std::pmr::vector<std::size_t> { memory } }
     {
     }
 
-- 
2.43.0


From 56adc5219528292f2c1fb645ae4be545e2209139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 017/136] fix: JSON arrays flag the code unit after true,
 false, and null as an error

---
 src/main/cpp/lang/json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index d2298c4..b742cf1 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -414,6 +414,7 @@ private:
             const auto coalescing
                 = highlight == Highlight_Type::error ? Coalescing::forced : Coalescing::normal;
             emit_and_advance(id.length, highlight, coalescing);
+            return true;
         }
         return false;
     }
-- 
2.43.0


From c708bbfafbaef95018344e744d805a9d73f44258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 018/136] fix: form feeds are not whitespace in JSON

---
 include/ulight/impl/lang/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/json.hpp b/include/ulight/impl/lang/json.hpp
index be33d2f..b63ad1b 100644
--- a/include/ulight/impl/lang/json.hpp
+++ b/include/ulight/impl/lang/json.hpp
@@ -11,7 +11,7 @@
 namespace ulight::json {
 
 // https://www.json.org/json-en.html
-inline constexpr auto is_json_whitespace = Charset256(u8" \t\f\n\r");
+inline constexpr auto is_json_whitespace = Charset256(u8" \t\n\r");
 
 inline constexpr auto is_json_escapable = Charset256(u8"\"\\/bfnrtu");
 
-- 
2.43.0


From 321b13518dbdf3a04728e5ec60f2592f8b77c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 019/136] fix: JSON parser accepts arbitrary text following the
 document

---
 src/main/cpp/lang/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index b742cf1..316999a 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -442,7 +442,14 @@ public:
     [[nodiscard]]
     bool operator()()
     {
-        return consume_whitespace_comments() && consume_value() && consume_whitespace_comments();
+        if (!consume_whitespace_comments() || !consume_value() || !consume_whitespace_comments()) {
+            return false;
+        }
+        if (!remainder.empty()) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
+        return true;
     }
 
 private:
-- 
2.43.0


From 5e1f5f41974cf2c54127b2fd69b9f8da910a008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 020/136] fix: JSON parser fails without reporting an error for
 missing or misspelled values

---
 src/main/cpp/lang/json.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 316999a..7249b6d 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -546,6 +546,7 @@ private:
     bool consume_value()
     {
         if (remainder.empty()) {
+            error(JSON_Error::error);
             return false;
         }
         switch (remainder[0]) {
@@ -577,6 +578,7 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'f': {
@@ -585,6 +587,7 @@ private:
                 advance_on_same_line(5);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'n': {
@@ -593,9 +596,10 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
-        default: error(JSON_Error::illegal_escape); return false;
+        default: error(JSON_Error::illegal_character); return false;
         }
     }
 
-- 
2.43.0


From 650db017c9a90c4e03e8eda80a334cff78158d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 021/136] fix: JSON parser fails an assertion for members whose
 key is not a string

---
 src/main/cpp/lang/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 7249b6d..fd25cad 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -766,6 +766,10 @@ private:
     [[nodiscard]]
     bool consume_member()
     {
+        if (!remainder.starts_with(u8'"')) {
+            error(remainder.empty() ? JSON_Error::unterminated_object : JSON_Error::illegal_character);
+            return false;
+        }
         if (!consume_string(String_Type::property)) {
             return false;
         }
-- 
2.43.0


From 38a0e28f63acc429d9e9816ec774ca681878c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 022/136] fix: JSON parser reports block comments with the text
 and position following them

---
 src/main/cpp/lang/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index fd25cad..b869c4a 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -533,8 +533,8 @@ private:
                 error(JSON_Error::comment);
                 return false;
             }
-            advance(block_comment.length);
             out.block_comment(pos, remainder.substr(0, block_comment.length));
+            advance(block_comment.length);
             return true;
         }
         ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"/* should have been tested.");
-- 
2.43.0


From 584e8812f68efb995dd226c0c06a0a99a07ab357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 023/136] fix: JSON parser does not report disallowed comments
 as such

---
 src/main/cpp/lang/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index b869c4a..0ddd350 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -490,6 +490,10 @@ private:
         if (!options.allow_comments) {
             const std::size_t white_length = match_whitespace(remainder);
             advance(white_length);
+            if (remainder.starts_with(u8"//") || remainder.starts_with(u8"/*")) {
+                error(JSON_Error::comment);
+                return false;
+            }
             return true;
         }
         while (true) {
-- 
2.43.0


From 67f12544371ebd9404d4c609d6f9d2039822ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 024/136] fix: JSON parser reads past the end of numbers when
 parsing them

---
 src/main/cpp/lang/json.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 0ddd350..ef97ac3 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -1,6 +1,7 @@
 #include <charconv>
 #include <cstddef>
 #include <cstdlib>
+#include <string>
 #include <string_view>
 
 #include "ulight/json.hpp"
@@ -708,10 +709,12 @@ private:
 
         const std::u8string_view number_string = remainder.substr(0, number.length);
         if (options.parse_numbers) {
-            const auto* const str_begin = reinterpret_cast<const char*>(number_string.data());
+            // std::strtod requires a null-terminated string,
+            // and must not see any characters following the number, like in "0x1".
+            const std::string terminated { as_string_view(number_string) };
             char* str_end = nullptr;
-            const double value = std::strtod(str_begin, &str_end);
-            if (str_end == str_begin) {
+            const double value = std::strtod(terminated.c_str(), &str_end);
+            if (str_end == terminated.c_str()) {
                 error(JSON_Error::illegal_number);
                 return false;
             }
-- 
2.43.0


From 19212d9b495ca64a64881fc433172438a03963a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 025/136] fix: ranges of characters which end before the last
 64 are wrong

---
 include/ulight/impl/charset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/charset.hpp b/include/ulight/impl/charset.hpp
index 59e3a5a..73070f2 100644
--- a/include/ulight/impl/charset.hpp
+++ b/include/ulight/impl/charset.hpp
@@ -27,7 +27,7 @@ struct Charset {
         for (std::size_t limb = 0; limb < limb_count; ++limb) {
             const std::size_t begin = limb * limb_width;
             const std::size_t lo = i > begin ? i - begin : 0;
-            const std::size_t hi = j < begin + limb_width ? j - begin : limb_width;
+            const std::size_t hi = j <= begin ? 0 : j < begin + limb_width ? j - begin : limb_width;
             if (lo < hi) {
                 const limb_type lo_mask = all_bits << lo;
                 const limb_type hi_mask = hi == limb_width ? all_bits : (limb_type { 1 } << hi) - 1;
-- 
2.43.0


From abf9cc46eca829d0fbf45ac086597a3ff6438700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 026/136] fix: sequences at the start of very long strings are
 not decoded

---
 include/ulight/impl/unicode.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ulight/impl/unicode.hpp b/include/ulight/impl/unicode.hpp
index 9e14002..8cd60d6 100644
--- a/include/ulight/impl/unicode.hpp
+++ b/include/ulight/impl/unicode.hpp
@@ -502,9 +502,8 @@ constexpr Code_Point_And_Length decode_and_length_or_replacement(const std::u8st
     }
     // Check each expected continuation byte.
     // Stop early if a byte is absent or invalid, returning the maximal subpart.
-    const int available = static_cast<int>(str.size());
     for (int i = 1; i < expected; ++i) {
-        if (i >= available) [[unlikely]] {
+        if (std::size_t(i) >= str.size()) [[unlikely]] {
             // Truncated at end of input: bytes [0, i) are a valid prefix.
             return { U'\N{REPLACEMENT CHARACTER}', i };
         }
-- 
2.43.0


From b5a37c76dd8bb30b0cd44a58077e891f3ef22d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 027/136] fix: UTF-8 overload of path lookup looks up the whole
 path as a name

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 092935c..b09dea9 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -258,7 +258,7 @@ ulight_lang ulight_lang_from_path(const char* path, size_t path_length) noexcept
 ULIGHT_EXPORT
 ulight_lang ulight_lang_from_path_u8(const char8_t* path, size_t path_length) noexcept
 {
-    return ulight_get_lang(reinterpret_cast<const char*>(path), path_length);
+    return ulight_lang_from_path(reinterpret_cast<const char*>(path), path_length);
 }
 
 ULIGHT_EXPORT
-- 
2.43.0


From 2c0fc619e964596f4bdd42d258360f7ebf71b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 028/136] fix: display names of negative language values read
 out of bounds

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index b09dea9..46dc377 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -196,7 +196,7 @@ static_assert(std::ranges::none_of(ulight_lang_display_names, [](ulight_string_v
 ULIGHT_EXPORT
 ulight_string_view ulight_lang_display_name(ulight_lang lang) noexcept
 {
-    if (lang == ULIGHT_LANG_NONE || int(lang) >= int(ULIGHT_LANG_COUNT)) {
+    if (int(lang) <= int(ULIGHT_LANG_NONE) || int(lang) >= int(ULIGHT_LANG_COUNT)) {
         return {};
     }
     return ulight_lang_display_names[std::size_t(lang)];
-- 
2.43.0


From 55d5e8247509a0901b4776f217c9a0d460a23bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 029/136] fix: invalid language values are reported as internal
 errors

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 46dc377..1938070 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -411,7 +411,7 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) > ULIGHT_LANG_COUNT) {
+    if (int(state->lang) <= int(ULIGHT_LANG_NONE) || int(state->lang) >= int(ULIGHT_LANG_COUNT)) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0


From f809a622cc55400a1d4eee4e132927973db0c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 030/136] fix: ulight_new initialises a null pointer when
 allocation fails

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 1938070..df2257b 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -354,7 +354,7 @@ ULIGHT_EXPORT
 ulight_state* ulight_new() noexcept
 {
     void* const result = ulight_alloc(sizeof(ulight_state), alignof(ulight_state));
-    return ulight_init(static_cast<ulight_state*>(result));
+    return result == nullptr ? nullptr : ulight_init(static_cast<ulight_state*>(result));
 }
 
 /// Frees a `struct ulight` object previously returned from `ulight_new`.
-- 
2.43.0


From 7dfa7940273800630d42c8d2592be1dbed63915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 031/136] fix: setting the HTML attribute name changes the
 length of the tag name

---
 include/ulight/ulight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index da170ab..bc4500f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -484,7 +484,7 @@ struct [[nodiscard]] State {
     void set_html_attr_name(std::string_view name) noexcept
     {
         impl.html_attr_name = name.data();
-        impl.html_tag_name_length = name.length();
+        impl.html_attr_name_length = name.length();
     }
 
     void set_text_buffer(std::span<char> buffer)
-- 
2.43.0


From b170cc95ab659313bde2ce4859970e85167061e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 032/136] fix: names of highlight types are inconsistent and
 not unique

---
 include/ulight/ulight.hpp | 6 +++---
 scripts/theme-to-css.cjs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index bc4500f..4f72408 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -148,7 +148,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
     F(name, "name", "name", ULIGHT_HL_NAME)                                                        \
     F(name_decl, "name-decl", "name_decl", ULIGHT_HL_NAME_DECL)                                    \
     F(name_builtin, "name-builtin", "name_pre", ULIGHT_HL_NAME_BUILTIN)                            \
-    F(name_delim, "name-builtin-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                         \
+    F(name_delim, "name-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                                 \
                                                                                                    \
     F(name_var, "name-var", "name_var", ULIGHT_HL_NAME_VAR)                                        \
     F(name_var_decl, "name-var-decl", "name_var_decl", ULIGHT_HL_NAME_VAR_DECL)                    \
@@ -218,9 +218,9 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
     F(name_shell_command, "name-command", "name_cmd", ULIGHT_HL_NAME_SHELL_COMMAND)                \
     F(name_shell_command_decl, "name-command-decl", "name_cmd_decl",                               \
       ULIGHT_HL_NAME_SHELL_COMMAND_DECL)                                                           \
-    F(name_shell_command_builtin, "name-command-builtin", "sh_cmd_pre",                            \
+    F(name_shell_command_builtin, "name-command-builtin", "name_cmd_pre",                          \
       ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN)                                                        \
-    F(name_shell_command_delim, "name-command-delim", "name_cmd",                                  \
+    F(name_shell_command_delim, "name-command-delim", "name_cmd_dlim",                             \
       ULIGHT_HL_NAME_SHELL_COMMAND_DELIM)                                                          \
                                                                                                    \
     F(name_shell_option, "name-option", "name_opt", ULIGHT_HL_NAME_SHELL_OPTION)                   \
diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 582d050..783ae63 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -26,7 +26,7 @@ const longNameToShort = {
     "name": "name",
     "name-decl": "name_decl",
     "name-builtin": "name_pre",
-    "name-builtin-delim": "name_dlim",
+    "name-delim": "name_dlim",
     "name-var": "name_var",
     "name-var-decl": "name_var_decl",
     "name-var-builtin": "name_var_pre",
@@ -73,8 +73,8 @@ const longNameToShort = {
     "name-attr-delim": "name_attr_dlim",
     "name-command": "name_cmd",
     "name-command-decl": "name_cmd_decl",
-    "name-command-builtin": "sh_cmd_pre",
-    "name-command": "name_cmd",
+    "name-command-builtin": "name_cmd_pre",
+    "name-command-delim": "name_cmd_dlim",
     "name-option": "name_opt",
     "name-option-decl": "name_opt_decl",
     "name-option-builtin": "name_opt_pre",
-- 
2.43.0


From 2e27fdff1a2ba3eb9ed9fb024d0431fd72539a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 033/136] fix: trailing digit separators are accepted unless
 they end the source

---
 src/main/cpp/parse_utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a289886..bba9b11 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -153,11 +153,13 @@ Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t s
             previous = c;
             return true;
         }
-        const bool is_digit = is_ascii_digit_base(c, base);
+        if (!is_ascii_digit_base(c, base)) {
+            return false;
+        }
         previous = c;
-        return is_digit;
+        return true;
     });
-    erroneous |= previous == separator;
+    erroneous |= length != 0 && previous == separator;
 
     return { .length = length, .erroneous = erroneous };
 }
-- 
2.43.0


From 44dc53d9a9edc52389ec7b83740e16524d31e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 034/136] fix: lone signs are matched as numbers

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index bba9b11..8023b95 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -224,7 +224,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         length += result.radix_point + result.fractional;
     }
 
-    if (length == 0) {
+    if (length == result.sign) {
         return {};
     }
 
-- 
2.43.0


From b916e1e73342b4eba184bc7bc7e9b370c945b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 035/136] fix: number suffixes which extend another suffix are
 cut short

---
 src/main/cpp/parse_utils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 8023b95..18f4bbc 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -247,12 +247,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     if (length < str.length()) {
         if (!options.suffixes.empty()) {
             for (const std::u8string_view suffix : options.suffixes) {
-                if (str.substr(length).starts_with(suffix)) {
+                if (suffix.length() > result.suffix && str.substr(length).starts_with(suffix)) {
                     result.suffix = suffix.length();
-                    length += result.suffix;
-                    break;
                 }
             }
+            length += result.suffix;
         }
         else if (options.match_suffix) {
             const std::size_t suffix = options.match_suffix(str.substr(length));
-- 
2.43.0


From 0da15702c323148197d620669a81ab8d815ae66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 036/136] fix: Python numbers which start with a point are
 errors

---
 src/main/cpp/lang/python.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index ff8b430..0c4b969 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -138,7 +138,6 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
-        .nonempty_integer = true,
     };
     return match_common_number(str, options);
 }
-- 
2.43.0


From 377c7b933321167fdde89f3957eb71193eb68d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 037/136] fix: blank lines at the end of the source include
 trailing whitespace

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 18f4bbc..f77656e 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -66,7 +66,7 @@ Blank_Line find_blank_line_sequence // NOLINT(bugprone-exception-escape)
 
     static_assert(!Blank_Line {}, "A value-initialized Blank_Line should be falsy");
     if (state == State::blank) {
-        return { .begin = blank_begin, .length = str.size() - blank_begin };
+        return { .begin = blank_begin, .length = blank_end - blank_begin };
     }
     return {};
 }
-- 
2.43.0


From a1785a12b94b3065689e5af13e7f15c37cf532ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 038/136] fix: integers which cannot be represented are wrapped
 around

---
 src/main/cpp/parse_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index f77656e..b2bcd5c 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -121,13 +121,15 @@ std::optional<long long> parse_integer_literal(std::u8string_view str) noexcept
         return std::nullopt;
     }
     if (str.starts_with(u8'-')) {
-        if (auto positive = parse_uinteger_literal(str.substr(1))) {
+        if (auto positive = parse_uinteger_literal(str.substr(1));
+            positive && *positive <= (unsigned long long)(-1) / 2 + 1) {
             // Negating as Uint is intentional and prevents overflow.
             return static_cast<long long>(-*positive);
         }
         return std::nullopt;
     }
-    if (auto result = parse_uinteger_literal(str)) {
+    if (auto result = parse_uinteger_literal(str);
+        result && *result <= (unsigned long long)(-1) / 2) {
         return static_cast<long long>(*result);
     }
     return std::nullopt;
-- 
2.43.0


From 94bf0d90ba42625d915e93e61155e582cf698fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 039/136] fix: end of blank lines is formally uninitialised

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index b2bcd5c..8d32f99 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -30,7 +30,7 @@ Blank_Line find_blank_line_sequence // NOLINT(bugprone-exception-escape)
     State state = State::maybe_blank;
 
     std::size_t blank_begin = 0;
-    std::size_t blank_end;
+    std::size_t blank_end = 0;
 
     for (std::size_t i = 0; i < str.size(); ++i) {
         switch (state) {
-- 
2.43.0


From 60166ae7f7167aa76a4695ebfa864d0b57363e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 040/136] fix: digit separators make suffixed numbers erroneous

---
 src/main/cpp/parse_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 8d32f99..27e53cc 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -302,11 +302,11 @@ Suffix_Number_Result match_suffix_number(
             const int digit_value = c >= u8'A' && c <= u8'Z' ? c - u8'A' + 10
                 : c >= u8'a' && c <= u8'z'                   ? c - u8'a' + 10
                                                              : c - u8'0';
-            if (digit_value >= suffix.base) {
+            const bool is_separator = digit_separator != 0 && c == digit_separator;
+            if (!is_separator && digit_value >= suffix.base) {
                 return true;
             }
-            const bool repeated_separator = digit_separator != 0 && c == digit_separator //
-                && i != 0 //
+            const bool repeated_separator = is_separator && i != 0 //
                 && number[i - 1] == digit_separator;
             if (repeated_separator) {
                 return true;
-- 
2.43.0


From d03cd4a7e195c2ebbceb34310339a9531130ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 041/136] fix: escapes with unterminated braces are accepted

---
 include/ulight/impl/escapes.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 70e5323..d069b40 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -123,11 +123,10 @@ constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predi
     }
     const std::size_t length_without_brace = ascii::length_before(str, u8'}', 1);
     const std::u8string_view digits = str.substr(1, length_without_brace - 1);
-    const bool erroneous = length_without_brace <= 1 || !all_of(digits, p);
-    const std::size_t length
-        = length_without_brace == str.length() || str[length_without_brace] != u8'}'
-        ? length_without_brace
-        : length_without_brace + 1;
+    const bool is_terminated
+        = length_without_brace < str.length() && str[length_without_brace] == u8'}';
+    const bool erroneous = !is_terminated || length_without_brace <= 1 || !all_of(digits, p);
+    const std::size_t length = is_terminated ? length_without_brace + 1 : length_without_brace;
     return { .length = length, .erroneous = erroneous };
 }
 
-- 
2.43.0


From caff4ca346d7efd15100cec6abaac8c1633bcc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 042/136] fix: files are closed twice after move assignment

---
 include/ulight/impl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index b0c7792..3bfed25 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -72,7 +72,7 @@ public:
     void close() noexcept
     {
         if (m_file) {
-            std::fclose(m_file);
+            std::fclose(std::exchange(m_file, nullptr));
         }
     }
 
-- 
2.43.0


From 0f6411411ebb18ef95d5fafaf452ed6e5c8a243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 043/136] fix: paths which fill the whole buffer are not
 terminated

---
 src/main/cpp/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 1101513..92415e8 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,7 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() > block_size) {
+    if (path.size() >= block_size) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From 15900b35e52122784c68d303b3c9f5a5b6caead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 044/136] fix: ill-formed UTF-32 files are loaded

---
 src/main/cpp/io.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 92415e8..7643c08 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -1,4 +1,5 @@
 #ifndef __EMSCRIPTEN__
+#include <algorithm>
 #include <bit>
 #include <cstddef>
 #include <cstdio>
@@ -12,6 +13,7 @@
 
 #include "ulight/impl/io.hpp"
 #include "ulight/impl/unicode.hpp"
+#include "ulight/impl/unicode_chars.hpp"
 
 namespace ulight {
 
@@ -87,6 +89,9 @@ std::expected<std::vector<char32_t>, IO_Error_Code> load_utf32le_file(std::strin
     static_assert(std::endian::native == std::endian::little);
     std::vector<char32_t> result(bytes.size() / 4);
     std::memcpy(result.data(), bytes.data(), bytes.size());
+    if (!std::ranges::all_of(result, is_scalar_value)) {
+        return std::unexpected { IO_Error_Code::corrupted };
+    }
 
     return result;
 }
-- 
2.43.0


From fd2e75a58ff10656cea49636d6ea5b1cc388dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 045/136] fix: failure to highlight or write is not reflected
 in the exit status

---
 src/main/cpp/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/main.cpp b/src/main/cpp/main.cpp
index d022e38..afd78ea 100644
--- a/src/main/cpp/main.cpp
+++ b/src/main/cpp/main.cpp
@@ -65,6 +65,11 @@ int main(int argc, const char** argv)
     Status status = state.source_to_html();
     if (status != Status::ok) {
         std::cerr << "Error: " << state.get_error_string() << '\n';
+        return EXIT_FAILURE;
+    }
+    if (std::fflush(out_file) != 0 || std::ferror(out_file)) {
+        std::cerr << (args.size() > 2 ? args[2] : "stdout") << ": failed to write output.\n";
+        return EXIT_FAILURE;
     }
 
     return 0;
-- 
2.43.0


From 071ee1c1189de7ed18901a50dc4d499e5b7b190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 046/136] fix: loading an empty file copies to a null pointer

---
 include/ulight/impl/io.hpp | 4 +++-
 src/main/cpp/io.cpp        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index 3bfed25..5196e4c 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -136,7 +136,9 @@ file_to_bytes(std::vector<Byte, Alloc>& out, std::string_view path)
         [&out](std::span<const std::byte> chunk) -> void {
             const std::size_t old_size = out.size();
             out.resize(out.size() + chunk.size());
-            std::memcpy(out.data() + old_size, chunk.data(), chunk.size());
+            if (!chunk.empty()) {
+                std::memcpy(out.data() + old_size, chunk.data(), chunk.size());
+            }
         },
         path
     );
diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 7643c08..e8908c4 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -88,7 +88,9 @@ std::expected<std::vector<char32_t>, IO_Error_Code> load_utf32le_file(std::strin
     // We could make this code more portable in the long run, but I don't care for now.
     static_assert(std::endian::native == std::endian::little);
     std::vector<char32_t> result(bytes.size() / 4);
-    std::memcpy(result.data(), bytes.data(), bytes.size());
+    if (!bytes.empty()) {
+        std::memcpy(result.data(), bytes.data(), bytes.size());
+    }
     if (!std::ranges::all_of(result, is_scalar_value)) {
         return std::unexpected { IO_Error_Code::corrupted };
     }
-- 
2.43.0


From 084ac1417d5023cf67b6fd09473e1ff50e12eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 047/136] fix: character following a reference in an attribute
 value is skipped

---
 src/main/cpp/lang/html.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 58974a5..c8ef86e 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -454,7 +454,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (is_html_unquoted_attribute_value_terminator(c)) {
                 flush();
@@ -464,7 +464,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
@@ -483,7 +485,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (c == quote_char) {
                 ++piece_length;
@@ -494,7 +496,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
-- 
2.43.0


From 75e6bb9b08a7c63d37db18dfb6027bef235baa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 048/136] fix: %> is highlighted as a square bracket

---
 src/main/cpp/lang/cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 763f14b..1e6001f 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -481,7 +481,7 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
         return str.starts_with(u8"%:%:") ? pound_pound_alt
             : str.starts_with(u8"%:")    ? pound_alt
             : str.starts_with(u8"%=")    ? percent_eq
-            : str.starts_with(u8"%>")    ? right_square_alt
+            : str.starts_with(u8"%>")    ? right_brace_alt
                                          : percent;
     case u8'{': return left_brace;
     case u8'}': return right_brace;
-- 
2.43.0


From 3fbab2fa55c9afcd11b38d066a2c551f6988c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 049/136] fix: line continuations start directives in C and C++

---
 src/main/cpp/lang/cpp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 1e6001f..7ec45bd 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -1081,6 +1081,11 @@ public:
 
     bool expect_non_whitespace()
     {
+        // A line continuation does not start a new logical line.
+        if (const std::size_t escape_length = match_newline_escape(remainder())) {
+            advance(escape_length);
+            return true;
+        }
         if (const std::size_t non_white_length = match_non_whitespace(remainder())) {
             // Don't emit any highlighting.
             // To my understanding, this currently only matches backslashes at the end of the
-- 
2.43.0


From d734100a91e83de0ac8b2224f3c2670f7c4d74f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 050/136] fix: null directives take the next line for the
 directive name

---
 src/main/cpp/lang/cpp.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 7ec45bd..0b7e23f 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -1037,10 +1037,10 @@ public:
 
         const std::size_t op_length = cpp_token_type_length(*op);
         emit_and_advance(op_length, Highlight_Type::name_macro_delim);
+        fresh_line = false;
 
         // Consume whitespace between `#` and the directive name.
-        const std::size_t white = match_whitespace(remainder());
-        advance(white);
+        consume_whitespace_in_directive();
 
         const std::size_t id_length = match_identifier(remainder());
         if (id_length == 0) {
@@ -1051,8 +1051,7 @@ public:
 
         // For #include, highlight a `<...>` header name as a string.
         if (directive_name == u8"include") {
-            const std::size_t w2 = match_whitespace(remainder());
-            advance(w2);
+            consume_whitespace_in_directive();
             if (remainder().starts_with(u8'<')) {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 const std::u8string_view rem = remainder();
@@ -1079,6 +1078,23 @@ public:
         return true;
     }
 
+    /// @brief Consumes whitespace and line continuations, but no line ends.
+    void consume_whitespace_in_directive()
+    {
+        while (true) {
+            const std::u8string_view rem = remainder();
+            if (const std::size_t escape_length = match_newline_escape(rem)) {
+                advance(escape_length);
+            }
+            else if (!rem.empty() && rem[0] != u8'\n' && is_cpp_whitespace(rem[0])) {
+                advance(1);
+            }
+            else {
+                break;
+            }
+        }
+    }
+
     bool expect_non_whitespace()
     {
         // A line continuation does not start a new logical line.
-- 
2.43.0


From 9132eb467fd9c7552be7a25588a0d71dd858fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 051/136] fix: suffixes of hexadecimal floating-point literals
 are highlighted as digits

---
 src/main/cpp/lang/cpp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 0b7e23f..fd08c08 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -899,7 +899,7 @@ public:
     {
         ULIGHT_ASSERT(!pp_number.empty());
 
-        const bool is_hex = pp_number.starts_with(u8"0x") || pp_number.starts_with(u8"0X");
+        bool is_hex = pp_number.starts_with(u8"0x") || pp_number.starts_with(u8"0X");
         const bool is_binary = pp_number.starts_with(u8"0b") || pp_number.starts_with(u8"0B");
 
         if (is_hex || is_binary) {
@@ -953,6 +953,8 @@ public:
                 if (is_exponent) {
                     emit_and_advance(1, Highlight_Type::number_delim);
                     pp_number.remove_prefix(1);
+                    // The exponent is always decimal.
+                    is_hex = false;
                     break;
                 }
                 emit_and_advance(pp_number.length(), Highlight_Type::number_decor);
-- 
2.43.0


From a08bb49d3a3eb19952f3210ada9d206b8f3e7241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 052/136] fix: identifiers which start with an underscore are
 numbers where it separates digits

---
 src/main/cpp/parse_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 27e53cc..acdda78 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -200,6 +200,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     {
         const auto [integer_digits, integer_error]
             = match_separated_digits(str.substr(length), base, options.digit_separator);
+        // A number cannot start with a separator, even though digits can contain separators.
+        if (result.prefix == 0 && integer_digits != 0 && options.digit_separator != 0
+            && str[length] == options.digit_separator) {
+            return {};
+        }
         result.integer = integer_digits;
         result.erroneous |= options.nonempty_integer && integer_digits == 0;
         result.erroneous |= integer_error;
-- 
2.43.0


From 66862b3a9ad9be26939a3da8ab9c520fcd71cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 053/136] fix: comments make the following slash a regular
 expression in JS

---
 src/main/cpp/lang/js.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 6463132..aef5fdc 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1201,6 +1201,9 @@ private:
     {
         const std::size_t white_length = match_whitespace(remainder);
         advance(white_length);
+        if (white_length != 0) {
+            disallow_hashbang();
+        }
         return white_length != 0;
     }
 
@@ -1220,6 +1223,7 @@ private:
         if (hashbang_length > 2) {
             emit_and_advance(hashbang_length - 2, Highlight_Type::comment);
         }
+        disallow_hashbang();
         return true;
     }
 
@@ -1239,7 +1243,7 @@ private:
         if (length > 2) {
             emit_and_advance(length - 2, Highlight_Type::comment);
         }
-        input_element = Input_Element::regex;
+        disallow_hashbang();
     }
 
     bool expect_block_comment()
@@ -1265,7 +1269,16 @@ private:
             emit(index + block_comment.length - 2, 2, Highlight_Type::comment_delim); // */
         }
         advance(block_comment.length);
-        input_element = Input_Element::regex;
+        disallow_hashbang();
+    }
+
+    /// @brief To be called once something other than a token has been consumed,
+    /// which does not affect whether a regular expression can follow.
+    void disallow_hashbang()
+    {
+        if (input_element == Input_Element::hashbang_or_regex) {
+            input_element = Input_Element::regex;
+        }
     }
 
     bool expect_string_literal()
-- 
2.43.0


From 7223cbc567d7105025e3e2964f783deea3169135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 054/136] fix: slashes in classes end regular expressions in JS

---
 src/main/cpp/lang/js.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index aef5fdc..ce0918b 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1449,6 +1449,7 @@ private:
         rem.remove_prefix(1);
 
         auto escaped = false;
+        auto in_class = false;
 
         for (std::size_t size = 0; size < rem.length(); ++size) {
             const char8_t c = rem[size];
@@ -1459,7 +1460,13 @@ private:
             else if (c == u8'\\') {
                 escaped = true;
             }
-            else if (c == u8'/') {
+            else if (c == u8'[') {
+                in_class = true;
+            }
+            else if (c == u8']') {
+                in_class = false;
+            }
+            else if (c == u8'/' && !in_class) {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 emit_and_advance(size, Highlight_Type::string);
                 emit_and_advance(1, Highlight_Type::string_delim);
-- 
2.43.0


From 448ab38ca3ee781412278a8ba3876264fdbfe1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 055/136] fix: CR is not a line terminator sequence in JS

---
 src/main/cpp/lang/js.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index ce0918b..db1d8d4 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -172,6 +172,7 @@ std::size_t match_line_terminator_sequence(std::u8string_view s)
 
     return s.starts_with(u8'\n') ? 1
         : s.starts_with(crlf)    ? crlf.length()
+        : s.starts_with(u8'\r')  ? 1
         : s.starts_with(ls)      ? ls.length()
         : s.starts_with(ps)      ? ps.length()
                                  : 0;
-- 
2.43.0


From c2f434369b03be6d186adb58dab4898a7a646505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 056/136] fix: JS string literals end at line continuations
 with CRLF

---
 src/main/cpp/lang/js.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index db1d8d4..b9d0f92 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -309,6 +309,10 @@ String_Literal_Result match_string_literal(std::u8string_view str)
         const char8_t c = str[length];
 
         if (escaped) {
+            // CRLF is a single line terminator in a line continuation.
+            if (c == u8'\r' && str.substr(length).starts_with(u8"\r\n")) {
+                ++length;
+            }
             escaped = false;
         }
         else if (c == u8'\\') {
-- 
2.43.0


From e4917271dda1ba0ec20cfbe693e7cea585b9b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 057/136] fix: ?. followed by a digit is not optional chaining

---
 src/main/cpp/lang/js.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index b9d0f92..85aeed1 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -860,7 +860,8 @@ std::optional<Token_Type> match_operator_or_punctuation(std::u8string_view str)
     case u8'?':
         return str.starts_with(u8"??=") ? nullish_coalescing_equal
             : str.starts_with(u8"??")   ? nullish_coalescing
-            : str.starts_with(u8"?.")   ? optional_chaining
+            : str.starts_with(u8"?.") && !(str.length() >= 3 && is_ascii_digit(str[2]))
+            ? optional_chaining
                                         : conditional;
     case u8'[': return left_bracket;
     case u8']': return right_bracket;
-- 
2.43.0


From 272e97ef6a998ed0f33bf32e8a2b20a36dba9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 058/136] fix: regular expressions following else, do, default
 and extends

---
 src/main/cpp/lang/js.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 85aeed1..78ff0e6 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -119,6 +119,10 @@ constexpr bool token_type_is_expr_keyword(Token_Type type)
     switch (type) {
         using enum Token_Type;
     case kw_return:
+    case kw_else:
+    case kw_do:
+    case kw_default:
+    case kw_extends:
     case kw_throw:
     case kw_case:
     case kw_delete:
-- 
2.43.0


From f83210424bc37db1c55e8a47f0482b143c400029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 059/136] fix: comparisons are mistaken for JSX tags

---
 src/main/cpp/lang/js.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 78ff0e6..1129000 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -917,6 +917,9 @@ enum struct Input_Element : Underlying {
     regex,
     // https://262.ecma-international.org/15.0/index.html#prod-InputElementDiv
     div,
+    /// @brief Like `div`, but follows a JSX element,
+    /// and another element can follow, like on the next line.
+    div_or_jsx,
 };
 
 [[nodiscard]]
@@ -931,6 +934,12 @@ constexpr bool input_element_has_regex(Input_Element goal)
     return goal == Input_Element::hashbang_or_regex || goal == Input_Element::regex;
 }
 
+[[nodiscard]]
+constexpr bool input_element_has_jsx(Input_Element goal)
+{
+    return goal == Input_Element::div_or_jsx || input_element_has_regex(goal);
+}
+
 /// @brief  Common JS and JSX highlighter implementation.
 struct [[nodiscard]] Highlighter : Highlighter_Base {
 private:
@@ -1023,6 +1032,10 @@ private:
         //
         // Furthermore, we ignore closing tags at the beginning.
 
+        if (!input_element_has_jsx(input_element)) {
+            // Where no expression can start, "<" can only be an operator.
+            return false;
+        }
         const JSX_Tag_Result opening = match_jsx_tag_impl(remainder, JSX_Tag_Subset::non_closing);
         if (!opening) {
             return false;
@@ -1034,7 +1047,7 @@ private:
             ULIGHT_ASSERT(is_opening);
             consume_jsx_children_and_closing_tag();
         }
-        input_element = Input_Element::div;
+        input_element = Input_Element::div_or_jsx;
         return true;
     }
 
-- 
2.43.0


From 827e63db41b05dd34c3e7ebd7a65d7dbe9835abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 060/136] fix: JS identifiers include whitespace and symbols,
 and lack letters

---
 include/ulight/impl/lang/js.hpp | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index d6be250..1be7a32 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -10,6 +10,7 @@
 #include "ulight/impl/ascii_chars.hpp"
 #include "ulight/impl/escapes.hpp"
 #include "ulight/impl/numbers.hpp"
+#include "ulight/impl/unicode_chars.hpp"
 
 namespace ulight::js {
 
@@ -58,19 +59,7 @@ inline constexpr struct Is_JS_Identifier_Start {
         // clang-format off
             return c == U'$'
                 || c == U'_' // Special JS characters.
-                || is_ascii_alpha(c)
-                || (c >= U'\u00C0' && c <= U'\u00D6') // Lu, Ll, Lt, Lm, Lo, Nl categories.
-                || (c >= U'\u00D8' && c <= U'\u00F6')
-                || (c >= U'\u00F8' && c <= U'\u02FF')
-                || (c >= U'\u0370' && c <= U'\u037D')
-                || (c >= U'\u037F' && c <= U'\u1FFF')
-                || (c >= U'\u200C' && c <= U'\u200D')
-                || (c >= U'\u2070' && c <= U'\u218F')
-                || (c >= U'\u2C00' && c <= U'\u2FEF')
-                || (c >= U'\u3001' && c <= U'\uD7FF')
-                || (c >= U'\uF900' && c <= U'\uFDCF')
-                || (c >= U'\uFDF0' && c <= U'\uFFFD')
-                || (c >= U'\U00010000' && c <= U'\U000EFFFF');
+                || is_xid_start(c);
         // clang-format on
     }
 } is_js_identifier_start;
@@ -85,18 +74,10 @@ inline constexpr struct Is_JS_Identifier_Part {
     {
         // https://262.ecma-international.org/15.0/index.html#prod-IdentifierPart
         // clang-format off
-            return is_js_identifier_start(c)
-                || is_ascii_digit(c)
-                || (c >= U'\u0300' && c <= U'\u036F') // // Mn, Mc, Nd, Pc categories.
-                || (c >= U'\u1DC0' && c <= U'\u1DFF')
-                || (c >= U'\u20D0' && c <= U'\u20FF')
-                || (c >= U'\uFE20' && c <= U'\uFE2F')
-                || (c >= U'\u0660' && c <= U'\u0669') // Arabic-Indic digits.
-                || (c >= U'\u06F0' && c <= U'\u06F9') // Extended Arabic-Indic digits.
-                || (c >= U'\u07C0' && c <= U'\u07C9') // NKo digits.
-                || (c >= U'\u0966' && c <= U'\u096F') // Devanagari digits.
-                || c == U'\u200C'  // Zero-width joiner.
-                || c == U'\u200D'; // Joiner.
+            return c == U'$'
+                || c == U'\u200C' // Zero-width non-joiner.
+                || c == U'\u200D' // Zero-width joiner.
+                || is_xid_continue(c);
         // clang-format on
     }
 } is_js_identifier_part;
-- 
2.43.0


From 8d6d117052d4987ae87e8f54cddd9bb7335b65d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 061/136] fix: letters are taken for whitespace in JS

---
 include/ulight/impl/lang/js.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index 1be7a32..d2681cc 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -41,7 +41,7 @@ inline constexpr struct Is_JS_Whitespace {
                 || c == U'\N{NARROW NO-BREAK SPACE}'
                 || c == U'\N{MEDIUM MATHEMATICAL SPACE}'
                 || c == U'\N{IDEOGRAPHIC SPACE}'
-                || (c >= U'\u1680' && c <= U'\u180E')
+                || c == U'\u1680'
                 || (c >= U'\u2000' && c <= U'\u200A');
         // clang-format on
     }
-- 
2.43.0


From bbb00705c1265b84553cda91d0aa5f267c5feecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 062/136] fix: exponents with digit separators are cut short

---
 src/main/cpp/parse_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index acdda78..896f610 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -243,9 +243,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             result.exponent_sep = s.str.length();
             length += result.exponent_sep;
 
-            const std::size_t exp_digits = match_digits(str.substr(length));
+            const auto [exp_digits, exp_error]
+                = match_separated_digits(str.substr(length), 10, options.digit_separator);
             result.exponent_digits += exp_digits;
             result.erroneous |= exp_digits == 0;
+            result.erroneous |= exp_error;
             length += exp_digits;
             break;
         }
-- 
2.43.0


From 830d3233995aea43139e713d04dabad96ecd4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 063/136] fix: fractions of numbers with a leading zero are
 octal

---
 src/main/cpp/parse_utils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 896f610..dc384ab 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -214,8 +214,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     if (allow_float && str.substr(length).starts_with(u8'.')) {
         result.radix_point = 1;
 
-        const auto [fractional_digits, fractional_error]
-            = match_separated_digits(str.substr(length + 1), base, options.digit_separator);
+        // A leading zero changes the base of integers only.
+        const int fractional_base = result.prefix ? base : options.default_base;
+        const auto [fractional_digits, fractional_error] = match_separated_digits(
+            str.substr(length + 1), fractional_base, options.digit_separator
+        );
         result.fractional += fractional_digits;
         result.erroneous |= options.nonempty_fraction && fractional_digits == 0;
         result.erroneous |= fractional_error;
-- 
2.43.0


From e25f42836116e94e224c67ab1619c602c05f5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 064/136] fix: !isX and !inX are highlighted as keywords in
 Kotlin

---
 src/main/cpp/lang/kotlin.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index c410215..5db78f1 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -91,6 +91,11 @@ Common_Number_Result match_number(std::u8string_view str)
     return result;
 }
 
+// https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-Identifier
+// I don't think this is 100% correct and the same as C++.
+// However, it should be close enough.
+using cpp::match_identifier;
+
 std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 {
     constexpr std::optional<Token_Type> none;
@@ -102,8 +107,8 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     switch (str[0]) {
     case u8'!':
         return str.starts_with(u8"!=") ? excl_eq
-            : str.starts_with(u8"!in") ? not_in
-            : str.starts_with(u8"!is") ? not_is
+            : match_identifier(str.substr(1)) == 2 && str.starts_with(u8"!in") ? not_in
+            : match_identifier(str.substr(1)) == 2 && str.starts_with(u8"!is") ? not_is
                                        : excl;
     case u8'"': return str.starts_with(u8"\"\"\"") ? triple_quote_open : quote_open;
     case u8'#': return hash;
@@ -153,11 +158,6 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     }
 }
 
-// https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-Identifier
-// I don't think this is 100% correct and the same as C++.
-// However, it should be close enough.
-using cpp::match_identifier;
-
 using js::Comment_Result;
 using js::match_block_comment;
 using js::match_line_comment;
-- 
2.43.0


From d30f273ead9cd4fb6ea46cbac5c6904de15a7cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 065/136] fix: => is highlighted as two symbols in Kotlin

---
 src/main/cpp/lang/kotlin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 5db78f1..675d0be 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -133,7 +133,7 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     case u8'=':
         return str.starts_with(u8"===") ? eqeqeq
             : str.starts_with(u8"==")   ? eqeq
-            : str.starts_with(u8">=")   ? double_arrow
+            : str.starts_with(u8"=>")   ? double_arrow
                                         : assignment;
     case u8'>': return str.starts_with(u8">=") ? ge : rangle;
     case u8'?':
-- 
2.43.0


From 74531379f82a287c98b09a774a833347560a0fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 066/136] fix: numbers take the point of a member access in
 Kotlin

---
 src/main/cpp/lang/kotlin.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 675d0be..aa5a714 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -83,10 +83,12 @@ Common_Number_Result match_number(std::u8string_view str)
     };
     Common_Number_Result result = match_common_number(str, options);
     result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
-    if (result.radix_point && result.fractional == 0 && result.length < str.length()
-        && str[result.length] == u8'.') {
-        result.radix_point = 0;
-        --result.length;
+    // The point of a range or member access is not part of the number, like in `1..2` or `1.inc()`.
+    if (result.radix_point && result.fractional == 0) {
+        const std::u8string_view after = str.substr(result.sign + result.integer + 1);
+        if (after.starts_with(u8'.') || cpp::match_identifier(after)) {
+            return match_common_number(str.substr(0, result.sign + result.integer), options);
+        }
     }
     return result;
 }
-- 
2.43.0


From f1c7d7ac87bf954915d73efc46a9b2e896a72408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:20 +0000
Subject: [PATCH 067/136] fix: lone dollar signs in Kotlin strings are errors

---
 src/main/cpp/lang/kotlin.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index aa5a714..b583b48 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -418,6 +418,12 @@ private:
             // Character literals do not support string interpolation;
             // '$' is an ordinary character inside them.
             if (!is_character && remainder[length] == u8'$') {
+                const std::u8string_view after_dollar = remainder.substr(length + 1);
+                if (!after_dollar.starts_with(u8'{') && match_identifier(after_dollar) == 0) {
+                    // The dollar sign is a regular character unless it starts an interpolation.
+                    ++length;
+                    continue;
+                }
                 flush();
                 if (remainder.starts_with(u8"${")) {
                     emit_and_advance(2, Highlight_Type::string_interpolation_delim);
@@ -429,13 +435,9 @@ private:
                     emit_and_advance(1, Highlight_Type::string_interpolation_delim);
                     continue;
                 }
-                if (const std::size_t id = match_identifier(remainder.substr(1))) {
-                    emit_and_advance(1 + id, Highlight_Type::string_interpolation);
-                    continue;
-                }
-                // A '$' that cannot be matched as a LineStrExprStart or FieldIdentifier
-                // is an error.
-                emit_and_advance(1, Highlight_Type::error);
+                const std::size_t id = match_identifier(remainder.substr(1));
+                ULIGHT_ASSERT(id != 0);
+                emit_and_advance(1 + id, Highlight_Type::string_interpolation);
                 continue;
             }
 
-- 
2.43.0


From bf3635230398b89494f079275d5b5e929be60726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 068/136] fix: super is not a keyword in Kotlin

---
 include/ulight/impl/lang/kotlin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/kotlin.hpp b/include/ulight/impl/lang/kotlin.hpp
index 6036cce..64a9bf0 100644
--- a/include/ulight/impl/lang/kotlin.hpp
+++ b/include/ulight/impl/lang/kotlin.hpp
@@ -118,7 +118,7 @@ namespace ulight::kotlin {
     F(sealed, "sealed", keyword)                                                                   \
     F(set, "set", keyword)                                                                         \
     F(setparam, "setparam", keyword)                                                               \
-    F(super, "super@", keyword_this)                                                               \
+    F(super, "super", keyword_this)                                                                \
     F(super_at, "super@", keyword_this)                                                            \
     F(suspend, "suspend", keyword)                                                                 \
     F(this_, "this", keyword_this)                                                                 \
-- 
2.43.0


From 835dbd61c025fc42e814c06d180a0789290f384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 069/136] fix: block comments do not nest in Kotlin and Rust

---
 include/ulight/impl/lang/js.hpp |  6 ++++++
 src/main/cpp/lang/js.cpp        | 27 +++++++++++++++++++++++++++
 src/main/cpp/lang/kotlin.cpp    |  4 ++--
 src/main/cpp/lang/rust.cpp      |  4 ++--
 4 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index d2681cc..3774ea4 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -274,6 +274,12 @@ struct Comment_Result {
 [[nodiscard]]
 Comment_Result match_block_comment(std::u8string_view str);
 
+/// @brief Like `match_block_comment`,
+/// but block comments inside the comment are part of it,
+/// as in Kotlin and Rust.
+[[nodiscard]]
+Comment_Result match_nested_block_comment(std::u8string_view str);
+
 /// @brief Returns the length of a JavaScript line comment at the start of `str`, if any.
 /// Returns zero if there is no line comment.
 /// In any case, the length does not include the terminating newline character.
diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 1129000..4ba6a33 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -226,6 +226,33 @@ Comment_Result match_block_comment(std::u8string_view s)
     return Comment_Result { .length = s.length(), .is_terminated = false };
 }
 
+Comment_Result match_nested_block_comment(std::u8string_view s)
+{
+    if (!s.starts_with(u8"/*")) {
+        return {};
+    }
+
+    std::size_t length = 2;
+    for (std::size_t depth = 1; length < s.length();) {
+        const std::u8string_view rest = s.substr(length);
+        if (rest.starts_with(u8"/*")) {
+            ++depth;
+            length += 2;
+        }
+        else if (rest.starts_with(u8"*/")) {
+            length += 2;
+            if (--depth == 0) {
+                return Comment_Result { .length = length, .is_terminated = true };
+            }
+        }
+        else {
+            ++length;
+        }
+    }
+
+    return Comment_Result { .length = s.length(), .is_terminated = false };
+}
+
 std::size_t match_hashbang_comment(std::u8string_view s)
 {
     if (!s.starts_with(u8"#!")) {
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index b583b48..8961bbe 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -161,7 +161,7 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 }
 
 using js::Comment_Result;
-using js::match_block_comment;
+using js::match_nested_block_comment;
 using js::match_line_comment;
 
 Escape_Result match_escape_sequence(const std::u8string_view str)
@@ -291,7 +291,7 @@ private:
 
     bool expect_block_comment()
     {
-        if (const Comment_Result block_comment = match_block_comment(remainder)) {
+        if (const Comment_Result block_comment = match_nested_block_comment(remainder)) {
             emit(index, 2, Highlight_Type::comment_delim); // /*
             const std::size_t suffix_length = block_comment.is_terminated ? 2 : 0;
             const std::size_t content_length = block_comment.length - 2 - suffix_length;
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 9b42cc8..2e72044 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -242,7 +242,7 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
 }
 
 using js::Comment_Result;
-using js::match_block_comment;
+using js::match_nested_block_comment;
 using js::match_line_comment;
 
 namespace {
@@ -313,7 +313,7 @@ private:
 
     bool expect_block_comment()
     {
-        if (const Comment_Result block_comment = match_block_comment(remainder)) {
+        if (const Comment_Result block_comment = match_nested_block_comment(remainder)) {
             emit(index, 2, Highlight_Type::comment_delim); // /*
             const std::size_t suffix_length = block_comment.is_terminated ? 2 : 0;
             const std::size_t content_length = block_comment.length - 2 - suffix_length;
-- 
2.43.0


From 4a425f1cce5a6c9adc9cbc37fb0a986d1722a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 070/136] fix: U+2028 and U+2029 end line comments in Java,
 Kotlin, and Rust

---
 include/ulight/impl/lang/js.hpp | 5 +++++
 src/main/cpp/lang/java.cpp      | 5 +++--
 src/main/cpp/lang/js.cpp        | 6 ++++++
 src/main/cpp/lang/kotlin.cpp    | 4 ++--
 src/main/cpp/lang/rust.cpp      | 4 ++--
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index 3774ea4..01c277c 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -287,6 +287,11 @@ Comment_Result match_nested_block_comment(std::u8string_view str);
 [[nodiscard]]
 std::size_t match_line_comment(std::u8string_view str);
 
+/// @brief Like `match_line_comment`,
+/// but only carriage returns and line feeds terminate the comment.
+[[nodiscard]]
+std::size_t match_crlf_line_comment(std::u8string_view str);
+
 /// @brief Returns the length of a JavaScript hashbang comment at the start of `str`, if any.
 /// Returns zero if there is no hashbang comment.
 /// The hashbang comment must appear at the very beginning of the file to be valid.
diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 3d9b22a..176b217 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -5,6 +5,7 @@
 #include "ulight/impl/highlighter.hpp"
 #include "ulight/impl/lang/cpp.hpp"
 #include "ulight/impl/unicode.hpp"
+#include "ulight/impl/unicode_algorithm.hpp"
 
 #include "ulight/impl/lang/java.hpp"
 #include "ulight/impl/lang/js.hpp"
@@ -163,7 +164,7 @@ using js::Comment_Result;
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-TraditionalComment
 using js::match_block_comment;
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-EndOfLineComment
-using js::match_line_comment;
+using js::match_crlf_line_comment;
 
 Escape_Result match_escape_sequence(const std::u8string_view str)
 {
@@ -265,7 +266,7 @@ private:
     bool expect_line_comment()
     {
         // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.7
-        if (const std::size_t length = match_line_comment(remainder)) {
+        if (const std::size_t length = match_crlf_line_comment(remainder)) {
             emit_and_advance(2, Highlight_Type::comment_delim);
             if (length > 2) {
                 emit_and_advance(length - 2, Highlight_Type::comment);
diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 4ba6a33..37cc1c3 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -13,6 +13,7 @@
 #include "ulight/impl/escapes.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/parse_utils.hpp"
 #include "ulight/impl/unicode.hpp"
 #include "ulight/impl/unicode_algorithm.hpp"
 
@@ -208,6 +209,11 @@ std::size_t match_line_comment(std::u8string_view s)
     return length;
 }
 
+std::size_t match_crlf_line_comment(std::u8string_view s)
+{
+    return s.starts_with(u8"//") ? match_crlf_line(s).content_length : 0;
+}
+
 Comment_Result match_block_comment(std::u8string_view s)
 {
     // https://262.ecma-international.org/15.0/index.html#prod-MultiLineComment
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 8961bbe..c189990 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -162,7 +162,7 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 
 using js::Comment_Result;
 using js::match_nested_block_comment;
-using js::match_line_comment;
+using js::match_crlf_line_comment;
 
 Escape_Result match_escape_sequence(const std::u8string_view str)
 {
@@ -279,7 +279,7 @@ private:
 
     bool expect_line_comment()
     {
-        if (const std::size_t length = match_line_comment(remainder)) {
+        if (const std::size_t length = match_crlf_line_comment(remainder)) {
             emit_and_advance(2, Highlight_Type::comment_delim);
             if (length > 2) {
                 emit_and_advance(length - 2, Highlight_Type::comment);
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 2e72044..d8d8819 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -243,7 +243,7 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
 
 using js::Comment_Result;
 using js::match_nested_block_comment;
-using js::match_line_comment;
+using js::match_crlf_line_comment;
 
 namespace {
 
@@ -301,7 +301,7 @@ private:
 
     bool expect_line_comment()
     {
-        if (const std::size_t length = match_line_comment(remainder)) {
+        if (const std::size_t length = match_crlf_line_comment(remainder)) {
             emit_and_advance(2, Highlight_Type::comment_delim);
             if (length > 2) {
                 emit_and_advance(length - 2, Highlight_Type::comment);
-- 
2.43.0


From 29724f6090109d05094802bbabd1747a9d0bd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 071/136] fix: dollar signs are errors in Java identifiers

---
 src/main/cpp/lang/java.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 176b217..7594f43 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -157,7 +157,16 @@ std::optional<Token_Type> match_symbol(const std::u8string_view str) noexcept
 }
 
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.8
-using cpp::match_identifier;
+std::size_t match_identifier(const std::u8string_view str)
+{
+    // Except for escape sequences, which we don't handle, these are the same as in JavaScript.
+    const auto [first, first_length] = utf8::decode_and_length_or_replacement(str);
+    if (str.empty() || !js::is_js_identifier_start(first)) {
+        return 0;
+    }
+    const std::size_t length = std::size_t(first_length);
+    return length + utf8::length_if(str.substr(length), js::is_js_identifier_part);
+}
 
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.7
 using js::Comment_Result;
-- 
2.43.0


From fc891368af60beb4f0f3c53ea43e5f8d8ffdfb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 072/136] fix: @interface is highlighted as an annotation

---
 src/main/cpp/lang/java.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 7594f43..290f0b5 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -487,7 +487,8 @@ private:
             return false;
         }
         const std::u8string_view after_at = remainder.substr(1);
-        if (match_identifier(after_at) == 0) {
+        const std::size_t id_length = match_identifier(after_at);
+        if (id_length == 0 || after_at.substr(0, id_length) == u8"interface") {
             return false;
         }
 
-- 
2.43.0


From c306b9897cd0af73d581576a5b46ff3409a7b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 073/136] fix: raw strings take extra hashes in Rust

---
 src/main/cpp/lang/rust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index d8d8819..b4d7dc1 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -500,7 +500,7 @@ private:
                         = ascii::length_before_not(remainder.substr(length + 1), u8'#');
                     if (terminating_hashes >= raw_hash_length) {
                         flush();
-                        emit_and_advance(1 + terminating_hashes, Highlight_Type::string_delim);
+                        emit_and_advance(1 + raw_hash_length, Highlight_Type::string_delim);
                         break;
                     }
                 }
-- 
2.43.0


From 73aa09b1173fe476b3048abfe7aaa31dce4653e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 074/136] fix: string continuations with CRLF are errors in
 Rust

---
 src/main/cpp/lang/rust.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index b4d7dc1..c347309 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -168,6 +168,10 @@ Escape_Result match_escape_sequence(const std::u8string_view str, String_Type ty
     case u8'0':
     case u8'\n': return { .length = 2 };
 
+    case u8'\r':
+        return str.substr(2).starts_with(u8'\n') ? Escape_Result { .length = 3 }
+                                                 : Escape_Result { .length = 1, .erroneous = true };
+
     case u8'x': return match_common_escape<Common_Escape::hex_2>(str, 2);
 
     // TODO: increase error accuracy
@@ -422,7 +426,7 @@ private:
             if (!escape) {
                 return false;
             }
-            if (escape.length == 2 && remainder[content_start + 1] == u8'\n') {
+            if (remainder[content_start + 1] == u8'\n' || remainder[content_start + 1] == u8'\r') {
                 // Handle the case of a STRING_CONTINUE in a CHAR_LITERAL,
                 // which we may have matched with match_escape_sequence, but is not allowed.
                 return false;
-- 
2.43.0


From 8c196089647b82beda6df74ecda00a161e40dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 075/136] fix: numbers take the point of ranges and method
 calls in Rust

---
 src/main/cpp/lang/rust.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index c347309..da70a34 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -148,6 +148,14 @@ Common_Number_Result match_number(const std::u8string_view str)
     else {
         result.erroneous |= result.prefix;
     }
+    // The point of a range or member access is not part of the number, like in `1..2` or `1.pow()`.
+    if (result.radix_point && result.fractional == 0) {
+        const std::size_t integer_length = result.sign + result.integer;
+        const std::u8string_view after = str.substr(integer_length + 1);
+        if (after.starts_with(u8'.') || match_identifier(after)) {
+            return match_common_number(str.substr(0, integer_length), options);
+        }
+    }
     return result;
 }
 
-- 
2.43.0


From 584b8a9f1e3258efe71afa43a92ef53f43b5dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 076/136] fix: digit separators that Java, Kotlin, and Rust
 allow are errors

---
 include/ulight/impl/numbers.hpp | 12 ++++++++++++
 src/main/cpp/lang/java.cpp      |  1 +
 src/main/cpp/lang/kotlin.cpp    |  1 +
 src/main/cpp/lang/rust.cpp      |  1 +
 src/main/cpp/parse_utils.cpp    | 30 +++++++++++++++++++++++++-----
 5 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/include/ulight/impl/numbers.hpp b/include/ulight/impl/numbers.hpp
index 44487c3..06b10d6 100644
--- a/include/ulight/impl/numbers.hpp
+++ b/include/ulight/impl/numbers.hpp
@@ -72,6 +72,16 @@ struct Exponent_Separator {
     int base;
 };
 
+/// @brief Where digit separators may appear.
+enum struct Separator_Placement : Underlying {
+    /// @brief One separator may appear between two digits.
+    single,
+    /// @brief One or more separators may appear between two digits.
+    repeated,
+    /// @brief Separators may appear anywhere, as long as there is at least one digit.
+    anywhere,
+};
+
 struct Common_Number_Options {
     /// @brief A bitmask type specifying which signs are allowed.
     /// By default, this is `none` because in many languages,
@@ -96,6 +106,8 @@ struct Common_Number_Options {
     /// @brief An optional digit separator which is accepted as part of digit sequences
     /// in addition to the set of digits determined by the base.
     char8_t digit_separator = 0;
+    /// @brief Where `digit_separator` may appear within digit sequences.
+    Separator_Placement separator_placement = Separator_Placement::single;
     /// @brief If `true`, the integer part shall not be empty, even if there is a fraction,
     /// like `.5f`.
     bool nonempty_integer = false;
diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 290f0b5..2e2a3d9 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -97,6 +97,7 @@ Common_Number_Result match_number(const std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
+        .separator_placement = Separator_Placement::repeated,
         .nonempty_fraction = true,
     };
     return match_common_number(str, options);
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index c189990..606b73b 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -80,6 +80,7 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
+        .separator_placement = Separator_Placement::repeated,
     };
     Common_Number_Result result = match_common_number(str, options);
     result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index da70a34..bb7f225 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -134,6 +134,7 @@ Common_Number_Result match_number(const std::u8string_view str)
         .exponent_separators = exponent_separators,
         .match_suffix = Constant<match_suffix> {},
         .digit_separator = digit_separator,
+        .separator_placement = Separator_Placement::anywhere,
         .nonempty_integer = true,
     };
     Common_Number_Result result = match_common_number(str, options);
diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index dc384ab..a9ebf93 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -166,6 +166,28 @@ Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t s
     return { .length = length, .erroneous = erroneous };
 }
 
+namespace {
+
+[[nodiscard]]
+Digits_Result match_digits_in_number(
+    const std::u8string_view str,
+    const int base,
+    const Common_Number_Options& options
+)
+{
+    Digits_Result result = match_separated_digits(str, base, options.digit_separator);
+    if (!result.erroneous || options.separator_placement == Separator_Placement::single) {
+        return result;
+    }
+    const std::u8string_view digits = str.substr(0, result.length);
+    result.erroneous = options.separator_placement == Separator_Placement::repeated
+        ? digits.front() == options.digit_separator || digits.back() == options.digit_separator
+        : digits.find_first_not_of(options.digit_separator) == std::u8string_view::npos;
+    return result;
+}
+
+} // namespace
+
 Common_Number_Result
 match_common_number(const std::u8string_view str, const Common_Number_Options& options)
 {
@@ -199,7 +221,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     }();
     {
         const auto [integer_digits, integer_error]
-            = match_separated_digits(str.substr(length), base, options.digit_separator);
+            = match_digits_in_number(str.substr(length), base, options);
         // A number cannot start with a separator, even though digits can contain separators.
         if (result.prefix == 0 && integer_digits != 0 && options.digit_separator != 0
             && str[length] == options.digit_separator) {
@@ -216,9 +238,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
 
         // A leading zero changes the base of integers only.
         const int fractional_base = result.prefix ? base : options.default_base;
-        const auto [fractional_digits, fractional_error] = match_separated_digits(
-            str.substr(length + 1), fractional_base, options.digit_separator
-        );
+        const auto [fractional_digits, fractional_error] = match_digits_in_number(str.substr(length + 1), fractional_base, options);
         result.fractional += fractional_digits;
         result.erroneous |= options.nonempty_fraction && fractional_digits == 0;
         result.erroneous |= fractional_error;
@@ -247,7 +267,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             length += result.exponent_sep;
 
             const auto [exp_digits, exp_error]
-                = match_separated_digits(str.substr(length), 10, options.digit_separator);
+                = match_digits_in_number(str.substr(length), 10, options);
             result.exponent_digits += exp_digits;
             result.erroneous |= exp_digits == 0;
             result.erroneous |= exp_error;
-- 
2.43.0


From 66517df5eaab917fec3d119cc60cdb1b18264401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 077/136] fix: raw identifiers are never recognized in Rust

---
 src/main/cpp/lang/rust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index bb7f225..cf54aee 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -307,8 +307,8 @@ private:
             || expect_string_literal() //
             || expect_number() //
             || expect_lifetime_token() //
-            || expect_identifier_or_keyword() //
             || expect_raw_identifier() //
+            || expect_identifier_or_keyword() //
             || expect_punctuation();
     }
 
-- 
2.43.0


From ac1326c4c9243b9b62027a3ecc1d047a099e09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 078/136] fix: x!=y is highlighted as a macro in Rust

---
 src/main/cpp/lang/rust.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index cf54aee..696c027 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -342,6 +342,13 @@ private:
         return false;
     }
 
+    /// @brief Returns `true` if an identifier followed by `str` is the name of a macro,
+    /// and not the left side of an `!=` operator.
+    static bool starts_with_macro_delim(const std::u8string_view str)
+    {
+        return str.starts_with(u8'!') && !str.starts_with(u8"!=");
+    }
+
     bool expect_raw_identifier()
     {
         // https://doc.rust-lang.org/reference/identifiers.html#grammar-RAW_IDENTIFIER
@@ -357,7 +364,7 @@ private:
         if (is_illegal_raw_identifier(id)) {
             emit_and_advance(prefix.length() + id_length, Highlight_Type::error);
         }
-        else if (remainder.substr(prefix.length() + id_length).starts_with(u8'!')) {
+        else if (starts_with_macro_delim(remainder.substr(prefix.length() + id_length))) {
             // https://doc.rust-lang.org/reference/macros.html
             emit_and_advance(prefix.length(), Highlight_Type::name_macro_delim);
             emit_and_advance(id_length, Highlight_Type::name_macro);
@@ -383,7 +390,7 @@ private:
         if (type) {
             emit_and_advance(length, token_type_highlight(*type));
         }
-        else if (remainder.substr(length).starts_with(u8'!')) {
+        else if (starts_with_macro_delim(remainder.substr(length))) {
             emit_and_advance(length, Highlight_Type::name_macro);
             emit_and_advance(1, Highlight_Type::name_macro_delim);
         }
-- 
2.43.0


From 6e25c2b9c0891cc7d4f80e7722976360a8b3678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 079/136] fix: numbers take underscores of member names in
 Kotlin and Rust

---
 src/main/cpp/lang/kotlin.cpp | 3 ++-
 src/main/cpp/lang/rust.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 606b73b..a0a4329 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -85,7 +85,8 @@ Common_Number_Result match_number(std::u8string_view str)
     Common_Number_Result result = match_common_number(str, options);
     result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
     // The point of a range or member access is not part of the number, like in `1..2` or `1.inc()`.
-    if (result.radix_point && result.fractional == 0) {
+    // This includes names that begin with an underscore, which is also a digit separator.
+    if (result.radix_point) {
         const std::u8string_view after = str.substr(result.sign + result.integer + 1);
         if (after.starts_with(u8'.') || cpp::match_identifier(after)) {
             return match_common_number(str.substr(0, result.sign + result.integer), options);
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 696c027..746d0d8 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -150,7 +150,8 @@ Common_Number_Result match_number(const std::u8string_view str)
         result.erroneous |= result.prefix;
     }
     // The point of a range or member access is not part of the number, like in `1..2` or `1.pow()`.
-    if (result.radix_point && result.fractional == 0) {
+    // This includes names that begin with an underscore, which is also a digit separator.
+    if (result.radix_point) {
         const std::size_t integer_length = result.sign + result.integer;
         const std::u8string_view after = str.substr(integer_length + 1);
         if (after.starts_with(u8'.') || match_identifier(after)) {
-- 
2.43.0


From c84695b988ec05ee23a0388f741afa3194e625e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 080/136] fix: attributes are highlighted as errors in Rust

---
 include/ulight/impl/lang/rust.hpp | 5 ++++-
 src/main/cpp/lang/rust.cpp        | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/rust.hpp b/include/ulight/impl/lang/rust.hpp
index 8a5a339..2f5d1cd 100644
--- a/include/ulight/impl/lang/rust.hpp
+++ b/include/ulight/impl/lang/rust.hpp
@@ -35,6 +35,8 @@ inline constexpr struct Is_Rust_Whitespace {
 #define ULIGHT_RUST_TOKEN_ENUM_DATA(F)                                                             \
     F(exclamation, "!", symbol_op)                                                                 \
     F(exclamation_eq, "!=", symbol_op)                                                             \
+    F(pound, "#", symbol_punc)                                                                     \
+    F(dollar, "$", symbol_punc)                                                                    \
     F(percent, "%", symbol_op)                                                                     \
     F(percent_eq, "%=", symbol_op)                                                                 \
     F(amp, "&", symbol_op)                                                                         \
@@ -160,7 +162,8 @@ inline constexpr struct Is_Rust_Whitespace {
     F(pipe, "|", symbol_op)                                                                        \
     F(pipe_eq, "|=", symbol_op)                                                                    \
     F(pipe_pipe, "||", symbol_op)                                                                  \
-    F(right_brace, "}", symbol_brace)
+    F(right_brace, "}", symbol_brace)                                                              \
+    F(tilde, "~", symbol_op)
 
 #define ULIGHT_RUST_TOKEN_ENUM_ENUMERATOR(id, code, highlight) id,
 
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 746d0d8..0622b20 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -203,6 +203,8 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
     }
     switch (str[0]) {
     case u8'!': return str.starts_with(u8"!=") ? exclamation_eq : exclamation;
+    case u8'#': return pound;
+    case u8'$': return dollar;
     case u8'%': return str.starts_with(u8"%=") ? percent_eq : percent;
     case u8'&':
         return str.starts_with(u8"&&") ? amp_amp //
@@ -251,6 +253,7 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
             : str.starts_with(u8"||")  ? pipe_pipe
                                        : pipe;
     case u8'}': return right_brace;
+    case u8'~': return tilde;
     default: return {};
     }
 }
-- 
2.43.0


From e5edb920cde32a7bff5df1a2c3194ffdada320d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 081/136] fix: the string prefixes u and Rf are errors in
 Python

---
 src/main/cpp/lang/python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 0c4b969..02aaf55 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -96,6 +96,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"RB", raw_byte },
         { u8"RF", raw_formatted },
         { u8"Rb", raw_byte },
+        { u8"Rf", raw_formatted },
         { u8"U", unicode },
         { u8"b", byte },
         { u8"bR", raw_byte },
@@ -108,6 +109,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"rF", raw_formatted },
         { u8"rb", raw_byte },
         { u8"rf", raw_formatted },
+        { u8"u", unicode },
     };
     static_assert(std::ranges::is_sorted(prefixes, {}, &Prefix_And_Type::id));
 
-- 
2.43.0


From e6c2dd0e92f963738d6a124f475ea73c04e9e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 082/136] fix: short octal escapes are errors in Python

---
 src/main/cpp/lang/python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 02aaf55..3b1c2e6 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -166,7 +166,7 @@ Escape_Result match_escape_sequence(const std::u8string_view str, const String_P
         // Note that while octal escapes with a value above 255 produce a `SyntaxWarning`
         // as of Python 3.12, they do not raise an error yet,
         // so we don't highlight them as an error.
-        return match_common_escape<Common_Escape::octal_3>(str, 1);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
 
     case u8'x': return match_common_escape<Common_Escape::hex_2>(str, 2);
-- 
2.43.0


From 2fca8aa0303b7687a1ae212dca68ee9f8acae6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 083/136] fix: keywords before strings are errors in Python

---
 src/main/cpp/lang/python.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 3b1c2e6..85afc23 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -339,6 +339,7 @@ private:
         }
         const std::size_t prefix_length = match_string_prefix_identifier(remainder);
         bool prefix_erroneous = false;
+        bool prefix_is_keyword = false;
 
         const auto effective_prefix = [&] -> String_Prefix {
             if (prefix_length == 0) {
@@ -348,12 +349,14 @@ private:
             if (const std::optional<String_Prefix> prefix = classify_string_prefix(prefix_str)) {
                 return *prefix;
             }
+            prefix_is_keyword = token_type_by_code(prefix_str).has_value();
             prefix_erroneous = true;
             return String_Prefix::unicode;
         }();
 
         if (const auto after_prefix = remainder.substr(prefix_length);
-            !after_prefix.starts_with(u8'\'') && !after_prefix.starts_with(u8'"')) {
+            prefix_is_keyword
+            || (!after_prefix.starts_with(u8'\'') && !after_prefix.starts_with(u8'"'))) {
             return false;
         }
 
-- 
2.43.0


From 5decbd09fb225ec9e6fe3722d2ada4fd0243b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 084/136] fix: separators after number prefixes are errors in
 Python

---
 include/ulight/impl/numbers.hpp |  2 ++
 src/main/cpp/lang/python.cpp    |  1 +
 src/main/cpp/parse_utils.cpp    | 11 +++++++++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/numbers.hpp b/include/ulight/impl/numbers.hpp
index 06b10d6..91d0067 100644
--- a/include/ulight/impl/numbers.hpp
+++ b/include/ulight/impl/numbers.hpp
@@ -76,6 +76,8 @@ struct Exponent_Separator {
 enum struct Separator_Placement : Underlying {
     /// @brief One separator may appear between two digits.
     single,
+    /// @brief Like `single`, but a separator may also follow the prefix.
+    single_or_after_prefix,
     /// @brief One or more separators may appear between two digits.
     repeated,
     /// @brief Separators may appear anywhere, as long as there is at least one digit.
diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 85afc23..d939dbb 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -140,6 +140,7 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
+        .separator_placement = Separator_Placement::single_or_after_prefix,
     };
     return match_common_number(str, options);
 }
diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a9ebf93..9d8f14b 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -172,9 +172,16 @@ namespace {
 Digits_Result match_digits_in_number(
     const std::u8string_view str,
     const int base,
-    const Common_Number_Options& options
+    const Common_Number_Options& options,
+    const bool after_prefix = false
 )
 {
+    if (options.separator_placement == Separator_Placement::single_or_after_prefix) {
+        const std::size_t separator = after_prefix && str.starts_with(options.digit_separator);
+        const auto [length, erroneous]
+            = match_separated_digits(str.substr(separator), base, options.digit_separator);
+        return { .length = separator + length, .erroneous = erroneous || separator > length };
+    }
     Digits_Result result = match_separated_digits(str, base, options.digit_separator);
     if (!result.erroneous || options.separator_placement == Separator_Placement::single) {
         return result;
@@ -221,7 +228,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     }();
     {
         const auto [integer_digits, integer_error]
-            = match_digits_in_number(str.substr(length), base, options);
+            = match_digits_in_number(str.substr(length), base, options, result.prefix != 0);
         // A number cannot start with a separator, even though digits can contain separators.
         if (result.prefix == 0 && integer_digits != 0 && options.digit_separator != 0
             && str[length] == options.digit_separator) {
-- 
2.43.0


From 3e289841263a6ab028bd162c9e1ecc48b7bb2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 085/136] fix: escaped line breaks and \z end strings in Lua

---
 src/main/cpp/lang/lua.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index c114baa..c9e2820 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -210,6 +210,14 @@ String_Literal_Result match_string_literal(std::u8string_view str)
 
             if (escaped) {
                 escaped = false;
+                if (c == u8'z') {
+                    // Skips any following whitespace, including line breaks.
+                    length += 1 + match_whitespace(str.substr(length + 1));
+                    continue;
+                }
+                if (c == u8'\r' && str.substr(length + 1).starts_with(u8'\n')) {
+                    ++length;
+                }
             }
             else if (c == u8'\\') {
                 escaped = true;
@@ -219,7 +227,7 @@ String_Literal_Result match_string_literal(std::u8string_view str)
                                                .is_long_string = false,
                                                .terminated = true };
             }
-            else if (c == u8'\n') {
+            else if (c == u8'\n' || c == u8'\r') {
                 // Unterminated.
                 return String_Literal_Result { .length = length,
                                                .is_long_string = false,
-- 
2.43.0


From 268cdc9bbf59eb3ef49da941dc4062a06a70697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 086/136] fix: carriage returns do not end line comments in Lua

---
 src/main/cpp/lang/lua.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index c9e2820..354b91d 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -123,7 +123,7 @@ std::size_t match_line_comment(std::u8string_view s) noexcept
 
     // Continue until EoL
     while (length < s.length()) {
-        if (s[length] == u8'\n') {
+        if (s[length] == u8'\n' || s[length] == u8'\r') {
             return length;
         }
         ++length;
-- 
2.43.0


From d4ba6059ae60d0a483abb9f4ba306dd6c01069a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 087/136] fix: Bash substitutions and subshells leak their
 state into the surrounding command

---
 src/main/cpp/lang/bash.cpp | 52 +++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 237eb54..31b67a3 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -213,7 +213,9 @@ private:
             case u8'\r':
             case u8'\n': {
                 advance(1);
-                state = State::before_command;
+                if (context != Context::parameter_sub) {
+                    state = State::before_command;
+                }
                 continue;
             }
             case u8'$': {
@@ -227,8 +229,9 @@ private:
             }
             case u8'(': {
                 emit_and_advance(1, Highlight_Type::symbol_parens);
-                state = State::before_command;
-                consume_commands(Context::subshell);
+                if (context != Context::parameter_sub) {
+                    consume_nested_commands(Context::subshell, State::before_command);
+                }
                 continue;
             }
             case u8')': {
@@ -277,6 +280,27 @@ private:
         }
     }
 
+    /// @brief Consumes what is nested in parentheses or braces.
+    /// Whatever follows continues the surrounding command.
+    void consume_nested_commands(Context context, State initial_state)
+    {
+        const State outer_state = state;
+        state = initial_state;
+        consume_commands(context);
+        state = outer_state;
+        enter_word();
+    }
+
+    void enter_word()
+    {
+        if (state == State::before_command) {
+            state = State::in_command;
+        }
+        else if (state == State::before_argument) {
+            state = State::in_argument;
+        }
+    }
+
     void consume_word(Context context)
     {
         std::size_t length = 0;
@@ -378,40 +402,28 @@ private:
         const char8_t next = remainder[1];
         if (next == u8'{') {
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-            state = State::parameter_sub;
-            consume_commands(Context::parameter_sub);
+            consume_nested_commands(Context::parameter_sub, State::parameter_sub);
             return;
         }
         if (next == u8'(') {
             if (remainder.size() >= 3 && remainder[2] == u8'(') {
                 emit_and_advance(3, Highlight_Type::string_interpolation_delim);
-                state = State::before_command;
-                consume_commands(Context::arith_sub);
+                consume_nested_commands(Context::arith_sub, State::before_command);
                 return;
             }
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-            state = State::before_command;
-            consume_commands(Context::command_sub);
+            consume_nested_commands(Context::command_sub, State::before_command);
             return;
         }
 
-        const auto update_state = [&] {
-            if (state == State::before_command) {
-                state = State::in_command;
-            }
-            else if (state == State::before_argument) {
-                state = State::in_argument;
-            };
-        };
-
         if (is_bash_special_parameter(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
-            update_state();
+            enter_word();
             return;
         }
         if (const std::size_t id = match_identifier(remainder.substr(1))) {
             emit_and_advance(id + 1, Highlight_Type::string_interpolation);
-            update_state();
+            enter_word();
             return;
         }
         ULIGHT_ASSERT_UNREACHABLE(u8"No substitution to consume.");
-- 
2.43.0


From 192cd329f7c46a2d8487eb58e2723d4c810aaa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 088/136] fix: Bash comments start in the middle of words and
 in parameter expansions

---
 src/main/cpp/lang/bash.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 31b67a3..10894b7 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -193,6 +193,12 @@ private:
                 continue;
             }
             case u8'#': {
+                const bool is_word_start
+                    = state == State::before_command || state == State::before_argument;
+                if (!is_word_start || context == Context::arith_sub) {
+                    consume_word(context);
+                    continue;
+                }
                 const std::size_t length = match_comment(remainder);
                 emit_and_advance(1, Highlight_Type::comment_delim);
                 if (length > 1) {
-- 
2.43.0


From 2fda9731326af8aededf2194233475fc3cd567d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 089/136] fix: Bash commands after operators are highlighted as
 arguments

---
 src/main/cpp/lang/bash.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 10894b7..adad648 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -258,6 +258,10 @@ private:
                     continue;
                 }
                 emit_and_advance(1, Highlight_Type::symbol_parens);
+                if (context == Context::file) {
+                    // Most likely, this is the end of a pattern in a case statement.
+                    state = State::before_command;
+                }
                 continue;
             }
             case u8'|':
@@ -268,6 +272,9 @@ private:
                 const std::optional<Token_Type> op = match_operator(remainder);
                 ULIGHT_ASSERT(op);
                 emit_and_advance(token_type_length(*op), Highlight_Type::symbol_op);
+                if (context != Context::parameter_sub && context != Context::arith_sub) {
+                    update_state_after_operator(*op);
+                }
                 continue;
             }
             case u8'}': {
@@ -307,6 +314,37 @@ private:
         }
     }
 
+    void update_state_after_operator(Token_Type op)
+    {
+        using enum Token_Type;
+        switch (op) {
+        case semicolon:
+        case pipe:
+        case pipe_pipe:
+        case amp_amp: {
+            state = State::before_command;
+            break;
+        }
+        case amp_greater:
+        case amp_greater_greater:
+        case less:
+        case less_amp:
+        case less_less:
+        case less_less_less:
+        case less_greater:
+        case greater:
+        case greater_amp:
+        case greater_greater: {
+            // A redirection ends the current word, and is followed by its target.
+            if (state == State::in_command || state == State::in_argument) {
+                state = State::before_argument;
+            }
+            break;
+        }
+        default: break;
+        }
+    }
+
     void consume_word(Context context)
     {
         std::size_t length = 0;
-- 
2.43.0


From a4d7d3de69a067df0a50e89eb4fd74f8215699e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 090/136] fix: Bash arguments after a quoted command are
 highlighted as commands

---
 src/main/cpp/lang/bash.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index adad648..2bfa833 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -185,11 +185,13 @@ private:
             case u8'\'': {
                 const String_Result string = match_single_quoted_string(remainder);
                 highlight_string(string);
+                enter_word();
                 continue;
             }
             case u8'"': {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 consume_double_quoted_string();
+                enter_word();
                 continue;
             }
             case u8'#': {
@@ -391,6 +393,7 @@ private:
             emit_and_advance(
                 length_with_escaped_code_point(remainder), Highlight_Type::string_escape
             );
+            enter_word();
         }
     }
 
-- 
2.43.0


From e3adcef8492728a076d78860fa49b766e9c0a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 091/136] fix: Bash positional parameters are not recognized

---
 include/ulight/impl/lang/bash.hpp | 2 +-
 src/main/cpp/lang/bash.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index a53e3ef..790fe3c 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -45,7 +45,7 @@ inline constexpr auto is_bash_identifier = is_ascii_alphanumeric | u8'_';
 
 /// @brief Returns `true` iff `c` would start a parameter substitution when following `'$'`.
 inline constexpr auto is_bash_parameter_substitution_start
-    = Charset256(u8"({") | is_bash_identifier_start | is_bash_special_parameter;
+    = Charset256(u8"({") | is_bash_identifier_start | is_bash_special_parameter | is_ascii_digit_set;
 
 /// @brief Returns `true` if `c` is a character that ends a sequence of unquoted characters that
 /// comprise a single argument for the highlighter.
diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 2bfa833..d1551ed 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -463,7 +463,7 @@ private:
             return;
         }
 
-        if (is_bash_special_parameter(next)) {
+        if (is_bash_special_parameter(next) || is_ascii_digit(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
             enter_word();
             return;
-- 
2.43.0


From e32f10509582f65294c297fd0e8002c3502d8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 092/136] fix: Bash backslash before a single quote in double
 quotes is highlighted as an escape

---
 include/ulight/impl/lang/bash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index 790fe3c..619a4aa 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -27,7 +27,7 @@ inline constexpr auto is_bash_metacharacter = is_bash_blank | Charset256(u8"|&;(
 /// For example, `\x` has no special meaning within double quotes (outside it does).
 ///
 /// https://www.gnu.org/software/bash/manual/bash.html#Double-Quotes
-inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"'$`\"\\\n");
+inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"$`\"\\\n");
 
 /// @brief Returns `true` iff `c` forms a parameter substitution
 /// when preceded by `$` despite not being a variable name.
-- 
2.43.0


From 36985658a0f1dba9f0e12110b81db615d86b0751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 093/136] fix: CSS declarations after nested blocks and
 at-rules are highlighted as values or selectors

---
 src/main/cpp/lang/css.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index ec38fd3..eb88d46 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -294,7 +294,7 @@ public:
                     context = Context::block;
                 }
                 else if (context == Context::at_prelude) {
-                    context = Context::top_level;
+                    context = outer_context();
                 }
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 break;
@@ -374,9 +374,7 @@ public:
                 if (brace_level != 0) {
                     --brace_level;
                 }
-                if (brace_level == 0) {
-                    context = Context::top_level;
-                }
+                context = outer_context();
                 emit_and_advance(1, Highlight_Type::symbol_brace);
                 break;
             }
@@ -407,6 +405,13 @@ public:
         return true;
     }
 
+    /// @brief Returns the context in which the next rule or declaration begins.
+    [[nodiscard]]
+    Context outer_context() const
+    {
+        return brace_level == 0 ? Context::top_level : Context::block;
+    }
+
     void consume_whitespace()
     {
         advance(html::match_whitespace(remainder));
-- 
2.43.0


From 4024ca2c3091feed7106bcc1124d698dc552e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 094/136] fix: CSS custom and vendor-prefixed properties are
 highlighted as values

---
 src/main/cpp/lang/css.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index eb88d46..7a902bc 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -41,7 +41,7 @@ bool starts_with_ident_sequence(std::u8string_view str)
         return false;
     }
     if (str[0] == u8'-') {
-        return (str.length() > 1 && is_css_identifier_start(str[1]))
+        return (str.length() > 1 && (str[1] == u8'-' || is_css_identifier_start(str[1])))
             || starts_with_valid_escape(str.substr(1));
     }
     return is_css_identifier_start(str[0]) || starts_with_valid_escape(str);
@@ -251,8 +251,8 @@ public:
                         emit_and_advance(cdc_token.length(), Highlight_Type::comment_delim);
                         break;
                     }
-                    if (starts_with_ident_sequence(remainder.substr(1))) {
-                        consume_ident_like_token(Highlight_Type::name);
+                    if (starts_with_ident_sequence(remainder)) {
+                        consume_ident_like_token(contextual_highlight_type);
                         break;
                     }
                 }
-- 
2.43.0


From 4e4f750d1106a7767d163a6a8f4cfefd117cb646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 095/136] fix: CSS next-sibling combinator is highlighted as an
 error

---
 src/main/cpp/lang/css.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 7a902bc..1c903a8 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -256,9 +256,14 @@ public:
                         break;
                     }
                 }
+                if (c == u8'+' && context == Context::top_level) {
+                    // Example: "h1 + p"
+                    emit_and_advance(1, selector_highlight_type, Coalescing::forced);
+                    break;
+                }
                 emit_and_advance(
                     1,
-                    context == Context::value || context == Context::at_prelude
+                    c == u8'+' || context == Context::value || context == Context::at_prelude
                         ? Highlight_Type::symbol_op
                         : Highlight_Type::error
                 );
-- 
2.43.0


From b2b598d163679a9b6dd0dfeecf20aae008f3e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 096/136] fix: CSS non-ASCII identifiers are not highlighted

---
 include/ulight/impl/lang/css.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/css.hpp b/include/ulight/impl/lang/css.hpp
index 854cfa6..ff923f2 100644
--- a/include/ulight/impl/lang/css.hpp
+++ b/include/ulight/impl/lang/css.hpp
@@ -25,7 +25,8 @@ inline constexpr struct Is_CSS_Identifier_Start {
     static constexpr bool operator()(const char8_t c) noexcept
     {
         // https://www.w3.org/TR/css-syntax-3/#ident-start-code-point
-        return is_css_ascii_identifier_start(c);
+        // All bytes of non-ASCII code points belong to identifiers.
+        return !is_ascii(c) || is_css_ascii_identifier_start(c);
     }
 
     [[nodiscard]]
@@ -44,7 +45,8 @@ inline constexpr struct Is_CSS_Identifier {
     static constexpr bool operator()(const char8_t c) noexcept
     {
         // https://www.w3.org/TR/css-syntax-3/#ident-code-point
-        return is_css_ascii_identifier(c);
+        // All bytes of non-ASCII code points belong to identifiers.
+        return !is_ascii(c) || is_css_ascii_identifier(c);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 188b39e15d72f9a06960bd319730a994eb1a59c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 097/136] fix: CSS escapes followed by CRLF end after the
 carriage return

---
 src/main/cpp/lang/css.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 1c903a8..4bb3d86 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -93,7 +93,10 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         ++length;
     }
     if (length != 0) {
-        if (length < str.length() && is_css_whitespace(str[length])) {
+        if (str.substr(length).starts_with(u8"\r\n")) {
+            length += 2;
+        }
+        else if (length < str.length() && is_css_whitespace(str[length])) {
             ++length;
         }
         return length;
@@ -472,7 +475,9 @@ public:
             }
             if (remainder[length] == u8'\\') {
                 flush();
-                const std::size_t escape_length = match_escaped_code_point(remainder.substr(1)) + 1;
+                const std::size_t escape_length = remainder.starts_with(u8"\\\r\n")
+                    ? 3
+                    : match_escaped_code_point(remainder.substr(1)) + 1;
                 emit_and_advance(escape_length, Highlight_Type::string_escape);
                 continue;
             }
-- 
2.43.0


From 00bcc10c693413a5c6cc5108ccc9b7b6f13cdcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 098/136] fix: CSS !important is highlighted in longer
 identifiers

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 4bb3d86..894c042 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -346,7 +346,7 @@ public:
                 const std::size_t white_length = html::match_whitespace(remainder.substr(1));
                 if (const std::size_t name_length
                     = match_ident_sequence(remainder.substr(1 + white_length))) {
-                    if (ascii::starts_with_ignore_case(
+                    if (ascii::equals_ignore_case(
                             remainder.substr(1 + white_length, name_length), important
                         )) {
                         emit_and_advance(
-- 
2.43.0


From 273af4308f3c8d96adbb651d2cdb55c3d5d7502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 099/136] fix: CSS unquoted URLs are highlighted as values and
 operators

---
 src/main/cpp/lang/css.cpp | 43 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 894c042..a3abd6e 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -526,6 +526,49 @@ public:
             }
         }
         flush();
+
+        if (result.type == Ident_Type::url) {
+            consume_unquoted_url();
+        }
+    }
+
+    /// @brief Consumes everything following `url` up to the closing parenthesis,
+    /// unless the URL is quoted.
+    void consume_unquoted_url()
+    {
+        // https://www.w3.org/TR/css-syntax-3/#consume-url-token
+        ULIGHT_ASSERT(remainder.starts_with(u8'('));
+        const std::size_t white_length = html::match_whitespace(remainder.substr(1));
+        const std::u8string_view url = remainder.substr(1 + white_length);
+        if (url.empty() || url.starts_with(u8'"') || url.starts_with(u8'\'')) {
+            return;
+        }
+        emit_and_advance(1, Highlight_Type::symbol_parens);
+        advance(white_length);
+
+        std::size_t length = 0;
+        const auto flush = [&] {
+            if (length != 0) {
+                emit_and_advance(length, Highlight_Type::string);
+                length = 0;
+            }
+        };
+
+        while (length < remainder.length() && remainder[length] != u8')') {
+            if (starts_with_valid_escape(remainder.substr(length))) {
+                flush();
+                const std::size_t escape_length = match_escaped_code_point(remainder.substr(1)) + 1;
+                emit_and_advance(escape_length, Highlight_Type::string_escape);
+            }
+            else if (is_css_whitespace(remainder[length])) {
+                flush();
+                consume_whitespace();
+            }
+            else {
+                ++length;
+            }
+        }
+        flush();
     }
 };
 
-- 
2.43.0


From f2c37d2f7b4a012c42f0ccfeb9f74a2eba254ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 100/136] fix: XML names must not contain hyphens, or end
 before U+EFFFF

---
 include/ulight/impl/lang/xml.hpp | 4 ++--
 src/main/cpp/lang/xml.cpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ulight/impl/lang/xml.hpp b/include/ulight/impl/lang/xml.hpp
index e1918ce..85766e6 100644
--- a/include/ulight/impl/lang/xml.hpp
+++ b/include/ulight/impl/lang/xml.hpp
@@ -36,7 +36,7 @@ inline constexpr struct Is_XML_Name_Start {
             || (c >= U'\u3001' && c <= U'\ud7ff') //
             || (c >= U'\uf900' && c <= U'\ufdcf') //
             || (c >= U'\ufdf0' && c <= U'\ufffd') //
-            || (c >= U'\U00010000' && c <= U'\U000effef');
+            || (c >= U'\U00010000' && c <= U'\U000effff');
     }
 } is_xml_name_start;
 
@@ -51,7 +51,7 @@ inline constexpr struct Is_XML_Name {
         // https://www.w3.org/TR/REC-xml/#sec-common-syn
         return is_ascii_digit(c) //
             || is_xml_name_start(c) //
-            || c == U':' //
+            || c == U'-' //
             || c == U'.' //
             || c == U'\u00b7' //
             || (c >= U'\u0300' && c <= U'\u036f') //
diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 6db64ef..9556d36 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -180,8 +180,8 @@ std::size_t match_entity_reference(const std::u8string_view str)
     }
     const std::size_t result = str.find(u8';', 1);
     std::u8string_view ref_content = str.substr(1, result - 1);
-    const bool success
-        = result != std::u8string_view::npos && match_name(ref_content) == ref_content.size();
+    const bool success = result != std::u8string_view::npos && !ref_content.contains(u8'-')
+        && match_name(ref_content) == ref_content.size();
     return success ? result + 1 : 0;
 }
 
-- 
2.43.0


From 6385d36d2b467cac36099197f81a8bc66bba096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 101/136] fix: XML references to entities with non-alphanumeric
 names are highlighted as errors

---
 src/main/cpp/lang/xml.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 9556d36..88281d3 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -64,6 +64,15 @@ std::size_t match_name(const std::u8string_view str)
     return name_len;
 }
 
+/// @brief Like `match_name`, but the first character is also checked.
+[[nodiscard]]
+std::size_t match_entity_name(const std::u8string_view str)
+{
+    return !str.empty() && is_xml_name_start(utf8::decode_and_length_or_replacement(str).code_point)
+        ? match_name(str)
+        : 0;
+}
+
 [[nodiscard]]
 std::size_t match_att_type(const std::u8string_view str)
 {
@@ -200,6 +209,24 @@ std::size_t match_pe_reference(const std::u8string_view str)
     return success ? result + 1 : 0;
 }
 
+/// @brief Matches a character reference like `&#123;` or an entity reference like `&amp;`.
+[[nodiscard]]
+std::size_t match_reference(const std::u8string_view str)
+{
+    // https://www.w3.org/TR/xml/#NT-Reference
+    if (!str.starts_with(u8'&')) {
+        return 0;
+    }
+    const bool is_hex = str.starts_with(u8"&#x");
+    const std::size_t content_begin = is_hex ? 3 : str.starts_with(u8"&#") ? 2 : 1;
+    const std::u8string_view content = str.substr(content_begin);
+    const std::size_t length = is_hex ? ascii::length_if(content, is_ascii_hex_digit)
+        : content_begin == 2          ? ascii::length_if(content, is_ascii_digit)
+                                      : match_entity_name(content);
+    return length != 0 && content.substr(length).starts_with(u8';') ? content_begin + length + 1
+                                                                    : 0;
+}
+
 struct XML_Highlighter : Highlighter_Base {
 
     [[nodiscard]]
@@ -531,7 +558,7 @@ private:
     bool expect_reference()
     {
         // https://www.w3.org/TR/xml/#NT-CharRef
-        if (std::size_t ref_length = html::match_character_reference(remainder)) {
+        if (std::size_t ref_length = match_reference(remainder)) {
             emit_and_advance(ref_length, Highlight_Type::string_escape);
             return true;
         }
@@ -631,14 +658,14 @@ private:
         while (!remainder.empty() && piece_length < remainder.length()
                && remainder[piece_length] != quote_type) {
             std::u8string_view candidate = remainder.substr(piece_length);
-            if ((remainder[piece_length] == u8'&' && !html::match_character_reference(candidate))
+            if ((remainder[piece_length] == u8'&' && !match_reference(candidate))
                 || remainder[piece_length] == u8'<') {
                 highlight_piece();
                 emit_and_advance(1, Highlight_Type::error);
                 piece_length = 0;
             }
             else if (remainder[piece_length] == u8'&'
-                     && html::match_character_reference(candidate)) {
+                     && match_reference(candidate)) {
                 highlight_piece();
                 expect_reference();
                 piece_length = 0;
-- 
2.43.0


From ec0029404e400f33b556089277946bb87f8e6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 102/136] fix: XML processing instructions are cut short
 depending on their data

---
 src/main/cpp/lang/xml.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 88281d3..32e5df9 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -511,11 +511,6 @@ private:
             return true;
         }
 
-        const std::u8string_view target_name = remainder.substr(0, name_length);
-        if (ascii::contains_ignore_case(target_name, u8"xml")) {
-            return true;
-        }
-
         expect_whitespace();
 
         while (!remainder.empty() && !remainder.starts_with(u8"?>")) {
-- 
2.43.0


From b6591d6eb8e3f423e0dda565fec3855cc148c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 103/136] fix: XML document type declarations without internal
 subset are not terminated

---
 src/main/cpp/lang/xml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 32e5df9..1f79f95 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -379,7 +379,7 @@ private:
         if (match_external_id_type(remainder)) {
             expect_external_id();
         }
-        else if (!remainder.starts_with(u8'[')) {
+        else if (!remainder.starts_with(u8'[') && !remainder.starts_with(u8'>')) {
             const std::size_t word_len = ascii::length_if_not(remainder, is_xml_whitespace);
             advance(word_len);
 
@@ -395,6 +395,10 @@ private:
         }
 
         expect_whitespace();
+        if (remainder.starts_with(u8'>')) {
+            emit_and_advance(1, Highlight_Type::name_macro);
+            return true;
+        }
         if (!remainder.starts_with(u8'[')) {
             return true;
         }
-- 
2.43.0


From 8a7549b7e36296c9b8b68530ac0c4a874bb749c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 104/136] fix: XML declaration with a quoted version is not
 highlighted

---
 src/main/cpp/lang/xml.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 1f79f95..86f2317 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -430,7 +430,8 @@ private:
     bool expect_xml_decl()
     {
         // https://www.w3.org/TR/xml/#NT-XMLDecl
-        if (!remainder.starts_with(xml_tag)) {
+        if (!remainder.starts_with(xml_tag)
+            || match_whitespace(remainder.substr(xml_tag.size())) == 0) {
             return false;
         }
         emit_and_advance(xml_tag.size(), Highlight_Type::name_macro);
@@ -454,23 +455,31 @@ private:
 
         const auto expect_string = [&]() { expect_attribute_value(); };
 
+        const auto expect_version = [&]() {
+            if (!expect_attribute_value()) {
+                highlight_number();
+            }
+        };
+
         const auto highlight_decl_attr = [&](std::u8string_view attr_name, auto expect_val) {
             if (!remainder.starts_with(attr_name)) {
                 return;
             }
             emit_and_advance(attr_name.size(), Highlight_Type::markup_attr);
 
+            expect_whitespace();
             if (!remainder.starts_with(u8'=')) {
                 return;
             }
             emit_and_advance(1, Highlight_Type::symbol_punc);
+            expect_whitespace();
 
             if (!remainder.empty()) {
                 expect_val();
             }
         };
 
-        highlight_decl_attr(decltype_version_attr, highlight_number);
+        highlight_decl_attr(decltype_version_attr, expect_version);
         expect_whitespace();
 
         highlight_decl_attr(decltype_encoding_attr, expect_string);
-- 
2.43.0


From a1bdb93fdc594807f2e6ab6be940824ed8d1b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 105/136] fix: XML parameter entity references and content
 model quantifiers swallow what follows

---
 src/main/cpp/lang/xml.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 86f2317..e9b62f3 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -227,6 +227,18 @@ std::size_t match_reference(const std::u8string_view str)
                                                                     : 0;
 }
 
+/// @brief Matches a parameter entity reference like `%name;`.
+[[nodiscard]]
+std::size_t match_parameter_reference(const std::u8string_view str)
+{
+    // https://www.w3.org/TR/xml/#NT-PEReference
+    if (!str.starts_with(u8'%')) {
+        return 0;
+    }
+    const std::size_t length = match_entity_name(str.substr(1));
+    return length != 0 && str.substr(1 + length).starts_with(u8';') ? length + 2 : 0;
+}
+
 struct XML_Highlighter : Highlighter_Base {
 
     [[nodiscard]]
@@ -317,6 +329,8 @@ private:
                 remainder.starts_with(u8'(') || //
                 remainder.starts_with(u8'|') || //
                 remainder.starts_with(u8'*') || //
+                remainder.starts_with(u8'+') || //
+                remainder.starts_with(u8'?') || //
                 remainder.starts_with(u8',')) { //
                 emit_and_advance(1, Highlight_Type::symbol_punc);
             }
@@ -338,7 +352,7 @@ private:
             else if (const std::size_t pcdata_decl_len = match_pcdata_decl(remainder)) {
                 emit_and_advance(pcdata_decl_len, Highlight_Type::keyword);
             }
-            else if (const std::size_t pe_ref_len = match_pe_reference(remainder)) {
+            else if (const std::size_t pe_ref_len = match_parameter_reference(remainder)) {
                 emit_and_advance(pe_ref_len, Highlight_Type::string_escape);
             }
             else if (const std::size_t name_len = match_name(remainder)) {
-- 
2.43.0


From d6b0b6c13e3d57c86b7d1df87121b20f18f807df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 106/136] fix: XML names starting with a keyword are split in
 document type declarations

---
 src/main/cpp/lang/xml.cpp | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index e9b62f3..f382477 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -106,35 +106,22 @@ std::size_t match_default_decl_type(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_external_id_type(const std::u8string_view str)
 {
-    if (str.starts_with(external_id_public)) {
-        return external_id_public.size();
-    }
-
-    if (str.starts_with(external_id_system)) {
-        return external_id_system.size();
-    }
-
-    return 0;
+    const std::u8string_view name = str.substr(0, match_name(str));
+    return name == external_id_public || name == external_id_system ? name.size() : 0;
 }
 
 [[nodiscard]]
 std::size_t match_content_spec_type(const std::u8string_view str)
 {
-    if (str.starts_with(content_spec_empty)) {
-        return content_spec_empty.size();
-    }
-
-    if (str.starts_with(content_spec_any)) {
-        return content_spec_any.size();
-    }
-
-    return 0;
+    const std::u8string_view name = str.substr(0, match_name(str));
+    return name == content_spec_empty || name == content_spec_any ? name.size() : 0;
 }
 
 [[nodiscard]]
 std::size_t match_ndata_decl(const std::u8string_view str)
 {
-    return str.starts_with(ndata_decl_string) ? ndata_decl_string.size() : 0;
+    const std::u8string_view name = str.substr(0, match_name(str));
+    return name == ndata_decl_string ? name.size() : 0;
 }
 
 [[nodiscard]]
-- 
2.43.0


From b74ed61644c17a717ccda7ff9638557cfe38e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 107/136] fix: XML markup in entity values is highlighted as an
 error

---
 src/main/cpp/lang/xml.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index f382477..0e1b21a 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -346,7 +346,7 @@ private:
                 emit_and_advance(name_len, Highlight_Type::name);
             }
             else if (remainder.starts_with(u8'\'') || remainder.starts_with(u8'"')) {
-                expect_attribute_value();
+                expect_attribute_value(true);
             }
             else {
                 const std::size_t len = ascii::length_if_not(remainder, [](char8_t c) {
@@ -640,9 +640,11 @@ private:
         return expect_attribute_value();
     }
 
-    bool expect_attribute_value()
+    /// @param allow_markup If `true`, a `<` in the value is not an error.
+    bool expect_attribute_value(bool allow_markup = false)
     {
         // https://www.w3.org/TR/xml/#NT-AttValue
+        // https://www.w3.org/TR/xml/#NT-EntityValue
         char8_t quote_type;
         if (remainder.starts_with(u8'\'')) {
             quote_type = u8'\'';
@@ -668,7 +670,7 @@ private:
                && remainder[piece_length] != quote_type) {
             std::u8string_view candidate = remainder.substr(piece_length);
             if ((remainder[piece_length] == u8'&' && !match_reference(candidate))
-                || remainder[piece_length] == u8'<') {
+                || (remainder[piece_length] == u8'<' && !allow_markup)) {
                 highlight_piece();
                 emit_and_advance(1, Highlight_Type::error);
                 piece_length = 0;
-- 
2.43.0


From 2ca02bc3a29394202a8a54de7818515c4b2d9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 108/136] fix: HTML character references with uppercase X are
 not recognized

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index c8ef86e..8278971 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -31,7 +31,7 @@ constexpr std::u8string_view doctype_prefix = u8"<!DOCTYPE";
 
 bool is_character_reference_content(std::u8string_view str)
 {
-    if (str.starts_with(u8"#x")) {
+    if (str.starts_with(u8"#x") || str.starts_with(u8"#X")) {
         return str.length() > 2 && std::ranges::all_of(str.substr(2), is_ascii_hex_digit);
     }
     if (str.starts_with(u8'#')) {
-- 
2.43.0


From 2a47a0c2f133cd90903fed10b7080ce17033a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 109/136] fix: HTML text before an ampersand takes quadratic
 time

---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 8278971..cf9078d 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -526,8 +526,8 @@ private:
                 advance(remainder.length());
                 break;
             }
-            if (remainder[safe_length] == u8'<') {
-                advance(safe_length);
+            advance(safe_length);
+            if (remainder.starts_with(u8'<')) {
                 break;
             }
             if (!expect_character_reference()) {
-- 
2.43.0


From 1272cea79795ef5bfa1bdd3dc53584dc278b0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 110/136] fix: XML parameter entity references between
 declarations end the internal subset

---
 src/main/cpp/lang/xml.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 0e1b21a..525b57c 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -360,6 +360,16 @@ private:
         return true;
     }
 
+    bool expect_parameter_reference()
+    {
+        // https://www.w3.org/TR/xml/#NT-DeclSep
+        if (const std::size_t length = match_parameter_reference(remainder)) {
+            emit_and_advance(length, Highlight_Type::string_escape);
+            return true;
+        }
+        return false;
+    }
+
     bool expect_doctype_decl()
     {
         // https://www.w3.org/TR/xml/#NT-doctypedecl
@@ -406,7 +416,7 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_punc);
 
         expect_whitespace();
-        while (expect_markup_decl()) {
+        while (expect_markup_decl() || expect_parameter_reference()) {
             expect_whitespace();
             if (remainder.starts_with(u8'>')) {
                 emit_and_advance(1, Highlight_Type::name_macro);
-- 
2.43.0


From 0a15426d54b094765bbc72211cdeb5a1dba7064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 111/136] fix: XML declarations ending directly after a name
 are not terminated

---
 src/main/cpp/lang/xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 525b57c..eec8fae 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -296,7 +296,7 @@ private:
 
         emit_and_advance(2, Highlight_Type::name_macro);
         constexpr auto after_markup_decl_name
-            = [](std::u8string_view str) { return match_whitespace(str); };
+            = [](std::u8string_view str) { return match_whitespace(str) || str.starts_with(u8'>'); };
 
         expect_name(Highlight_Type::name_macro, after_markup_decl_name);
         expect_whitespace();
-- 
2.43.0


From 2628c9acf737cca3aca2739b9eeefce1b172f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 112/136] fix: malformed escape sequences no longer swallow the
 end of a string

Hexadecimal escapes with too few digits and braced escapes without
closing brace took up anything that follows, including the closing quote
and, for braced escapes, all text up to the next closing brace.
---
 include/ulight/impl/escapes.hpp | 41 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index d069b40..81bab0f 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -104,15 +104,18 @@ constexpr std::size_t escape_type_max_length(Common_Escape type)
 
 namespace detail {
 
-/// @brief Returns the position of the first code unit in `str`, starting at `index`,
-/// which is not a UTF-8 continuation unit.
+/// @brief Returns the length of an escape sequence's opening brace
+/// and of the characters which may stand between it and the closing brace.
+/// An escape sequence which lacks its closing brace must not include any characters
+/// with a meaning of their own, such as a quote that terminates the string.
 [[nodiscard]]
-constexpr std::size_t next_code_point_boundary(std::u8string_view str, std::size_t index)
+constexpr std::size_t length_of_braced_escape_contents(std::u8string_view str)
 {
-    while (index < str.length() && (str[index] & 0xC0) == 0x80) {
-        ++index;
-    }
-    return index;
+    constexpr auto is_terminator = [](char8_t c) {
+        return c == u8'}' || c == u8'"' || c == u8'\'' || c == u8'`' || c == u8'\\' || c == u8'\n'
+            || c == u8'\r';
+    };
+    return ascii::length_if_not(str, is_terminator, 1);
 }
 
 template <typename Predicate>
@@ -121,7 +124,7 @@ constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predi
     if (!str.starts_with(u8'{')) {
         return { .length = 0, .erroneous = true };
     }
-    const std::size_t length_without_brace = ascii::length_before(str, u8'}', 1);
+    const std::size_t length_without_brace = length_of_braced_escape_contents(str);
     const std::u8string_view digits = str.substr(1, length_without_brace - 1);
     const bool is_terminated
         = length_without_brace < str.length() && str[length_without_brace] == u8'}';
@@ -171,26 +174,24 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
         const std::u8string_view digits = str.substr(0, min(min_length, str.length()));
-        if (digits.length() < min_length) {
-            return { .length = digits.length(), .erroneous = true };
-        }
-        if (all_of(digits, hex_digit_lambda)) {
-            return { .length = digits.length() };
+        if (digits.length() == min_length && all_of(digits, hex_digit_lambda)) {
+            return { .length = min_length };
         }
-        // The erroneous part of the escape sequence must not end in the middle of a code point.
-        return { .length = detail::next_code_point_boundary(str, digits.length()),
-                 .erroneous = true };
+        // The erroneous part of the escape sequence must not include any characters
+        // with a meaning of their own, such as a quote that terminates the string.
+        constexpr auto alphanumeric_lambda = [](char8_t c) { return is_ascii_alphanumeric(c); };
+        return { .length = ascii::length_if(digits, alphanumeric_lambda), .erroneous = true };
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
         if (!str.starts_with(u8'{')) {
             return { .length = 0, .erroneous = true };
         }
-        const std::size_t index = str.find(u8'}', 1);
-        if (index == std::u8string_view::npos) {
-            return { .length = str.length(), .erroneous = true };
+        const std::size_t length = detail::length_of_braced_escape_contents(str);
+        if (length == str.length() || str[length] != u8'}') {
+            return { .length = length, .erroneous = true };
         }
-        return { .length = index + 1 };
+        return { .length = length + 1, .erroneous = length == 1 };
     }
 
     else if constexpr (type == Common_Escape::hex_braced) {
-- 
2.43.0


From 549fae1bc06f675227411010d131ff5baa3a88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 113/136] fix: highlight YAML block structure line by line, and
 scalars as a whole

Every block sequence entry and mapping entry recursed, which overflowed the stack
for long documents. Additionally, comments after values were not highlighted,
plain scalars ended at commas, quotes and '#' within plain keys were misinterpreted,
flow collections with ': ' were taken for keys, scalars like 'no-op' were
highlighted as booleans, block scalar headers with tags, anchors,
comments or '2-' were not recognized, and content after '---' was skipped.
---
 include/ulight/impl/lang/yaml.hpp |   7 +-
 src/main/cpp/lang/yaml.cpp        | 825 +++++++++++-------------------
 2 files changed, 305 insertions(+), 527 deletions(-)

diff --git a/include/ulight/impl/lang/yaml.hpp b/include/ulight/impl/lang/yaml.hpp
index bee17ed..e994c6a 100644
--- a/include/ulight/impl/lang/yaml.hpp
+++ b/include/ulight/impl/lang/yaml.hpp
@@ -20,11 +20,8 @@ inline constexpr Charset256 is_yaml_flow_indicator { u8",[]{}" };
 // https://yaml.org/spec/1.2.2/#ns-word-char
 inline constexpr auto is_yaml_word_char = is_ascii_alphanumeric | Charset256(u8"-");
 
-// https://yaml.org/spec/1.2.2/#c-indicator
-// Characters that terminate a plain scalar (flow indicators, #, newline).
-// Note: ':' is NOT included here because it only terminates a plain scalar
-// when followed by a separator (space/newline/end). See consume_plain_scalar().
-inline constexpr Charset256 is_yaml_plain_terminator { u8"\r\n,[]{}#" };
+// Characters that terminate the node properties (tags and anchors) in front of a block node.
+inline constexpr Charset256 is_yaml_property_terminator { u8"\r\n \t" };
 
 // https://yaml.org/spec/1.2.2/#c-indicator
 // Characters that terminate a tag suffix, anchor name, or alias name.
diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 81b9719..337752f 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1,7 +1,6 @@
 #include <algorithm>
 #include <memory_resource>
 #include <string_view>
-#include <vector>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
@@ -210,45 +209,8 @@ namespace {
 struct Highlighter : Highlighter_Base {
     // https://yaml.org/spec/1.2.2/
 
-    /// @brief Stack of indentation levels for block structures.
-    /// Used to detect when a block collection ends (de-dent).
-    struct Indent_Stack {
-        std::pmr::vector<std::size_t> data;
-
-        void push(std::size_t n)
-        {
-            // Every entry of a block collection is pushed,
-            // but we only need to remember each level once.
-            if (data.empty() || data.back() != n) {
-                data.push_back(n);
-            }
-        }
-
-        [[nodiscard]]
-        std::size_t top() const
-        {
-            return data.empty() ? 0 : data.back();
-        }
-
-        void pop()
-        {
-            ULIGHT_ASSERT(!data.empty());
-            data.pop_back();
-        }
-
-        [[nodiscard]]
-        bool empty() const
-        {
-            return data.empty();
-        }
-
-        void reset()
-        {
-            data.clear();
-        }
-    };
-
-    Indent_Stack indent_stack;
+    /// @brief The amount of flow collections (`[...]`, `{...}`) that surround the current position.
+    std::size_t flow_depth = 0;
 
 public:
     Highlighter(
@@ -258,20 +220,33 @@ public:
         const Highlight_Options& options
     )
         : Highlighter_Base { out, source, memory, options }
-        , indent_stack { std::pmr::vector<std::size_t> { memory } }
     {
     }
 
     bool operator()()
     {
         // https://yaml.org/spec/1.2.2/#l-yaml-stream
-        consume_document_prefix();
+        bool directives_allowed = true;
         while (!eof()) {
-            consume_document();
+            skip_blank_and_comment_lines();
             if (eof()) {
                 break;
             }
-            consume_document_suffix();
+            if (starts_with_document_marker(remainder)) {
+                directives_allowed = remainder[0] == u8'.';
+                emit_and_advance(3, Highlight_Type::symbol_punc);
+                consume_inline_whitespace();
+                if (directives_allowed || !consume_block_value(0)) {
+                    finish_line();
+                }
+                continue;
+            }
+            if (directives_allowed && remainder.starts_with(u8'%')) {
+                consume_directive_line();
+                continue;
+            }
+            directives_allowed = false;
+            consume_block_line();
         }
         return true;
     }
@@ -299,6 +274,39 @@ private:
         }
     }
 
+    /// @brief Consume what may follow a node on the same line, which is a comment,
+    /// and skip to the next line.
+    void finish_line()
+    {
+        consume_inline_whitespace();
+        if (remainder.starts_with(u8'#')) {
+            consume_comment();
+        }
+        skip_line();
+    }
+
+    /// @brief Returns `true` if `str` is nonempty and starts with whitespace or a line break.
+    [[nodiscard]]
+    static bool starts_with_space(const std::u8string_view str)
+    {
+        return !str.empty() && (is_yaml_whitespace(str[0]) || match_line_break(str));
+    }
+
+    /// @brief Returns `true` if `str` starts with the given indicator,
+    /// followed by whitespace, a line break, or the end of the source.
+    [[nodiscard]]
+    static bool starts_with_indicator(const std::u8string_view str, const char8_t indicator)
+    {
+        return str.starts_with(indicator) && (str.length() == 1 || starts_with_space(str.substr(1)));
+    }
+
+    [[nodiscard]]
+    static bool starts_with_document_marker(const std::u8string_view str)
+    {
+        const std::size_t length = match_document_marker(str);
+        return length != 0 && (str.length() == length || starts_with_space(str.substr(length)));
+    }
+
     /// @brief Get the indentation (number of spaces) at the start of the current line.
     [[nodiscard]]
     std::size_t current_indent() const
@@ -318,105 +326,6 @@ private:
     // Document-level
     // ========================================================================
 
-    void consume_document_prefix()
-    {
-        // https://yaml.org/spec/1.2.2/#l-document-prefix
-        while (!eof()) {
-            consume_whitespace_and_comments();
-            if (eof()) {
-                break;
-            }
-            // The prefix is just comments and blank lines.
-            // If we see anything else, it's the start of a document.
-            if (!expect_comment_or_blank()) {
-                break;
-            }
-        }
-    }
-
-    void consume_document_suffix()
-    {
-        // https://yaml.org/spec/1.2.2/#l-document-suffix
-        while (!eof()) {
-            consume_whitespace_and_comments();
-            if (eof()) {
-                break;
-            }
-            // Document end marker: ...
-            if (remainder.starts_with(u8"...")) {
-                if (const std::size_t indent = current_indent(); indent == 0) {
-                    consume_indent(indent);
-                    emit_and_advance(3, Highlight_Type::symbol_punc);
-                    skip_line();
-                    continue;
-                }
-            }
-            // Directives end marker: ---
-            if (remainder.starts_with(u8"---")) {
-                if (const std::size_t indent = current_indent(); indent == 0) {
-                    consume_indent(indent);
-                    emit_and_advance(3, Highlight_Type::symbol_punc);
-                    skip_line();
-                    break; // Start of next document
-                }
-            }
-            break;
-        }
-    }
-
-    void consume_document()
-    {
-        // https://yaml.org/spec/1.2.2/#l-any-document
-        indent_stack.reset();
-        consume_whitespace_and_comments();
-        if (eof()) {
-            return;
-        }
-
-        const std::size_t indent = current_indent();
-
-        // Check for directives end marker (explicit document start)
-        if (indent == 0 && remainder.starts_with(u8"---")) {
-            consume_indent(0);
-            emit_and_advance(3, Highlight_Type::symbol_punc);
-            skip_line();
-            consume_whitespace_and_comments();
-            if (eof()) {
-                return;
-            }
-        }
-
-        // Check for directives (must be at indent 0)
-        if (indent == 0 && remainder.starts_with(u8'%')) {
-            consume_directives();
-            // After directives, expect ---
-            consume_whitespace_and_comments();
-            if (!remainder.empty() && remainder.starts_with(u8"---")) {
-                emit_and_advance(3, Highlight_Type::symbol_punc);
-                skip_line();
-                consume_whitespace_and_comments();
-            }
-            if (eof()) {
-                return;
-            }
-        }
-
-        // Parse the document body (a block node at indent -1 conceptually)
-        consume_block_node(0, 0);
-    }
-
-    void consume_directives()
-    {
-        // https://yaml.org/spec/1.2.2/#l-directive
-        while (!eof()) {
-            consume_whitespace_and_comments();
-            if (eof() || !remainder.starts_with(u8'%')) {
-                break;
-            }
-            consume_directive_line();
-        }
-    }
-
     void consume_directive_line()
     {
         // https://yaml.org/spec/1.2.2/#l-directive
@@ -437,12 +346,15 @@ private:
         while (!remainder.empty() && !match_line_break(remainder)) {
             if (is_yaml_whitespace(remainder[0])) {
                 advance(1);
+                if (remainder.starts_with(u8'#')) {
+                    break;
+                }
             }
             else {
                 emit_and_advance_code_point(Highlight_Type::string);
             }
         }
-        skip_line();
+        finish_line();
     }
 
     void consume_whitespace_and_comments()
@@ -482,26 +394,6 @@ private:
         }
     }
 
-    [[nodiscard]]
-    bool expect_comment_or_blank()
-    {
-        consume_whitespace_and_comments();
-        if (eof()) {
-            return true;
-        }
-        // If we're at a comment or line break, consume and return true
-        if (remainder[0] == u8'#') {
-            consume_comment();
-            skip_line_break();
-            return true;
-        }
-        if (match_line_break(remainder)) {
-            skip_line_break();
-            return true;
-        }
-        return false;
-    }
-
     /// @brief Skip blank lines and comment-only lines without consuming indentation spaces.
     void skip_blank_and_comment_lines()
     {
@@ -510,10 +402,15 @@ private:
                 skip_line_break();
                 continue;
             }
-            // Skip lines that are just a comment (possibly indented).
-            const std::size_t indent = current_indent();
-            if (indent < remainder.length() && remainder[indent] == u8'#') {
-                consume_indent(indent);
+            // Skip lines that are blank or just a comment (possibly indented).
+            const std::size_t space = ascii::length_if(remainder, is_yaml_whitespace);
+            if (space == remainder.length() || match_line_break(remainder.substr(space))) {
+                advance(space);
+                skip_line_break();
+                continue;
+            }
+            if (remainder[space] == u8'#') {
+                advance(space);
                 consume_comment();
                 skip_line_break();
                 continue;
@@ -522,268 +419,190 @@ private:
         }
     }
 
-    /// @brief Consume a block node at the given indentation level.
-    /// @param block_indent The indentation level of the parent block collection.
-    /// @param seq_offset Extra indentation offset for nested block sequences
-    ///   (to account for the "- " prefix being perceived as indentation).
-    void consume_block_node(const std::size_t block_indent, const std::size_t seq_offset)
+    /// @brief Consume a line of a block node, including all lines
+    /// that are taken up by the value which begins on this line.
+    void consume_block_line()
     {
-        const std::size_t effective_indent = block_indent - seq_offset;
-        while (!eof()) {
-            // Skip blank lines and comment lines, preserving indentation.
-            skip_blank_and_comment_lines();
-            if (eof()) {
-                break;
-            }
+        std::size_t column = current_indent();
+        std::size_t min_content_indent = column;
+        consume_indent(column);
+
+        // Block sequence entries ("-"), explicit keys ("?"), and explicit values (":").
+        // There can be multiple on one line for compact collections.
+        while (starts_with_indicator(remainder, u8'-') || starts_with_indicator(remainder, u8'?')
+               || starts_with_indicator(remainder, u8':')) {
+            min_content_indent = column + 1;
+            emit_and_advance(1, Highlight_Type::symbol_punc);
+            const std::size_t space = ascii::length_if(remainder, is_yaml_whitespace);
+            advance(space);
+            column += 1 + space;
+        }
 
-            const std::size_t line_indent = current_indent();
+        // Block mapping entry: key: value
+        if (const Key_Result key = match_block_mapping_key(remainder)) {
+            min_content_indent = column + 1;
+            emit_and_advance(key.length, Highlight_Type::markup_attr);
+            advance(key.space_length);
+            emit_and_advance(1, Highlight_Type::symbol_punc);
+            consume_inline_whitespace();
+        }
 
-            // Document markers at indent 0 stop block parsing.
-            if (line_indent == 0
-                && (remainder.starts_with(u8"---") || remainder.starts_with(u8"..."))) {
-                return;
-            }
+        if (!consume_block_value(min_content_indent)) {
+            finish_line();
+        }
+    }
 
-            // Check for de-dent.
-            if (line_indent < effective_indent && !indent_stack.empty()
-                && line_indent <= indent_stack.top()) {
-                while (!indent_stack.empty() && line_indent <= indent_stack.top()) {
-                    indent_stack.pop();
-                }
-                return;
-            }
+    /// @brief Consumes a value within a block collection.
+    /// Does nothing if there is none on the current line.
+    /// @param min_content_indent The least indentation for the contents of a block scalar.
+    /// @returns `true` if the value is a block scalar,
+    /// in which case all its lines have been consumed.
+    [[nodiscard]]
+    bool consume_block_value(const std::size_t min_content_indent)
+    {
+        consume_node_properties();
+        if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#') {
+            return false;
+        }
+        if (remainder.starts_with(u8'|') || remainder.starts_with(u8'>')) {
+            consume_block_scalar(min_content_indent);
+            return true;
+        }
+        consume_flow_node();
+        return false;
+    }
 
-            // Consume the indentation (no highlighting).
-            consume_indent(line_indent);
-
-            // Handle explicit mapping key: ? key
-            if (remainder.starts_with(u8"? ") || //
-                (remainder.starts_with(u8"?") && remainder.length() > 1
-                 && match_line_break(remainder.substr(1)))) {
-                emit_and_advance(1, Highlight_Type::symbol_punc);
-                consume_whitespace_and_comments();
-                if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    consume_flow_node(line_indent + 1);
-                }
-                skip_line();
-                // Expect : value on next line(s)
-                consume_whitespace_and_comments();
-                if (!remainder.empty() && remainder.starts_with(u8": ")) {
-                    consume_indent(line_indent);
-                    emit_and_advance(1, Highlight_Type::symbol_punc);
-                    consume_whitespace_and_comments();
-                    if (!remainder.empty() && !match_line_break(remainder)
-                        && remainder[0] != u8'#') {
-                        consume_block_node(line_indent, 0);
-                    }
-                    else {
-                        skip_line();
-                        consume_block_node(line_indent, 0);
-                    }
-                }
-                continue;
-            }
+    struct Key_Result {
+        /// @brief The length of the key, or zero if there is none.
+        std::size_t length;
+        /// @brief The length of the whitespace between the key and the colon.
+        std::size_t space_length;
 
-            // Handle block sequence entry: - item
-            if (remainder.starts_with(u8"- ")) {
-                emit_and_advance(1, Highlight_Type::symbol_punc);
-                if (!remainder.empty() && remainder[0] == u8' ') {
-                    advance(1);
-                }
-                consume_whitespace_and_comments();
+        [[nodiscard]]
+        explicit operator bool() const
+        {
+            return length != 0;
+        }
+    };
 
-                if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    try_consume_compact_sequence_or_mapping(line_indent + 1);
+    /// @brief Matches a key that is followed by a colon on the same line.
+    [[nodiscard]]
+    static Key_Result match_block_mapping_key(const std::u8string_view str)
+    {
+        std::size_t length = 0;
+        const auto skip_quoted = [&] {
+            const char8_t quote = str[length++];
+            while (length < str.length() && !match_line_break(str.substr(length))) {
+                if (quote == u8'"' && str[length] == u8'\\') {
+                    length = std::min(length + 2, str.length());
+                    continue;
                 }
-                if (!remainder.empty() && match_line_break(remainder)) {
-                    skip_line();
+                if (str[length++] == quote) {
+                    // Two single quotes are an escaped single quote.
+                    if (quote == u8'"' || !str.substr(length).starts_with(quote)) {
+                        break;
+                    }
+                    ++length;
                 }
-                indent_stack.push(line_indent);
-                consume_block_node(line_indent, 0);
-                continue;
-            }
-
-            // Handle block scalar: | or > as a standalone block entry.
-            const bool is_block_scalar_header = remainder.starts_with(u8"| ")
-                || remainder.starts_with(u8"> ")
-                || (remainder.starts_with(u8"|") && match_line_break(remainder.substr(1)))
-                || (remainder.starts_with(u8">") && match_line_break(remainder.substr(1)));
-            if (is_block_scalar_header) {
-                consume_block_scalar(line_indent);
-                continue;
-            }
-
-            // Handle block mapping entry: key: value
-            if (try_consume_block_mapping_key(line_indent)) {
-                indent_stack.push(line_indent);
-                continue;
-            }
-
-            // Check for flow node
-            if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                consume_flow_node(line_indent);
-                skip_line();
-                continue;
             }
+        };
 
-            break;
+        // Node properties (tags and anchors).
+        while (length < str.length() && (str[length] == u8'!' || str[length] == u8'&')) {
+            length += ascii::length_if_not(str.substr(length), is_yaml_property_terminator);
+            length += ascii::length_if(str.substr(length), is_yaml_whitespace);
         }
-    }
 
-    /// @brief Try to consume a block mapping key at the given indentation.
-    /// Returns `true` if a key/value pair was consumed.
-    [[nodiscard]]
-    bool try_consume_block_mapping_key(const std::size_t line_indent)
-    {
-        // Look for "key: value" pattern on the current line.
-        // We need to find the ': ' separator.
-        const std::u8string_view line = remainder;
-        std::size_t colon_pos = 0;
-        bool in_quote = false;
-        char8_t quote_char = 0;
-
-        while (colon_pos < line.length() && line[colon_pos] != u8'\r' && line[colon_pos] != u8'\n'
-        ) {
-            const char8_t c = line[colon_pos];
-            if (in_quote) {
-                if (c == quote_char) {
-                    in_quote = false;
+        if (length < str.length() && (str[length] == u8'"' || str[length] == u8'\'')) {
+            skip_quoted();
+        }
+        else if (length < str.length() && (str[length] == u8'[' || str[length] == u8'{')) {
+            std::size_t depth = 0;
+            while (length < str.length() && !match_line_break(str.substr(length))) {
+                const char8_t c = str[length];
+                // Quotes in the middle of a plain scalar have no special meaning.
+                if ((c == u8'"' || c == u8'\'')
+                    && (is_yaml_whitespace(str[length - 1]) || str[length - 1] == u8':'
+                        || is_yaml_flow_indicator(str[length - 1]))) {
+                    skip_quoted();
+                    continue;
                 }
-                else if (c == u8'\\' && quote_char == u8'"') {
-                    ++colon_pos; // skip escaped char
+                if (c == u8'#' && is_yaml_whitespace(str[length - 1])) {
+                    return {};
                 }
-            }
-            else {
-                if (c == u8'"' || c == u8'\'') {
-                    in_quote = true;
-                    quote_char = c;
+                ++length;
+                if (c == u8'[' || c == u8'{') {
+                    ++depth;
                 }
-                else if (c == u8'#') {
-                    // Comment starts - no colon after this
+                else if ((c == u8']' || c == u8'}') && --depth == 0) {
                     break;
                 }
-                else if (c == u8':') {
-                    // Found colon! Check if followed by space or end of line
-                    if (colon_pos + 1 >= line.length() || line[colon_pos + 1] == u8' '
-                        || match_line_break(line.substr(colon_pos + 1))) {
-                        // It's a mapping key!
-                        // Highlight the key
-                        const std::u8string_view key_part = remainder.substr(0, colon_pos);
-                        consume_flow_node_content(key_part.length(), Highlight_Type::markup_attr);
-
-                        // Highlight the colon
-                        emit_and_advance(1, Highlight_Type::symbol_punc);
-
-                        // Skip space after colon
-                        if (!remainder.empty() && remainder[0] == u8' ') {
-                            advance(1);
-                        }
-                        // Skip additional inline whitespace (but NOT newlines).
-                        while (!remainder.empty()
-                               && (remainder[0] == u8' ' || remainder[0] == u8'\t')) {
-                            advance(1);
-                        }
-
-                        // Check for block structure indicators on the value line.
-                        // These must be handled before flow-node, otherwise the first
-                        // entry gets consumed as a plain scalar instead of sym_punc.
-                        if (!remainder.empty()
-                            && (remainder.starts_with(u8"- ") || remainder.starts_with(u8"? "))) {
-                            skip_line();
-                            skip_blank_and_comment_lines();
-                            if (!remainder.empty() && remainder[0] != u8'\r'
-                                && remainder[0] != u8'\n') {
-                                const std::size_t next_indent = current_indent();
-                                if (next_indent > line_indent) {
-                                    consume_block_node(line_indent, 0);
-                                }
-                            }
-                            return true;
-                        }
-
-                        // Value
-                        const bool is_block_scalar = !remainder.empty()
-                            && (remainder[0] == u8'|' || remainder[0] == u8'>');
-                        const bool has_inline_value = !remainder.empty()
-                            && !match_line_break(remainder) && remainder[0] != u8'#';
-                        if (has_inline_value) {
-                            consume_flow_node(line_indent);
-                        }
-                        // Block scalars are self-contained and consume their own content lines;
-                        // do not skip_line() or descend into block_node for them.
-                        if (is_block_scalar) {
-                            return true;
-                        }
-                        skip_line();
-
-                        // If value was on the next line(s), parse block value.
-                        skip_blank_and_comment_lines();
-                        if (!remainder.empty() && !match_line_break(remainder)) {
-                            const std::size_t next_indent = current_indent();
-                            if (next_indent > line_indent) {
-                                consume_block_node(line_indent, 0);
-                            }
-                        }
-
-                        return true;
-                    }
-                }
             }
-            ++colon_pos;
         }
-
-        return false;
-    }
-
-    /// @brief Try to consume a compact block sequence or mapping
-    /// starting on the same line as a block entry indicator.
-    void try_consume_compact_sequence_or_mapping(const std::size_t indent)
-    {
-        if (remainder.empty()) {
-            return;
+        else {
+            const std::size_t plain_length = match_plain_scalar(str.substr(length), false);
+            if (plain_length == 0) {
+                return {};
+            }
+            length += plain_length;
         }
 
-        // Compact sequence: another "- " on the same line
-        if (remainder.starts_with(u8"- ")) {
-            consume_block_node(indent, 1);
-            return;
+        const std::size_t space_length
+            = ascii::length_if(str.substr(length), is_yaml_whitespace);
+        if (!starts_with_indicator(str.substr(length + space_length), u8':')) {
+            return {};
         }
+        return { .length = length, .space_length = space_length };
+    }
 
-        // Compact mapping: "key: value" on the same line
-        if (try_consume_block_mapping_key(indent)) {
-            return;
+    /// @brief Matches a plain scalar within a line, without surrounding whitespace.
+    [[nodiscard]]
+    static std::size_t match_plain_scalar(const std::u8string_view str, const bool in_flow)
+    {
+        // https://yaml.org/spec/1.2.2/#ns-plain
+        std::size_t length = 0;
+        std::size_t trimmed_length = 0;
+        while (length < str.length()) {
+            const char8_t c = str[length];
+            if (c == u8'\r' || c == u8'\n' || (in_flow && is_yaml_flow_indicator(c))) {
+                break;
+            }
+            if (c == u8'#' && length == trimmed_length && length != 0) {
+                ++length;
+                trimmed_length = length;
+                continue;
+            }
+            if (c == u8'#') {
+                break;
+            }
+            // Colon only terminates when it separates a key from a value.
+            if (c == u8':'
+                && (starts_with_indicator(str.substr(length), u8':')
+                    || (in_flow && is_yaml_flow_indicator(str[length + 1])))) {
+                break;
+            }
+            ++length;
+            if (!is_yaml_whitespace(c)) {
+                trimmed_length = length;
+            }
         }
-
-        // Otherwise, just a flow node
-        consume_flow_node(indent);
+        return trimmed_length;
     }
 
     /// @brief Consume a flow-level node (inline value on a single logical line).
-    void consume_flow_node(const std::size_t indent, const bool is_key = false)
+    void consume_flow_node(const bool is_key = false)
     {
-        consume_whitespace_and_comments();
-        if (remainder.empty() || match_line_break(remainder)) {
-            return;
-        }
-
-        // Check for node properties: tag and/or anchor
         consume_node_properties();
 
         // Flow sequence: [...]
         if (remainder.starts_with(u8'[')) {
-            consume_flow_sequence(indent);
+            consume_flow_sequence();
             return;
         }
 
         // Flow mapping: {...}
         if (remainder.starts_with(u8'{')) {
-            consume_flow_mapping(indent);
-            return;
-        }
-
-        // Block scalars: | or >
-        if (remainder.starts_with(u8'|') || remainder.starts_with(u8'>')) {
-            consume_block_scalar(indent);
+            consume_flow_mapping();
             return;
         }
 
@@ -791,18 +610,6 @@ private:
         consume_flow_scalar(is_key);
     }
 
-    /// @brief Consume flow node content of a specific length with given highlight type.
-    void consume_flow_node_content(std::size_t length, const Highlight_Type type)
-    {
-        // Trim trailing whitespace from the content
-        while (length > 0 && is_yaml_whitespace(remainder[length - 1])) {
-            --length;
-        }
-        if (length > 0) {
-            emit_and_advance(length, type);
-        }
-    }
-
     void consume_node_properties()
     {
         // https://yaml.org/spec/1.2.2/#c-ns-properties
@@ -914,11 +721,12 @@ private:
         }
     }
 
-    void consume_flow_sequence(const std::size_t indent)
+    void consume_flow_sequence()
     {
         // https://yaml.org/spec/1.2.2/#c-flow-sequence
         ULIGHT_ASSERT(remainder.starts_with(u8'['));
         emit_and_advance(1, Highlight_Type::symbol_square);
+        ++flow_depth;
 
         while (!remainder.empty()) {
             consume_whitespace_and_comments();
@@ -926,8 +734,14 @@ private:
                 break;
             }
             switch (remainder[0]) {
-            case u8']': emit_and_advance(1, Highlight_Type::symbol_square); return;
-            case u8'}': emit_and_advance(1, Highlight_Type::error); return;
+            case u8']':
+                --flow_depth;
+                emit_and_advance(1, Highlight_Type::symbol_square);
+                return;
+            case u8'}':
+                --flow_depth;
+                emit_and_advance(1, Highlight_Type::error);
+                return;
             case u8',': emit_and_advance(1, Highlight_Type::symbol_punc); continue;
             case u8'\r':
             case u8'\n': skip_line_break(); continue;
@@ -935,18 +749,26 @@ private:
                 consume_comment();
                 skip_line_break();
                 continue;
+            // Single pair, or adjacent value.
+            case u8':':
+                if (match_plain_scalar(remainder, true) == 0) {
+                    emit_and_advance(1, Highlight_Type::symbol_punc);
+                    continue;
+                }
+                break;
             default: break;
             }
-            consume_flow_node(indent);
+            consume_flow_node();
             consume_whitespace_and_comments();
         }
     }
 
-    void consume_flow_mapping(const std::size_t indent)
+    void consume_flow_mapping()
     {
         // https://yaml.org/spec/1.2.2/#c-flow-mapping
         ULIGHT_ASSERT(remainder.starts_with(u8'{'));
         emit_and_advance(1, Highlight_Type::symbol_brace);
+        ++flow_depth;
 
         while (!remainder.empty()) {
             consume_whitespace_and_comments();
@@ -954,8 +776,14 @@ private:
                 break;
             }
             switch (remainder[0]) {
-            case u8'}': emit_and_advance(1, Highlight_Type::symbol_brace); return;
-            case u8']': emit_and_advance(1, Highlight_Type::error); return;
+            case u8'}':
+                --flow_depth;
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+                return;
+            case u8']':
+                --flow_depth;
+                emit_and_advance(1, Highlight_Type::error);
+                return;
             case u8',': emit_and_advance(1, Highlight_Type::symbol_punc); continue;
             case u8'\r':
             case u8'\n': skip_line_break(); continue;
@@ -967,21 +795,21 @@ private:
             }
 
             // Parse key: value pair
-            consume_flow_mapping_entry(indent);
+            consume_flow_mapping_entry();
             consume_whitespace_and_comments();
         }
     }
 
-    void consume_flow_mapping_entry(const std::size_t indent)
+    void consume_flow_mapping_entry()
     {
         // Key
-        if (remainder.starts_with(u8'?')) {
+        if (starts_with_indicator(remainder, u8'?')) {
             emit_and_advance(1, Highlight_Type::symbol_punc);
             consume_whitespace_and_comments();
-            consume_flow_node(indent, true);
+            consume_flow_node(true);
         }
         else {
-            consume_flow_node(indent, true);
+            consume_flow_node(true);
         }
 
         consume_whitespace_and_comments();
@@ -1005,7 +833,7 @@ private:
         const bool has_value = !remainder.empty() && remainder[0] != u8',' && remainder[0] != u8'}'
             && !match_line_break(remainder);
         if (has_value) {
-            consume_flow_node(indent);
+            consume_flow_node();
         }
     }
 
@@ -1163,94 +991,43 @@ private:
     void consume_plain_scalar(const bool is_key = false)
     {
         // https://yaml.org/spec/1.2.2/#ns-plain
-        // First, check for special plain values: null, bool, number
-        if (remainder.starts_with(u8'~')) {
-            emit_and_advance(1, Highlight_Type::null);
+        const std::size_t length = match_plain_scalar(remainder, flow_depth != 0);
+        if (length == 0) {
             return;
         }
-
-        // Check for null/boolean identifiers
-        if (const Plain_Identifier_Result id = match_plain_identifier(remainder)) {
-            if (id.length >= remainder.length() || is_yaml_word_terminator(remainder[id.length])
-                || match_line_break(remainder.substr(id.length)) || remainder[id.length] == u8':'
-                || remainder[id.length] == u8'-') {
-                const auto highlight = id.type == Plain_Identifier_Type::null ? Highlight_Type::null
-                    : id.type == Plain_Identifier_Type::bool_true  ? Highlight_Type::bool_
-                    : id.type == Plain_Identifier_Type::bool_false ? Highlight_Type::bool_
-                                                                   : Highlight_Type::name;
-                emit_and_advance(id.length, highlight);
-                return;
+        // Special plain values (null, bool, number) have to take up the entire scalar.
+        // For example, "123 Main St" and "no-op" are plain strings.
+        const std::u8string_view scalar = remainder.substr(0, length);
+        const Highlight_Type type = [&] {
+            if (scalar == u8"~") {
+                return Highlight_Type::null;
             }
-        }
-
-        // Check for number.
-        // Only treat as a number if we've consumed the entire plain scalar
-        // (up to a plain-terminator, not a generic word-terminator).
-        // Otherwise "123 Main St" would be split into number + unhighlighted text.
-        if (const Common_Number_Result num = match_number(remainder)) {
-            if (num.length >= remainder.length()) {
-                const auto highlight
-                    = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
-                emit_and_advance(num.length, highlight);
-                return;
-            }
-            const char8_t peek = remainder[num.length];
-            const bool number_terminates
-                = is_yaml_plain_terminator(peek) || match_line_break(remainder.substr(num.length));
-            const bool number_followed_by_colon = peek == u8':'
-                && (num.length + 1 >= remainder.length() || remainder[num.length + 1] == u8' '
-                    || match_line_break(remainder.substr(num.length + 1)));
-            // Space + flow indicator (e.g. "42 }" in flow mappings) or space + comment.
-            const bool number_then_terminating_space = num.length + 1 < remainder.length()
-                && peek == u8' '
-                && (remainder[num.length + 1] == u8'#'
-                    || is_yaml_flow_indicator(remainder[num.length + 1]));
-            if (number_terminates || peek == u8']' || peek == u8'}' || number_followed_by_colon
-                || number_then_terminating_space) {
-                const auto highlight
-                    = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
-                emit_and_advance(num.length, highlight);
-                return;
-            }
-        }
-
-        // Plain string: consume until end of line or special character
-        std::size_t length = 0;
-        while (length < remainder.length()) {
-            const char8_t c = remainder[length];
-            if (is_yaml_plain_terminator(c)) {
-                break;
-            }
-            if (c == u8' ' && length > 0 && length + 1 < remainder.length()
-                && remainder[length + 1] == u8'#') {
-                break;
+            if (const Plain_Identifier_Result id = match_plain_identifier(scalar);
+                id.length == length) {
+                return id.type == Plain_Identifier_Type::null ? Highlight_Type::null
+                                                              : Highlight_Type::bool_;
             }
-            // Colon only terminates when it separates a key from a value
-            // (i.e. when followed by space/newline/end AND we're past the first
-            // character of the scalar).
-            // A colon at position zero is just part of the scalar content
-            // (e.g. \":value\" inside a flow sequence).
-            if (c == u8':' && length > 0) {
-                if (length + 1 >= remainder.length() || remainder[length + 1] == u8' '
-                    || match_line_break(remainder.substr(length + 1))) {
-                    break;
-                }
+            if (const Common_Number_Result num = match_number(scalar);
+                num.length == length && !num.erroneous) {
+                return Highlight_Type::number;
             }
-            ++length;
-        }
-
-        if (length > 0) {
-            const Highlight_Type type
-                = is_key ? Highlight_Type::markup_attr : Highlight_Type::string;
-            emit_and_advance(length, type);
-        }
+            return is_key ? Highlight_Type::markup_attr : Highlight_Type::string;
+        }();
+        // Whitespace between a string and the following flow indicator is highlighted.
+        const std::size_t space = ascii::length_if(remainder.substr(length), is_yaml_whitespace);
+        const bool space_highlighted = type == Highlight_Type::string && flow_depth != 0
+            && length + space < remainder.length()
+            && is_yaml_flow_indicator(remainder[length + space]);
+        emit_and_advance(space_highlighted ? length + space : length, type);
     }
 
     // ========================================================================
     // Block scalars (| and >)
     // ========================================================================
 
-    void consume_block_scalar(const std::size_t indent)
+    /// @brief Consumes a block scalar, including all lines of its contents.
+    /// @param min_content_indent The least indentation for the contents.
+    void consume_block_scalar(const std::size_t min_content_indent)
     {
         // https://yaml.org/spec/1.2.2/#c-l+literal / #c-l+folded
         ULIGHT_ASSERT(remainder.starts_with(u8'|') || remainder.starts_with(u8'>'));
@@ -1258,28 +1035,35 @@ private:
         // Block scalar indicator
         emit_and_advance(1, Highlight_Type::string_delim);
 
-        // Optional chomping indicator (+ or -)
-        if (!remainder.empty() && (remainder[0] == u8'+' || remainder[0] == u8'-')) {
-            emit_and_advance(1, Highlight_Type::number_decor);
-        }
-        // Optional indentation indicator (1-9)
-        if (!remainder.empty() && remainder[0] >= u8'1' && remainder[0] <= u8'9') {
-            emit_and_advance(1, Highlight_Type::number_decor);
-        }
-        // Optional comment after header
-        if (!remainder.empty() && remainder[0] == u8'#') {
-            consume_comment();
+        // Optional chomping indicator (+ or -) and indentation indicator (1-9), in either order
+        std::size_t content_indent = 0;
+        while (!remainder.empty()
+               && (remainder[0] == u8'+' || remainder[0] == u8'-' || is_ascii_digit(remainder[0]))) {
+            if (remainder[0] > u8'0' && is_ascii_digit(remainder[0])) {
+                const std::size_t parent_indent
+                    = min_content_indent == 0 ? 0 : min_content_indent - 1;
+                content_indent = parent_indent + std::size_t(remainder[0] - u8'0');
+            }
+            emit_and_advance(1, Highlight_Type::number_decor, Coalescing::forced);
         }
-        skip_line();
+        finish_line();
 
-        // Determine content indentation from the first non-empty content line.
-        // Skip leading blank lines first.
-        while (!remainder.empty() && match_line_break(remainder)) {
-            skip_line_break();
+        // Without indicator, the content indentation is that of the first non-empty content line.
+        // The indentation of that line is never highlighted.
+        std::size_t first_indent = 0;
+        for (std::u8string_view lines = remainder; true;) {
+            first_indent = ascii::length_if(lines, [](char8_t c) { return c == u8' '; });
+            const std::size_t break_length = match_line_break(lines.substr(first_indent));
+            if (break_length == 0) {
+                break;
+            }
+            lines.remove_prefix(first_indent + break_length);
         }
-        const std::size_t content_indent = current_indent();
-        if (content_indent <= indent && !remainder.empty()) {
-            return;
+        if (content_indent == 0) {
+            if (first_indent < min_content_indent) {
+                return;
+            }
+            content_indent = first_indent;
         }
 
         // Consume block scalar content lines.
@@ -1288,24 +1072,21 @@ private:
         while (!remainder.empty()) {
             const std::size_t line_indent = current_indent();
 
-            // De-dent past the content indentation ends the block scalar.
-            if (line_indent < content_indent && !match_line_break(remainder)) {
-                break;
-            }
-
             // Empty lines are part of the content.
-            if (match_line_break(remainder)) {
+            if (line_indent <= content_indent && match_line_break(remainder.substr(line_indent))) {
+                advance(line_indent);
                 skip_line_break();
                 continue;
             }
 
-            // Comments at lower indentation end the block scalar.
-            if (remainder[0] == u8'#' && line_indent < content_indent) {
+            // De-dent past the content indentation ends the block scalar,
+            // and so do document markers.
+            if (line_indent < content_indent || starts_with_document_marker(remainder)) {
                 break;
             }
 
             // Consume the content indentation (no highlighting).
-            consume_indent(content_indent);
+            consume_indent(std::max(content_indent, first_indent));
 
             // Emit the rest of the line as string content.
             std::size_t length = 0;
-- 
2.43.0


From 6eb13c8e664a18a7fc5cb83678491a7e5c638717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 114/136] fix: titles of Markdown links may contain parentheses

---
 src/main/cpp/lang/markdown.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 84e315b..3dc2f10 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -209,7 +209,20 @@ std::size_t find_link_url_end(const std::u8string_view str, const std::size_t st
 std::size_t find_link_close(const std::u8string_view str, const std::size_t start)
 {
     std::size_t i = start;
-    // Skip optional whitespace and title before ')'.
+    // Skip optional title, which may contain ')' if it is quoted.
+    while (i < str.length() && is_md_whitespace(str[i])) {
+        ++i;
+    }
+    if (i != start && i < str.length() && (str[i] == u8'"' || str[i] == u8'\'')) {
+        std::size_t j = i + 1;
+        while (j < str.length() && str[j] != str[i]) {
+            j += str[j] == u8'\\' ? 2 : 1;
+        }
+        if (j < str.length()) {
+            i = j;
+        }
+    }
+    // Skip optional whitespace and anything else before ')'.
     while (i < str.length() && str[i] != u8')') {
         ++i;
     }
-- 
2.43.0


From 6986d454f6de27b44e06054f2ef7ae349a412875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 115/136] fix: NASM operators '*', '=', '==' and '<>' are not
 errors

---
 src/main/cpp/lang/nasm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 470bc96..48c6f53 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -72,7 +72,9 @@ std::size_t match_operator(std::u8string_view str)
     case u8':':
     case u8'+':
     case u8'-':
+    case u8'*':
     case u8'~': return 1;
+    case u8'=': return str.starts_with(u8"==") ? 2 : 1;
     case u8'!': return str.starts_with(u8"!=") ? 2 : 1;
     case u8'|': return str.starts_with(u8"||") ? 2 : 1;
     case u8'&': return str.starts_with(u8"&&") ? 2 : 1;
@@ -87,6 +89,7 @@ std::size_t match_operator(std::u8string_view str)
             : str.starts_with(u8"<=>")  ? 3
             : str.starts_with(u8"<<")   ? 2
             : str.starts_with(u8"<=")   ? 2
+            : str.starts_with(u8"<>")   ? 2
                                         : 1;
     case u8'/': return str.starts_with(u8"//") ? 2 : 1;
     case u8'%': return str.starts_with(u8"%%") ? 2 : 1;
-- 
2.43.0


From 4fb71c9edf35b9692f1e05c9e8980ee7615f8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 116/136] fix: NASM numbers start with a digit, so that 'each'
 and 'abx' are identifiers

---
 src/main/cpp/lang/nasm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 48c6f53..3322ca3 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -435,7 +435,9 @@ private:
                 emit_and_advance(op_length, Highlight_Type::symbol_op);
                 break;
             }
-            if (expect_number()) {
+            // Numbers begin with a digit, which may follow the hexadecimal prefix "$".
+            if (remainder.length() > 1 && c == u8'$' && is_ascii_digit(remainder[1])
+                && expect_number()) {
                 break;
             }
             if (is_nasm_identifier_start(c)) {
-- 
2.43.0


From d4e553f4fcfb7adcb6a533d433986320778e376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 117/136] fix: NASM local labels which are jumped to are not
 declarations

---
 src/main/cpp/lang/nasm.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 3322ca3..6438cf1 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -489,7 +489,11 @@ private:
             return;
         }
         if (remainder.starts_with(u8'.')) {
-            emit_and_advance(length, Highlight_Type::name_label_decl);
+            emit_and_advance(
+                length,
+                id_highlight == Highlight_Type::name_label ? Highlight_Type::name_label
+                                                           : Highlight_Type::name_label_decl
+            );
             id_highlight = Highlight_Type::name_instruction;
             return;
         }
-- 
2.43.0


From c42887c4e647a010a6970607b3587e4be7c316c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 118/136] fix: NASM registers xmm30, ymm30 and zmm30 exist, and
 xmm32, ymm32 and zmm32 do not

---
 src/main/cpp/lang/nasm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 6438cf1..6dd5d1d 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -250,17 +250,17 @@ constexpr std::u8string_view registers[] {
     u8"xmm0", u8"xmm1", u8"xmm10", u8"xmm11", u8"xmm12", u8"xmm13", u8"xmm14", u8"xmm15",
     u8"xmm16", u8"xmm17", u8"xmm18", u8"xmm19", u8"xmm2", u8"xmm20", u8"xmm21", u8"xmm22",
     u8"xmm23", u8"xmm24", u8"xmm25", u8"xmm26", u8"xmm27", u8"xmm28", u8"xmm29", u8"xmm3",
-    u8"xmm31", u8"xmm32", u8"xmm4", u8"xmm5", u8"xmm6", u8"xmm7", u8"xmm8", u8"xmm9",
+    u8"xmm30", u8"xmm31", u8"xmm4", u8"xmm5", u8"xmm6", u8"xmm7", u8"xmm8", u8"xmm9",
 
     u8"ymm0", u8"ymm1", u8"ymm10", u8"ymm11", u8"ymm12", u8"ymm13", u8"ymm14", u8"ymm15",
     u8"ymm16", u8"ymm17", u8"ymm18", u8"ymm19", u8"ymm2", u8"ymm20", u8"ymm21", u8"ymm22",
     u8"ymm23", u8"ymm24", u8"ymm25", u8"ymm26", u8"ymm27", u8"ymm28", u8"ymm29", u8"ymm3",
-    u8"ymm31", u8"ymm32", u8"ymm4", u8"ymm5", u8"ymm6", u8"ymm7", u8"ymm8", u8"ymm9",
+    u8"ymm30", u8"ymm31", u8"ymm4", u8"ymm5", u8"ymm6", u8"ymm7", u8"ymm8", u8"ymm9",
 
     u8"zmm0", u8"zmm1", u8"zmm10", u8"zmm11", u8"zmm12", u8"zmm13", u8"zmm14", u8"zmm15",
     u8"zmm16", u8"zmm17", u8"zmm18", u8"zmm19", u8"zmm2", u8"zmm20", u8"zmm21", u8"zmm22",
     u8"zmm23", u8"zmm24", u8"zmm25", u8"zmm26", u8"zmm27", u8"zmm28", u8"zmm29", u8"zmm3",
-    u8"zmm31", u8"zmm32", u8"zmm4", u8"zmm5", u8"zmm6", u8"zmm7", u8"zmm8", u8"zmm9",
+    u8"zmm30", u8"zmm31", u8"zmm4", u8"zmm5", u8"zmm6", u8"zmm7", u8"zmm8", u8"zmm9",
 };
 // clang-format on
 
-- 
2.43.0


From e5cf762f1f2402249fb2bff8aa9a04a44d396ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 119/136] fix: NASM instruction jns takes a label

---
 src/main/cpp/lang/nasm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 6dd5d1d..e81ca66 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -272,7 +272,7 @@ constexpr std::u8string_view label_instructions[] {
     u8"ja",   u8"jae",   u8"jb",     u8"jbe",    u8"jc",    u8"je",   u8"jg",  u8"jge",
     u8"jl",   u8"jle",   u8"jmp",    u8"jna",    u8"jna",   u8"jnae", u8"jnb", u8"jnbe",
     u8"jnc",  u8"jne",   u8"jng",    u8"jnge",   u8"jnl",   u8"jnle", u8"jno", u8"jnp",
-    u8"jnz",  u8"jo",    u8"jp",     u8"jpe",    u8"jpo",   u8"js",   u8"jz",
+    u8"jns", u8"jnz",  u8"jo",    u8"jp",     u8"jpe",    u8"jpo",   u8"js",   u8"jz",
 
     u8"loop", u8"loope", u8"loopne", u8"loopnz", u8"loopz",
 };
-- 
2.43.0


From 063f25e1ca51408123093b5f366c4e5129dd23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 120/136] fix: NASM octal escape sequences have one to three
 digits

---
 src/main/cpp/lang/nasm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index e81ca66..2292dbe 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -44,7 +44,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     case u8'5':
     case u8'6':
     case u8'7': {
-        return match_common_escape<Common_Escape::octal_1_to_2>(str, 2);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
     case u8'x': {
         return match_common_escape<Common_Escape::hex_1_to_2>(str, 2);
-- 
2.43.0


From 9b876ec525af03067e71d5b5b1eb70e3e3f733ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 121/136] fix: NASM unterminated backquoted string is
 highlighted at the end of the source

---
 src/main/cpp/lang/nasm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 2292dbe..78b11d7 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -666,6 +666,7 @@ private:
             }
             }
         }
+        flush();
     }
 
     bool expect_escape()
-- 
2.43.0


From 1b05fe65e12524919f922b30478c894c74435385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 122/136] fix: NASM percent followed by a blank is an operator,
 not a macro

---
 src/main/cpp/lang/nasm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 78b11d7..30f08ff 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -426,6 +426,12 @@ private:
             break;
         }
         case u8'%': {
+            const std::size_t op_length = match_operator(remainder);
+            if (remainder.length() > op_length
+                && (remainder[op_length] == u8' ' || remainder[op_length] == u8'\t')) {
+                emit_and_advance(op_length, Highlight_Type::symbol_op);
+                break;
+            }
             consume_macro();
             break;
         }
-- 
2.43.0


From 80ab2d16bf6db85ccbda57f67d04875a57de1d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 123/136] fix: NASM numbers with a prefix may end in a digit
 which looks like a suffix

---
 src/main/cpp/lang/nasm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 30f08ff..dc072bc 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -582,6 +582,12 @@ private:
         if (!suffixed) {
             return false;
         }
+        // "0x1b" is a hexadecimal number, but "0b11h" is too:
+        // If there are both a prefix and a suffix, the greater base wins.
+        if (suffixed.digits >= 2 && remainder[0] == u8'0'
+            && base_of_suffix_char(remainder[1]) >= suffixed.base) {
+            return false;
+        }
         if (suffixed.base == 16) {
             // In the case of hex numbers, there are actually some insane ambiguities.
             // For example, "eax" could technically be parsed as hexadecimal digits
-- 
2.43.0


From ae92dbadbd1bf3856bc087fda65ce50ba580820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 124/136] fix: NASM hexadecimal floating-point numbers

---
 src/main/cpp/lang/nasm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index dc072bc..9e9128c 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -550,7 +550,7 @@ private:
             { u8"0b", 2 },  { u8"0B", 2 },  { u8"0y", 2 },  { u8"0Y", 2 }, //
             { u8"0o", 8 },  { u8"0O", 8 },  { u8"0q", 8 },  { u8"0Q", 8 }, //
             { u8"0d", 10 }, { u8"0D", 10 }, { u8"0t", 10 }, { u8"0T", 10 }, //
-            { u8"0x", 16 }, { u8"0X", 16 }, { u8"0h", 16 }, { u8"0H", 16 }, { u8"$", 16 }, //
+            { u8"0x", 16, true }, { u8"0X", 16, true }, { u8"0h", 16, true }, { u8"0H", 16, true }, { u8"$", 16, true }, //
         };
         // https://www.nasm.us/xdoc/2.16.03/html/nasmdoc3.html#section-3.4.4
         // Signed variants must come before the plain letter so that e.g. "e-3" is matched
-- 
2.43.0


From d3271774414d4fb06bbf7cbce2711ed5ff432d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 125/136] fix: LLVM floating-point prefixes 0xK, 0xL, 0xM and
 0xR are matched

---
 src/main/cpp/lang/llvm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 8411d91..1e504a4 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -354,11 +354,11 @@ private:
     {
         // https://llvm.org/docs/LangRef.html#simple-constants
         static constexpr Number_Prefix prefixes[] {
-            { u8"0x"sv, 16 }, // float and double
             { u8"0xK"sv, 16 }, // x86 80-bit
             { u8"0xL"sv, 16 }, // IEEE 128-bit
             { u8"0xM"sv, 16 }, // PowerPC 128-bit
             { u8"0xR"sv, 16 }, // bfloat 16-bit
+            { u8"0x"sv, 16 }, // float and double
             { u8"s0x"sv, 16 }, // signed integer
             { u8"u0x"sv, 16 }, // unsigned integer
         };
-- 
2.43.0


From 6bcd0486752668892a0f5774c6334fb89b0e868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 126/136] fix: LLVM negative numbers are numbers, not keywords

---
 src/main/cpp/lang/llvm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 1e504a4..dc74934 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -208,6 +208,7 @@ private:
             consume_identifier();
             break;
         }
+        case u8'-':
         case u8's':
         case u8'u': {
             // https://llvm.org/docs/LangRef.html#simple-constants
-- 
2.43.0


From bedf9d38c2241847c393a336220cb50f2a84d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 127/136] fix: LLVM metadata, attribute group, pointer and
 vararg markers are not errors

---
 src/main/cpp/lang/llvm.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index dc74934..e1f9b0a 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -185,6 +185,9 @@ private:
             emit_and_advance(1, Highlight_Type::symbol_brace);
             break;
         }
+        case u8'!': // metadata
+        case u8'#': // attribute group
+        case u8'*': // pointer type
         case u8',':
         case u8':':
         case u8'<':
@@ -193,6 +196,13 @@ private:
             emit_and_advance(1, Highlight_Type::symbol_punc);
             break;
         }
+        case u8'.': {
+            if (remainder.starts_with(u8"...")) {
+                emit_and_advance(3, Highlight_Type::symbol_punc);
+                break;
+            }
+            goto default_case;
+        }
         case u8';': {
             consume_line_comment();
             break;
-- 
2.43.0


From 8748113a43955ac80bcbe7e82b8ae031251622b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 128/136] fix: COWEL line splices end at the end of their line

---
 src/main/cpp/lang/cowel.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index 4cd1653..053d09b 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -456,7 +456,7 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 continue;
             }
 
-            const std::size_t whitespace = match_whitespace(remainder);
+            const std::size_t whitespace = ascii::length_if(remainder, is_horizontal_whitespace);
             if (whitespace) {
                 advance(whitespace);
                 continue;
@@ -722,8 +722,12 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
         emit_and_advance(name_length, Highlight_Type::markup_tag);
         consume_blank();
         expect_group();
-        consume_blank();
-        expect_block();
+        // The blank belongs to the call only if there is a block;
+        // otherwise, it may contain the end of an expression-line-splice.
+        if (remainder.substr(match_blank(remainder)).starts_with(u8'{')) {
+            consume_blank();
+            expect_block();
+        }
         return true;
     }
 
-- 
2.43.0


From 626fb9f59d3d50b88fabf554b4d80b9fec229996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 129/136] fix: end an unterminated JavaScript string literal at
 a carriage return

---
 src/main/cpp/lang/js.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 37cc1c3..08095b2 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -358,7 +358,7 @@ String_Literal_Result match_string_literal(std::u8string_view str)
         else if (c == quote) {
             return String_Literal_Result { .length = length + 1, .terminated = true };
         }
-        else if (c == u8'\n') {
+        else if (c == u8'\n' || c == u8'\r') {
             return String_Literal_Result { .length = length, .terminated = false };
         }
 
-- 
2.43.0


From 145596123118e739e6c789c02af9f879bf39d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:23 +0000
Subject: [PATCH 130/136] fix: a base prefix with a suffix but no digits is an
 erroneous number

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 9d8f14b..7d92600 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -300,7 +300,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     }
 
     result.length = length;
-    result.erroneous |= result.prefix == length;
+    result.erroneous |= result.prefix != 0 && result.integer == 0 && result.fractional == 0;
     ULIGHT_DEBUG_ASSERT(
         (result.sign + result.prefix + result.integer + result.radix_point + result.fractional
          + result.exponent_sep + result.exponent_digits + result.suffix)
-- 
2.43.0


From 5eebe1cfc05384fd1d26806a53fcbc16fd7e99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 131/136] fix: a stray character in C and C++ does not hide
 what touches it

---
 src/main/cpp/lang/cpp.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index fd08c08..71c84cc 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -1104,12 +1104,14 @@ public:
             advance(escape_length);
             return true;
         }
-        if (const std::size_t non_white_length = match_non_whitespace(remainder())) {
+        if (match_non_whitespace(remainder()) != 0) {
             // Don't emit any highlighting.
-            // To my understanding, this currently only matches backslashes at the end of the
-            // line. We don't have a separate phase for these, so whatever, this seems fine.
+            // This matches a single character which cannot be part of any other token,
+            // such as a stray backslash.
+            // https://eel.is/c++draft/lex#nt:preprocessing-token
             fresh_line = false;
-            advance(non_white_length);
+            const auto [_, code_point_length] = utf8::decode_and_length_or_replacement(remainder());
+            advance(std::size_t(code_point_length));
             return true;
         }
         return false;
-- 
2.43.0


From 8d4f92af9e63621dcaa32f2c6d02ded5ebfc7588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 132/136] fix: a Python raw string continues after a backslash
 and CRLF

---
 src/main/cpp/lang/python.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index d939dbb..953f5b2 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -428,8 +428,12 @@ private:
                     // However, a backslash still prevents the next source character from
                     // terminating the literal early, so they must be consumed together.
                     const std::u8string_view escaped_units = remainder.substr(1);
-                    const auto [_, units] = utf8::decode_and_length_or_replacement(escaped_units);
-                    const auto highlight = string_prefix_is_byte(prefix) && units != 1
+                    // A CRLF line break is a single character in that regard.
+                    const bool is_crlf = escaped_units.starts_with(u8"\r\n");
+                    const int units = is_crlf
+                        ? 2
+                        : utf8::decode_and_length_or_replacement(escaped_units).length;
+                    const auto highlight = string_prefix_is_byte(prefix) && !is_crlf && units != 1
                         ? Highlight_Type::error
                         : Highlight_Type::string;
                     emit_and_advance(1 + std::size_t(units), highlight);
-- 
2.43.0


From 5cc26b0c4d4a68ff43474e6538d82e3723c4c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 133/136] fix: an escaped CRLF line break in JavaScript and TeX
 is one escape sequence

---
 include/ulight/impl/escapes.hpp | 4 ++++
 src/main/cpp/lang/bash.cpp      | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 81bab0f..80ee41a 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -213,12 +213,16 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
 /// @brief Returns the length of the first code unit in `str`,
 /// which is typically a backslash,
 /// plus the length of the code point that follows it, if any.
+/// A CRLF line break counts as a single code point.
 [[nodiscard]]
 constexpr std::size_t length_with_escaped_code_point(std::u8string_view str)
 {
     if (str.empty()) {
         return 0;
     }
+    if (str.substr(1).starts_with(u8"\r\n")) {
+        return 3;
+    }
     return 1 + std::size_t(utf8::decode_and_length_or_replacement(str.substr(1)).length);
 }
 
diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index d1551ed..eeb07f8 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -389,6 +389,11 @@ private:
             emit_and_advance(1, Highlight_Type::string_escape);
             advance(1);
         }
+        else if (remainder.starts_with(u8"\\\r")) {
+            // A carriage return is no part of a line break in Bash.
+            emit_and_advance(2, Highlight_Type::string_escape);
+            enter_word();
+        }
         else {
             emit_and_advance(
                 length_with_escaped_code_point(remainder), Highlight_Type::string_escape
-- 
2.43.0


From 6829974b2baeb1de02c0534fec90fccc72c183a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 134/136] fix: a malformed raw string does not swallow the line
 break in C++

---
 src/main/cpp/lang/cpp.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 71c84cc..a8caed1 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -838,11 +838,13 @@ public:
             return;
         }
         if (rem[d_char_sequence_length + 1] != u8'(') {
-            const auto [_, error_length]
-                = utf8::decode_and_length_or_replacement(rem.substr(d_char_sequence_length + 1));
-            emit_and_advance(
-                d_char_sequence_length + 1 + std::size_t(error_length), Highlight_Type::error
-            );
+            const std::u8string_view invalid = rem.substr(d_char_sequence_length + 1);
+            // A line break is not part of the error;
+            // otherwise, a directive in the next line would not be recognized.
+            const std::size_t error_length = invalid.starts_with(u8'\n') || invalid.starts_with(u8"\r\n")
+                ? 0
+                : std::size_t(utf8::decode_and_length_or_replacement(invalid).length);
+            emit_and_advance(d_char_sequence_length + 1 + error_length, Highlight_Type::error);
             return;
         }
         rem.remove_prefix(d_char_sequence_length + 2);
-- 
2.43.0


From e7728ca1bd4e78383eebaf1a92e8fc4b867fa5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 135/136] fix: a CRLF line break in a Java character literal is
 one error

---
 src/main/cpp/lang/java.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 2e2a3d9..02cfcbf 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -355,7 +355,8 @@ private:
             emit_and_advance_code_point(Highlight_Type::string);
         }
         else if (!remainder.empty()) {
-            emit_and_advance(1, Highlight_Type::error);
+            const std::size_t length = remainder.starts_with(u8"\r\n") ? 2 : 1;
+            emit_and_advance(length, Highlight_Type::error);
         }
 
         if (!remainder.empty() && remainder[0] == u8'\'') {
-- 
2.43.0


From 712751fa2bb9312e8e5375b27beaa3c194279b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 136/136] fix: a backslash does not continue a JavaScript
 regular expression on the next line

---
 src/main/cpp/lang/js.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 08095b2..a981a29 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1510,6 +1510,10 @@ private:
         for (std::size_t size = 0; size < rem.length(); ++size) {
             const char8_t c = rem[size];
 
+            // Line terminators cannot be escaped in regular expressions.
+            if (starts_with_line_terminator(rem.substr(size))) {
+                break;
+            }
             if (escaped) {
                 escaped = false;
             }
@@ -1532,9 +1536,6 @@ private:
                 input_element = Input_Element::div;
                 return true;
             }
-            else if (starts_with_line_terminator(rem.substr(size))) {
-                break;
-            }
         }
 
         return false;
-- 
2.43.0

