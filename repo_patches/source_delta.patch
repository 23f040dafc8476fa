From 046b27f5a8083a89309ea9440ecbd0a8a7043fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 01/16] fix: merge drops the last segment of a single-segment
 base path

RFC 3986 section 5.2.3 appends the reference's path to all but the last
segment of the base path. A base path with exactly one segment kept it, so
that joining "http://a/b" and "c" gave "http://a/b/c".
---
 lib/uri/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index b64783b..3a4f90c 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -743,7 +743,7 @@ struct uri::parts::path merge (uri::parts const& base, uri::parts const& ref) {
   r2.absolute = base.path.absolute;
 
   auto last = std::end (base.path.segments);
-  if (base.path.segments.size () > 1) {
+  if (!base.path.segments.empty ()) {
     std::advance (last, -1);
   }
   auto out = std::back_inserter (r2.segments);
-- 
2.43.0


From d2259446ec890b64a4b8afcf806f130e3e6f2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 02/16] fix: remove_dot_segments keeps an empty segment before
 a trailing dot segment

"/a//." and "/a//b/.." both gave "/a/" where the algorithm of RFC 3986
section 5.2.4 gives "/a//".
---
 lib/uri/uri.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 3a4f90c..76c924e 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -783,7 +783,7 @@ void parts::path::remove_dot_segments () {
         --outit;
       }
     } else {
-      last_dir = it->empty ();
+      last_dir = false;
       if (outit != it) {
         *outit = *it;
       }
@@ -793,13 +793,8 @@ void parts::path::remove_dot_segments () {
   this->segments.erase (outit, end);
 
   if (last_dir) {
-    if (segments.empty ()) {
-      this->segments.emplace_back ();
-    } else {
-      if (!this->segments.back ().empty ()) {
-        this->segments.emplace_back ();
-      }
-    }
+    // The path ended with a dot segment so it must end with a slash.
+    this->segments.emplace_back ();
   }
 }
 
-- 
2.43.0


From 11921b8bb372ebc2b0274eec0c490c91c13d95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 03/16] fix: accept a reg-name host that starts with an IPv4
 address

"http://127.0.0.1.example.com/" and "http://1.2.3.256/" are valid: their
hosts are reg-names. The IPv4address alternative matched a prefix of the host
and the rest of the authority then failed to parse.
---
 lib/uri/uri.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 76c924e..f889468 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -392,8 +392,12 @@ auto ip_literal (rule const& r) {
 }
 
 // host = IP-literal / IPv4address / reg-name
+//
+// Every IPv4address is also a reg-name. Trying IPv4address first would commit
+// to it for a reg-name which merely starts with an IPv4address (such as
+// "127.0.0.1.example.com").
 auto host (rule const& r) {
-  return r.alternative (ip_literal, ipv4address, reg_name)
+  return r.alternative (ip_literal, reg_name)
     .matched ("IP-literal / IPv4address / reg-name", r);
 }
 constexpr auto hostfn = host;
-- 
2.43.0


From 2510a6ca8b1cc47c120b946219fc85ac83555c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 04/16] fix: parts with no authority and a path starting with
 // are not valid

Composing such a value produces a string whose path is parsed as an authority
(RFC 3986 section 3.3). valid() is noexcept but already allocates in the rule
matcher, so building the path string adds no new failure mode.
---
 lib/uri/uri.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index f889468..071a253 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -862,6 +862,12 @@ bool parts::valid () const noexcept {
   if (!this->path.valid ()) {
     return false;
   }
+  // RFC 3986 section 3.3: "If a URI does not contain an authority component,
+  // then the path cannot begin with two slash characters".
+  if (!this->authority.has_value () &&
+      static_cast<std::string> (this->path).starts_with ("//")) {
+    return false;
+  }
   if (this->query.has_value () &&
       !rule{this->query.value ()}.concat (queryfn).done ()) {
     return false;
-- 
2.43.0


From 21809b265d4a9ce78733ba0dba4f5671a10778cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 05/16] fix: character classes of the grammar do not depend on
 the locale

After setlocale() to a single-byte locale such as en_US.ISO-8859-1, isalpha()
and isalnum() accept bytes above 0x7F, so split() accepted strings which are
not URIs (and passed negative values to the <cctype> functions, which is
undefined). Classify US-ASCII characters directly.
---
 include/uri/rule.hpp | 39 ++++++++++++++++++++++++++++++---------
 lib/uri/uri.cpp      |  8 ++++----
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index ebd1b26..ee9608b 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -79,7 +79,6 @@
 #ifndef URI_RULE_HPP
 #define URI_RULE_HPP
 
-#include <cctype>
 #include <functional>
 #include <limits>
 #include <optional>
@@ -91,6 +90,28 @@
 
 namespace uri {
 
+namespace details {
+
+// The grammar's characters are US-ASCII (RFC 3986 section 2). The functions of
+// <cctype> depend on the process's locale and are not defined for negative
+// values of char.
+constexpr char ascii_lower (char const c) noexcept {
+  return c >= 'A' && c <= 'Z' ? static_cast<char> (c - 'A' + 'a') : c;
+}
+constexpr bool is_ascii_digit (char const c) noexcept {
+  return c >= '0' && c <= '9';
+}
+constexpr bool is_ascii_alpha (char const c) noexcept {
+  auto const l = ascii_lower (c);
+  return l >= 'a' && l <= 'z';
+}
+constexpr bool is_ascii_xdigit (char const c) noexcept {
+  auto const l = ascii_lower (c);
+  return is_ascii_digit (c) || (l >= 'a' && l <= 'f');
+}
+
+}  // end namespace details
+
 class rule {
 public:
   using acceptor_container = std::vector<
@@ -161,8 +182,8 @@ public:
   template <typename Predicate>
   [[nodiscard]] matched_result single_char (Predicate pred) const;
   [[nodiscard]] matched_result single_char (char const c) const {
-    return single_char ([c2 = std::tolower (static_cast<int> (c))] (char d) {
-      return c2 == std::tolower (static_cast<int> (d));
+    return single_char ([c2 = details::ascii_lower (c)] (char d) {
+      return c2 == details::ascii_lower (d);
     });
   }
 
@@ -326,10 +347,10 @@ inline auto single_char (char const first) {
   return [=] (rule const& r) { return r.single_char (first); };
 }
 inline auto char_range (char const first, char const last) {
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = details::ascii_lower (first),
+          l = details::ascii_lower (last)] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = details::ascii_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -337,15 +358,15 @@ inline auto char_range (char const first, char const last) {
 
 inline auto alpha (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isalpha (static_cast<int> (c)); });
+    [] (char const c) { return details::is_ascii_alpha (c); });
 }
 inline auto digit (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isdigit (static_cast<int> (c)); });
+    [] (char const c) { return details::is_ascii_digit (c); });
 }
 inline auto hexdig (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isxdigit (static_cast<int> (c)); });
+    [] (char const c) { return details::is_ascii_xdigit (c); });
 }
 
 }  // end namespace uri
diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 071a253..389685e 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -36,10 +36,10 @@ inline auto code_point_range (code_point const first, code_point const last) {
   assert (static_cast<std::underlying_type_t<code_point>> (last) <=
           static_cast<std::underlying_type_t<code_point>> (
             std::numeric_limits<char>::max ()));
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = details::ascii_lower (static_cast<char> (first)),
+          l = details::ascii_lower (static_cast<char> (last))] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = details::ascii_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -123,7 +123,7 @@ auto sub_delims (rule const& r) {
 auto unreserved (rule const& r) {
   return r.single_char ([] (char const c) {
     auto const cp = static_cast<code_point> (c);
-    return static_cast<bool> (std::isalnum (static_cast<int> (c))) ||
+    return details::is_ascii_alpha (c) || details::is_ascii_digit (c) ||
            cp == code_point::hyphen_minus || cp == code_point::full_stop ||
            cp == code_point::low_line || cp == code_point::tilde;
   });
-- 
2.43.0


From 1d64152f291802f31f585802c3a7ad582c533d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 06/16] fix: rule::star() terminates when its rule matches the
 empty string

An unbounded repetition of a rule which can match without consuming anything,
such as star(segment), never returned.
---
 include/uri/rule.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index ee9608b..4e498a7 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -253,6 +253,9 @@ rule rule::star (MatchFunction const match, unsigned const min, unsigned const m
     // Remember the corresponding acceptor functions.
     auto const& a = std::get<acceptor_container> (*m);
     acc.insert (acc.end (), a.begin (), a.end ());
+    if (l == 0 && count >= min) {
+      break;  // Repeating an empty match can never consume anything.
+    }
   }
   if (count < min) {
     return {};
-- 
2.43.0


From a280b114a18152ca44320c7ad3091619203a0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 07/16] fix: the UTF-8 decoder does not consume the code unit
 after an ill-formed sequence

The bytes C3 41 gave a single U+FFFD and lost the letter: the code unit which
ends an ill-formed sequence may itself be well formed (Unicode, section 3.9,
conformance clause C10 and definition D93b). Also, end_cp() left the
transcoder claiming to hold a partial code point.
---
 include/uri/icubaby.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index adc0bf2..1853097 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -852,6 +852,7 @@ public:
                             static_cast<uint_least32_t> (code_point_ << 6U)
                       : (0xFFU >> type) & ucu;
     auto const idx = 256U + state_ + type;
+    auto const was_partial = state_ != accept;
     assert (idx < utf8d_.size ());
     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
     state_ = utf8d_[idx];
@@ -861,6 +862,11 @@ public:
       well_formed_ = false;
       state_ = accept;
       *(dest++) = replacement_char;
+      if (was_partial) {
+        // The code unit which ends an ill-formed sequence isn't itself a part of that sequence: it may be the start of
+        // the next code point.
+        dest = (*this) (code_unit, dest);
+      }
       break;
     default: break;
     }
@@ -876,7 +882,7 @@ public:
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (output_type) OutputIterator>
   constexpr OutputIterator end_cp (OutputIterator dest) {
     if (state_ != accept) {
-      state_ = reject;
+      state_ = accept;
       *(dest++) = replacement_char;
       well_formed_ = false;
     }
@@ -1805,6 +1811,11 @@ struct triangulator_intermediate_code_units : public std::integral_constant<std:
 /// \tparam ToEncoding  The destination encoding.
 template <ICUBABY_CONCEPT_UNICODE_CHAR_TYPE ToEncoding>
 struct triangulator_intermediate_code_units<char16_t, ToEncoding> : public std::integral_constant<std::size_t, 2> {};
+/// \brief The maximum number of code units produced when converting from UTF-8.
+/// \tparam ToEncoding  The destination encoding.
+template <ICUBABY_CONCEPT_UNICODE_CHAR_TYPE ToEncoding>
+struct triangulator_intermediate_code_units<icubaby::char8, ToEncoding>
+    : public std::integral_constant<std::size_t, 2> {};
 
 /// \brief A "triangulator" converts from the \p FromEncoding encoding to the \p ToEncoding encoding via an
 ///        intermediate UTF-32 encoding.
@@ -2068,6 +2079,14 @@ template <> inline constexpr auto max_output_bytes<char16_t, icubaby::char8> = s
 /// \brief The maximum number of bytes produced by a single code-unit being passed to a transcoder consuming UTF-32.
 template <> inline constexpr auto max_output_bytes<char16_t, char32_t> = std::size_t{2};
 
+/// \brief The maximum number of bytes produced by a single code-unit being passed to a transcoder consuming UTF-8.
+///
+/// The worst case is a code-unit which both ends an ill-formed sequence and is itself ill-formed: this produces two
+/// REPLACEMENT CHARACTERs, each of which is 3 bytes when encoded as UTF-8.
+template <> inline constexpr auto max_output_bytes<icubaby::char8, icubaby::char8> = std::size_t{6};
+/// \brief The maximum number of code units produced by a single code-unit being passed to a transcoder consuming UTF-8.
+template <> inline constexpr auto max_output_bytes<icubaby::char8, char32_t> = std::size_t{2};
+
 /// \brief The iterator type of transcode_view.
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
-- 
2.43.0


From a4cd0c6f4f1ad24d8dc2de3f0d9d5dc07b9a07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 08/16] fix: byte transcoder mistakes at the boundary of a byte
 order mark

- FF FE 00 followed by a non-zero byte is UTF-16 LE, not UTF-8.
- If the input ended whilst the encoding was undecided, one byte too many was
  emitted (a spurious U+0000) and an incomplete sequence was not reported.
- FF FE alone is a UTF-16 LE byte order mark.
---
 include/uri/icubaby.hpp | 57 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 1853097..96a49b2 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1267,8 +1267,7 @@ public:
         (void)transcoder_variant_.template emplace<t32_type> ();
         state_ = set_run_mode (set_byte (state_, 0));
       } else {
-        // Default input encoding. Emit buffer.
-        dest = this->run8_start (true, dest);
+        dest = this->not_utf32_bom (value, dest);
       }
       break;
 
@@ -1312,10 +1311,14 @@ public:
     if (transcoder_variant_.valueless_by_exception ()) {
       return dest;
     }
+    if (std::holds_alternative<std::monostate> (transcoder_variant_)) {
+      // The input ended before its encoding was known.
+      dest = this->end_bom (dest);
+    }
     return std::visit (
-        [this, &dest] (auto& arg) {
+        [&dest] (auto& arg) {
           if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
-            return this->run8_start (state_ != states::start, dest);
+            return dest;
           } else {
             return arg.end_cp (dest);
           }
@@ -1608,6 +1611,52 @@ private:
     return dest;
   }
 
+  /// Called when the final byte of a possible UTF-32 BOM turns out not to be part of one. Following the bytes FF FE 00,
+  /// this means that the input is UTF-16 LE (its first code unit has a low byte of zero); otherwise we have the default
+  /// input encoding.
+  ///
+  /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
+  /// \param value  The input byte.
+  /// \param dest  An output iterator to which the output sequence is written.
+  /// \returns  Iterator one past the last element assigned.
+  template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
+  [[nodiscard]] OutputIterator not_utf32_bom (input_type const value, OutputIterator dest) noexcept {
+    if (state_ != states::utf32_le_bom_byte3) {
+      // Default input encoding. Emit buffer.
+      return this->run8_start (true, dest);
+    }
+    dest = this->run16_start (dest);
+    buffer_[0] = buffer_[2];
+    state_ = states::run_16le_byte1;
+    return this->run16 (value, dest);
+  }
+
+  /// Called at the end of the input if the encoding is not yet known. Selects the encoding using the bytes that have
+  /// been received and emits any which are not part of a byte order mark.
+  ///
+  /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
+  /// \param dest  An output iterator to which the output sequence is written.
+  /// \returns  Iterator one past the last element assigned.
+  template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
+  [[nodiscard]] OutputIterator end_bom (OutputIterator dest) noexcept {
+    if (state_ == states::utf32_or_16_le_bom_byte2) {
+      return this->run16_start (dest);  // Just the UTF-16 LE byte order mark.
+    }
+    if (state_ == states::utf32_le_bom_byte3) {
+      // The UTF-16 LE byte order mark followed by half of a code unit.
+      dest = this->run16_start (dest);
+      buffer_[0] = buffer_[2];
+      state_ = states::run_16le_byte1;
+      return dest;
+    }
+    if (state_ == states::start) {
+      return this->run8_start (false, dest);
+    }
+    // run8_start() emits the buffer up to and including the byte given by the state: the last that we received.
+    state_ = set_byte (state_, byte_no (state_) - 1);
+    return this->run8_start (true, dest);
+  }
+
   /// Switches to the run state in which the input has been determined to be UTF-8 encoded.
   ///
   /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
-- 
2.43.0


From 93e53feee9b131b4345bbef5df5965f0f19e4073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 09/16] fix: byte transcoder reports input that ends within a
 code unit

UTF-16 or UTF-32 input whose final code unit was cut short was silently
dropped: well_formed() stayed true and partial() false.
---
 include/uri/icubaby.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 96a49b2..67dab9a 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1316,11 +1316,21 @@ public:
       dest = this->end_bom (dest);
     }
     return std::visit (
-        [&dest] (auto& arg) {
-          if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
+        [this, &dest] (auto& arg) {
+          using type = std::decay_t<decltype (arg)>;
+          if constexpr (std::is_same_v<type, std::monostate>) {
             return dest;
           } else {
-            return arg.end_cp (dest);
+            dest = arg.end_cp (dest);
+            if constexpr (!std::is_same_v<type, t8_type>) {
+              if (byte_no (state_) != 0) {
+                // The input ended part way through a code unit. Have the transcoder treat the incomplete code unit as it
+                // does any other which is ill-formed. An isolated low surrogate is never well formed.
+                dest = arg (static_cast<typename type::input_type> (first_low_surrogate), dest);
+                state_ = set_byte (state_, 0);
+              }
+            }
+            return dest;
           }
         },
         transcoder_variant_);
@@ -1797,7 +1807,8 @@ constexpr bool transcoder<std::byte, ToEncoding>::partial () const noexcept {
         if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
           return this->state_ != states::start;
         } else {
-          return arg.partial ();
+          // Either part of a code point or (in run mode for UTF-16 or UTF-32) part of a code unit.
+          return arg.partial () || byte_no (this->state_) != 0;
         }
       },
       transcoder_variant_);
-- 
2.43.0


From 392cc6ddf799742a0e2a293bb4199ffd86459070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 10/16] fix: transcode_view of std::byte input

The output buffer was too small for the up to four code points which the byte
transcoder can produce from one byte (an out-of-bounds write), and a view of
nothing but a byte order mark was not empty.
---
 include/uri/icubaby.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 67dab9a..44cbc16 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2147,6 +2147,17 @@ template <> inline constexpr auto max_output_bytes<icubaby::char8, icubaby::char
 /// \brief The maximum number of code units produced by a single code-unit being passed to a transcoder consuming UTF-8.
 template <> inline constexpr auto max_output_bytes<icubaby::char8, char32_t> = std::size_t{2};
 
+/// \brief The maximum number of code units produced by a single byte being passed to a byte transcoder.
+///
+/// A byte which shows that the input does not begin with a byte order mark causes all of the bytes consumed so far (up
+/// to four) to be emitted, each of which may produce a code point.
+template <typename ToEncoding> inline constexpr auto max_output_bytes<std::byte, ToEncoding> = std::size_t{4};
+/// \brief The maximum number of bytes produced by a single byte being passed to a byte transcoder producing UTF-8.
+///
+/// The worst case is the bytes 00 00 FE followed by a byte which is not well formed: two NULs and two
+/// REPLACEMENT CHARACTERs.
+template <> inline constexpr auto max_output_bytes<std::byte, icubaby::char8> = std::size_t{8};
+
 /// \brief The iterator type of transcode_view.
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
@@ -2303,6 +2314,10 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
   if (!transcoder_.well_formed ()) {
     parent->well_formed_ = false;
   }
+  if (out_it == out_begin) {
+    // The remaining input (such as a lone byte order mark) produced no output: this is the end of the view.
+    result = next_;
+  }
   first_ = std::uint_least8_t{0};
   last_ = static_cast<std::uint_least8_t> (out_it - out_begin);
   return result;
-- 
2.43.0


From f3051825d3e7983b85ca609bce6aa3337a7687ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:43 +0000
Subject: [PATCH 11/16] fix: punycode decode rejects a delimiter that nothing
 precedes

RFC 3492 section 6.2 consumes the delimiter only "if more than zero code
points were consumed" before it. A leading delimiter is therefore read as a
digit, which it is not: decode() accepted "-" and "-abc" as though the
delimiter were absent.
---
 include/uri/punycode.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/uri/punycode.hpp b/include/uri/punycode.hpp
index 46a3705..6091d31 100644
--- a/include/uri/punycode.hpp
+++ b/include/uri/punycode.hpp
@@ -260,7 +260,9 @@ std::variant<std::error_code, Iterator> copy_plain_ascii_part (Iterator first, S
   // Find the end of the literal portion (if there is one) by scanning for the
   // last delimiter.
   auto const encoded_range = find_last (first, last, delimiter);
-  if (encoded_range.empty ()) {
+  // A delimiter that nothing precedes is not consumed (RFC 3492 section 6.2):
+  // it is no digit and will be rejected as one.
+  if (encoded_range.empty () || encoded_range.begin () == first) {
     return first;
   }
   // Copy the plain ASCII part of the string to the output (if any).
-- 
2.43.0


From 06f41cfbeb86e6ef0a64e3a25f5fa7dac676fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 12/16] fix: iter_move of the percent-decoding view gives the
 decoded character

It moved from the underlying iterator and so gave the '%' that begins an
escape, unlike operator*.
---
 include/uri/pctdecode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 7df41f5..bd15aa6 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -185,8 +185,8 @@ public:
   }
 
   friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
-    iterator const& it) noexcept (noexcept (std::ranges::iter_move (it.pos_))) {
-    return std::ranges::iter_move (it.pos_);
+    iterator const& it) {
+    return static_cast<std::ranges::range_rvalue_reference_t<View>> (*it);
   }
 
   friend constexpr void iter_swap (
-- 
2.43.0


From e9660ba3cfa8371ce18abc593be5089f549712b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 13/16] fix: decode of parts handles a host that decodes to
 nothing

---
 include/uri/parts.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/uri/parts.hpp b/include/uri/parts.hpp
index d53c0c6..1a1b38a 100644
--- a/include/uri/parts.hpp
+++ b/include/uri/parts.hpp
@@ -322,21 +322,24 @@ std::variant<std::error_code, parts> decode (VectorContainer& store,
     }
 
     auto extra = std::size_t{0};
+    auto needed = false;
     if (field == parts_field::host) {
-      auto const pds_result = details::puny_decoded_size (str);
-      if (auto const* const size = std::get_if<std::size_t> (&pds_result)) {
-        extra = *size;
-      } else if (auto const* const erc = std::get_if<std::error_code> (&pds_result)) {
+      // An encoded host may decode to nothing at all: its size does not tell whether it needs to be decoded.
+      details::ro_sink_container<char> sink;
+      auto const decoded = details::puny_decoded (str, std::back_inserter (sink));
+      if (auto const* const erc = std::get_if<std::error_code> (&decoded)) {
         error = *erc;
       } else {
-        error = make_error_code (std::errc::invalid_argument);
+        needed = std::get<1U> (decoded).any_encoded;
+        extra = needed ? sink.size () : std::size_t{0};
       }
     } else {
       extra = details::pct_decoded_size (str);
+      needed = extra != 0;
     }
 
     if (auto const pos = static_cast<pft> (field) + index; pos < needs_encoding.size ()) {
-      needs_encoding.set (pos, needs_encoding.test (pos) || extra != 0);
+      needs_encoding.set (pos, needs_encoding.test (pos) || needed);
     }
     required_size += extra;
     return str;
-- 
2.43.0


From c68601ec4f5e10bcd545e0d77d201417be443291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 14/16] fix: little-endian UTF-32 bytes keep the top byte of
 the code unit

---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 44cbc16..fd3814a 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1788,7 +1788,7 @@ private:
   /// \returns A native-endian 32 bit value.
   [[nodiscard]] constexpr char32_t char32_from_little_endian_buffer (input_type const value) const noexcept {
     return static_cast<char32_t> (
-        (static_cast<std::uint_least32_t> (value << 24U)) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
+        (static_cast<std::uint_least32_t> (value) << 24U) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
         (static_cast<std::uint_least32_t> (buffer_[1]) << 8U) | (static_cast<std::uint_least32_t> (buffer_[0])));
   }
 };
-- 
2.43.0


From 273e7f0352af8bca94e46b225b92035a2721be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 15/16] fix: pctdecode of forward ranges and of ranges which
 end with a sentinel

---
 include/uri/pctdecode.hpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index bd15aa6..4590b9a 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -57,28 +57,34 @@ constexpr bool either_bad (std::byte n1, std::byte n2) noexcept {
   return ((n1 | n2) & bad) != std::byte{0};
 }
 
-template <typename Iterator>
-Iterator increment (Iterator pos, Iterator end) {
-  auto remaining = std::distance (pos, end);
-  assert (remaining > 0);
+/// Returns true if there are at least three characters in the range [pos, end).
+template <typename Iterator, typename Sentinel>
+bool at_least_three (Iterator pos, Sentinel const end) {
+  return std::ranges::advance (pos, 3, end) == 0;
+}
+
+template <typename Iterator, typename Sentinel>
+Iterator increment (Iterator pos, Sentinel const end) {
+  assert (pos != end);
   // Remove 1 character unless we've got a '%' followed by two legal hex
   // characters in which case we remove 3.
-  std::advance (pos,
-                remaining >= 3 && *pos == '%' &&
-                    !either_bad (hex2dec (*(pos + 1)), hex2dec (*(pos + 2)))
-                  ? 3
-                  : 1);
+  std::ranges::advance (pos,
+                        *pos == '%' && at_least_three (pos, end) &&
+                            !either_bad (hex2dec (*std::ranges::next (pos)),
+                                         hex2dec (*std::ranges::next (pos, 2)))
+                          ? 3
+                          : 1);
   return pos;
 }
 
-template <typename ReferenceType, typename Iterator, typename ValueType>
-ReferenceType deref (Iterator pos, Iterator end, ValueType* const hex) {
+template <typename ReferenceType, typename Iterator, typename Sentinel, typename ValueType>
+ReferenceType deref (Iterator pos, Sentinel const end, ValueType* const hex) {
   ReferenceType c = *pos;
-  if (c != '%' || std::distance (pos, end) < 3) {
+  if (c != '%' || !at_least_three (pos, end)) {
     return c;
   }
-  auto const nhi = hex2dec (*(pos + 1));
-  auto const nlo = hex2dec (*(pos + 2));
+  auto const nhi = hex2dec (*std::ranges::next (pos));
+  auto const nlo = hex2dec (*std::ranges::next (pos, 2));
   // If either character isn't valid hex, then return the original.
   if (either_bad (nhi, nlo)) {
     return c;
@@ -210,12 +216,12 @@ template <std::ranges::input_range View>
 class pctdecode_view<View>::sentinel {
 public:
   sentinel () = default;
-  constexpr explicit sentinel (pctdecode_view& parent)
+  constexpr explicit sentinel (pctdecode_view const& parent)
       : end_{std::ranges::end (parent.base_)} {}
 
   constexpr std::ranges::sentinel_t<View> base () const { return end_; }
   friend constexpr bool operator== (iterator const& x, sentinel const& y) {
-    return x.current_ == y.end_;
+    return x.base () == y.end_;
   }
 
 private:
-- 
2.43.0


From f323c5223505f0ba4d62e09bdc841155cc9ee7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 16/16] fix: iterators of transcode_view at different code
 units of one code point are not equal

---
 include/uri/icubaby.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index fd3814a..f765e8e 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2211,7 +2211,7 @@ public:
   friend constexpr bool operator== (iterator const& lhs, iterator const& rhs)
     requires std::equality_comparable<std::ranges::iterator_t<View>>
   {
-    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_;
+    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_ && lhs.state_.index () == rhs.state_.index ();
   }
 
 private:
@@ -2240,6 +2240,9 @@ private:
       return out_[first_];
     }
 
+    /// Returns the index of the first element within the range of code units forming the current code point.
+    [[nodiscard]] constexpr std::size_t index () const noexcept { return first_; }
+
     /// Removes the first element from the range of code units forming the current code point.
     constexpr void advance () noexcept {
       assert (!this->empty () && "The out_ array must not be empty when advance() is called");
-- 
2.43.0

