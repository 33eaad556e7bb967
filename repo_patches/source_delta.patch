From db3aa99e6b569944cba01d008f8043d1af125823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 1/5] fix: is_already_nfc must not accept composites that
 normalization changes

Composition exclusions (U+0958), composites followed by a mark that sorts
before their own (U+00E2 U+0323) and a Hangul LV syllable followed by a
trailing jamo (U+AC00 U+11A8) were reported as NFC, so normalize() left them
alone and canonically equivalent domains got different ASCII forms.
---
 include/ada/idna/normalization.h |  2 +-
 src/normalization.cpp            | 27 ++++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/ada/idna/normalization.h b/include/ada/idna/normalization.h
index b8f4a68..2513b98 100644
--- a/include/ada/idna/normalization.h
+++ b/include/ada/idna/normalization.h
@@ -9,7 +9,7 @@ namespace ada::idna {
 // Returns true if `input` is already in Unicode Normalization Form C.
 // Requires that internal tables have been loaded (call ensure via normalize
 // or map first, or this returns false if tables are unavailable).
-[[nodiscard]] bool is_already_nfc(std::u32string_view input) noexcept;
+[[nodiscard]] bool is_already_nfc(std::u32string_view input);
 
 // Normalize the characters according to IDNA (Unicode Normalization Form C).
 // Returns false if the internal Unicode tables could not be loaded; in that
diff --git a/src/normalization.cpp b/src/normalization.cpp
index 63406d7..7093130 100644
--- a/src/normalization.cpp
+++ b/src/normalization.cpp
@@ -154,6 +154,8 @@ void decompose_nfc(std::u32string& input) {
   sort_marks(input);
 }
 
+void compose(std::u32string& input);
+
 // Returns true if a composition step would change the string.
 static bool would_compose(std::u32string_view input) noexcept {
   for (size_t input_count = 0; input_count < input.size();) {
@@ -168,7 +170,7 @@ static bool would_compose(std::u32string_view input) noexcept {
       continue;
     }
     if (current >= hangul_sbase && current < hangul_sbase + hangul_scount) {
-      if ((current - hangul_sbase) % hangul_tcount &&
+      if ((current - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
@@ -219,7 +221,7 @@ static bool would_compose(std::u32string_view input) noexcept {
   return false;
 }
 
-bool is_already_nfc(std::u32string_view input) noexcept {
+bool is_already_nfc(std::u32string_view input) {
   if (input.empty()) {
     return true;
   }
@@ -227,11 +229,16 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     return false;
   }
   // 1) Singleton decompositions are never NFC (e.g. U+212B ANGSTROM SIGN).
-  //    Multi-code-point decomps are primary composites that are NFC as-is.
+  //    Multi-code-point decomps are usually primary composites, but some are
+  //    excluded from composition (U+0958) and others interact with the marks
+  //    that follow them (U+00E2 U+0323), so they need the comparison below.
+  bool has_composite = false;
   for (char32_t c : input) {
-    if (canonical_decomp_length(c) == 1) {
+    const size_t decomposition_length = canonical_decomp_length(c);
+    if (decomposition_length == 1) {
       return false;
     }
+    has_composite |= decomposition_length > 1;
   }
   // 2) Combining marks already in canonical order.
   uint8_t prev_ccc = 0;
@@ -243,7 +250,17 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     prev_ccc = ccc;
   }
   // 3) No pairwise composition would apply (including Hangul L+V / LV+T).
-  return !would_compose(input);
+  if (would_compose(input)) {
+    return false;
+  }
+  if (!has_composite) {
+    return true;
+  }
+  // 4) Composites are NFC only if normalizing gives them back.
+  std::u32string normalized(input);
+  decompose_nfc(normalized);
+  compose(normalized);
+  return normalized == input;
 }
 
 void compose(std::u32string& input) {
-- 
2.43.0


From 5dde993f770305c172d76775a5cb9efeabd5cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 2/5] fix: keep checking a label after its first valid joiner

The CONTEXTJ loop returned from is_label_valid() as soon as one joiner was
acceptable, so later joiners and the Bidi rule were never looked at.
---
 src/validity.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 52ebd0c..bd99e11 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -189,7 +189,7 @@ bool is_label_valid(const std::u32string_view label) {
     if (c == 0x200c) {
       if (i > 0) {
         if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
+          continue;
         }
       }
       if ((i == 0) || (i + 1 >= label.size())) {
@@ -206,14 +206,15 @@ bool is_label_valid(const std::u32string_view label) {
       };
       std::u32string_view before = label.substr(0, i);
       std::u32string_view after = label.substr(i + 1);
-      return (std::find_if(before.begin(), before.end(), is_l_or_d) !=
-              before.end()) &&
-             (std::find_if(after.begin(), after.end(), is_r_or_d) !=
-              after.end());
+      if (std::find_if(before.begin(), before.end(), is_l_or_d) ==
+              before.end() ||
+          std::find_if(after.begin(), after.end(), is_r_or_d) == after.end()) {
+        return false;
+      }
     } else if (c == 0x200d) {
       if (i > 0) {
         if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
+          continue;
         }
       }
       return false;
-- 
2.43.0


From e32288cd6f34ac803a31a5dc3d56d8692ac894a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 3/5] fix: bound repeat counts in dynamic DEFLATE code lengths

A repeat code (16, 17, 18) running past hlit + hdist wrote beyond the end of
lens[320].
---
 src/raw_inflate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raw_inflate.hpp b/src/raw_inflate.hpp
index dd0435c..f7b38bb 100644
--- a/src/raw_inflate.hpp
+++ b/src/raw_inflate.hpp
@@ -210,18 +210,20 @@ inline size_t inflate_raw(const uint8_t* src, size_t src_len, uint8_t* dst,
             uint32_t rep = br.get(2);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
-            if (i == 0) return 0;
+            if (i == 0 || rep > n - i) return 0;
             uint8_t v = lens[i - 1];
             while (rep--) lens[i++] = v;
           } else if (sym == 17) {
             uint32_t rep = br.get(3);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else if (sym == 18) {
             uint32_t rep = br.get(7);
             if (rep == UINT32_MAX) return 0;
             rep += 11;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else
             return 0;
-- 
2.43.0


From 1ce9b09aeb7bfa591c6c3c82a5b47d578da9e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 4/5] fix: add the code points with combining class Virama
 assigned since Unicode 14 to the ContextJ table

---
 src/validity.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index bd99e11..c1721da 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -129,12 +129,13 @@ bool is_label_valid(const std::u32string_view label) {
   constexpr static uint32_t virama[] = {
       0x094D,  0x09CD,  0x0A4D,  0x0ACD,  0x0B4D,  0x0BCD,  0x0C4D,  0x0CCD,
       0x0D3B,  0x0D3C,  0x0D4D,  0x0DCA,  0x0E3A,  0x0EBA,  0x0F84,  0x1039,
-      0x103A,  0x1714,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,  0x1BAB,
-      0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,  0xA9C0,
-      0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x1107F, 0x110B9, 0x11133, 0x11134,
-      0x111C0, 0x11235, 0x112EA, 0x1134D, 0x11442, 0x114C2, 0x115BF, 0x1163F,
-      0x116B6, 0x1172B, 0x11839, 0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47,
-      0x11A99, 0x11C3F, 0x11D44, 0x11D45, 0x11D97};
+      0x103A,  0x1714,  0x1715,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,
+      0x1BAB,  0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,
+      0xA9C0,  0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x11070, 0x1107F, 0x110B9,
+      0x11133, 0x11134, 0x111C0, 0x11235, 0x112EA, 0x1134D, 0x11442, 0x114C2,
+      0x115BF, 0x1163F, 0x116B6, 0x1172B, 0x11839, 0x1193D, 0x1193E, 0x119E0,
+      0x11A34, 0x11A47, 0x11A99, 0x11C3F, 0x11D44, 0x11D45, 0x11D97, 0x11F41,
+      0x11F42};
   constexpr static uint32_t R[] = {
       0x622, 0x623, 0x624, 0x625, 0x627, 0x629, 0x62f, 0x630, 0x631,
       0x632, 0x648, 0x671, 0x672, 0x673, 0x675, 0x676, 0x677, 0x688,
-- 
2.43.0


From 4557d78797380bb8d5dbce0a1b06484927270e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:13 +0000
Subject: [PATCH 5/5] fix: punycode: a label starting with the delimiter is not
 valid

RFC 3492, section 6.2 consumes the delimiter only if at least one code
point precedes it. punycode_to_utf32 and verify_punycode accepted a
leading '-', so that "xn---tda" was an alias of "xn--tda".
---
 src/punycode.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/punycode.cpp b/src/punycode.cpp
index 60e6e25..1ade33f 100644
--- a/src/punycode.cpp
+++ b/src/punycode.cpp
@@ -45,7 +45,9 @@ bool punycode_to_utf32(std::string_view input, std::u32string &out) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
-  if (end_of_ascii != std::string_view::npos) {
+  // RFC 3492, section 6.2: the delimiter is consumed only if code points
+  // precede it. A leading '-' is not a digit and makes decoding fail below.
+  if (end_of_ascii != std::string_view::npos && end_of_ascii > 0) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
         return false;
@@ -114,7 +116,9 @@ bool verify_punycode(std::string_view input) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
-  if (end_of_ascii != std::string_view::npos) {
+  // RFC 3492, section 6.2: the delimiter is consumed only if code points
+  // precede it. A leading '-' is not a digit and makes decoding fail below.
+  if (end_of_ascii != std::string_view::npos && end_of_ascii > 0) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
         return false;
-- 
2.43.0

